//! The jobs: one entry per kind of observation.
use crate::dispatch;
use crate::val::Val;
use serde_json::{json, Value};
use std::io::{self, Read, Write};
use yaserde::ser::Config;
use yaserde::{YaDeserialize, YaSerialize};

pub trait DeVisitor {
  type Out;
  fn visit<T: YaDeserialize + Val>(self) -> Self::Out;
}
pub trait SerVisitor {
  type Out;
  fn visit<T: YaSerialize + YaDeserialize + Val + PartialEq>(self) -> Self::Out;
}

pub fn unhex(s: &str) -> Vec<u8> {
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
  b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// A reader delivering the bytes in the given chunk sizes, optionally interrupted, optionally failing.
pub struct Src {
  data: Vec<u8>,
  pos: usize,
  chunks: Vec<usize>,
  n: usize,
  interrupt: bool,
  flip: bool,
  fail_at: Option<usize>,
}
impl Read for Src {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    if self.interrupt {
      self.flip = !self.flip;
      if self.flip {
        return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
      }
    }
    let mut n = buf.len().min(self.data.len() - self.pos);
    if !self.chunks.is_empty() {
      n = n.min(self.chunks[self.n % self.chunks.len()].max(1));
      self.n += 1;
    }
    if let Some(f) = self.fail_at {
      if self.pos >= f {
        return Err(io::Error::new(io::ErrorKind::Other, "injected read failure"));
      }
      n = n.min(f - self.pos);
    }
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}
pub fn bytes_of(job: &Value) -> Vec<u8> {
  match job["xb"].as_str() {
    Some(h) => unhex(h),
    None => job["x"].as_str().expect("HARNESS no document").as_bytes().to_vec(),
  }
}
pub fn src(job: &Value) -> Src {
  Src {
    data: bytes_of(job),
    pos: 0,
    chunks: job["chunks"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default(),
    n: 0,
    interrupt: job["intr"].as_bool().unwrap_or(false),
    flip: false,
    fail_at: job["fail"].as_u64().map(|x| x as usize),
  }
}

/// A writer accepting a limited number of bytes, in chunks, optionally interrupted.
#[derive(Default)]
pub struct Dst {
  pub data: std::rc::Rc<std::cell::RefCell<Vec<u8>>>,
  limit: Option<usize>,
  chunk: Option<usize>,
  interrupt: bool,
  flip: bool,
  zero: bool,
  flushfail: bool,
}
impl Write for Dst {
  fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
    if self.interrupt {
      self.flip = !self.flip;
      if self.flip {
        return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
      }
    }
    let mut n = buf.len();
    if let Some(c) = self.chunk {
      n = n.min(c.max(1));
    }
    let mut d = self.data.borrow_mut();
    if let Some(l) = self.limit {
      if d.len() >= l && !buf.is_empty() {
        if self.zero {
          return Ok(0);
        }
        return Err(io::Error::new(io::ErrorKind::Other, "injected write failure"));
      }
      n = n.min(l - d.len());
    }
    d.extend_from_slice(&buf[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> io::Result<()> {
    if self.flushfail {
      return Err(io::Error::new(io::ErrorKind::Other, "injected flush failure"));
    }
    Ok(())
  }
}
pub fn dst(job: &Value) -> Dst {
  Dst {
    limit: job["limit"].as_u64().map(|x| x as usize),
    chunk: job["chunk"].as_u64().map(|x| x as usize),
    interrupt: job["intr"].as_bool().unwrap_or(false),
    zero: job["zero"].as_bool().unwrap_or(false),
    ..Default::default()
  }
}
/// A writer whose answers from the call `at` on follow a pattern; it notes every call (runs of full acceptance as one).
pub struct Scripted {
  log: std::rc::Rc<std::cell::RefCell<Vec<(Vec<u8>, &'static str, usize)>>>,
  at: usize,
  pat: Vec<String>,
  n: usize,
}
impl Write for Scripted {
  fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
    let k = self.n;
    self.n += 1;
    let what = if k >= self.at && k - self.at < self.pat.len() { self.pat[k - self.at].as_str() } else { "all" };
    let mut log = self.log.borrow_mut();
    match what {
      "all" => {
        match log.last_mut() {
          Some((b, "all", n)) => {
            b.extend_from_slice(buf);
            *n += buf.len();
          }
          _ => log.push((buf.to_vec(), "all", buf.len())),
        }
        Ok(buf.len())
      }
      "one" => {
        let n = buf.len().min(1);
        log.push((buf.to_vec(), "some", n));
        Ok(n)
      }
      "half" => {
        let n = (buf.len() + 1) / 2;
        log.push((buf.to_vec(), "some", n));
        Ok(n)
      }
      "intr" => {
        log.push((buf.to_vec(), "intr", 0));
        Err(io::Error::new(io::ErrorKind::Interrupted, "again"))
      }
      "zero" => {
        log.push((buf.to_vec(), if buf.is_empty() { "all" } else { "zero" }, 0));
        Ok(0)
      }
      "err" => {
        log.push((buf.to_vec(), "err", 0));
        Err(io::Error::new(io::ErrorKind::Other, "injected write failure"))
      }
      w => panic!("HARNESS bad answer {}", w),
    }
  }
  fn flush(&mut self) -> io::Result<()> {
    Ok(())
  }
}
/// One character per byte.
fn latin(b: &[u8]) -> String {
  b.iter().map(|x| *x as char).collect()
}
fn scripted<T: YaSerialize>(v: &T, job: &Value, at: usize, pat: &[String]) -> (Value, usize) {
  use yaserde::ser::*;
  let log = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
  let w = Scripted { log: log.clone(), at, pat: pat.to_vec(), n: 0 };
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if job["m"] == "wcontent" { serialize_with_writer_content(v, w) } else { serialize_with_writer(v, w, &config(job)) }));
  let (st, n) = match &r {
    Ok(Ok(w)) => ("ok", w.n),
    Ok(Err(_)) => ("err", 0),
    Err(_) => ("panic", 0),
  };
  let calls: Vec<Value> = log.borrow().iter().map(|(b, w, n)| json!({"off": latin(b), "r": w, "n": n})).collect();
  (json!({"st": st, "calls": calls}), n)
}
pub fn config(job: &Value) -> Config {
  let c = &job["cfg"];
  let d = Config::default();
  Config {
    perform_indent: c["indent"].as_bool().unwrap_or(d.perform_indent),
    write_document_declaration: c["decl"].as_bool().unwrap_or(d.write_document_declaration),
    indent_string: c["istr"].as_str().map(|s| s.to_string()),
  }
}

pub fn res<T: Val>(r: Result<T, String>) -> Value {
  match r {
    Ok(v) => json!({"st": "ok", "v": v.to_val()}),
    Err(e) => json!({"st": "err", "e": e}),
  }
}
fn sres(r: Result<String, String>) -> Value {
  match r {
    Ok(v) => json!({"st": "ok", "x": v}),
    Err(e) => json!({"st": "err", "e": e}),
  }
}

struct De<'a>(&'a Value);
impl DeVisitor for De<'_> {
  type Out = Value;
  fn visit<T: YaDeserialize + Val>(self) -> Value {
    let job = self.0;
    if job["m"].as_str() == Some("reader") {
      res::<T>(yaserde::de::from_reader(src(job)))
    } else {
      match String::from_utf8(bytes_of(job)) {
        Ok(s) => res::<T>(yaserde::de::from_str(&s)),
        Err(_) => res::<T>(yaserde::de::from_reader(src(job))),
      }
    }
  }
}

fn utf8(v: Vec<u8>) -> Result<String, String> {
  String::from_utf8(v).map_err(|_| "NOT UTF-8".to_string())
}

fn ser_once<T: YaSerialize>(v: &T, job: &Value) -> Value {
  use yaserde::ser::*;
  match job["m"].as_str().unwrap_or("string") {
    "string" => sres(to_string(v)),
    "config" => sres(to_string_with_config(v, &config(job))),
    "content" => sres(to_string_content(v)),
    "writer" | "wcontent" => {
      let d = dst(job);
      let sink = d.data.clone();
      let r = if job["m"] == "writer" { serialize_with_writer(v, d, &config(job)) } else { serialize_with_writer_content(v, d) };
      let same = r.as_ref().map(|w| std::rc::Rc::ptr_eq(&w.data, &sink)).unwrap_or(true);
      let st = match (&r, same) {
        (Ok(_), true) => "ok",
        (Ok(_), false) => "WRONG WRITER",
        (Err(_), _) => "err",
      };
      drop(r);
      let got = utf8(sink.borrow().clone());
      json!({"st": st, "x": match got { Ok(s) => s, Err(_) => format!("hex:{}", hex(&sink.borrow())) }})
    }
    m => panic!("HARNESS bad mode {}", m),
  }
}

struct Ser<'a>(&'a Value);
impl SerVisitor for Ser<'_> {
  type Out = Value;
  fn visit<T: YaSerialize + YaDeserialize + Val + PartialEq>(self) -> Value {
    let job = self.0;
    let make = || T::from_val(&job["v"]).unwrap_or_else(|e| panic!("HARNESS bad value for {}: {}", job["T"], e));
    match job["op"].as_str().unwrap() {
      "ser" => ser_once(&make(), job),
      // every failure point of one document
      "wfail" => {
        let v = make();
        let mut out = vec![];
        let full = ser_once(&v, job);
        for l in job["limits"].as_array().unwrap() {
          let mut j = job.clone();
          j["limit"] = l.clone();
          out.push(match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ser_once(&v, &j))) {
            Ok(r) => r,
            Err(_) => json!({"st": "panic"}),
          });
        }
        json!({"st": "ok", "full": full, "r": out})
      }
      // faults at the call boundaries of one document
      "wscript" => {
        let v = make();
        let (full, n) = scripted(&v, job, usize::MAX, &[]);
        let mut out = vec![];
        for f in job["faults"].as_array().unwrap() {
          let pat: Vec<String> = f["pat"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
          let from = if f["at"].is_u64() { f["at"].as_u64().unwrap() as usize..f["at"].as_u64().unwrap() as usize + 1 } else { 0..n };
          for at in from.step_by(f["step"].as_u64().unwrap_or(1).max(1) as usize) {
            let (mut r, _) = scripted(&v, job, at, &pat);
            r["at"] = Value::from(at);
            r["pat"] = f["pat"].clone();
            out.push(r);
          }
        }
        json!({"st": "ok", "full": full, "n": n, "r": out})
      }
      // value -> document -> value
      "rt" => {
        let v = make();
        let s = ser_once(&v, job);
        if s["st"] != "ok" {
          return json!({"st": "sererr", "e": s["e"]});
        }
        let x = s["x"].as_str().unwrap().to_string();
        match yaserde::de::from_str::<T>(&x) {
          Ok(v2) => json!({"st": "ok", "x": x, "v": v2.to_val(), "eq": v2 == v}),
          Err(e) => json!({"st": "err", "x": x, "e": e}),
        }
      }
      // document -> value -> document -> value -> document
      "norm" => match yaserde::de::from_str::<T>(job["x"].as_str().unwrap()) {
        Err(e) => json!({"st": "err", "e": e}),
        Ok(v1) => {
          let s1 = ser_once(&v1, job);
          if s1["st"] != "ok" {
            return json!({"st": "sererr", "v": v1.to_val()});
          }
          let x1 = s1["x"].as_str().unwrap().to_string();
          match yaserde::de::from_str::<T>(&x1) {
            Err(e) => json!({"st": "deerr", "v": v1.to_val(), "x": x1, "e": e}),
            Ok(v2) => {
              let s2 = ser_once(&v2, job);
              json!({"st": "ok", "v": v1.to_val(), "x": x1, "v2": v2.to_val(), "x2": s2["x"], "st2": s2["st"]})
            }
          }
        }
      },
      o => panic!("HARNESS bad op {}", o),
    }
  }
}

/// What the parser alone makes of the input: tokens, in the vocabulary of the specification.
fn events(job: &Value) -> Value {
  use yaserde::__xml::reader::{EventReader, ParserConfig, XmlEvent};
  let mut out: Vec<Value> = vec![];
  let data = bytes_of(job);
  for e in EventReader::new_with_config(&data[..], ParserConfig::new().ignore_comments(false)) {
    out.push(match e {
      Ok(XmlEvent::StartElement { name, attributes, .. }) => {
        let mut d = vec![json!(["", name.namespace.clone().unwrap_or_default()])];
        let mut a = vec![];
        for (i, x) in attributes.iter().enumerate() {
          let mut p = String::new();
          if let Some(u) = x.name.namespace.as_ref().filter(|u| !u.is_empty()) {
            p = format!("a{}", i);
            d.push(json!([p, u]));
          }
          a.push(json!([p, x.name.local_name, x.value]));
        }
        json!({"k": "s", "p": "", "n": name.local_name, "d": d, "a": a})
      }
      Ok(XmlEvent::EndElement { .. }) => json!({"k": "e"}),
      Ok(XmlEvent::Characters(s)) | Ok(XmlEvent::CData(s)) | Ok(XmlEvent::Whitespace(s)) => json!({"k": "t", "t": s}),
      Ok(XmlEvent::Comment(_)) => json!({"k": "c"}),
      Ok(XmlEvent::ProcessingInstruction { .. }) => json!({"k": "p"}),
      Ok(XmlEvent::StartDocument { .. }) => continue,
      Ok(XmlEvent::EndDocument) => break,
      Ok(_) => continue,
      Err(_) => {
        out.push(json!({"k": "x"}));
        break;
      }
    });
  }
  json!({"st": "ok", "toks": out})
}

pub fn run(job: &Value) -> Value {
  // on a stack of the given size (MiB)
  if let Some(n) = job["stack"].as_u64() {
    let mut j = job.clone();
    j.as_object_mut().unwrap().remove("stack");
    return match std::thread::Builder::new().stack_size((n as usize) << 20).spawn(move || run(&j)).unwrap().join() {
      Ok(r) => r,
      Err(_) => json!({"st": "panic", "e": "in a thread of its own"}),
    };
  }
  // with the caller listening to the log or not
  log::set_max_level(if job["log"] == true { log::LevelFilter::Trace } else { log::LevelFilter::Off });
  let t = job["T"].as_str().unwrap_or("");
  match job["op"].as_str().unwrap_or("") {
    "de" => dispatch::de(t, De(job)),
    // every cut of one document
    "cuts" => {
      let full = bytes_of(job);
      let out: Vec<Value> = job["cuts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| {
          let c = c.as_u64().unwrap() as usize;
          let mut j = json!({"op": "de", "T": t, "m": "reader", "xb": hex(&full[..c.min(full.len())])});
          if job["how"] == "fail" {
            j["xb"] = Value::from(hex(&full));
            j["fail"] = Value::from(c);
          }
          match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch::de(t, De(&j)))) {
            Ok(r) => r,
            Err(_) => json!({"st": "panic"}),
          }
        })
        .collect();
      json!({"st": "ok", "r": out})
    }
    "events" => events(job),
    "cursor" => crate::cursor::run(job),
    "emit" => crate::emit::run(job),
    _ => dispatch::ser(t, Ser(job)),
  }
}
