//! Drives the deserializer cursor with a given sequence of calls and reports each outcome.
use crate::dispatch;
use crate::run::{src, DeVisitor, Src};
use crate::val::Val;
use serde_json::{json, Value};
use yaserde::__xml::name::OwnedName;
use yaserde::__xml::reader::{EventReader, ParserConfig, XmlEvent};
use yaserde::de::Deserializer;
use yaserde::YaDeserialize;

/// A type in the middle of a document, as a hand-written parent reads it: the type, then what it left of its element.
struct Mid<'a>(&'a mut Deserializer<Src>, bool);
impl DeVisitor for Mid<'_> {
  type Out = Result<Value, String>;
  fn visit<T: YaDeserialize + Val>(self) -> Self::Out {
    let d = self.0;
    let depth = d.depth();
    let v = T::deserialize(d)?;
    if self.1 && d.depth() == depth {
      d.next_event()?;
    }
    while d.depth() > depth {
      d.next_event()?;
    }
    Ok(v.to_val())
  }
}

fn ev(e: &XmlEvent) -> Value {
  match e {
    XmlEvent::StartElement { name, attributes, .. } => json!({"k": "s", "n": name.local_name, "ns": name.namespace.clone().unwrap_or_default(),
      "a": attributes.iter().map(|a| json!([a.name.namespace.clone().unwrap_or_default(), a.name.local_name, a.value])).collect::<Vec<_>>()}),
    XmlEvent::EndElement { name } => json!({"k": "e", "n": name.local_name, "ns": name.namespace.clone().unwrap_or_default()}),
    XmlEvent::Characters(s) => json!({"k": "t", "t": s}),
    XmlEvent::Whitespace(s) => json!({"k": "w", "t": s}),
    XmlEvent::EndDocument => json!({"k": "d"}),
    o => json!({"k": "o", "t": format!("{:?}", o)}),
  }
}

fn evres(r: Result<Value, String>) -> Value {
  r.unwrap_or_else(|_| json!({"k": "x"}))
}

/// What a body ends with when a type refused its element.
const STOP: &str = "\u{1}stop";

fn step(d: &mut Deserializer<Src>, op: &Value, log: &mut Vec<Value>) -> Result<(), String> {
  let name = op["c"].as_str().unwrap();
  let mut out = json!({"c": name});
  let mut result = Ok(());
  match name {
    "peek" => {
      let r = d.peek().map(ev);
      out["r"] = evres(r);
    }
    "next" => {
      let r = d.next_event().map(|e| ev(&e));
      out["r"] = evres(r);
    }
    "inner" => {
      let r = d.inner_next().map(|e| ev(&e));
      out["r"] = evres(r);
    }
    "skip" => {
      let mut seen = vec![];
      let r = d.skip_element(|e| seen.push(ev(e)));
      out["r"] = json!({"k": if r.is_ok() { "ok" } else { "x" }});
      out["seen"] = Value::Array(seen);
    }
    "expect" => {
      let n = OwnedName { local_name: op["n"].as_str().unwrap().into(), namespace: op["ns"].as_str().filter(|s| !s.is_empty()).map(|s| s.to_string()), prefix: op["p"].as_str().filter(|s| !s.is_empty()).map(|s| s.to_string()) };
      let r = d.expect_end_element(&n);
      out["r"] = json!({"k": if r.is_ok() { "ok" } else { "x" }});
      out["n"] = op["n"].clone();
      out["ns"] = op["ns"].clone();
    }
    "de" => {
      let t = op["T"].as_str().unwrap();
      match dispatch::de(t, Mid(d, op["lazy"] == true)) {
        Ok(v) => out["r"] = json!({"k": "v", "v": v}),
        Err(_) => {
          log.push(json!({"c": "de", "r": {"k": "no"}}));
          return Err(STOP.to_string());
        }
      }
    }
    // read_inner_value with a body made of calls; `ret` says what the body returns
    "read" => {
      let mut sub = vec![];
      let mut called = false;
      let mut body_depth = 0;
      let r = d.read_inner_value::<(), _>(|d| {
        called = true;
        body_depth = d.depth();
        for o in op["b"].as_array().unwrap() {
          step(d, o, &mut sub)?;
        }
        if op["ret"] == "err" { Err("body".to_string()) } else { Ok(()) }
      });
      out["r"] = json!({"k": if r.is_ok() { "ok" } else { "x" }});
      if r.as_ref().err().map(|e| e == STOP).unwrap_or(false) {
        log.push(json!({"c": "read", "r": {"k": "no"}}));
        return Err(STOP.to_string());
      }
      out["called"] = Value::from(called);
      out["bd"] = Value::from(body_depth);
      out["b"] = Value::Array(sub);
      out["ret"] = op["ret"].clone();
    }
    o => panic!("HARNESS bad call {}", o),
  }
  out["d"] = Value::from(d.depth());
  if op["must"] == true && out["r"]["k"] == "x" {
    result = Err("must".to_string());
  }
  log.push(out);
  result
}

pub fn run(job: &Value) -> Value {
  let mut d = if job["own"] == "raw" {
    // a parser left as it is, but for CDATA sections
    Deserializer::new(EventReader::new_with_config(src(job), ParserConfig::new().cdata_to_characters(true)))
  } else if job["own"] == true {
    // a parser the caller has set up: like the default one, but it reports comments
    let config = ParserConfig::new().trim_whitespace(true).whitespace_to_characters(true).cdata_to_characters(true).ignore_comments(false).coalesce_characters(true);
    Deserializer::new(EventReader::new_with_config(src(job), config))
  } else {
    Deserializer::new_from_reader(src(job))
  };
  let mut log = vec![];
  for op in job["ops"].as_array().unwrap() {
    let mut entry = vec![];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&mut d, op, &mut entry)));
    if let Err(p) = &r {
      if p.downcast_ref::<String>().map(|s| s.starts_with("HARNESS")).unwrap_or(false) {
        panic!("HARNESS bad call");
      }
    }
    match r {
      Err(_) => {
        log.push(json!({"c": op["c"], "r": {"k": "panic"}}));
        break;
      }
      Ok(r) => {
        log.append(&mut entry);
        if r.is_err() {
          break;
        }
      }
    }
  }
  json!({"st": "ok", "log": log})
}
