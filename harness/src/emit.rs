//! Drives the serializer with a given sequence of calls and reports the outcome and the document.
use crate::dispatch;
use crate::run::{config, SerVisitor};
use crate::val::Val;
use serde_json::{json, Value};
use yaserde::__xml::writer::{EmitterConfig, EventWriter, XmlEvent};
use yaserde::ser::Serializer;
use yaserde::{YaDeserialize, YaSerialize};

struct One<'a>(&'a mut Serializer<Vec<u8>>, &'a Value);
impl SerVisitor for One<'_> {
  type Out = Result<(), String>;
  fn visit<T: YaSerialize + YaDeserialize + Val + PartialEq>(self) -> Self::Out {
    let v = T::from_val(self.1).unwrap_or_else(|e| panic!("HARNESS bad value: {}", e));
    v.serialize(self.0)
  }
}

macro_rules! scalars {
  ($s:expr, $t:expr, $v:expr; $($n:literal => $ty:ty),*) => {
    match $t { $($n => { let x: $ty = $v.as_str().unwrap().parse().unwrap(); Some(x.serialize($s)) })* _ => None }
  };
}

pub fn run(job: &Value) -> Value {
  let mut s = if job["own"] == true {
    // a writer the caller has set up
    Serializer::new(EventWriter::new_with_config(vec![], EmitterConfig::new().write_document_declaration(false).cdata_to_characters(false).normalize_empty_elements(false).autopad_comments(false)))
  } else if job["inner"] == true {
    Serializer::new_for_inner(vec![])
  } else { Serializer::new_from_writer(vec![], &config(job)) };
  let mut log = vec![];
  for op in job["ops"].as_array().unwrap() {
    let c = op["c"].as_str().unwrap();
    let ok = match c {
      "skip" => {
        s.set_skip_start_end(op["v"].as_bool().unwrap());
        true
      }
      "name" => {
        s.set_start_event_name(op["v"].as_array().and_then(|a| a.first()).map(|v| v.as_str().unwrap().to_string()));
        true
      }
      "start" => {
        let mut e = XmlEvent::start_element(op["n"].as_str().unwrap());
        for d in op["d"].as_array().unwrap() {
          e = e.ns(d[0].as_str().unwrap(), d[1].as_str().unwrap());
        }
        for a in op["a"].as_array().unwrap() {
          e = e.attr(a[0].as_str().unwrap(), a[1].as_str().unwrap());
        }
        s.write(e).is_ok()
      }
      "chars" => s.write(XmlEvent::characters(op["v"].as_str().unwrap())).is_ok(),
      "cdata" => s.write(XmlEvent::cdata(op["v"].as_str().unwrap())).is_ok(),
      "end" => s.write(XmlEvent::end_element()).is_ok(),
      "val" => {
        let t = op["T"].as_str().unwrap();
        let r = scalars!(&mut s, t, &op["v"]; "bool" => bool, "i8" => i8, "u8" => u8, "i16" => i16, "u16" => u16, "i32" => i32, "u32" => u32,
          "i64" => i64, "u64" => u64, "f32" => f32, "f64" => f64, "usize" => usize, "isize" => isize, "char" => char);
        r.unwrap_or_else(|| dispatch::ser(t, One(&mut s, &op["v"]))).is_ok()
      }
      o => panic!("HARNESS bad call {}", o),
    };
    let name: Vec<Value> = s.get_start_event_name().map(Value::from).into_iter().collect();
    log.push(json!({"ok": ok, "skip": s.skip_start_end(), "name": name}));
  }
  json!({"st": "ok", "log": log, "x": String::from_utf8_lossy(&s.into_inner())})
}
