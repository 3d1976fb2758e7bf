//! Hand-written deserializers. All start with their start tag not yet consumed and stop at some
//! point not later than their own end tag being next.
use crate::val::Val;
use serde_json::Value;
use std::io::Read;
use yaserde::__xml::reader::XmlEvent;
use yaserde::de::Deserializer;
use yaserde::YaDeserialize;

macro_rules! custom {
  ($($name:ident),*) => {$(
    #[derive(Debug, PartialEq, Clone)]
    pub struct $name(pub String);
    impl Val for $name {
      fn to_val(&self) -> Value { Value::from(self.0.clone()) }
      fn from_val(_: &Value) -> Result<Self, String> { Err("not constructible".into()) }
    }
  )*};
}
custom!(CuNone, CuStart, CuFirst, CuAll);

// Looks at its start tag only
impl YaDeserialize for CuNone {
  fn deserialize<R: Read>(reader: &mut Deserializer<R>) -> Result<Self, String> {
    match reader.peek()? {
      XmlEvent::StartElement { name, .. } => Ok(CuNone(name.local_name.clone())),
      e => Err(format!("unexpected {:?}", e)),
    }
  }
}

// Consumes its start tag, takes the attribute `k`
impl YaDeserialize for CuStart {
  fn deserialize<R: Read>(reader: &mut Deserializer<R>) -> Result<Self, String> {
    match reader.next_event()? {
      XmlEvent::StartElement { attributes, .. } => Ok(CuStart(
        attributes
          .iter()
          .find(|a| a.name.local_name == "k")
          .map(|a| a.value.clone())
          .unwrap_or_default(),
      )),
      e => Err(format!("unexpected {:?}", e)),
    }
  }
}

// Consumes its start tag and the first thing in it, be it a text or a start tag
impl YaDeserialize for CuFirst {
  fn deserialize<R: Read>(reader: &mut Deserializer<R>) -> Result<Self, String> {
    reader.next_event()?;
    if let XmlEvent::EndElement { .. } = reader.peek()? {
      return Ok(CuFirst("-".into()));
    }
    match reader.next_event()? {
      XmlEvent::StartElement { name, .. } => Ok(CuFirst(format!("<{}", name.local_name))),
      XmlEvent::Characters(s) => Ok(CuFirst(format!("={}", s))),
      e => Err(format!("unexpected {:?}", e)),
    }
  }
}

// Reads everything up to its own end tag, skipping every second child element
impl YaDeserialize for CuAll {
  fn deserialize<R: Read>(reader: &mut Deserializer<R>) -> Result<Self, String> {
    let own = reader.depth();
    reader.next_event()?;
    let mut s = String::new();
    loop {
      if let XmlEvent::EndElement { .. } = reader.peek()? {
        if reader.depth() == own + 1 {
          return Ok(CuAll(s));
        }
      }
      match reader.next_event()? {
        XmlEvent::StartElement { name, .. } => {
          s += "<";
          s += &name.local_name;
          if name.local_name == "x" {
            reader.skip_element(|_| {})?;
          }
        }
        XmlEvent::Characters(t) => {
          s += "=";
          s += &t;
        }
        XmlEvent::EndElement { .. } => s += ">",
        e => return Err(format!("unexpected {:?}", e)),
      }
    }
  }
}
