//! Conversion between Rust values and the specification's values (canonical strings and arrays).
use serde_json::Value;

pub trait Val: Sized {
  fn to_val(&self) -> Value;
  fn from_val(v: &Value) -> Result<Self, String>;
}

pub fn parse(s: &str) -> Value {
  serde_json::from_str(s).expect("HARNESS bad json")
}

pub fn at(v: &Value, i: usize) -> Result<&Value, String> {
  v.get(i).ok_or_else(|| format!("no item {} in {}", i, v))
}

macro_rules! scalar {
  ($($t:ty),*) => {$(
    impl Val for $t {
      fn to_val(&self) -> Value { Value::from(self.to_string()) }
      fn from_val(v: &Value) -> Result<Self, String> {
        v.as_str().ok_or("not a scalar".to_string())?.parse::<$t>().map_err(|e| e.to_string())
      }
    }
  )*};
}
scalar!(String, bool, i8, u8, i16, u16, i32, u32, i64, u64, f32, f64);

impl<T: Val> Val for Option<T> {
  fn to_val(&self) -> Value {
    Value::Array(self.iter().map(|x| x.to_val()).collect())
  }
  fn from_val(v: &Value) -> Result<Self, String> {
    match v.as_array().map(|a| a.len()) {
      Some(0) => Ok(None),
      Some(1) => Ok(Some(T::from_val(&v[0])?)),
      _ => Err("not an option".into()),
    }
  }
}

impl<T: Val> Val for Vec<T> {
  fn to_val(&self) -> Value {
    Value::Array(self.iter().map(|x| x.to_val()).collect())
  }
  fn from_val(v: &Value) -> Result<Self, String> {
    v.as_array().ok_or("not a list".to_string())?.iter().map(T::from_val).collect()
  }
}
