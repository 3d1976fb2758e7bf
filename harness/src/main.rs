//! Runs yaserde on jobs read from stdin (one JSON object per line) and reports what it observed.
mod custom;
mod cursor;
#[path = "gen/dispatch.rs"]
mod dispatch;
mod emit;
mod run;
#[path = "gen/types.rs"]
mod types;
mod val;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::mpsc;
use std::time::Duration;

/// Formats every message and throws it away.
struct Sink;
impl log::Log for Sink {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, r: &log::Record) {
    let _ = format!("{} {}", r.target(), r.args());
  }
  fn flush(&self) {}
}

fn main() {
  log::set_logger(&Sink).unwrap();
  std::panic::set_hook(Box::new(|_| {}));
  let (jtx, jrx) = mpsc::channel::<Value>();
  let (rtx, rrx) = mpsc::channel::<Value>();
  std::thread::Builder::new()
    .stack_size(512 << 20)
    .spawn(move || {
      while let Ok(job) = jrx.recv() {
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run::run(&job)));
        let res = match out {
          Ok(v) => v,
          Err(p) => {
            let msg = p
              .downcast_ref::<String>()
              .cloned()
              .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
              .unwrap_or_default();
            json!({"st": "panic", "e": msg})
          }
        };
        if rtx.send(res).is_err() {
          return;
        }
      }
    })
    .unwrap();
  let limit = std::env::var("JOB_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(20u64);
  let stdin = std::io::stdin();
  let stdout = std::io::stdout();
  let mut w = std::io::BufWriter::new(stdout.lock());
  for line in stdin.lock().lines() {
    let line = line.unwrap();
    if line.is_empty() {
      continue;
    }
    let job = val::parse(&line);
    let id = job["id"].clone();
    // so that the driver knows which job was running if the process dies
    if std::env::var_os("JOB_FLUSH").is_some() {
      w.flush().unwrap();
    }
    jtx.send(job).unwrap();
    match rrx.recv_timeout(Duration::from_secs(limit)) {
      Ok(mut r) => {
        r["id"] = id;
        writeln!(w, "{}", r).unwrap();
      }
      Err(_) => {
        writeln!(w, "{}", json!({"id": id, "st": "hang"})).unwrap();
        w.flush().unwrap();
        std::process::exit(3);
      }
    }
  }
  w.flush().unwrap();
  std::process::exit(0);
}
