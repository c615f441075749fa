//! Shared by the harnesses: TLC output, random numbers, panics, parallel replay.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// TLC prints a JSON document as a TLA+ string on a line of its own.
pub fn tlc_lines(path: &str) -> Vec<Value> {
  let f = std::fs::File::open(path).unwrap();
  let mut out = vec![];
  for line in std::io::BufReader::new(f).lines() {
    let line = line.unwrap();
    if line.starts_with("\"{") {
      let s: String = serde_json::from_str(&line).unwrap();
      out.push(serde_json::from_str(&s).unwrap());
    }
  }
  out
}

pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % n as u64) as usize
  }
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + (self.next() % ((hi - lo + 1) as u64)) as i64
  }
  pub fn chance(&mut self, pct: usize) -> bool {
    self.below(100) < pct
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
  e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

/// Runs code under test: Err(message) if it panics.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

/// Replays cases on 8 threads.  `one` returns (runs of the real code, complaints).
pub fn replay(cases: &[Value], out: &str, one: impl Fn(&Value) -> (u64, Vec<Value>) + Sync) {
  let next = AtomicUsize::new(0);
  let total = Mutex::new((0u64, 0u64, Vec::<Value>::new()));
  std::thread::scope(|s| {
    for _ in 0..8 {
      std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn_scoped(s, || loop {
          let k = next.fetch_add(1, Ordering::Relaxed);
          if k >= cases.len() {
            break;
          }
          let (runs, bad) = match guarded(|| one(&cases[k])) {
            Ok(x) => x,
            Err(e) => (1, vec![json!({"why": format!("the code under test panics: {}", e)})]),
          };
          let mut t = total.lock().unwrap();
          t.0 += runs;
          t.1 += bad.len() as u64;
          for mut b in bad {
            if t.2.len() < 60 {
              b["case"] = cases[k].clone();
              t.2.push(b);
            }
          }
        })
        .unwrap();
    }
  });
  let t = total.into_inner().unwrap();
  write_json(out, &json!({"cases": cases.len(), "runs": t.0, "mismatches": t.1, "bad": t.2}));
}

pub fn write_json(path: &str, v: &Value) {
  std::fs::write(path, serde_json::to_string(v).unwrap()).unwrap();
}

pub fn write_lines(path: &str, lines: &[Value]) {
  let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
  for l in lines {
    writeln!(f, "{}", l).unwrap();
  }
}

/// Runs a function on a thread with a deep stack and silences panic messages.
pub fn main_with(f: impl FnOnce() + Send + 'static) {
  std::panic::set_hook(Box::new(|_| {}));
  let r = std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join();
  if let Err(e) = r {
    eprintln!("harness error: {}", panic_text(e));
    std::process::exit(3);
  }
}
