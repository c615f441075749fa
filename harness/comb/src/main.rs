//! Conformance harness for parser/: replays behaviours of the specification on the real library
//! and records traces of the real library for the trace specification.
mod grammar;
mod values;
use grammar::*;
use oni_comb_parser_rs::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

struct Quiet;
impl log::Log for Quiet {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, r: &log::Record) {
    std::hint::black_box(format!("{}", r.args()));
  }
  fn flush(&self) {}
}

struct Case {
  g: usize,
  w: Vec<u32>,
  i: usize,
  r: Value,
}

/// TLC prints a JSON document as a TLA+ string on a line of its own.
fn tlc_lines(path: &str) -> Vec<Value> {
  let f = std::fs::File::open(path).unwrap();
  let mut out = vec![];
  for line in std::io::BufReader::new(f).lines() {
    let line = line.unwrap();
    if line.starts_with("\"{") {
      let s: String = serde_json::from_str(&line).unwrap();
      out.push(serde_json::from_str(&s).unwrap());
    }
  }
  out
}

fn nums(v: &Value) -> Vec<u32> {
  v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default()
}

type Buf<I> = &'static [I];
struct Pool<I: El>(HashMap<Vec<u32>, Buf<I>>);
impl<I: El> Pool<I> {
  fn get(&mut self, w: &[u32]) -> Buf<I> {
    if !self.0.contains_key(w) {
      let v: Vec<I> = w.iter().map(|x| I::of_code(*x)).collect();
      self.0.insert(w.to_vec(), Box::leak(v.into_boxed_slice()));
    }
    self.0[w]
  }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
  e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

fn near(a: Option<usize>, b: u64) -> bool {
  match a {
    None => true,
    Some(a) => (a as i64 - b as i64).abs() <= 1,
  }
}

fn differs(want: &Value, got: &Obs, w_len: usize, errors: bool) -> Option<String> {
  let ok = want["ok"].as_bool().unwrap();
  if ok != got.ok {
    return Some(format!("expected {}, got {}", if ok { "success" } else { "failure" }, if got.ok { "success" } else { "failure" }));
  }
  if ok {
    if want["v"].as_str().unwrap() != got.v {
      return Some(format!("expected value {}, got {}", want["v"], got.v));
    }
    if want["n"].as_u64().unwrap() as usize != got.n {
      return Some(format!("expected length {}, got {}", want["n"], got.n));
    }
  } else {
    if want["c"].as_bool().unwrap() != got.c {
      return Some(format!("expected committed={}, got {}", want["c"], got.c));
    }
    if errors {
      let e = want["e"].as_str().unwrap();
      let at_end = want["d"].as_u64().unwrap() as usize >= w_len;
      // at the end of the input "mismatch" and "incomplete" both say what happened
      let norm = |s: &str| if at_end { s.replace("incomplete", "mismatch") } else { s.to_string() };
      if norm(e) != norm(&got.e) {
        return Some(format!("expected error {}, got {}", e, got.e));
      }
      if !near(got.o, want["o"].as_u64().unwrap()) {
        return Some(format!("expected error near offset {}, got {:?}", want["o"], got.o));
      }
      if !near(got.d, want["d"].as_u64().unwrap()) {
        return Some(format!("expected root cause near offset {}, got {:?}", want["d"], got.d));
      }
    }
  }
  None
}

struct Tally {
  runs: u64,
  bad: Vec<Value>,
  bad_count: u64,
}

const STYLES: u32 = 4;

fn replay_one<I: El>(g: &G, cases: &[&Case], errors: bool, tally: &mut Tally, styles: u32) {
  let ty = if I::CHARS { "char" } else { "u8" };
  if (I::CHARS && !g.for_chars()) || (!I::CHARS && !g.for_bytes()) {
    return;
  }
  let mut pool = Pool::<I>(HashMap::new());
  for style in 0..styles {
    let built = catch_unwind(AssertUnwindSafe(|| build::<I>(g, style, false, 0)));
    let p = match built {
      Ok(p) => p,
      Err(e) => {
        tally.bad_count += 1;
        tally.bad.push(json!({"why": format!("building the parser panics: {}", panic_text(e)), "g": g.json(), "type": ty, "style": style, "w": [], "i": 0}));
        continue;
      }
    };
    for c in cases {
      if !I::CHARS && c.w.iter().any(|x| *x > 255) {
        continue;
      }
      let w = pool.get(&c.w);
      TICKS.with(|t| t.set(0));
      tally.runs += 1;
      let out = catch_unwind(AssertUnwindSafe(|| {
        let r = if c.i == 0 && style == 1 { p.parse(w) } else { p.run(&ParseState::new(w, c.i)) };
        let o = observe(&r);
        let complaint = match (&r, errors) {
          (ParseResult::Failure { error, .. }, true) => inspect(error, w),
          _ => None,
        };
        // the result as a Result says the same, with the same error
        let as_result = if c.i == 0 {
          let r = if style == 3 { ParserParsers::parse(&p, w) } else { p.parse_as_result(w) };
          Some(match r {
            Ok(v) => observe(&ParseResult::<I, String>::successful(v, o.n)),
            Err(e) => observe(&ParseResult::failed(e, o.c.into())),
          })
        } else {
          None
        };
        let probe = (r.is_success(), r.is_failure(), r.committed_status().map(|c| c.is_committed()));
        let value = r.success();
        (o, complaint, as_result, probe, value)
      }));
      let why = match out {
        Err(e) => Some((format!("panics: {}", panic_text(e)), Value::Null)),
        Ok((o, complaint, as_result, probe, value)) => {
          let consistent = probe == (o.ok, !o.ok, if o.ok { None } else { Some(o.c) })
            && as_result.map_or(true, |r| (r.ok, &r.v, &r.e, r.o, r.d) == (o.ok, &o.v, &o.e, o.o, o.d))
            && value == if o.ok { Some(o.v.clone()) } else { None };
          differs(&c.r, &o, c.w.len(), errors)
            .or(complaint)
            .or(if consistent { None } else { Some("the accessors of the result contradict it".to_string()) })
            .map(|y| (y, o.json()))
        }
      };
      if let Some((why, got)) = why {
        tally.bad_count += 1;
        if tally.bad.len() < 20 {
          tally.bad.push(json!({"why": why, "g": g.json(), "type": ty, "style": style, "w": c.w, "i": c.i, "expected": c.r, "got": got}));
        }
      }
    }
  }
}

fn replay_char(g: &G, cs: &[&Case], errors: bool, t: &mut Tally, styles: u32) {
  replay_one::<char>(g, cs, errors, t, styles)
}

fn par<T: Send, F: Fn(usize) -> T + Sync>(n: usize, f: F) -> Vec<T> {
  let next = Mutex::new(0usize);
  let out: Mutex<Vec<(usize, T)>> = Mutex::new(vec![]);
  std::thread::scope(|s| {
    for _ in 0..8 {
      std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn_scoped(s, || loop {
          let i = {
            let mut g = next.lock().unwrap();
            let i = *g;
            *g += 1;
            i
          };
          if i >= n {
            break;
          }
          let r = f(i);
          out.lock().unwrap().push((i, r));
        })
        .unwrap();
    }
  });
  let mut v = out.into_inner().unwrap();
  v.sort_by_key(|x| x.0);
  v.into_iter().map(|x| x.1).collect()
}

fn grammars(path: &str) -> Vec<G> {
  let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
  v.as_array().unwrap().iter().map(G::from).collect()
}

fn write_json(path: &str, v: &Value) {
  std::fs::write(path, serde_json::to_string_pretty(v).unwrap()).unwrap();
}

/// replay GRAMMARS CASES OUT errors|plain
fn replay(a: &[String]) {
  let gs = grammars(&a[0]);
  let errors = a[3] == "errors";
  let mut by: Vec<Vec<Case>> = gs.iter().map(|_| vec![]).collect();
  let mut n = 0u64;
  for v in tlc_lines(&a[1]) {
    let g = v["g"].as_u64().unwrap() as usize;
    by[g].push(Case { g, w: nums(&v["w"]), i: v["i"].as_u64().unwrap() as usize, r: v["r"].clone() });
    n += 1;
  }
  let tallies = par(gs.len(), |k| {
    let cs: Vec<&Case> = by[k].iter().collect();
    let mut t = Tally { runs: 0, bad: vec![], bad_count: 0 };
    replay_char(&gs[k], &cs, errors, &mut t, STYLES);
    replay_one::<u8>(&gs[k], &cs, errors, &mut t, STYLES);
    debug_assert!(cs.iter().all(|c| c.g == k));
    t
  });
  let runs: u64 = tallies.iter().map(|t| t.runs).sum();
  let bad_count: u64 = tallies.iter().map(|t| t.bad_count).sum();
  let mut bad: Vec<Value> = tallies.into_iter().flat_map(|t| t.bad).collect();
  bad.sort_by_key(|b| b.to_string().len());
  bad.truncate(20);
  write_json(&a[2], &json!({"cases": n, "grammars": gs.len(), "runs": runs, "mismatches": bad_count, "bad": bad}));
}

// ---------------------------------------------------------------------------------------------

pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Rng {
    Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
  }
  pub fn next(&mut self) -> u64 {
    self.0 ^= self.0 << 13;
    self.0 ^= self.0 >> 7;
    self.0 ^= self.0 << 17;
    self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
  }
  pub fn below(&mut self, n: u64) -> u64 {
    self.next() % n
  }
  pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
    &xs[self.below(xs.len() as u64) as usize]
  }
}

fn node(k: &str, s: &str, n: i64, m: i64, q: &[u32], c: Vec<G>) -> G {
  G { k: k.into(), s: s.into(), n, m, q: q.to_vec(), c }
}

const ALPHABET: [u32; 4] = [97, 98, 43, 48];

fn random_leaf(r: &mut Rng, consuming: bool) -> G {
  let a = *r.pick(&ALPHABET);
  let b = *r.pick(&ALPHABET);
  match r.below(if consuming { 8 } else { 23 }) {
    0 | 1 | 2 => node("elm", "", a as i64, 0, &[], vec![]),
    3 => node("any", "", 0, 0, &[], vec![]),
    4 => node("seq", "", 0, 0, &[a, b], vec![]),
    5 => node("of", "", 0, 0, &[a, b], vec![]),
    6 => node("noneof", "", 0, 0, &[a], vec![]),
    7 => node("cls", *r.pick(&["alpha", "digit", "alphadigit"]), 0, 0, &[], vec![]),
    8 => node("succ", "1", 0, 0, &[], vec![]),
    9 => node("fail", "custom", 0, 0, &[], vec![]),
    10 => node("fail", "custom", 1, 0, &[], vec![]),
    11 => node("end", "", 0, 0, &[], vec![]),
    12 => node("take", "", r.below(4) as i64, 0, &[], vec![]),
    13 => node("skip", "", r.below(4) as i64, 0, &[], vec![]),
    14 => node(*r.pick(&["while0", "while1"]), "", 0, 0, &[a, b], vec![]),
    15 => node(*r.pick(&["till0", "till1"]), "", 0, 0, &[a], vec![]),
    16 => node("whilenm", "", r.below(3) as i64, 1 + r.below(3) as i64, &[a, b], vec![]),
    17 => node("in", "", 97, 98, &[], vec![]),
    18 => node("unit", "", 0, 0, &[], vec![]),
    19 | 20 => {
      let n = 1 + r.below(4);
      let q: Vec<u32> = (0..n).map(|_| *r.pick(&ALPHABET)).collect();
      node(*r.pick(&["tag", "tagnc", "seq"]), "", 0, 0, &q, vec![])
    }
    21 => node("until", "", 97, 98, &[], vec![]),
    _ => node("seq", "", 0, 0, &[a, b, a], vec![]),
  }
}

fn random_grammar(r: &mut Rng, size: u64) -> G {
  if size <= 1 {
    return random_leaf(r, false);
  }
  let v = *r.pick(&["97", "98", "[97,98]", "1", "()", "N", "true"]);
  match r.below(26) {
    0..=6 => {
      let k = *r.pick(&["map", "discard", "collect", "last", "next", "attempt", "opt", "not", "peek", "exists", "name", "log", "cache", "lazy", "clone"]);
      node(k, "", 0, 0, &[], vec![random_grammar(r, size - 1)])
    }
    7 => {
      let k = *r.pick(&["filter", "filternot", "mapres"]);
      node(k, v, 0, 0, &[], vec![random_grammar(r, size - 1)])
    }
    8..=12 => {
      let k = *r.pick(&["and", "skipl", "skipr"]);
      let x = 1 + r.below(size - 1);
      node(k, "", 0, 0, &[], vec![random_grammar(r, x), random_grammar(r, size - x)])
    }
    13..=16 => {
      let x = 1 + r.below(size - 1);
      node("or", "", 0, 0, &[], vec![random_grammar(r, x), random_grammar(r, size - x)])
    }
    17 => node("surround", "", 0, 0, &[], vec![random_leaf(r, false), random_grammar(r, size - 1), random_leaf(r, false)]),
    18 | 19 => {
      let x = 1 + r.below(size - 1);
      node("bind", v, 0, 0, &[], vec![random_grammar(r, x), random_grammar(r, size - x), random_leaf(r, false)])
    }
    20..=23 => {
      let lo = r.below(3) as i64;
      let hi = lo + r.below(3) as i64;
      let (form, n, m) = match r.below(8) {
        0 => ("many0", 0, -1),
        1 => ("many1", 1, -1),
        2 => ("from", lo, -1),
        3 => ("nm", lo, hi),
        4 => ("count", lo, lo),
        5 => ("excl", lo, hi),
        6 => ("to", 0, hi),
        _ => ("full", 0, -1),
      };
      let mut c = vec![random_grammar(r, size - 1)];
      if r.below(2) == 0 {
        c.push(random_leaf(r, r.0 % 2 == 0));
      }
      node("rep", form, n, m, &[], c)
    }
    _ => {
      let k = *r.pick(&["chainl1", "chainr1", "chainl0", "chainr0", "restl1", "restr1", "scanr1"]);
      node(k, "d", 0, 0, &[], vec![random_grammar(r, size - 1), random_leaf(r, true)])
    }
  }
}

/// One parser, run on each of the inputs in turn.
fn record<I: El>(g: &G, style: u32, ws: &[Vec<u32>], i: usize) -> Vec<Result<Vec<Value>, String>> {
  let p = match catch_unwind(AssertUnwindSafe(|| build::<I>(g, style, true, 0))) {
    Ok(p) => p,
    Err(e) => return vec![Err(panic_text(e))],
  };
  let one = |w: &Vec<u32>| {
    let v: Vec<I> = w.iter().map(|x| I::of_code(*x)).collect();
    let v: &'static [I] = Box::leak(v.into_boxed_slice());
    TICKS.with(|t| t.set(0));
    TRACE.with(|t| *t.borrow_mut() = Some(vec![]));
    let r = catch_unwind(AssertUnwindSafe(|| {
      p.run(&ParseState::new(v, i));
    }));
    let ev = TRACE.with(|t| t.borrow_mut().take()).unwrap();
    r.map(|_| ev).map_err(panic_text)
  };
  ws.iter().map(one).collect()
}

/// trace SEED COUNT SIZE ROOTS OUT SUMMARY: random grammars whose root kind is in ROOTS ("*": any)
fn trace(a: &[String]) {
  let seed: u64 = a[0].parse().unwrap();
  let count: usize = a[1].parse().unwrap();
  let size: u64 = a[2].parse().unwrap();
  let roots: Vec<&str> = a[3].split(',').collect();
  let results = par(count, |k| {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
    for _ in 0..20 {
      r.next();
    }
    let want = *r.pick(&roots);
    let mut g;
    loop {
      let z = 2 + r.below(size);
      g = random_grammar(&mut r, z);
      if want == "*" || has(&g, want) {
        break;
      }
    }
    // now and then a long periodic input with one odd element, read from anywhere
    let (w, i) = if k % 12 == 0 {
      let period: Vec<u32> = (0..1 + r.below(3)).map(|_| *r.pick(&ALPHABET)).collect();
      let len = 12 + r.below(120) as usize;
      let mut w: Vec<u32> = (0..len).map(|x| period[x % period.len()]).collect();
      w[r.below(len as u64) as usize] = *r.pick(&ALPHABET);
      let i = if r.below(2) == 0 { 0 } else { r.below(len as u64 / 2) as usize };
      (w, i)
    } else {
      let len = r.below(10);
      let w: Vec<u32> = (0..len).map(|_| *r.pick(&ALPHABET)).collect();
      let i = if w.is_empty() { 0 } else { r.below(3).min(len) as usize };
      (w, i)
    };
    let style = r.below(STYLES as u64) as u32;
    let bytes = r.below(2) == 0 && g.for_bytes();
    // often the same parser goes on to inputs that differ in one place
    let mut ws = vec![w];
    if k % 3 == 0 && ws[0].len() > 1 {
      for _ in 0..2 {
        let mut w = ws[ws.len() - 1].clone();
        let x = r.below(w.len() as u64) as usize;
        w[x] = *r.pick(&ALPHABET);
        ws.push(w);
      }
    }
    let evs = if bytes { record::<u8>(&g, style, &ws, i) } else { record::<char>(&g, style, &ws, i) };
    ws.into_iter().zip(evs).map(|(w, ev)| (g.clone(), w, i, style, bytes, ev)).collect::<Vec<_>>()
  });
  let results = results.into_iter().flatten();
  let mut out = std::io::BufWriter::new(std::fs::File::create(&a[4]).unwrap());
  let (mut n, mut events, mut longest) = (0u64, 0u64, 0usize);
  let mut bad = vec![];
  for (g, w, i, style, bytes, ev) in results {
    let ty = if bytes { "u8" } else { "char" };
    match ev {
      Ok(ev) => {
        if ev.len() > 4000 {
          continue; // validated by its prefix elsewhere; keep TLC's input small
        }
        n += 1;
        events += ev.len() as u64;
        longest = longest.max(ev.len());
        writeln!(out, "{}", json!({"g": g.json(), "w": w, "i": i, "style": style, "type": ty, "ev": ev})).unwrap();
      }
      Err(e) => bad.push(json!({"why": format!("panics: {}", e), "g": g.json(), "type": ty, "style": style, "w": w, "i": i})),
    }
  }
  out.flush().unwrap();
  write_json(&a[5], &json!({"traces": n, "events": events, "longest": longest, "mismatches": bad.len(), "bad": bad}));
}

fn has(g: &G, k: &str) -> bool {
  g.k == k || g.c.iter().any(|c| has(c, k))
}

// ---------------------------------------------------------------------------------------------

fn run_view<I: El>(p: &P<I>, buf: Buf<I>, from: usize, to: usize, off: usize) -> Result<Obs, String> {
  TICKS.with(|t| t.set(0));
  catch_unwind(AssertUnwindSafe(|| observe(&p.run(&ParseState::new(&buf[from..to], off))))).map_err(panic_text)
}

fn hist_one<I: El>(g: &G, bufs: &[Vec<u32>], hs: &[Value], tally: &mut Tally) {
  let ty = if I::CHARS { "char" } else { "u8" };
  if (I::CHARS && !g.for_chars()) || (!I::CHARS && !g.for_bytes()) {
    return;
  }
  let bufs: Vec<Buf<I>> = bufs
    .iter()
    .map(|b| {
      let v: Vec<I> = b.iter().map(|x| I::of_code(*x)).collect();
      &*Box::leak(v.into_boxed_slice())
    })
    .collect();
  for style in 0..STYLES {
    for h in hs {
      // one parser per history; odd runs go through a clone taken before the first run
      let p = build::<I>(g, style, false, 0);
      let q = p.clone();
      for (k, run) in h["runs"].as_array().unwrap().iter().enumerate() {
        let f = |x: &str| run[x].as_u64().unwrap() as usize;
        tally.runs += 1;
        let o = run_view(if run["cl"].as_bool().unwrap() { &q } else { &p }, bufs[f("b") - 1], f("from"), f("to"), f("off"));
        let why = match o {
          Err(e) => Some((format!("run {}: panics: {}", k + 1, e), Value::Null)),
          Ok(o) => differs(&run["r"], &o, f("to") - f("from"), false).map(|y| (format!("run {}: {}", k + 1, y), o.json())),
        };
        if let Some((why, got)) = why {
          tally.bad_count += 1;
          if tally.bad.len() < 20 {
            tally.bad.push(json!({"why": why, "g": g.json(), "type": ty, "style": style, "history": h["runs"], "got": got}));
          }
          break;
        }
      }
    }
  }
}

/// hist GRAMMARS CASES OUT: histories of runs of one parser
fn hist(a: &[String]) {
  let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
  let gs: Vec<G> = v["gs"].as_array().unwrap().iter().map(G::from).collect();
  let bufs: Vec<Vec<u32>> = v["bufs"].as_array().unwrap().iter().map(nums).collect();
  let mut by: Vec<Vec<Value>> = gs.iter().map(|_| vec![]).collect();
  let mut n = 0u64;
  for v in tlc_lines(&a[1]) {
    n += 1;
    by[v["g"].as_u64().unwrap() as usize].push(v);
  }
  let tallies = par(gs.len(), |k| {
    let mut t = Tally { runs: 0, bad: vec![], bad_count: 0 };
    hist_one::<char>(&gs[k], &bufs, &by[k], &mut t);
    hist_one::<u8>(&gs[k], &bufs, &by[k], &mut t);
    t
  });
  let runs: u64 = tallies.iter().map(|t| t.runs).sum();
  let bad_count: u64 = tallies.iter().map(|t| t.bad_count).sum();
  let mut bad: Vec<Value> = tallies.into_iter().flat_map(|t| t.bad).collect();
  bad.sort_by_key(|b| b.to_string().len());
  bad.truncate(20);
  write_json(&a[2], &json!({"cases": n, "grammars": gs.len(), "runs": runs, "mismatches": bad_count, "bad": bad}));
}

/// C11: every line is a value, how it came about and what it shows.
fn values_cmd(a: &[String]) {
  let cases = tlc_lines(&a[0]);
  let chunks: Vec<&[Value]> = cases.chunks(512).collect();
  let tallies = par(chunks.len(), |k| {
    let mut bad = vec![];
    for c in chunks[k] {
      let found = catch_unwind(AssertUnwindSafe(|| values::one(c))).unwrap_or_else(|e| vec![json!({"why": format!("the code under test panics: {}", panic_text(e))})]);
      for mut b in found {
        b["case"] = c.clone();
        bad.push(b);
      }
    }
    bad
  });
  let mut bad: Vec<Value> = tallies.into_iter().flatten().collect();
  let count = bad.len();
  bad.sort_by_key(|b| b.to_string().len());
  bad.truncate(20);
  write_json(&a[1], &json!({"cases": cases.len(), "grammars": 0, "runs": cases.len(), "mismatches": count, "bad": bad}));
}

fn main() {
  static Q: Quiet = Quiet;
  log::set_logger(&Q).unwrap();
  log::set_max_level(log::LevelFilter::Trace);
  std::panic::set_hook(Box::new(|_| {}));
  let a: Vec<String> = std::env::args().skip(1).collect();
  match a[0].as_str() {
    "replay" => replay(&a[1..]),
    "trace" => trace(&a[1..]),
    "values" => values_cmd(&a[1..]),
    "hist" => hist(&a[1..]),
    x => panic!("unknown command {}", x),
  }
}
