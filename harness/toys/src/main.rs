//! Replays expressions and programs of spec/Toys*.tla on toys/ and records random runs of it.
include!(concat!(env!("OUT_DIR"), "/modules.rs"));
#[path = "../../common/common.rs"]
mod common;

use common::*;
use crate::expr::Expr;
use crate::interpreter::Interpreter;
use crate::labelled_parameter::LabelledParameter;
use crate::operator::Operator;
use crate::values::Value as Val;
use oni_comb_parser_rs::prelude::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

fn text(v: &Value) -> String {
  v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

fn codes(s: &str) -> Value {
  json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}

fn read(source: &str) -> Result<Rc<Expr>, String> {
  let input: Vec<char> = source.chars().collect();
  guarded(|| parsers::program().parse(&input).to_result().map_err(|e| format!("{:?}", e)))?
}

// ---- trees ----
fn op(s: &str) -> Operator {
  match s {
    "&&" => Operator::And,
    "||" => Operator::Or,
    "%" => Operator::Mod,
    "+" => Operator::Add,
    "-" => Operator::Subtract,
    "*" => Operator::Multiply,
    "/" => Operator::Divide,
    "<" => Operator::LessThan,
    "<=" => Operator::LessOrEqual,
    ">" => Operator::GreaterThan,
    ">=" => Operator::GreaterOrEqual,
    "==" => Operator::EqualEqual,
    "!=" => Operator::NotEqual,
    _ => panic!("operator {}", s),
  }
}

fn list(v: &Value) -> Vec<Rc<Expr>> {
  v.as_array().unwrap().iter().map(tree).collect()
}

fn tree(v: &Value) -> Rc<Expr> {
  match v["t"].as_str().unwrap() {
    "int" => Expr::of_integer_literal(v["n"].as_i64().unwrap()),
    "wide" => Expr::of_integer_literal(wide(v)),
    "bool" => Expr::of_bool_literal(v["b"].as_bool().unwrap()),
    "str" => Expr::of_string_literal(text(&v["s"])),
    "arr" => Expr::of_array_literal(list(&v["es"])),
    "sym" => Expr::of_symbol(text(&v["x"])),
    "bin" => Expr::of_binary(op(&text(&v["o"])), tree(&v["l"]), tree(&v["r"])),
    "call" => Expr::of_function_call(text(&v["f"]), list(&v["es"])),
    "lcall" => Expr::of_labelled_call(
      text(&v["f"]),
      v["ps"].as_array().unwrap().iter().map(|p| LabelledParameter::new(text(&p["x"]), tree(&p["e"]))).collect(),
    ),
    "par" => Rc::new(Expr::Parenthesized(tree(&v["e"]))),
    t => panic!("tree {}", t),
  }
}

/// An integer given by its sign and digits.
fn wide(v: &Value) -> i64 {
  let ds: String = v["ds"].as_array().unwrap().iter().map(|d| d.to_string()).collect();
  format!("{}{}", if v["neg"] == true { "-" } else { "" }, ds).parse().unwrap()
}

// ---- values ----
fn shown(v: &Val) -> Value {
  match v {
    Val::Int(n) => json!({"t": "int", "n": n}),
    Val::Bool(b) => json!({"t": "bool", "b": b}),
    Val::String(s) => json!({"t": "str", "s": codes(s)}),
    Val::Array(vs) => json!({"t": "arr", "es": vs.iter().map(shown).collect::<Vec<_>>()}),
  }
}

/// `any' stands for every value.
fn same(want: &Value, got: &Value) -> bool {
  want["t"] == "any"
    || want["t"] == "wide" && got["t"] == "int" && got["n"] == wide(want)
    || want["t"] == got["t"]
      && match want["t"].as_str().unwrap() {
        "int" => want["n"] == got["n"],
        "bool" => want["b"] == got["b"],
        "str" => want["s"] == got["s"],
        "arr" => {
          let (w, g) = (want["es"].as_array().unwrap(), got["es"].as_array().unwrap());
          w.len() == g.len() && w.iter().zip(g).all(|(a, b)| same(a, b))
        }
        _ => false,
      }
}

// ---- T01 ----
fn prelude(e: &str, between: &str, stand: &BTreeMap<String, i64>) -> String {
  let more: String = stand.iter().map(|(x, n)| format!("global {} = {};\n", x, n)).collect();
  format!(
    "fn f(p, q) {{ p * 2 - q; }}\n{}global x = 4; global _y1=-3;\nglobal truex = 1; global fn1 = true;\nfn main() {{ r ={}{}; r; }}",
    more, between, e
  )
}

/// What the names of these cases stand for.
fn stand(cases: &[Value]) -> BTreeMap<String, i64> {
  let mut all = BTreeMap::new();
  for g in cases.iter().flat_map(|c| c["gs"].as_array().unwrap()) {
    all.insert(text(&g["x"]), g["n"].as_i64().unwrap());
  }
  all
}

fn wrapped(e: Rc<Expr>, stand: &BTreeMap<String, i64>) -> Rc<Expr> {
  let s = |x: &str| Expr::of_symbol(x.to_string());
  let i = Expr::of_integer_literal;
  let g = |x: &str, e| Expr::of_global_variable_definition(x.to_string(), e);
  let body = Expr::of_subtract(Expr::of_multiply(s("p"), i(2)), s("q"));
  let mut defs =
    vec![Expr::of_function_definition("f".to_string(), vec!["p".to_string(), "q".to_string()], Expr::of_block(vec![body]))];
  defs.extend(stand.iter().map(|(x, n)| g(x, i(*n))));
  defs.extend(vec![
    g("x", i(4)),
    g("_y1", i(-3)),
    g("truex", i(1)),
    g("fn1", Expr::of_bool_literal(true)),
    Expr::of_function_definition(
      "main".to_string(),
      vec![],
      Expr::of_block(vec![Expr::of_assignment("r".to_string(), e), s("r")]),
    ),
  ]);
  Rc::new(Expr::Program(defs))
}

fn expr_one(c: &Value, k: usize) -> (u64, Vec<Value>) {
  let named = stand(std::slice::from_ref(c));
  let want = wrapped(tree(&c["tree"]), &named);
  let (mut runs, mut bad) = (1, vec![]);
  let t = text(&c["ts"][k]);
  match read(&prelude(&t, if k == 0 { "" } else { " " }, &named)) {
    Err(e) => bad.push(json!({"why": "the expression is not read", "text": t, "error": e})),
    Ok(got) => {
      if got != want {
        bad.push(json!({"why": "another tree", "text": t, "got": format!("{:?}", got)}));
      }
      if c["v"]["t"] != "err" {
        runs += 1;
        match guarded(|| Interpreter::new().call_main(got)) {
          Err(e) => bad.push(json!({"why": "evaluation panics", "text": t, "error": e})),
          Ok(v) => {
            if !same(&c["v"], &shown(&v)) {
              bad.push(json!({"why": "another value", "text": t, "got": shown(&v)}));
            }
          }
        }
      }
    }
  }
  (runs, bad)
}

/// Many expressions in one program, as the elements of an array: constructing the parsers takes most of the time.
/// One of them, and all of them if anything is wrong, is also read and evaluated alone.
fn expr_batch(b: &Value) -> (u64, Vec<Value>) {
  let cases = b["cases"].as_array().unwrap();
  let k = b["gap"].as_u64().unwrap() as usize;
  let texts: Vec<String> = cases.iter().map(|c| text(&c["ts"][k])).collect();
  let named = stand(cases);
  let want = wrapped(Expr::of_array_literal(cases.iter().map(|c| tree(&c["tree"])).collect()), &named);
  let all_well = || -> Option<()> {
    let got = read(&prelude(&format!("[{}]", texts.join(if k == 0 { "," } else { " , " })), "", &named)).ok()?;
    if got != want {
      return None;
    }
    if cases[0]["v"]["t"] != "err" {
      let v = guarded(|| Interpreter::new().call_main(got)).ok()?;
      let vs = json!({"t": "arr", "es": cases.iter().map(|c| c["v"].clone()).collect::<Vec<_>>()});
      if !same(&vs, &shown(&v)) {
        return None;
      }
    }
    Some(())
  };
  let well = all_well().is_some();
  let mut bad = vec![];
  let mut runs = cases.len() as u64 * 2;
  for c in cases.iter().take(if well { 1 } else { cases.len() }) {
    let r = expr_one(c, k);
    runs += r.0;
    bad.extend(r.1);
  }
  if !well && bad.is_empty() {
    bad.push(json!({"why": "expressions that are read alone are not read as the elements of an array", "texts": texts}));
  }
  (runs, bad)
}

fn expr_cases(cases: Vec<Value>, out: &str) {
  let (dull, good): (Vec<Value>, Vec<Value>) = cases.into_iter().partition(|c| c["v"]["t"] == "err");
  let mut batches = vec![];
  for group in [good, dull] {
    for chunk in group.chunks(24) {
      for gap in 0..3 {
        batches.push(json!({"gap": gap, "cases": chunk}));
      }
    }
  }
  replay(&batches, out, expr_batch);
}

// ---- running programs: a worker process per slice, its standard output read by the parent ----
struct Job {
  source: String,
  globals: Vec<String>,
}

/// What is observed of a run: [out, end ("done", "panic", "unread", "dead", "endless"), v, gs, note]
fn worker(path: &str) {
  for line in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines() {
    let j: Value = serde_json::from_str(&line.unwrap()).unwrap();
    println!("\u{1}{}", j["k"]);
    let r = match read(j["q"].as_str().unwrap()) {
      Err(e) => json!({"end": "unread", "note": e}),
      Ok(p) => {
        let mut it = Interpreter::new();
        match guarded(|| it.call_main(p)) {
          Err(e) => json!({"end": "panic", "note": e}),
          Ok(v) => {
            let gs: Vec<Value> = j["gs"]
              .as_array()
              .unwrap()
              .iter()
              .filter_map(|g| guarded(|| json!({"k": codes(g.as_str().unwrap()), "v": shown(it.get_value(g.as_str().unwrap()))})).ok())
              .collect();
            json!({"end": "done", "v": shown(&v), "gs": gs})
          }
        }
      }
    };
    println!("\u{2}{}", r);
    std::io::stdout().flush().unwrap();
  }
}

fn run_jobs(jobs: &[Job], dir: &str) -> Vec<Value> {
  let out = Mutex::new(vec![Value::Null; jobs.len()]);
  std::thread::scope(|s| {
    for w in 0..8usize {
      let out = &out;
      s.spawn(move || {
        let mut todo: Vec<usize> = (w..jobs.len()).step_by(8).collect();
        // a worker that dies or hangs is replaced twice, for the programs after the one it fell over
        for round in 0..3 {
          if todo.is_empty() {
            break;
          }
          let path = format!("{}.slice{}.{}", dir, w, round);
          let lines: Vec<Value> = todo.iter().map(|&k| json!({"k": k, "q": jobs[k].source, "gs": jobs[k].globals})).collect();
          write_lines(&path, &lines);
          let mut child = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["worker", &path])
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
          let stdout = child.stdout.take().unwrap();
          let beat = Arc::new(AtomicU64::new(0));
          let child = Arc::new(Mutex::new(child));
          let (b2, c2) = (beat.clone(), child.clone());
          // ends the worker when one program takes more than 20 s
          let dog = std::thread::spawn(move || {
            let (mut last, mut still) = (0, 0);
            loop {
              std::thread::sleep(std::time::Duration::from_millis(250));
              let now = b2.load(Ordering::Relaxed);
              if now == u64::MAX {
                return;
              }
              still = if now == last { still + 1 } else { 0 };
              last = now;
              if still > 80 {
                let _ = c2.lock().unwrap().kill();
                return;
              }
            }
          });
          let (mut at, mut text, mut over, mut r) = (None::<usize>, String::new(), false, std::io::BufReader::new(stdout));
          let mut buf = vec![];
          loop {
            buf.clear();
            match r.read_until(b'\n', &mut buf) {
              Ok(0) | Err(_) => break,
              _ => {}
            }
            let line = String::from_utf8_lossy(&buf).to_string();
            if let Some(k) = line.strip_prefix('\u{1}') {
              at = k.trim().parse().ok();
              text.clear();
              beat.fetch_add(1, Ordering::Relaxed);
            } else if let (true, Some(cut), Some(k)) = (at.is_some(), line.find('\u{2}'), at) {
              text.push_str(&line[..cut]);
              if let Ok(mut v) = serde_json::from_str::<Value>(&line[cut + 1..]) {
                v["out"] = codes(&text);
                out.lock().unwrap()[k] = v;
                todo.retain(|&x| x != k);
                at = None;
              }
            } else {
              text.push_str(&line);
              if text.len() > 1 << 20 {
                over = true;
                let _ = child.lock().unwrap().kill();
                break;
              }
            }
          }
          beat.store(u64::MAX, Ordering::Relaxed);
          drop(r);
          let st = child.lock().unwrap().wait();
          let _ = dog.join();
          let _ = std::fs::remove_file(&path);
          if let Some(k) = at {
            let end = if over || st.map(|s| s.code().is_none() && std::os::unix::process::ExitStatusExt::signal(&s) == Some(9)).unwrap_or(false) { "endless" } else { "dead" };
            text.truncate(2000);
            out.lock().unwrap()[k] = json!({"end": end, "out": codes(&text)});
            todo.retain(|&x| x != k);
          }
        }
      });
    }
  });
  let mut v = out.into_inner().unwrap();
  for x in v.iter_mut() {
    if x.is_null() {
      *x = json!({"end": "skipped", "out": []});
    }
  }
  v
}

// ---- T02 ----
fn run_cases(cases: &[Value], out: &str, every: bool) {
  let mut jobs = vec![];
  let mut of = vec![];
  for (n, c) in cases.iter().enumerate() {
    let globals: Vec<String> = c["gs"].as_array().unwrap().iter().map(|g| text(&g["k"])).collect();
    for (k, t) in c["ts"].as_array().unwrap().iter().enumerate() {
      if !every && k != n % 3 {
        continue;
      }
      jobs.push(Job { source: text(t), globals: globals.clone() });
      of.push(n);
    }
  }
  let got = run_jobs(&jobs, out);
  let mut bad = vec![];
  let mut count = 0u64;
  for (j, r) in got.iter().enumerate() {
    let c = &cases[of[j]];
    let end = r["end"].as_str().unwrap();
    if end == "skipped" {
      continue;
    }
    let why = if c["ends"] == "unbound" {
      // a variable is read that has no value
      if end == "done" { Some("a variable without a value is read and the program goes on") } else if end != "panic" { Some("the program is not run") } else { None }
    } else if end != "done" {
      Some("the program is not run to its end")
    } else {
      let want: String = c["out"].as_array().unwrap().iter().map(|l| text(l) + "\n").collect();
      if text(&r["out"]) != want {
        Some("another output")
      } else if !same(&c["v"], &r["v"]) {
        Some("another result")
      } else if !c["gs"].as_array().unwrap().iter().all(|g| r["gs"].as_array().unwrap().iter().any(|x| x["k"] == g["k"] && same(&g["v"], &x["v"]))) {
        Some("another value of a global")
      } else {
        None
      }
    };
    if let Some(why) = why {
      count += 1;
      if bad.len() < 60 {
        let shows = text(&r["out"]);
        bad.push(json!({"why": why, "program": jobs[j].source, "end": end, "output": shows, "got": r, "case": c}));
      }
    }
  }
  write_json(out, &json!({"cases": cases.len(), "runs": got.len(), "mismatches": count, "bad": bad}));
}

// ---- random programs ----
struct Gen {
  r: Rng,
  s: String,
  loops: usize,
  /// no loops in functions that call others: runs stay short
  still: bool,
  /// (name, parameters, kind of result) of the functions so far
  fns: Vec<(String, usize, u8)>,
}

impl Gen {
  fn gap(&mut self) -> &'static str {
    *self.r.pick(&["", "", "", " ", " ", "\n", "\t ", "\r\n"])
  }
  fn w(&mut self, x: &str) {
    let last = self.s.chars().last().unwrap_or(' ');
    let first = x.chars().next().unwrap_or(' ');
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let mut g = self.gap();
    if word(last) && word(first) && g.is_empty() {
      g = " ";
    }
    self.s.push_str(g);
    self.s.push_str(x);
  }
  fn var(&mut self) -> String {
    self.r.pick(&["a", "b", "c", "a", "b", "c", "u1", "v_2", "e"]).to_string()
  }
  /// an integer expression; the value stays below the bound returned
  fn int(&mut self, d: usize) -> i64 {
    let k = if d == 0 { self.r.below(2) } else { self.r.below(9) };
    match k {
      0 => {
        let n = self.r.range(-9, 30);
        if n < 0 {
          let t = format!("-{}", -n);
          // a minus sign after an operand would be read as an operator; this is always where an operand is due
          self.w(&t);
        } else {
          self.w(&n.to_string());
        }
        30
      }
      1 => {
        let v = self.var();
        self.w(&v);
        100
      }
      2 => {
        self.w("(");
        let b = self.int(d - 1);
        self.w(")");
        b
      }
      3 if !self.fns.is_empty() => {
        self.call(d, 0);
        100
      }
      4 => {
        let l = self.int(d - 1);
        {
 let t = *self.r.pick(&["%", "/"]);
 self.w(t) };
        let n = self.r.range(1, 9);
        self.w(&n.to_string());
        l
      }
      5 => {
        let at = self.s.len();
        let l = self.atom();
        self.w("*");
        let r = self.atom();
        if l * r > 1_000_000 {
          self.s.truncate(at);
          self.w("3");
          3
        } else {
          l * r
        }
      }
      _ => {
        let l = self.int(d - 1);
        {
 let t = *self.r.pick(&["+", "-"]);
 self.w(t) };
        let r = self.int(d - 1);
        l + r
      }
    }
  }
  fn atom(&mut self) -> i64 {
    match self.r.below(3) {
      0 => self.int(0),
      1 => self.int(0),
      _ => {
        self.w("(");
        self.int(0);
        self.w("-");
        self.int(0);
        self.w(")");
        200
      }
    }
  }
  fn small(&mut self, d: usize) {
    // bounded by 100
    if self.r.chance(60) {
      self.int(0);
    } else {
      self.w("(");
      self.int(d);
      self.w(")");
      self.w("%");
      self.w("97");
    }
  }
  fn cond(&mut self, d: usize) {
    match self.r.below(if d == 0 { 3 } else { 5 }) {
      0 | 1 => {
        self.int(d.min(1));
        {
 let t = *self.r.pick(&["<", "<=", ">", ">=", "==", "!="]);
 self.w(t) };
        self.int(d.min(1));
      }
      2 => {
 let t = *self.r.pick(&["true", "false", "t1", "t1"]);
 self.w(t) },
      _ => {
        self.w("(");
        self.cond(d - 1);
        self.w(")");
        {
 let t = *self.r.pick(&["&&", "||"]);
 self.w(t) };
        self.w("(");
        self.cond(d - 1);
        self.w(")");
      }
    }
  }
  fn string(&mut self) {
    let mut t = String::from("\"");
    for _ in 0..self.r.below(4) {
      let piece: &str = *self.r.pick(&["a", "Zz", " ", ";", "{", "\\\"", "\\\\", "\\n", "\\t", "\\u0041", "\\u3042", "é", "//", "if", "\\/"]);
      t.push_str(piece);
    }
    t.push('"');
    self.w(&t);
  }
  fn call(&mut self, d: usize, kind: u8) {
    let own: Vec<_> = self.fns.iter().filter(|f| f.2 == kind).cloned().collect();
    if own.is_empty() {
      self.w("4");
      return;
    }
    let (f, n, _) = self.r.pick(&own).clone();
    self.w(&f);
    let names = ["p", "q", "a"];
    if n == 0 || self.r.chance(60) {
      self.w("(");
      let extra = if self.r.chance(10) { 1 } else { 0 };
      for k in 0..n + extra {
        if k > 0 {
          self.w(",");
        }
        self.small(d.saturating_sub(1));
      }
      self.w(")");
    } else {
      self.w("[");
      let mut order: Vec<usize> = (0..n).collect();
      if self.r.chance(50) {
        order.reverse();
      }
      for (k, &x) in order.iter().enumerate() {
        if k > 0 {
          self.w(",");
        }
        self.w(names[x]);
        self.w("=");
        self.small(d.saturating_sub(1));
      }
      self.w("]");
    }
  }
  fn shown(&mut self, d: usize) {
    match self.r.below(6) {
      0 => self.string(),
      1 => self.cond(1),
      2 => {
        self.w("[");
        for k in 0..self.r.below(4) {
          if k > 0 {
            self.w(",");
          }
          self.shown(d.saturating_sub(1));
        }
        self.w("]");
      }
      _ => {
        self.int(d);
      }
    }
  }
  fn line(&mut self, d: usize) {
    let k = self.r.below(if d == 0 { 5 } else { 10 });
    match if self.still && (k == 7 || k == 8) { 5 } else { k } {
      0 | 1 => {
        let v = self.var();
        self.w(&v);
        self.w("=");
        self.small(2);
        self.w(";");
      }
      2 => {
        self.w("t1");
        self.w("=");
        self.cond(1);
        self.w(";");
      }
      3 => {
        self.w("println");
        self.w("(");
        self.shown(2);
        self.w(")");
        self.w(";");
      }
      4 => {
        self.call(2, 0);
        self.w(";");
      }
      5 | 6 => {
        self.w("if");
        self.w("(");
        self.cond(1);
        self.w(")");
        match self.r.below(5) {
          0 | 1 => {
            self.block(d - 1);
            self.w("else");
          }
          2 => {
            // first assigned in either branch
            self.loops += 1;
            let v = format!("h{}", self.loops);
            self.w("{");
            self.fresh(&v, 2);
            self.w("}");
            self.w("else");
            self.w("{");
            self.fresh(&v, 2);
            self.line(d - 1);
            self.w("}");
            self.look(&v);
            return;
          }
          _ => {}
        }
        if self.r.chance(50) {
          self.block(d - 1);
        } else {
          self.line(d - 1);
        }
      }
      7 => {
        self.loops += 1;
        let v = format!("i{}", self.loops);
        self.w("for");
        self.w("(");
        self.w(&v);
        self.w("in");
        let lo = self.r.range(-2, 4);
        self.w(&lo.to_string());
        self.w("to");
        let hi = self.r.range(-1, 6);
        self.w(&hi.to_string());
        self.w(")");
        self.w("{");
        if self.r.chance(60) {
          self.w("println");
          self.w("(");
          self.w(&v);
          self.w(")");
          self.w(";");
        }
        self.line(d - 1);
        let u = self.var();
        self.w(&u);
        self.w("=");
        self.w(&v);
        self.w("*");
        self.w("2");
        self.w(";");
        self.fresh(&v, d);
        self.w("}");
        if lo < hi {
          self.look(&v);
        }
      }
      8 => {
        self.loops += 1;
        let v = format!("w{}", self.loops);
        self.w("{");
        self.w(&v);
        self.w("=");
        let t = self.r.range(0, 4).to_string();
        self.w(&t);
        self.w(";");
        self.w("while");
        self.w("(");
        self.w(&v);
        {
 let t = *self.r.pick(&["<", "<=", "!="]);
 self.w(t) };
        self.w("4");
        self.w(")");
        self.w("{");
        self.line(d - 1);
        self.w(&v);
        self.w("=");
        self.w(&v);
        self.w("+");
        self.w("1");
        self.w(";");
        self.fresh(&v, d);
        self.w("}");
        if t != "4" {
          self.look(&v);
        }
        self.w("}");
      }
      _ => self.block(d - 1),
    }
  }
  /// a variable that nothing has assigned before
  fn fresh(&mut self, v: &str, d: usize) {
    let inner = d > 1 && self.r.chance(30);
    if inner {
      self.w("{");
    }
    self.w(&format!("n_{}", v));
    self.w("=");
    self.small(1);
    self.w(";");
    if inner {
      self.w("}");
    }
  }
  fn look(&mut self, v: &str) {
    if self.r.chance(70) {
      self.w("println");
      self.w("(");
      self.w(&format!("n_{}", v));
      self.w(")");
      self.w(";");
    }
  }
  fn block(&mut self, d: usize) {
    self.w("{");
    for _ in 0..self.r.below(3) {
      self.line(d);
    }
    self.w("}");
  }
  fn function(&mut self, k: usize) {
    let name = ["f", "g1", "iffy"][k].to_string();
    self.still = !self.fns.is_empty();
    let n = self.r.below(4);
    self.w("fn");
    self.w(&name);
    self.w("(");
    for (x, p) in ["p", "q", "a"].iter().take(n).enumerate() {
      if x > 0 {
        self.w(",");
      }
      self.w(p);
    }
    self.w(")");
    self.w("{");
    if n > 0 && self.r.chance(50) {
      {
 let t = *self.r.pick(&["b", "c", "e"]);
 self.w(t) };
      self.w("=");
      let t = ["p", "q", "a"][self.r.below(n)];
      self.w(t);
      self.w(";");
    }
    for _ in 0..self.r.below(3) {
      self.line(1);
    }
    self.small(2);
    self.w(";");
    self.w("}");
    self.fns.push((name, n, 0));
    self.still = false;
  }
  fn recursive(&mut self) {
    self.s.push_str("fn rec(n,m){ if(n < 1) { m; } else {");
    if self.r.chance(50) {
      self.w("println");
      self.w("(");
      self.w("[n,m]");
      self.w(")");
      self.w(";");
    }
    if self.r.chance(50) {
      self.w("a = m;");
    }
    let t = self.r.pick(&["(rec(n-1, m+n) * 2 + 1) % 97;", "rec[m = n+m, n = n-2];", "rec(n-1, rec(n-2, m) % 97) % 97;", "rec(n/2, (m*3+n%2) % 97);", "(rec(n-1, m) + n) % 97;"]).to_string();
    self.w(&t);
    self.s.push_str("} }");
  }
  /// expressions of many kinds, one printed after another
  fn expressions(mut self) -> (String, Vec<String>) {
    let mut globals = vec![];
    for v in ["a", "b", "c", "e", "u1", "v_2"] {
      self.w("global");
      self.w(v);
      self.w("=");
      let t = self.r.range(-9, 60).to_string();
      self.w(&t);
      self.w(";");
      globals.push(v.to_string());
    }
    self.w("global");
    self.w("t1");
    self.w("=");
    self.w("a");
    self.w("<");
    self.w("b");
    self.w(";");
    globals.push("t1".to_string());
    self.function(0);
    self.w("fn");
    self.w("main");
    self.w("(");
    self.w(")");
    self.w("{");
    for _ in 0..5 {
      let d = 2 + self.r.below(3);
      if self.r.chance(70) {
        self.w("println");
        self.w("(");
        self.shown(d);
        self.w(")");
        self.w(";");
      } else {
        let v = self.var();
        self.w(&v);
        self.w("=");
        self.small(d);
        self.w(";");
      }
    }
    self.shown(3);
    self.w(";");
    self.w("}");
    (self.s, globals)
  }
  fn program(mut self) -> (String, Vec<String>) {
    let mut globals = vec![];
    let rec = self.r.chance(40);
    for k in 0..self.r.below(4) {
      let v = ["a", "b", "u1"][k];
      self.w("global");
      self.w(v);
      self.w("=");
      if k == 0 || self.r.chance(50) {
        let t = self.r.range(-9, 99).to_string();
        self.w(&t);
      } else {
        self.w("a");
        {
 let t = *self.r.pick(&["+", "-", "*"]);
 self.w(t) };
        self.w("2");
      }
      self.w(";");
      globals.push(v.to_string());
      if k == 1 && self.r.chance(60) {
        self.function(0);
      }
    }
    if self.r.chance(97) {
      self.w("global");
      self.w("t1");
      self.w("=");
      {
 let t = *self.r.pick(&["true", "false", "1<2"]);
 self.w(t) };
      self.w(";");
      globals.push("t1".into());
    }
    if rec {
      self.recursive();
    }
    for k in 1..1 + self.r.below(3) {
      self.function(k);
    }
    self.w("fn");
    self.w("main");
    self.w("(");
    self.w(")");
    self.w("{");
    for v in ["c", "v_2", "e", "a", "b", "u1"] {
      if self.r.chance(97) && !globals.iter().any(|g| g == v) {
        self.w(v);
        self.w("=");
        let t = self.r.range(0, 50).to_string();
        self.w(&t);
        self.w(";");
      }
    }
    for _ in 0..1 + self.r.below(4) {
      self.line(2);
    }
    if rec {
      self.w("println");
      self.w("(");
      let n = self.r.range(0, 6);
      let t = format!("rec({},{})", n, self.r.range(0, 50));
      self.w(&t);
      self.w(")");
      self.w(";");
    }
    self.shown(1);
    self.w(";");
    self.w("}");
    let t = self.gap();
    self.s.push_str(t);
    (self.s, globals)
  }
}

fn trace(kind: &str, seed: u64, n: usize, out: &str, sum: &str) {
  let mut jobs = vec![];
  for k in 0..n {
    let g = Gen { r: Rng::new(seed * 1_000_003 + k as u64), s: String::new(), loops: 0, still: false, fns: vec![] };
    let (source, globals) = if kind == "expr" { g.expressions() } else { g.program() };
    jobs.push(Job { source, globals });
  }
  let got = run_jobs(&jobs, out);
  let lines: Vec<Value> = jobs
    .iter()
    .zip(got)
    .filter(|(_, r)| r["end"] != "skipped")
    .map(|(j, r)| {
      let v = if r["v"].is_null() { json!({"t": "any"}) } else { r["v"].clone() };
      let gs = if r["gs"].is_null() { json!([]) } else { r["gs"].clone() };
      json!({"q": codes(&j.source), "ends": r["end"], "out": r["out"], "v": v, "gs": gs})
    })
    .collect();
  write_lines(out, &lines);
  let events: u64 = lines.iter().map(|l| l["out"].as_array().unwrap().iter().filter(|c| **c == json!(10)).count() as u64 + 1).sum();
  write_json(sum, &json!({"traces": lines.len(), "events": events, "bad": []}));
}

fn main() {
  main_with(|| {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
      "worker" => worker(&a[2]),
      "expr" => expr_cases(tlc_lines(&a[2]), &a[3]),
      "run" => run_cases(&tlc_lines(&a[2]), &a[3], a.get(4).map(|x| x == "every").unwrap_or(false)),
      "trace" => trace(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5], &a[6]),
      c => panic!("command {}", c),
    }
  });
}
