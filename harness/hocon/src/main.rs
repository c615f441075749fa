//! Conformance harness for hocon/.
#[path = "../../common/common.rs"]
mod common;
mod values;
use common::*;
use oni_comb_hocon_rs::model::{Config, ConfigDurationValue, ConfigFactory, ConfigNumberValue, ConfigValue};
use rust_decimal::Decimal;
use serde_json::{json, Map, Value};

fn string(v: &Value) -> String {
  v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

fn codes(s: &str) -> Value {
  s.chars().map(|c| c as u32).collect::<Vec<_>>().into()
}

fn parse(t: &str) -> Result<Config, String> {
  match guarded(|| ConfigFactory::new().parse_from_string(t)) {
    Err(e) => Err(format!("panic: {}", e)),
    Ok(Err(e)) => Err(format!("{:?}", e)),
    Ok(Ok(c)) => Ok(c),
  }
}

/// coefficient * 10^exponent without trailing zeros
fn digits(t: &str, neg: bool, co: i128, mut ex: i64) -> Value {
  let mut s = co.to_string();
  if co == 0 {
    return json!({"t": t, "neg": false, "co": [], "ex": 0});
  }
  while s.ends_with('0') {
    s.pop();
    ex += 1;
  }
  json!({"t": t, "neg": neg, "co": s.bytes().map(|b| b - 48).collect::<Vec<_>>(), "ex": ex})
}

fn decimal(d: &Decimal) -> Value {
  digits("num", d.is_sign_negative(), d.mantissa().abs(), -(d.scale() as i64))
}

/// The conversions of a number to the integer types: the value itself, or nothing if it does not fit.
fn conversions(n: &ConfigNumberValue, d: &Decimal) -> Result<(), String> {
  if !d.fract().is_zero() {
    return Ok(());
  }
  let v: i128 = d.trunc().to_string().parse().map_err(|e| format!("{:?}", e))?;
  let ok = n.to_i128() == Some(v)
    && n.to_u128() == u128::try_from(v).ok()
    && n.to_i64() == i64::try_from(v).ok()
    && n.to_u64() == u64::try_from(v).ok()
    && n.to_i32() == i32::try_from(v).ok()
    && n.to_u32() == u32::try_from(v).ok()
    && n.to_i16() == i16::try_from(v).ok()
    && n.to_u16() == u16::try_from(v).ok()
    && n.to_i8() == i8::try_from(v).ok()
    && n.to_u8() == u8::try_from(v).ok()
    && n.to_f64() == Some(v as f64)
    && n.to_f32().map(|f| f == v as f32).unwrap_or(false)
    && ConfigNumberValue::from(v) == *n
    && *ConfigNumberValue::new(*d).as_decimal() == *d;
  if ok {
    Ok(())
  } else {
    Err(format!("conversions of {}", d))
  }
}

fn nanos(d: chrono::Duration) -> i128 {
  d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128
}

/// A value as the typed accessors show it.
fn observe(v: &ConfigValue) -> Result<Value, String> {
  let mut seen = vec![];
  if v.is_null() {
    seen.push(json!({"t": "null"}));
  }
  if let Some(b) = v.as_bool() {
    seen.push(json!({"t": "bool", "b": b}));
  }
  if let Some(s) = v.as_string() {
    seen.push(json!({"t": "str", "s": codes(s)}));
  }
  if let Some(n) = v.as_config_number_value() {
    if v.as_number() != Some(n.as_decimal()) {
      return Err("as_number".into());
    }
    conversions(n, n.as_decimal())?;
    seen.push(decimal(n.as_decimal()));
  }
  if let Some(d) = v.as_duration() {
    let n = nanos(d);
    if v.as_config_duration_value().map(|c| c.to_duration().ok()) != Some(Some(d)) {
      return Err("to_duration".into());
    }
    if n >= 0 {
      let s = v.as_std_duration().ok_or("as_std_duration")?;
      if s.as_nanos() as i128 != n {
        return Err(format!("as_std_duration: {:?}, as_duration: {:?}", s, d));
      }
      if ConfigDurationValue::from(s).to_std_duration().ok() != Some(s) {
        return Err(format!("a duration of {:?} does not give it back", s));
      }
    }
    if d.num_nanoseconds().is_some() && ConfigDurationValue::from(d).to_duration().ok() != Some(d) {
      return Err(format!("a duration of {:?} does not give it back", d));
    }
    seen.push(digits("dur", n < 0, n.abs(), 0));
  }
  if let Some(a) = v.as_array() {
    if v.as_config_array_value().map(|c| c.as_array().as_slice()) != Some(a) {
      return Err("as_config_array_value".into());
    }
    seen.push(json!({"t": "arr", "es": a.iter().map(observe).collect::<Result<Vec<_>, _>>()?}));
  }
  if let Some(o) = v.as_object() {
    if v.as_config_object_value().map(|c| c.as_map()) != Some(o) {
      return Err("as_config_object_value".into());
    }
    let mut m = Map::new();
    for (k, x) in o {
      if !v.contains(k) || !v.as_config_object_value().unwrap().has_path(k) {
        return Err(format!("contains {:?}", k));
      }
      m.insert(k.clone(), observe(x.latest())?);
    }
    seen.push(json!({"t": "map", "kv": m}));
  }
  if seen.len() == 1 {
    Ok(seen.pop().unwrap())
  } else {
    Err(format!("{} types: {:?}", seen.len(), v))
  }
}

/// The specification's notation with maps as JSON objects.
fn wanted(w: &Value) -> Value {
  match w["t"].as_str().unwrap() {
    "map" => {
      let kv: Map<String, Value> = w["kv"].as_array().unwrap().iter().map(|p| (string(&p["k"]), wanted(&p["v"]))).collect();
      json!({"t": "map", "kv": kv})
    }
    "arr" => json!({"t": "arr", "es": w["es"].as_array().unwrap().iter().map(wanted).collect::<Vec<_>>()}),
    _ => w.clone(),
  }
}

/// ... and back, for the recorded runs.
fn listed(w: &Value) -> Value {
  match w["t"].as_str().unwrap() {
    "map" => {
      let kv: Vec<Value> = w["kv"].as_object().unwrap().iter().map(|(k, v)| json!({"k": codes(k), "v": listed(v)})).collect();
      json!({"t": "map", "kv": kv})
    }
    "arr" => json!({"t": "arr", "es": w["es"].as_array().unwrap().iter().map(listed).collect::<Vec<_>>()}),
    _ => w.clone(),
  }
}

/// What the specification finds at a path.
fn lookup<'a>(w: &'a Value, path: &[&str]) -> Option<&'a Value> {
  path.iter().try_fold(w, |w, k| if w["t"] == json!("map") { w["kv"].get(*k) } else { None })
}

fn universe(names: &[&'static str]) -> Vec<Vec<&'static str>> {
  let mut all: Vec<Vec<&'static str>> = vec![vec!["zz"]];
  let mut last: Vec<Vec<&'static str>> = vec![vec![]];
  for _ in 0..3 {
    last = last.iter().flat_map(|p| names.iter().map(move |n| [p.clone(), vec![*n]].concat())).collect();
    all.extend(last.iter().cloned());
  }
  all.extend([vec!["a", "zz"], vec!["a", "b", "c", "a"], vec!["zz", "a"]]);
  all
}

fn compare(c: &Config, want: &Value, paths: &[Vec<&str>]) -> Result<(), String> {
  let got = guarded(|| observe(c.to_config_value())).map_err(|e| format!("an accessor panics: {}", e))??;
  if got != *want {
    return Err(format!("found {}", got));
  }
  for p in paths {
    let text = p.join(".");
    let expected = lookup(want, p);
    let found = guarded(|| (c.has_path(&text), c.get_value(&text).map(observe))).map_err(|e| format!("looking up {} panics: {}", text, e))?;
    if found.0 != expected.is_some() {
      return Err(format!("has_path({}) = {}", text, found.0));
    }
    match found.1 {
      None if expected.is_none() => {}
      Some(Ok(v)) if Some(&v) == expected => {}
      x => return Err(format!("get_value({}) = {:?}", text, x)),
    }
  }
  Ok(())
}

fn one_store(c: &Value, names: &[&'static str]) -> (u64, Vec<Value>) {
  let want = wanted(&c["w"]);
  let paths = universe(names);
  let mut bad = vec![];
  let texts: Vec<String> = c["ts"].as_array().unwrap().iter().map(string).collect();
  for (k, t) in texts.iter().enumerate() {
    let r = parse(t).and_then(|x| compare(&x, &want, if k % 2 == 0 { &paths } else { &paths[..12] }));
    if let Err(e) = r {
      bad.push(json!({"why": e, "text": t}));
    }
  }
  // from a file, and included by another document
  let sum: usize = texts[0].bytes().map(|b| b as usize).sum();
  if sum % 16 == 3 {
    let name = own_name();
    let t = &texts[sum % texts.len()];
    std::fs::write(&name, t).unwrap();
    let loaded = guarded(|| ConfigFactory::new().load_from_file(&name)).map_err(|e| e).and_then(|r| r.map_err(|e| format!("{:?}", e)));
    if let Err(e) = loaded.and_then(|x| compare(&x, &want, &paths[..3])) {
      bad.push(json!({"why": format!("loaded from a file: {}", e), "text": t}));
    }
    let inc = format!("include file(\"{}\")", name);
    if let Err(e) = parse(&inc).and_then(|x| compare(&x, &want, &paths[..3])) {
      bad.push(json!({"why": format!("included: {}", e), "text": t}));
    }
    if !matches!(guarded(|| ConfigFactory::new().load_from_file(&(name + ".not-there"))), Ok(Err(_))) {
      bad.push(json!({"why": "a file that is not there is loaded"}));
    }
  }
  // in several files, included one after the other
  let parts: Vec<String> = c["is"].as_array().unwrap().iter().map(string).collect();
  if !parts.is_empty() {
    let gaps = ["", "\n", " ", "\n\n\t", " # x\n", "// y\n"];
    let mut t = gaps[sum % 6].to_string();
    for (k, part) in parts.iter().enumerate() {
      let name = format!("{}.{}", own_name(), (b'a' + k as u8) as char);
      std::fs::write(&name, part).unwrap();
      t.push_str(&format!("include file(\"{}\"){}", name, gaps[(sum / 6 + k) % 6]));
    }
    if let Err(e) = parse(&t).and_then(|x| compare(&x, &want, &paths[..12])) {
      bad.push(json!({"why": format!("included one after the other: {}", e), "text": t, "files": parts}));
    }
  }
  bad.truncate(2);
  (texts.len() as u64, bad)
}

/// The name of a file for this thread.
fn own_name() -> String {
  let n = std::thread::current().id();
  format!("{:?}", n).chars().filter(|c| c.is_ascii_digit()).map(|c| (c as u8 - b'0' + b'a') as char).collect()
}

/// One environment at a time.
fn one_refs(c: &Value, e: usize) -> (u64, Vec<Value>) {
  let paths = universe(&["a", "b", "c", "k", "m"]);
  let mut bad = vec![];
  let w = &c["ws"][e];
  for (k, t) in c["ts"].as_array().unwrap().iter().map(string).enumerate() {
    let r = parse(&t);
    if w["t"] == json!("err") {
      if let Ok(x) = r {
        bad.push(json!({"why": format!("a required reference leads nowhere, but the document has a value: {:?}", x.to_config_value()), "text": t, "env": e}));
      }
    } else if let Err(x) = r.and_then(|x| compare(&x, &wanted(w), if k == 0 { &paths } else { &paths[..8] })) {
      bad.push(json!({"why": x, "text": t, "env": e}));
    }
  }
  bad.truncate(2);
  (2, bad)
}

const SETTINGS: [&[(&str, &str)]; 2] = [&[], &[("SET", "env"), ("b", "envb"), ("c.k", "env ck")]];

fn set_env(e: usize) {
  for (k, _) in SETTINGS[1] {
    std::env::remove_var(k);
  }
  for (k, v) in SETTINGS[e] {
    std::env::set_var(k, v);
  }
}

/// where a literal may stand: text before and behind it; where its value then is; another value that must be there
const PLACES: &[(&str, &str, &str, Option<(&str, &str)>)] = &[
  ("a = ", "", "a", None),
  ("a:", "\nb = 7", "a", Some(("b", "7"))),
  ("b=7,a=", ",c=1", "a", Some(("b", "7"))),
  ("{ a = ", " }", "a", None),
  ("a {b=", "}", "a.b", None),
  ("x = [1]\n'a' : \n", " // , b = 2\nc = 7", "a", Some(("c", "7"))),
  ("a=", "#b\r\nb {c:7}\r\n", "a", Some(("b.c", "7"))),
  ("a=null,a=", "\t,", "a", None),
  ("a.b = 1\na.b.c=", "\n\n", "a.b.c", None),
];

fn one_scalar(c: &Value) -> (u64, Vec<Value>) {
  let few = c["q"].as_array().unwrap().len() > 4;
  let mut bad = vec![];
  let mut runs = 0;
  let mut lits: Vec<(String, Value, usize)> = vec![(string(&c["q"]), wanted(&c["w"]), if few { 3 } else { PLACES.len() })];
  for d in c["ds"].as_array().unwrap() {
    lits.push((string(&d["q"]), wanted(&d["v"]), 1));
  }
  for (x, (q, w, n)) in lits.iter().enumerate() {
    for k in 0..*n {
      let (before, behind, path, other) = PLACES[(k + x * 5 + q.len()) % PLACES.len()];
      let t = format!("{}{}{}", before, q, behind);
      runs += 1;
      let r = parse(&t).and_then(|cfg| {
        let v = cfg.get_value(path).ok_or("nothing found")?;
        let got = guarded(|| observe(v)).map_err(|e| format!("an accessor panics: {}", e))??;
        if got != *w {
          return Err(format!("found {}", got));
        }
        if let Some((p, n)) = other {
          let o = cfg.get_value(p).and_then(|v| v.as_number()).map(|d| d.to_string());
          if o.as_deref() != Some(n) {
            return Err(format!("found {:?} at {}", o, p));
          }
        }
        Ok(())
      });
      if let Err(e) = r {
        bad.push(json!({"why": e, "text": t, "want": w}));
      }
    }
    // in arrays, also of a document that is an array
    let arrays = [(format!("a = [{}]", q), 1), (format!("[{},{}]", q, q), 2), (format!("a = [ 0 ,\n{} // 1 ]\n, {} ]", q, q), 3)];
    for (t, len) in arrays.into_iter().skip((q.len() + x) % 3).step_by(if few { 3 } else { 1 }) {
      runs += 1;
      let r = parse(&t).and_then(|cfg| {
        let root = cfg.to_config_value();
        let v = if root.as_array().is_some() { root } else { cfg.get_value("a").ok_or("nothing found")? };
        let got = guarded(|| observe(v)).map_err(|e| format!("an accessor panics: {}", e))??;
        let es = got["es"].as_array().ok_or("not an array")?;
        if es.is_empty() || es.last() != Some(w) || (es.len() > 1 && es[es.len() - 2] != *w) || es.len() != len {
          return Err(format!("found {}", got));
        }
        Ok(())
      });
      if let Err(e) = r {
        bad.push(json!({"why": e, "text": t, "want": w}));
      }
    }
    if bad.len() > 2 {
      break;
    }
  }
  bad.truncate(2);
  (runs, bad)
}

// ---- random documents ----------------------------------------------------------------------------

const NAMES: [&str; 6] = ["a", "bb", "c-d", "e_F", "G", "h"];

struct Gen<'a> {
  r: &'a mut Rng,
  refs: bool,
  cycles: bool,
  scalars: bool,
}

impl Gen<'_> {
  fn gap(&mut self) -> String {
    match self.r.below(10) {
      0 => " // note, a = ${b} { \n ".into(),
      1 => "# x ] }\r\n\t".into(),
      2 => "\n\n".into(),
      3 => "\t \r\n".into(),
      4..=6 => " ".into(),
      _ => String::new(),
    }
  }
  fn inline(&mut self) -> &'static str {
    *self.r.pick(&["", " ", "  ", "\t", "\t "])
  }
  fn number(&mut self, max: usize) -> String {
    let mut s = String::new();
    if self.r.chance(30) {
      s.push('-');
    }
    let n = 1 + self.r.below(max);
    if self.r.chance(20) {
      s.push('0');
    } else {
      for k in 0..n {
        s.push(char::from(b'0' + if k == 0 { 1 + self.r.below(9) } else { self.r.below(10) } as u8));
      }
    }
    if self.r.chance(40) {
      s.push('.');
      for _ in 0..1 + self.r.below(max) {
        s.push(char::from(b'0' + self.r.below(10) as u8));
      }
    }
    if self.r.chance(25) {
      s.push(*self.r.pick(&['e', 'E']));
      s.push_str(*self.r.pick(&["", "+", "-"]));
      s.push_str(&self.r.below(if max > 6 { 6 } else { 5 }).to_string());
    }
    s
  }
  fn text(&mut self) -> String {
    let ch = *self.r.pick(&['"', '\'']);
    let other = if ch == '"' { '\'' } else { '"' };
    let mut s = String::from(ch);
    for _ in 0..if self.r.chance(2) { 40 + self.r.below(260) } else { self.r.below(9) } {
      match self.r.below(12) {
        0 => s.push_str(*self.r.pick(&["\\n", "\\t", "\\r", "\\b", "\\f", "\\\\", "\\/", "\\\""])),
        1 => s.push_str(&format!("\\u{:04x}", self.r.below(0xD800))),
        2 => s.push_str(*self.r.pick(&["\\ud83d\\ude00", "\\uD83D", "\\udc00", "\\u0041", "\\u000A\\u0022"])),
        3 => s.push(*self.r.pick(&['\u{e9}', '\u{65e5}', '\u{1f600}', '\u{7f}', '\u{a0}', '\t'])),
        4 => s.push(other),
        5 | 6 => s.push(*self.r.pick(&['#', '/', ',', '=', ':', '{', '}', '[', ']', '$', '.', ' ', '+', '-'])),
        _ => s.push(char::from(b'a' + self.r.below(26) as u8)),
      }
    }
    s.push(ch);
    s
  }
  fn path(&mut self, lo: usize) -> String {
    let mut v = vec![NAMES[lo + self.r.below(NAMES.len() - lo)]];
    while v.len() < 4 && self.r.chance(35) {
      v.push(*self.r.pick(&NAMES[..3]));
    }
    v.join(".")
  }
  /// rank: references lead to roots from this one on, unless they may lead back to where they are
  fn reference(&mut self, rank: usize) -> String {
    let opt = self.r.chance(82);
    let p = match self.r.below(8) {
      0 => "SET".to_string(),
      1 if opt => "UNSET".to_string(),
      2 => "c.k".to_string(),
      _ if rank >= NAMES.len() => "SET".to_string(),
      _ => self.path(rank),
    };
    format!("${{{}{}{}{}}}", self.inline(), if opt { "?" } else { "" }, p, self.inline())
  }
  fn value(&mut self, rank: usize, depth: usize) -> String {
    if self.refs && self.r.chance(35) {
      return self.reference(rank);
    }
    match self.r.below(if depth == 0 { 6 } else if self.scalars { 9 } else { 11 }) {
      0 => self.r.pick(&["true", "false", "null"]).to_string(),
      1 | 2 => self.number(10),
      3 => {
        let n = self.number(6);
        let u = *self.r.pick(&[
          "ns", "nano", "nanos", "nanosecond", "nanoseconds", "us", "micro", "micros", "microsecond", "microseconds", "ms", "milli", "millis",
          "millisecond", "milliseconds", "s", "second", "seconds", "m", "minute", "minutes", "h", "hour", "hours", "d", "day", "days",
        ]);
        format!("{}{}{}", n, self.inline(), u)
      }
      4 | 5 => self.text(),
      6 | 7 => {
        let n = if depth == 1 && self.r.chance(4) { 10 + self.r.below(60) } else { self.r.below(4) };
        let mut s = format!("[{}", self.gap());
        for k in 0..n {
          s.push_str(&self.value(rank, depth - 1));
          s.push_str(&self.gap());
          if k + 1 < n || self.r.chance(15) {
            s.push(',');
            s.push_str(&self.gap());
          }
        }
        s + "]"
      }
      _ => self.object(rank, depth),
    }
  }
  fn object(&mut self, rank: usize, depth: usize) -> String {
    format!("{{{}{}{}}}", self.gap(), self.props(rank, depth - 1, false), self.gap())
  }
  fn props(&mut self, rank: usize, depth: usize, top: bool) -> String {
    let n = if !top {
      self.r.below(4)
    } else if self.r.chance(3) {
      10 + self.r.below(30)
    } else {
      1 + self.r.below(9)
    };
    let mut s = String::new();
    for k in 0..n {
      let p = self.path(0);
      let own = if self.cycles {
        0
      } else if top {
        NAMES.iter().position(|n| p.split('.').next() == Some(n)).unwrap() + 1
      } else {
        rank
      };
      if !p.contains('.') && self.r.chance(25) {
        let q = *self.r.pick(&['"', '\'']);
        s.push_str(&format!("{}{}{}", q, p, q));
      } else {
        s.push_str(&p);
      }
      s.push_str(&self.gap());
      if depth > 0 && self.r.chance(25) {
        s.push_str(&self.object(own, depth));
      } else {
        s.push(*self.r.pick(&['=', ':']));
        s.push_str(&self.gap());
        s.push_str(&self.value(own, depth));
      }
      if k + 1 < n {
        match self.r.below(3) {
          0 => s.push_str(&format!("{},{}", self.gap(), self.gap())),
          1 => s.push_str(&format!(" // {}\n", k)),
          _ => s.push('\n'),
        }
      } else if self.r.chance(15) {
        s.push(',');
      }
    }
    s
  }
}

fn record(kind: &str, seed: u64, count: usize, out: &str, sum: &str) {
  let mut r = Rng::new(seed ^ 0x48);
  let (mut lines, mut bad) = (vec![], vec![]);
  let mut last = 9;
  for x in 0..count {
    let e = x * 2 / count;
    if e != last {
      set_env(e);
      last = e;
    }
    let roots = r.chance(25);
    let cycles = kind == "refs" && r.chance(30);
    let mut g = Gen { r: &mut r, refs: kind == "refs", cycles, scalars: kind == "scalars" };
    let mut t = g.gap();
    if roots {
      // several objects or arrays: references only to the environment
      let arr = g.r.chance(40);
      for _ in 0..1 + g.r.below(3) {
        if arr {
          t.push_str(&format!("[{}{}{}]", g.value(9, 2), g.gap(), if g.r.chance(20) { "," } else { "" }));
        } else {
          t.push_str(&g.object(9, 3));
        }
        t.push_str(&g.gap());
      }
    } else {
      t.push_str(&g.props(9, 3, true));
      t.push_str(&g.gap());
    }
    let mut line = json!({"q": codes(&t), "err": false, "w": {"t": "none"},
                          "env": SETTINGS[e].iter().map(|(k, v)| json!({"k": codes(k), "v": codes(v)})).collect::<Vec<_>>()});
    match parse(&t) {
      Err(_) => line["err"] = json!(true),
      Ok(c) => match guarded(|| observe(c.to_config_value())) {
        Ok(Ok(w)) => line["w"] = listed(&w),
        Ok(Err(m)) | Err(m) => {
          bad.push(json!({"why": format!("accessors: {}", m), "text": t}));
          continue;
        }
      },
    }
    lines.push(line);
  }
  write_lines(out, &lines);
  let events: usize = lines.iter().map(|l| l["q"].as_array().unwrap().len()).sum();
  write_json(sum, &json!({"traces": lines.len(), "events": events, "bad": bad}));
}

fn main() {
  main_with(|| {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "trace" && a[2] == "values" {
      values::record(a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5], &a[6]);
      return;
    }
    if a[1] == "trace" {
      record(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5], &a[6]);
      return;
    }
    let cases = tlc_lines(&a[2]);
    match a[1].as_str() {
      "store" => {
        let dir = format!("{}.dir", a[3]);
        std::fs::create_dir_all(&dir).unwrap();
        std::env::set_current_dir(&dir).unwrap();
        replay(&cases, &a[3], |c| one_store(c, &["a", "b", "c"]));
      }
      "refs" => {
        let all: Vec<Value> = (0..2)
          .map(|e| {
            set_env(e);
            let f = format!("{}.{}", a[3], e);
            replay(&cases, &f, |c| one_refs(c, e));
            serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap()
          })
          .collect();
        let n = |k: &str| all.iter().map(|r| r[k].as_u64().unwrap()).sum::<u64>();
        let bad: Vec<Value> = all.iter().flat_map(|r| r["bad"].as_array().unwrap().clone()).collect();
        write_json(&a[3], &json!({"cases": cases.len(), "runs": n("runs"), "mismatches": n("mismatches"), "bad": bad}));
      }
      "values" => replay(&cases, &a[3], values::one),
      "scalars" => replay(&cases, &a[3], one_scalar),
      _ => panic!("what?"),
    }
  });
}
