//! Configuration values built in code: histories, merging, printing (H04).
use crate::common::*;
use crate::{codes, compare, listed, observe, parse, string, wanted};
use oni_comb_hocon_rs::model::{
  ConfigArrayValue, ConfigDurationValue, ConfigMergeable, ConfigNumberValue, ConfigObjectValue, ConfigValue, Monoid, TimeUnit,
};
use rust_decimal::Decimal;
use serde_json::{json, Value};
use std::collections::HashMap;

fn co(v: &Value) -> String {
  let ds: String = v["co"].as_array().unwrap().iter().map(|d| char::from(b'0' + d.as_u64().unwrap() as u8)).collect();
  if ds.is_empty() {
    "0".into()
  } else {
    ds
  }
}

fn whole(v: &Value) -> Option<i128> {
  let ex = v["ex"].as_i64().unwrap();
  let n: i128 = co(v).parse().ok()?;
  if ex < 0 || ex > 25 {
    return None;
  }
  n.checked_mul(10i128.pow(ex as u32)).map(|n| if v["neg"] == json!(true) { -n } else { n })
}

fn number_from(v: &Value, k: usize) -> ConfigNumberValue {
  if let Some(n) = whole(v) {
    macro_rules! through {
      ($($t:ty)*) => {{
        let mut all: Vec<ConfigNumberValue> = vec![];
        $(if let Ok(x) = <$t>::try_from(n) { all.push(ConfigNumberValue::from(x)); })*
        all
      }};
    }
    let mut all = through!(i128 u128 i64 u64 i32 u32 i16 u16 i8 u8 usize);
    if n.abs() < 1 << 20 {
      all.push(ConfigNumberValue::from(n as f64));
      all.push(ConfigNumberValue::from(n as f32));
    }
    all.push(ConfigNumberValue::from(n.to_string()));
    return all.swap_remove(k % all.len());
  }
  let ex = v["ex"].as_i64().unwrap();
  let mut d: i128 = co(v).parse().unwrap();
  if v["neg"] == json!(true) {
    d = -d;
  }
  let d = Decimal::from_i128_with_scale(d, (-ex) as u32);
  match k % 3 {
    0 => ConfigNumberValue::new(d),
    1 => ConfigNumberValue::from(d),
    _ => ConfigNumberValue::from(d.to_string()),
  }
}

const UNITS: &[(i128, TimeUnit)] = &[
  (1, TimeUnit::Nanoseconds),
  (1_000, TimeUnit::Microseconds),
  (1_000_000, TimeUnit::Milliseconds),
  (1_000_000_000, TimeUnit::Seconds),
  (60_000_000_000, TimeUnit::Minutes),
  (3_600_000_000_000, TimeUnit::Hours),
  (86_400_000_000_000, TimeUnit::Days),
];

fn duration_from(n: i128, k: usize) -> ConfigDurationValue {
  let mut all: Vec<ConfigDurationValue> = vec![];
  for (f, u) in UNITS {
    if n % f == 0 {
      all.push(ConfigDurationValue::new(ConfigNumberValue::from(n / f), u.clone()));
    } else if n % (f / 10).max(1) == 0 {
      all.push(ConfigDurationValue::new(ConfigNumberValue::new(Decimal::from_i128_with_scale(n / (f / 10).max(1), 1)), u.clone()));
    }
  }
  if n >= 0 {
    all.push(std::time::Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32).into());
  }
  all.push(chrono::Duration::nanoseconds(n as i64).into());
  all.swap_remove(k % all.len())
}

fn path_text(p: &Value) -> String {
  p.as_array().unwrap().iter().map(string).collect::<Vec<_>>().join(".")
}

/// A node, or a value in the notation of documents.  `k` chooses among the ways of building it.
fn build(v: &Value, k: usize) -> ConfigValue {
  match v["t"].as_str().unwrap() {
    "null" => ConfigValue::Null,
    "bool" => ConfigValue::Bool(v["b"].as_bool().unwrap()),
    "str" => ConfigValue::String(string(&v["s"])),
    "num" => ConfigValue::Number(number_from(v, k)),
    "dur" => ConfigValue::Duration(duration_from(whole(v).unwrap(), k)),
    "arr" => ConfigValue::Array(ConfigArrayValue::new(v["es"].as_array().unwrap().iter().enumerate().map(|(x, e)| build(e, k + x)).collect())),
    "ref" => ConfigValue::of_reference(None, path_text(&v["p"]), v["opt"].as_bool().unwrap()),
    "obj" => object(v["ps"].as_array().unwrap().iter().enumerate().map(|(x, p)| (string(&p["p"][0]), build(&p["v"], k + 3 * x))).collect(), k),
    "hobj" => object(v["kv"].as_array().unwrap().iter().enumerate().map(|(x, p)| (string(&p["k"]), history(&p["v"], k + 5 * x))).collect(), k),
    x => panic!("{}", x),
  }
}

fn object(kv: Vec<(String, ConfigValue)>, k: usize) -> ConfigValue {
  let map = |kv: Vec<(String, ConfigValue)>| kv.into_iter().collect::<HashMap<_, _>>();
  ConfigValue::Object(match k % 4 {
    0 => ConfigObjectValue::new(map(kv)),
    1 => ConfigObjectValue::from(map(kv)),
    2 => {
      let mut o = ConfigObjectValue::new(HashMap::new());
      for x in kv {
        o.merge_with(ConfigObjectValue::from(x));
      }
      o
    }
    _ => {
      let mut o = ConfigObjectValue::new(HashMap::new());
      for x in kv {
        o.combine(&ConfigObjectValue::from(x));
      }
      o
    }
  })
}

fn history(h: &Value, k: usize) -> ConfigValue {
  let h = h.as_array().unwrap();
  let mut v = build(&h[0], k);
  for n in &h[1..] {
    v.push(build(n, k));
  }
  v
}

fn past_node(v: &ConfigValue) -> Result<Value, String> {
  if let Some(o) = v.as_object() {
    let mut keys: Vec<_> = o.keys().collect();
    keys.sort();
    let kv = keys.iter().map(|k| Ok(json!({"k": codes(k), "v": past(&o[*k])?}))).collect::<Result<Vec<_>, String>>()?;
    return Ok(json!({"t": "hobj", "kv": kv}));
  }
  if let Some(a) = v.as_array() {
    return Ok(json!({"t": "arr", "es": a.iter().map(past_node).collect::<Result<Vec<_>, _>>()?}));
  }
  observe(v)
}

/// Everything a value has been, oldest first.
fn past(v: &ConfigValue) -> Result<Value, String> {
  let all = v.to_vec();
  if all.last() != Some(v.latest()) {
    return Err(format!("the latest value is {:?}, the last of all {:?}", v.latest(), all.last()));
  }
  Ok(Value::Array(all.iter().map(past_node).collect::<Result<Vec<_>, _>>()?))
}

fn sorted(h: &Value) -> Value {
  let node = |n: &Value| match n["t"].as_str().unwrap() {
    "hobj" => {
      let mut kv: Vec<(String, Value)> =
        n["kv"].as_array().unwrap().iter().map(|p| (string(&p["k"]), json!({"k": p["k"], "v": sorted(&p["v"])}))).collect();
      kv.sort_by(|a, b| a.0.cmp(&b.0));
      json!({"t": "hobj", "kv": kv.into_iter().map(|x| x.1).collect::<Vec<_>>()})
    }
    "arr" => json!({"t": "arr", "es": n["es"].as_array().unwrap().iter().map(|e| sorted(&json!([e]))[0].clone()).collect::<Vec<_>>()}),
    _ => n.clone(),
  };
  Value::Array(h.as_array().unwrap().iter().map(node).collect())
}

fn read_back(v: &ConfigValue, want: &Value) -> Result<(), String> {
  let t = v.to_string();
  let c = parse(&t).map_err(|e| format!("printed as {:?}, which does not read back: {}", t, e))?;
  compare(&c, want, &[]).map_err(|e| format!("printed as {:?}: {}", t, e))
}

fn look(v: &ConfigValue, want: &Value) -> Result<(), String> {
  if observe(v.latest())? != *want {
    return Err(format!("found {}", observe(v.latest())?));
  }
  let mut paths: Vec<Vec<&str>> = vec![vec![]];
  let mut last = paths.clone();
  for _ in 0..3 {
    last = last.iter().flat_map(|p| ["a", "b", "c"].iter().map(move |n| [p.clone(), vec![*n]].concat())).collect();
    paths.extend(last.iter().cloned());
  }
  let v = v.latest();
  for p in &paths[1..] {
    let t = p.join(".");
    let expected = crate::lookup(want, p);
    if v.has_path(&t) != expected.is_some() || (p.len() == 1 && v.contains(&t) != expected.is_some()) {
      return Err(format!("has_path({}) = {}", t, v.has_path(&t)));
    }
    match v.get_value(&t) {
      None if expected.is_none() => {}
      Some(x) if expected.is_some() && observe(x)? == *expected.unwrap() => {}
      x => return Err(format!("get_value({}) = {:?}", t, x)),
    }
  }
  Ok(())
}

fn hist(c: &Value, k: usize) -> Result<(), String> {
  let want = wanted(&c["w"]);
  let ops = c["ops"].as_array().unwrap();
  let mut v = history(&ops[0]["w"], k);
  for op in &ops[1..] {
    let mut w = history(&op["w"], k + 1);
    match op["o"].as_str().unwrap() {
      "push" => v.push(w),
      "merge" => {
        // two objects also merge as such
        match (&v, &w) {
          (ConfigValue::Object(a), ConfigValue::Object(b)) if k % 2 == 0 => {
            let mut a = a.clone();
            a.merge_with(b.clone());
            v = ConfigValue::Object(a);
          }
          _ => v.merge_with(w),
        }
      }
      _ => {
        let (ConfigValue::Array(a), ConfigValue::Array(b)) = (&mut v, &mut w) else { panic!("not arrays") };
        if k % 2 == 0 {
          a.combine(b);
          if b.as_array().len() != build(&op["w"][0], k + 1).as_array().unwrap().len() {
            return Err("combine changes its argument".into());
          }
        } else {
          a.merge_with(b.clone());
        }
      }
    }
  }
  let got = past(&v)?;
  if got != sorted(&c["to"]) {
    return Err(format!("its past is {}", got));
  }
  look(&v, &want)?;
  if v.clone() != v || history(&c["to"], k) != v {
    return Err("it does not equal the same value built anew".into());
  }
  if v.latest().as_object().is_some() || v.latest().as_array().is_some() {
    read_back(&v, &want)?;
  }
  Ok(())
}

pub fn one(c: &Value) -> (u64, Vec<Value>) {
  let sum: usize = c.to_string().bytes().map(|b| b as usize).sum();
  let ks = [sum, sum + 1];
  let mut bad = vec![];
  for k in ks {
    let r = guarded(|| if c.get("ops").is_some() { hist(c, k) } else { read_back(&build(&c["v"], k), &wanted(&c["w"])) });
    if let Err(e) | Ok(Err(e)) = r {
      bad.push(json!({"why": e}));
      break;
    }
  }
  (2, bad)
}

// ---- random values -------------------------------------------------------------------------------

fn text(r: &mut Rng) -> String {
  let n = if r.chance(3) { 30 + r.below(200) } else { r.below(8) };
  (0..n)
    .map(|_| match r.below(8) {
      0 => *r.pick(&['"', '\\', '\n', '\r', '\t', '\u{8}', '\u{c}', '/', '\'']),
      1 => *r.pick(&['$', '{', '}', '[', ']', ',', '=', ':', '#', '+', '?', '-', ' ']),
      2 => *r.pick(&['\u{e9}', '\u{65e5}', '\u{1f600}', '\u{7f}', '\u{1}', '\u{0}', '\u{2028}', '\u{fffd}']),
      3 => char::from_u32(r.below(0xD800) as u32).unwrap(),
      _ => char::from(b'a' + r.below(26) as u8),
    })
    .collect()
}

fn random(r: &mut Rng, depth: usize, k: usize, past: bool) -> ConfigValue {
  match r.below(if depth == 0 { 6 } else { 9 }) {
    0 => r.pick(&[ConfigValue::Null, ConfigValue::Bool(true), ConfigValue::Bool(false)]).clone(),
    1 | 2 => {
      let d = Decimal::from_i128_with_scale(r.range(-1 << 40, 1 << 40) as i128 * r.range(1, 1 << 30) as i128, r.below(12) as u32);
      ConfigValue::Number(ConfigNumberValue::new(d))
    }
    3 => ConfigValue::Duration(duration_from(r.range(-1 << 30, 1 << 40) as i128 * *r.pick(&[1i128, 1_000, 1_000_000, 60_000]), r.below(9))),
    4 | 5 => ConfigValue::String(text(r)),
    6 => {
      let n = if r.chance(4) { 20 + r.below(40) } else { r.below(4) };
      let es = (0..n).map(|_| random(r, depth - 1, k, past)).collect();
      ConfigValue::Array(ConfigArrayValue::new(es))
    }
    _ => random_object(r, depth, k, past),
  }
}

fn random_object(r: &mut Rng, depth: usize, k: usize, past: bool) -> ConfigValue {
  let n = if r.chance(4) { 10 + r.below(20) } else { r.below(4) };
  let mut kv: Vec<(String, ConfigValue)> = vec![];
  for _ in 0..n {
    let name = if r.chance(70) { r.pick(&["a", "b", "cc", "d-e", "F_g"]).to_string() } else { text(r).replace('.', "") };
    if !kv.iter().any(|x| x.0 == name) {
      let mut v = random(r, depth - 1, k, past);
      if past && r.chance(15) {
        v.push(random(r, depth - 1, k, past));
      }
      kv.push((name, v));
    }
  }
  object(kv, k)
}

/// Values are printed one behind the other: what is read there is what merging them gives.
pub fn record(seed: u64, count: usize, out: &str, sum: &str) {
  let mut r = Rng::new(seed ^ 0x484);
  let (mut lines, mut bad) = (vec![], vec![]);
  for _ in 0..count {
    let arr = r.chance(25);
    let k = r.below(12);
    // the past of what is merged into another value would not be seen in the text
    let vs: Vec<ConfigValue> = (0..*r.pick(&[1, 1, 2, 2, 3, 4]))
      .map(|x| {
        if arr {
          let n = r.below(4);
          ConfigValue::Array(ConfigArrayValue::new((0..n).map(|_| random(&mut r, 2, k, x == 0)).collect()))
        } else {
          random_object(&mut r, 3, k, x == 0)
        }
      })
      .collect();
    let q = vs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(*r.pick(&["", " ", "\n"]));
    let got = guarded(|| {
      let mut v = vs[0].clone();
      for w in &vs[1..] {
        match (&mut v, w) {
          (ConfigValue::Array(a), ConfigValue::Array(b)) => a.merge_with(b.clone()),
          (a, b) => a.merge_with(b.clone()),
        }
      }
      let w = observe(&v)?;
      let c = parse(&q)?;
      compare(&c, &w, &[])?;
      read_back(&v, &w)?;
      Ok::<_, String>(w)
    });
    match got {
      Ok(Ok(w)) => lines.push(json!({"q": codes(&q), "err": false, "w": listed(&w), "env": []})),
      Ok(Err(e)) | Err(e) => bad.push(json!({"why": e, "text": q})),
    }
  }
  write_lines(out, &lines);
  let events: usize = lines.iter().map(|l| l["q"].as_array().unwrap().len()).sum();
  bad.truncate(60);
  write_json(sum, &json!({"traces": lines.len(), "events": events, "bad": bad}));
}
