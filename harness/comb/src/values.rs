//! C11: results, errors, commit statuses and parse states as values.
use oni_comb_parser_rs::prelude::*;
use serde_json::{json, Value};

use crate::grammar::El;

fn text(v: &Value) -> String {
  v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

fn leak<I: El>(v: &Value) -> &'static [I] {
  Box::leak(v.as_array().unwrap().iter().map(|c| I::of_code(c.as_u64().unwrap() as u32)).collect::<Vec<_>>().into_boxed_slice())
}

fn size(v: &Value) -> usize {
  v.as_u64().unwrap() as usize
}

fn error<I: El>(e: &Value) -> ParseError<'static, I> {
  let (w, o, m) = (leak::<I>(&e["w"]), size(&e["o"]), text(&e["m"]));
  let n = if size(&e["n"]) == 2147483000 { usize::MAX } else { size(&e["n"]) };
  let inner = e["in"].as_array().and_then(|a| a.first()).map(|e| Box::new(error::<I>(e)));
  match e["k"].as_str().unwrap() {
    "incomplete" => ParseError::of_in_complete(),
    "mismatch" => ParseError::of_mismatch(w, o, n, m),
    "conversion" => ParseError::of_conversion(w, o, n, m),
    "expect" => ParseError::of_expect(o, inner.unwrap(), m),
    _ => ParseError::of_custom(o, inner, m),
  }
}

fn kinds<I>(e: &ParseError<'_, I>) -> Vec<&'static str> {
  [
    ("incomplete", e.is_in_complete()),
    ("mismatch", e.is_mismatch()),
    ("conversion", e.is_conversion()),
    ("expect", e.is_expect()),
    ("custom", e.is_custom()),
  ]
  .iter()
  .filter(|x| x.1)
  .map(|x| x.0)
  .collect()
}

fn elements<I: El>(xs: &[I]) -> Vec<u32> {
  xs.iter().map(|x| x.code()).collect()
}

fn one_error<I: El>(c: &Value, string: fn(&ParseError<'static, I>) -> Option<String>) -> Vec<Value> {
  let e = error::<I>(&c["e"]);
  let mut bad = vec![];
  let want: Option<Value> = c["input"].as_array().unwrap().first().cloned();
  let got = e.input().map(|xs| json!(elements(xs)));
  if got != want {
    bad.push(json!({"why": "input of an error", "got": got}));
  }
  if kinds(&e) != vec![c["e"]["k"].as_str().unwrap()] {
    bad.push(json!({"why": "kind of an error", "got": kinds(&e)}));
  }
  if e.to_string() != text(&c["shown"]) {
    bad.push(json!({"why": "text of an error", "got": e.to_string(), "want": text(&c["shown"])}));
  }
  if e != e.clone() || e != error::<I>(&c["e"]) {
    bad.push(json!({"why": "an error is not equal to its copy"}));
  }
  let want = if I::CHARS { c["input"].as_array().unwrap().first().map(text) } else { c["bytes"].as_array().unwrap().first().map(text) };
  if string(&e) != want {
    bad.push(json!({"why": "input_string of an error", "got": string(&e), "want": want}));
  }
  bad
}

fn result(r: &Value) -> ParseResult<'static, u8, String> {
  if r["ok"] == json!(true) {
    return ParseResult::successful(text(&r["v"]), size(&r["n"]));
  }
  let e = error::<u8>(&r["e"][0]);
  match r["c"] == json!(true) {
    true if size(&r["e"][0]["o"]) % 2 == 0 => ParseResult::failed_with_commit(e),
    false if size(&r["e"][0]["o"]) % 2 == 0 => ParseResult::failed_with_uncommitted(e),
    c => ParseResult::failed(e, CommittedStatus::from(c)),
  }
}

fn apply(r: ParseResult<'static, u8, String>, o: &Value) -> ParseResult<'static, u8, String> {
  let n = size(&o["n"]);
  match o["o"].as_str().unwrap() {
    "uncommit" => r.with_uncommitted(),
    "commit" => r.add_commit(n == 1),
    "map" => r.map(|v, l| (format!("m({})", v), 2 * l + 1)),
    "mapnone" => r.map(|_, _| ("()".to_string(), 0)),
    "then" => r.flat_map(|v, l| ParseResult::successful(format!("f({},{})", v, l), l + 4)),
    "fail" => r.flat_map(move |_, _| ParseResult::failed(ParseError::of_custom(2, None, "late".into()), CommittedStatus::from(n == 1))),
    "maperr" => {
      let m = o["b"].as_str().unwrap().to_string();
      r.map_err(move |e| ParseError::of_custom(n, Some(Box::new(e.clone())), m.clone()))
    }
    "advance" => r.advance_success(n),
    _ => r.clone(),
  }
}

fn one_result(c: &Value) -> Vec<Value> {
  let mut r = result(&c["from"]);
  for o in c["ops"].as_array().unwrap() {
    r = apply(r, o);
  }
  let want = &c["r"];
  let mut bad = vec![];
  let ok = want["ok"] == json!(true);
  let committed = want["c"] == json!(true);
  let status = r.committed_status().map(|s| (s.is_committed(), s.is_uncommitted()));
  if r.is_success() != ok || r.is_failure() == ok || status != if ok { None } else { Some((committed, !committed)) } {
    bad.push(json!({"why": "success, failure or commitment", "got": format!("{:?}", r)}));
    return bad;
  }
  let shape = match &r {
    ParseResult::Success { value, length } => ok && *value == text(&want["v"]) && *length == size(&want["n"]),
    ParseResult::Failure { error: e, committed_status } => !ok && *e == error::<u8>(&want["e"][0]) && e.to_string() == text(&c["shown"]) && committed_status.is_committed() == committed,
  };
  let value = if ok { Some(text(&want["v"])) } else { None };
  let failure = if ok { None } else { Some(error::<u8>(&want["e"][0])) };
  let whole = match (&value, &failure) {
    (Some(v), _) => Ok(v.clone()),
    (_, Some(e)) => Err(e.clone()),
    _ => unreachable!(),
  };
  if !shape || r.clone().success() != value || r.clone().failure() != failure || r.clone().to_result() != whole {
    bad.push(json!({"why": "value, length or error", "got": format!("{:?}", r)}));
  }
  bad
}

fn one_state<I: El>(c: &Value) -> Vec<Value> {
  let w = leak::<I>(&c["from"]["w"]);
  let mut s = ParseState::new(w, size(&c["from"]["o"]));
  for o in c["ops"].as_array().unwrap() {
    s = if o["o"] == json!("advance") { s.advance_by(size(&o["n"])) } else { s.clone() };
  }
  let o = size(&c["o"]);
  let mut bad = vec![];
  if s.current_offset() != o || s.last_offset() != o.checked_sub(1) {
    bad.push(json!({"why": "offset of a parse state", "got": [s.current_offset(), s.last_offset().unwrap_or(999_999)]}));
  }
  if s.input() != &w[o..] || [0, 1, 2, (w.len() - o) / 2, w.len() - o].iter().any(|n| *n <= w.len() - o && s.slice_with_len(*n) != &w[o..o + n]) {
    bad.push(json!({"why": "input of a parse state"}));
  }
  bad
}

fn one_status(c: &Value) -> Vec<Value> {
  let b = |k: &str| c[k] == json!(true);
  let (x, y) = (CommittedStatus::from(b("x")), CommittedStatus::from(b("y")));
  let r = x.or(y);
  if r.is_committed() != b("r") || r.is_uncommitted() == b("r") || r != CommittedStatus::from(b("r")) || (x == y) != (b("x") == b("y")) {
    return vec![json!({"why": "commit status", "got": format!("{:?}", r)})];
  }
  vec![]
}

pub fn one(c: &Value) -> Vec<Value> {
  match c["a"].as_str().unwrap() {
    "error" => {
      let mut bad = one_error::<u8>(c, |e| e.input_string());
      bad.extend(one_error::<char>(c, |e| e.input_string()));
      bad
    }
    "result" => one_result(c),
    "state" => {
      let mut bad = one_state::<u8>(c);
      bad.extend(one_state::<char>(c));
      bad
    }
    _ => one_status(c),
  }
}
