//! Conformance harness for uri/.
#[path = "../../common/common.rs"]
mod common;
use common::*;
use oni_comb_uri_rs::models::authority::Authority;
use oni_comb_uri_rs::models::hier_part::HierPart;
use oni_comb_uri_rs::models::host_name::{HostName, IpLiteral};
use oni_comb_uri_rs::models::path::Path;
use oni_comb_uri_rs::models::query::Query;
use oni_comb_uri_rs::models::scheme::Scheme;
use oni_comb_uri_rs::models::uri::Uri;
use oni_comb_uri_rs::models::user_info::UserInfo;
use serde_json::{json, Value};

fn string(v: &Value) -> String {
  v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

fn codes(s: &str) -> Value {
  s.chars().map(|c| c as u32).collect::<Vec<_>>().into()
}

fn parse(t: &str) -> Option<Uri> {
  Uri::parse(t).ok()
}

fn host(h: Option<&HostName>) -> Value {
  match h {
    None => json!({"k": "none", "s": [], "a": []}),
    Some(h @ HostName::Ipv4Address(a)) => json!({"k": "v4", "s": codes(&h.to_string()), "a": a.octets().to_vec()}),
    Some(HostName::IpLiteral(IpLiteral::Ipv6Address(a))) => json!({"k": "v6", "s": [], "a": a.segments().to_vec()}),
    Some(HostName::IpLiteral(IpLiteral::IpvFuture(s))) => json!({"k": "fut", "s": codes(s), "a": []}),
    Some(HostName::RegName(s)) => json!({"k": "reg", "s": codes(s), "a": []}),
  }
}

/// The parameters as the printed query lists them.
fn params(printed: &str) -> Value {
  printed
    .split('&')
    .map(|p| match p.find('=') {
      None => json!({"k": codes(p), "hv": false, "v": []}),
      Some(x) => json!({"k": codes(&p[..x]), "hv": true, "v": codes(&p[x + 1..])}),
    })
    .collect()
}

/// The components in the specification's notation.
fn components(u: Option<&Uri>) -> Value {
  let no_user = json!({"has": false, "u": [], "hp": false, "p": []});
  match u {
    None => json!({"ok": false, "hs": false, "sch": [], "ha": false, "user": no_user, "host": host(None), "port": -1,
                   "pk": "none", "parts": [], "hq": false, "q": [], "hf": false, "f": []}),
    Some(u) => json!({
      "ok": true,
      "hs": u.schema().is_some(),
      "sch": codes(&u.schema().map(|s| s.to_string()).unwrap_or_default()),
      "ha": u.authority().is_some(),
      "user": u.user_info().map(|i| json!({"has": true, "u": codes(i.user_name()), "hp": i.password().is_some(),
                                           "p": codes(i.password().unwrap_or(""))})).unwrap_or(no_user),
      "host": host(u.host_name()),
      "port": u.port().map(|p| p as i64).unwrap_or(-1),
      "pk": u.path().map(|p| p.type_name().trim_end_matches("_path")).unwrap_or("none"),
      "parts": u.path().map(|p| p.parts().iter().map(|s| codes(s)).collect::<Vec<_>>()).unwrap_or_default(),
      "hq": u.query().is_some(),
      "q": u.query().map(|q| params(&q.as_string())).unwrap_or(json!([])),
      "hf": u.fragment().is_some(),
      "f": codes(u.fragment().map(|s| s.as_str()).unwrap_or("")),
    }),
  }
}

/// The printed form, with the notation of an IPv6 address replaced by the code -6.
fn printed(u: &Uri) -> Value {
  let s = u.to_string();
  if let Some(HostName::IpLiteral(IpLiteral::Ipv6Address(a))) = u.host_name() {
    let lit = format!("[{}]", a);
    if let Some(x) = s.find(&lit) {
      let mut v: Vec<i64> = s[..x + 1].chars().map(|c| c as i64).collect();
      v.push(-6);
      v.extend(s[x + lit.len() - 1..].chars().map(|c| c as i64));
      return v.into();
    }
  }
  codes(&s)
}

/// The same URI assembled from its components.
fn assembled(c: &Value, literal: Option<&HostName>) -> Uri {
  let some = |has: &str, k: &str| if c[has] == json!(true) { Some(string(&c[k])) } else { None };
  let host = |h: &Value| match h["k"].as_str().unwrap() {
    "reg" => HostName::RegName(string(&h["s"])),
    "fut" => HostName::IpLiteral(IpLiteral::IpvFuture(string(&h["s"]))),
    "v4" => HostName::Ipv4Address(string(&h["s"]).parse().unwrap()),
    _ => literal.unwrap().clone(),
  };
  let authority = if c["ha"] == json!(true) {
    let u = &c["user"];
    let user = if u["has"] == json!(true) {
      Some(UserInfo::new(string(&u["u"]), if u["hp"] == json!(true) { Some(string(&u["p"])) } else { None }))
    } else {
      None
    };
    Some(Authority::new(host(&c["host"]), u16::try_from(c["port"].as_i64().unwrap()).ok(), user))
  } else {
    None
  };
  let parts: Vec<String> = c["parts"].as_array().unwrap().iter().map(string).collect();
  let hier = match c["pk"].as_str().unwrap() {
    "none" => None,
    "rootless" => Some(HierPart::of_path(Path::of_rootless_from_strings(&parts))),
    _ => Some(HierPart::new(authority, Path::of_abempty_from_strings(&parts))),
  };
  let q = c["q"].as_array().unwrap().iter().map(|p| (string(&p["k"]), if p["hv"] == json!(true) { Some(string(&p["v"])) } else { None })).collect();
  Uri::new(
    some("hs", "sch").map(Scheme::new),
    hier,
    if c["hq"] == json!(true) { Some(Query::new(q)) } else { None },
    some("hf", "f"),
  )
}

fn one_parse(c: &Value) -> (u64, Vec<Value>) {
  let t = string(&c["t"]);
  let mut want = c["u"].clone();
  if want["host"]["k"] == json!("v6") {
    want["host"]["s"] = json!([]);
  }
  let mut bad = vec![];
  let got = match guarded(|| parse(&t)) {
    Ok(u) => u,
    Err(e) => return (1, vec![json!({"why": format!("parsing panics: {}", e), "text": t})]),
  };
  let shown = components(got.as_ref());
  if shown != want {
    bad.push(json!({"why": "components", "text": t, "got": got.as_ref().map(|u| format!("{:?}", u)).unwrap_or("rejected".into())}));
    return (1, bad);
  }
  let u = match got {
    None => return (1, bad),
    Some(u) => u,
  };
  if printed(&u) != c["pr"] {
    bad.push(json!({"why": "printed form", "text": t, "got": u.to_string(), "want": c["pr"]}));
  }
  let again = parse(&u.to_string());
  if again.as_ref() != Some(&u) {
    bad.push(json!({"why": "parsing the printed form gives another URI", "text": t, "printed": u.to_string()}));
  }
  if u.is_absolute() != (want["hf"] == json!(false)) {
    bad.push(json!({"why": "is_absolute", "text": t}));
  }
  let a = assembled(&want, u.host_name());
  if a != u || a.to_string() != u.to_string() {
    bad.push(json!({"why": "the URI assembled from the components differs", "text": t, "assembled": format!("{:?}", a)}));
  }
  (3, bad)
}

fn one_host(c: &Value) -> (u64, Vec<Value>) {
  let h = string(&c["h"]);
  let mut want = c["r"].clone();
  if want["k"] == json!("v6") {
    want["s"] = json!([]);
  }
  let mut bad = vec![];
  for t in [format!("s://{}", h), format!("s://{}:80/p", h), format!("://u:p@{}?q", h), format!("s://@{}:#f", h)] {
    match guarded(|| parse(&t)) {
      Err(e) => bad.push(json!({"why": format!("parsing panics: {}", e), "text": t})),
      Ok(u) => {
        if host(u.as_ref().and_then(|u| u.host_name())) != want {
          bad.push(json!({"why": "host", "text": t, "got": u.map(|u| format!("{:?}", u.host_name())).unwrap_or("rejected".into())}));
        } else if let Some(u) = u {
          let literal = matches!(u.host_name(), Some(HostName::IpLiteral(_)));
          let shown = u.host_name().unwrap().to_string();
          if (want["k"] != json!("v6") && shown != h) || literal != shown.starts_with('[') || parse(&u.to_string()).as_ref() != Some(&u) {
            bad.push(json!({"why": "printed host", "text": t, "got": u.to_string()}));
          }
        }
      }
    }
  }
  bad.truncate(2);
  (4, bad)
}

fn apply(q: &mut Query, o: &str, k: String, v: Option<String>) {
  match o {
    "add" => q.add(k, v.unwrap()),
    _ => q.add_opt(k, v),
  }
}

fn lookup(q: &Query, k: &Value) -> Value {
  let name = string(k);
  let got: Option<Vec<Value>> = q.get_param(name.clone()).map(|vs| vs.into_iter().map(|s| codes(s)).collect());
  let map: Option<Vec<Value>> = q.params().get(&name).map(|vs| vs.iter().map(|s| codes(s)).collect());
  if got != map {
    return json!({"k": k, "has": "get_param and params disagree", "vs": map});
  }
  json!({"k": k, "has": got.is_some(), "vs": got.unwrap_or_default()})
}

fn pairs(v: &Value) -> Vec<(String, Option<String>)> {
  v.as_array().unwrap().iter().map(|p| (string(&p["k"]), if p["hv"] == json!(true) { Some(string(&p["v"])) } else { None })).collect()
}

fn one_query(c: &Value) -> (u64, Vec<Value>) {
  let from = &c["from"];
  let mut starts = vec![];
  if from["kind"] == json!("text") {
    let t = string(&from["t"]);
    for text in [format!("s:?{}", t), format!("http://h/p?{}#f", t)] {
      match guarded(|| parse(&text)) {
        Err(e) => return (1, vec![json!({"why": format!("parsing panics: {}", e), "text": text})]),
        Ok(None) if c["ok"] == json!(false) => {}
        Ok(Some(u)) if c["ok"] == json!(true) && u.query().is_some() => starts.push(u.query().unwrap().clone()),
        Ok(u) => return (1, vec![json!({"why": "accepted or rejected", "text": text, "got": format!("{:?}", u)})]),
      }
    }
  } else {
    let ps = pairs(&from["ps"]);
    starts.push(Query::new(ps.clone()));
    starts.push(Query::from(ps.clone()));
    starts.push(Query::from(ps.iter().map(|(k, v)| (k.as_str(), v.as_deref())).collect::<Vec<_>>()));
    if ps.is_empty() {
      starts.push(Query::default());
    }
  }
  let mut bad = vec![];
  let mut runs = 0;
  for mut q in starts {
    runs += 1;
    for o in c["ops"].as_array().unwrap() {
      let v = if o["hv"] == json!(true) { Some(string(&o["v"])) } else { None };
      apply(&mut q, o["o"].as_str().unwrap(), string(&o["k"]), v);
    }
    let text = string(&c["pr"]);
    if q.as_string() != text || q.to_string() != text {
      bad.push(json!({"why": "printed query", "got": q.as_string(), "want": text}));
    }
    if q != Query::new(pairs(&c["ps"])) {
      bad.push(json!({"why": "parameters", "got": format!("{:?}", q)}));
    }
    if q.params().len() as u64 != c["n"].as_u64().unwrap() {
      bad.push(json!({"why": "number of names", "got": q.params().len()}));
    }
    for l in c["lk"].as_array().unwrap() {
      let got = lookup(&q, &l["k"]);
      if got != *l {
        bad.push(json!({"why": "lookup", "query": text, "name": string(&l["k"]), "got": got}));
      }
    }
  }
  bad.truncate(2);
  (runs, bad)
}

// ---- models put together by a program --------------------------------------------------------------

fn path_of(k: &str, parts: &[String], style: usize) -> Path {
  let strs: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
  match (k, style % 2) {
    ("rootless", 0) => Path::of_rootless_from_strs(&strs),
    ("rootless", _) => Path::of_rootless_from_strings(parts),
    ("abempty", 0) => Path::of_abempty_from_strs(&strs),
    ("abempty", _) => Path::of_abempty_from_strings(parts),
    ("absolute", 0) => Path::of_absolute_from_strs(&strs),
    ("absolute", _) => Path::of_absolute_from_strings(parts),
    ("no_scheme", 0) => Path::of_no_scheme_from_strs(&strs),
    ("no_scheme", _) => Path::of_no_scheme_from_strings(parts),
    (_, 0) => Path::of_empty(),
    _ => Path::default(),
  }
}

fn strings(v: &Value) -> Vec<String> {
  v.as_array().unwrap().iter().map(string).collect()
}

fn host_of(h: &Value) -> HostName {
  let a: Vec<u16> = h["a"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
  match h["k"].as_str().unwrap() {
    "reg" => HostName::RegName(string(&h["s"])),
    "fut" => HostName::IpLiteral(IpLiteral::IpvFuture(string(&h["s"]))),
    "v4" => HostName::Ipv4Address(std::net::Ipv4Addr::new(a[0] as u8, a[1] as u8, a[2] as u8, a[3] as u8)),
    _ => HostName::IpLiteral(IpLiteral::Ipv6Address(std::net::Ipv6Addr::new(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]))),
  }
}

fn one_model(c: &Value) -> (u64, Vec<Value>) {
  match c["a"].as_str().unwrap() {
    "path" => model_path(c),
    "order" => model_order(c),
    _ => model_uri(c),
  }
}

fn path_op(p: &mut Path, o: &str, ps: Vec<String>) {
  match o {
    "add" => p.add_part(ps[0].clone()),
    "adds" => p.add_parts(ps),
    "with" => p.with_parts(ps),
    "rootless" => *p = p.to_rootless(),
    "absolute" => *p = p.to_absolute(),
    _ => *p = p.clone(),
  }
}

fn model_path(c: &Value) -> (u64, Vec<Value>) {
  let mut bad = vec![];
  for style in 0..2 {
    let mut p = path_of(c["from"]["k"].as_str().unwrap(), &strings(&c["from"]["parts"]), style);
    for o in c["ops"].as_array().unwrap() {
      let ps = strings(&o["ps"]);
      path_op(&mut p, o["o"].as_str().unwrap(), ps);
    }
    let (k, parts, text) = (c["k"].as_str().unwrap(), strings(&c["parts"]), string(&c["pr"]));
    let empty = c["empty"] == json!(true);
    if p.type_name() != format!("{}_path", k) || p.parts() != &parts || p.to_string() != text || p.is_empty() != empty || p.non_empty() == empty {
      bad.push(json!({"why": "path", "got": format!("{:?}", p), "printed": p.to_string(), "is_empty": p.is_empty()}));
    }
    if p != path_of(k, &parts, style + 1) {
      bad.push(json!({"why": "a path differs from the same path made at once", "got": format!("{:?}", p)}));
    }
  }
  (2, bad)
}

fn model_order(c: &Value) -> (u64, Vec<Value>) {
  let (x, y) = (Query::new(pairs(&c["x"])), Query::from(pairs(&c["y"])));
  let got = x.partial_cmp(&y).map(|o| o as i64);
  let bad = if got != c["o"].as_i64() {
    vec![json!({"why": "order of queries", "x": x.to_string(), "y": y.to_string(), "got": got})]
  } else if (x == y) != (c["x"] == c["y"]) {
    vec![json!({"why": "equality of queries", "x": x.to_string(), "y": y.to_string()})]
  } else {
    vec![]
  };
  (1, bad)
}

struct Made {
  scheme: Option<Scheme>,
  hier: Option<HierPart>,
  authority: Option<Authority>,
  path: Path,
  host: HostName,
  port: Option<u16>,
  user: Option<UserInfo>,
  query: Option<Query>,
  fragment: Option<String>,
}

fn build(b: &Value, style: usize) -> (Uri, Made) {
  let yes = |v: &Value| v == &json!(true);
  let scheme = if yes(&b["hs"]) { Some(string(&b["sch"])) } else { None };
  let port = u16::try_from(b["port"].as_i64().unwrap()).ok();
  let host = if yes(&b["ha"]) { host_of(&b["host"]) } else { HostName::default() };
  let path = path_of(b["path"]["k"].as_str().unwrap(), &strings(&b["path"]["parts"]), style);
  let user = if yes(&b["user"]["has"]) {
    let (u, p) = (string(&b["user"]["u"]), if yes(&b["user"]["hp"]) { Some(string(&b["user"]["p"])) } else { None });
    Some(if style == 0 { UserInfo::new(u, p) } else { UserInfo::from((u.as_str(), p.as_deref())) })
  } else {
    None
  };
  let authority = if yes(&b["ha"]) { Some(Authority::new(host.clone(), port, user.clone())) } else { None };
  let hier = if !yes(&b["hh"]) {
    None
  } else if authority.is_none() && style == 0 {
    Some(HierPart::of_path(path.clone()))
  } else {
    Some(HierPart::new(authority.clone(), path.clone()))
  };
  let query = if yes(&b["hq"]) { Some(if style == 0 { Query::new(pairs(&b["q"])) } else { Query::from(pairs(&b["q"])) }) } else { None };
  let scheme = scheme.map(|s| match style {
    0 => Scheme::new(s),
    _ if s.len() % 2 == 0 => Scheme::from(s.as_str()),
    _ => Scheme::from(s.as_bytes()),
  });
  let fragment = if yes(&b["hf"]) { Some(string(&b["f"])) } else { None };
  let u = Uri::new(scheme.clone(), hier.clone(), query.clone(), fragment.clone());
  (u, Made { scheme, hier, authority, path, host, port, user, query, fragment })
}

fn model_uri(c: &Value) -> (u64, Vec<Value>) {
  let b = &c["b"];
  let mut bad = vec![];
  let mut made: Vec<Uri> = vec![];
  for style in 0..2 {
    let (u, m) = build(b, style);
    if u.schema() != m.scheme.as_ref()
      || u.authority() != m.authority.as_ref()
      || u.host_name() != m.authority.as_ref().map(|_| &m.host)
      || u.port() != m.authority.as_ref().and(m.port)
      || u.user_info() != m.authority.as_ref().and(m.user.as_ref())
      || u.path() != m.hier.as_ref().map(|_| &m.path)
      || u.query() != m.query.as_ref()
      || u.fragment() != m.fragment.as_ref()
      || u.is_absolute() != m.fragment.is_none()
    {
      bad.push(json!({"why": "the accessors do not give the components back", "got": format!("{:?}", u)}));
    }
    if let Some(a) = &m.authority {
      if a.host_name() != &m.host || a.port() != m.port || a.user_info() != m.user.as_ref() {
        bad.push(json!({"why": "the authority does not give its components back", "got": format!("{:?}", a)}));
      }
    }
    if let Some(i) = &m.user {
      let p = if b["user"]["hp"] == json!(true) { Some(string(&b["user"]["p"])) } else { None };
      if i.user_name() != string(&b["user"]["u"]) || i.password() != p.as_deref() {
        bad.push(json!({"why": "the user information does not give its components back", "got": format!("{:?}", i)}));
      }
    }
    let whole = u.to_string();
    let pieces = format!(
      "{}:{}{}{}",
      m.scheme.map(|s| s.to_string()).unwrap_or_default(),
      m.hier.map(|h| h.to_string()).unwrap_or_default(),
      m.query.map(|q| format!("?{}", q)).unwrap_or_default(),
      m.fragment.as_ref().map(|f| format!("#{}", f)).unwrap_or_default()
    );
    if printed(&u) != c["pr"] || whole != pieces {
      bad.push(json!({"why": "printed form", "got": whole, "pieces": pieces}));
    }
    made.push(u);
  }
  if made[0] != made[1] || made[0] != made[0].clone() {
    bad.push(json!({"why": "equal components make unequal URIs", "got": format!("{:?}", made)}));
  }
  let text = made[0].to_string();
  let back = parse(&text);
  if components(back.as_ref()) != c["back"] {
    bad.push(json!({"why": "the printed text read back", "text": text, "got": back.map(|u| format!("{:?}", u)).unwrap_or("rejected".into())}));
  } else if c["fits"] == json!(true) && back.as_ref() != Some(&made[0]) {
    bad.push(json!({"why": "a URI printed and read is another", "text": text}));
  }
  bad.truncate(2);
  (3, bad)
}

// ---- random cases --------------------------------------------------------------------------------

const PLAIN: &[u8] = b"abcxyzABZ0189-._~!$'()*+,;";

fn word(r: &mut Rng, lo: usize, hi: usize, extra: &str) -> String {
  let mut n = lo + r.below(hi - lo + 1);
  if r.below(150) == 0 {
    n = (n + 1) * (5 + r.below(60));
  }
  let mut s = String::new();
  for _ in 0..n {
    match r.below(8) {
      0 => s.push_str(&format!("%{:02x}", r.below(256))),
      1 => s.push_str(&format!("%{:02X}", r.below(256))),
      2 | 3 if !extra.is_empty() => s.push(*r.pick(&extra.chars().collect::<Vec<_>>())),
      _ => s.push(*r.pick(PLAIN) as char),
    }
  }
  s
}

fn six(r: &mut Rng) -> String {
  let group = |r: &mut Rng| {
    let n = 1 + r.below(4);
    (0..n).map(|_| *r.pick(b"0123456789abcdefABCDEF") as char).collect::<String>()
  };
  let four = |r: &mut Rng| (0..4).map(|_| r.below(256).to_string()).collect::<Vec<_>>().join(".");
  let run = |r: &mut Rng, n: usize, tail: bool| {
    let mut v: Vec<String> = (0..n).map(|_| group(r)).collect();
    if tail {
      v.push(four(r));
    }
    v.join(":")
  };
  if r.chance(25) {
    let tail = r.chance(30);
    let n = if r.chance(80) { if tail { 6 } else { 8 } } else { r.below(10) };
    run(r, n, tail)
  } else {
    let l = r.below(8);
    let rest = r.below(9 - l.min(8));
    let tail = r.chance(20);
    format!("{}::{}", run(r, l, false), run(r, rest, tail))
  }
}

fn host_text(r: &mut Rng) -> String {
  match r.below(6) {
    0 => (0..4).map(|_| r.below(if r.0 % 3 == 0 { 300 } else { 256 }).to_string()).collect::<Vec<_>>().join("."),
    1 | 2 => format!("[{}]", six(r)),
    3 => format!("[v{:x}.{}]", r.below(300), word(r, 1, 6, ":").replace('%', "")),
    4 if r.chance(30) => String::new(),
    _ => word(r, 1, 12, ".-&="),
  }
}

fn uri_text(r: &mut Rng) -> String {
  let mut s = String::new();
  if r.chance(90) {
    s.push(*r.pick(b"abzAZ") as char);
    for _ in 0..r.below(6) {
      s.push(*r.pick(b"abzAZ059+-.") as char);
    }
  }
  s.push(':');
  let authority = r.chance(65);
  if authority {
    s.push_str("//");
    if r.chance(40) {
      s.push_str(&word(r, 0, 6, "&="));
      if r.chance(60) {
        s.push(':');
        s.push_str(&word(r, 0, 6, ":&="));
      }
      s.push('@');
    }
    s.push_str(&host_text(r));
    if r.chance(50) {
      s.push(':');
      if r.chance(80) {
        if r.chance(20) {
          s.push_str(&"0".repeat(1 + r.below(9)));
        }
        s.push_str(&r.below(if r.0 % 4 == 0 { 70000 } else { 65536 }).to_string());
      }
    }
  } else if r.chance(60) {
    s.push_str(&word(r, 1, 6, ":@&="));
  }
  for _ in 0..if r.below(60) == 0 { r.below(60) } else { r.below(5) } {
    s.push('/');
    s.push_str(&word(r, if authority || s.len() > 3 && !s.ends_with(":/") { 0 } else { 1 }, 6, ":@&="));
  }
  if r.chance(60) {
    s.push('?');
    s.push_str(&query_text(r));
  }
  if r.chance(50) {
    s.push('#');
    s.push_str(&word(r, 0, 8, ":@/?&="));
  }
  s
}

fn query_text(r: &mut Rng) -> String {
  let names = ["a", "b", "key", "", "%41", "k/?"];
  (0..if r.below(40) == 0 { r.below(80) } else { r.below(7) })
    .map(|_| {
      let k = if r.chance(70) { r.pick(&names).to_string() } else { word(r, 1, 5, "/?:@") };
      if r.chance(70) {
        format!("{}={}", k, word(r, 0, 5, "=/?:@"))
      } else {
        k
      }
    })
    .collect::<Vec<_>>()
    .join("&")
}

fn mutate(r: &mut Rng, s: &str) -> String {
  let mut v: Vec<char> = s.chars().collect();
  let pool: Vec<char> = "a1:/?#@[]%=&.+- \"<>\\^`{|}~\u{e9}".chars().collect();
  for _ in 0..1 + r.below(3) {
    let k = r.below(v.len() + 1);
    match r.below(4) {
      0 => v.insert(k, *r.pick(&pool)),
      1 if k < v.len() => {
        v.remove(k);
      }
      2 if k + 1 < v.len() => v.swap(k, k + 1),
      _ if k < v.len() => v[k] = *r.pick(&pool),
      _ => {}
    }
  }
  v.into_iter().collect()
}

fn see(q: &Query, o: &str, k: &str, v: Option<&str>, asked: &[Value]) -> Value {
  json!({"o": o, "k": codes(k), "hv": v.is_some(), "v": codes(v.unwrap_or("")), "pr": codes(&q.as_string()), "n": q.params().len(),
         "lk": asked.iter().map(|k| lookup(q, k)).collect::<Vec<_>>()})
}

const KINDS: [&str; 5] = ["rootless", "abempty", "absolute", "no_scheme", "empty"];

fn part(r: &mut Rng) -> String {
  format!("{}{}", if r.chance(80) { "/" } else { "" }, word(r, 0, 5, ":@&="))
}

/// A path and what is done to it.
fn path_line(r: &mut Rng) -> Value {
  let k = *r.pick(&KINDS);
  let parts: Vec<String> = (0..r.below(5)).map(|_| part(r)).collect();
  let mut p = path_of(k, &parts, r.below(2));
  let mut ev = vec![];
  for _ in 0..if r.chance(5) { r.below(120) } else { r.below(10) } {
    let o = *r.pick(&["add", "add", "adds", "with", "rootless", "absolute", "clone"]);
    let n = match o {
      "add" => 1,
      "adds" | "with" => r.below(4),
      _ => 0,
    };
    let ps: Vec<String> = (0..n).map(|_| part(r)).collect();
    path_op(&mut p, o, ps.clone());
    ev.push(json!({"o": o, "ps": ps.iter().map(|s| codes(s)).collect::<Vec<_>>(), "k": p.type_name().trim_end_matches("_path"),
                   "parts": p.parts().iter().map(|s| codes(s)).collect::<Vec<_>>(), "pr": codes(&p.to_string()), "empty": p.is_empty() && !p.non_empty()}));
  }
  json!({"a": "path", "from": {"k": k, "parts": parts.iter().map(|s| codes(s)).collect::<Vec<_>>()}, "ev": ev})
}

/// A URI of random components, what it prints and what that reads as.
fn build_line(r: &mut Rng) -> Value {
  let no_user = json!({"has": false, "u": [], "hp": false, "p": []});
  let sch = if r.chance(85) { format!("{}{}", *r.pick(b"abzAZ") as char, word(r, 0, 5, "+-.").replace(|c: char| !c.is_ascii_alphanumeric(), "")) } else { String::new() };
  let ha = r.chance(70);
  let (mut user, mut host, mut port) = (no_user.clone(), json!({"k": "none", "s": [], "a": []}), -1i64);
  if ha {
    if r.chance(50) {
      let hp = r.chance(50);
      user = json!({"has": true, "u": codes(&word(r, 0, 6, "&=")), "hp": hp, "p": if hp { codes(&word(r, 0, 6, ":&=")) } else { json!([]) }});
    }
    host = match r.below(4) {
      0 => {
        let a: Vec<u64> = (0..4).map(|_| r.below(256) as u64).collect();
        json!({"k": "v4", "s": codes(&a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")), "a": a})
      }
      1 => json!({"k": "v6", "s": [], "a": (0..8).map(|_| if r.chance(40) { 0 } else { r.below(65536) as u64 }).collect::<Vec<_>>()}),
      2 => json!({"k": "fut", "s": codes(&format!("v{:x}.{}", r.below(300), word(r, 1, 6, ":").replace('%', ""))), "a": []}),
      _ => json!({"k": "reg", "s": codes(&word(r, 0, 10, ".-")), "a": []}),
    };
    if r.chance(50) {
      port = r.below(65536) as i64;
    }
  }
  let hh = ha || r.chance(80);
  let (k, mut parts) = if !hh {
    ("empty", vec![])
  } else {
    let n = if r.chance(3) { 60 } else { 5 };
    (if r.chance(75) { if ha || r.chance(50) { "abempty" } else { "rootless" } } else { *r.pick(&KINDS) }, (0..r.below(n)).map(|_| format!("/{}", word(r, 0, 5, ":@&="))).collect::<Vec<_>>())
  };
  if k == "empty" {
    parts.clear();
  }
  if k == "rootless" && !parts.is_empty() {
    parts[0] = word(r, 1, 5, ":@");
  }
  if hh && !ha && k != "rootless" && !parts.is_empty() && parts[0] == "/" && r.chance(80) {
    parts[0] = "/x".into();
  }
  let hq = r.chance(60);
  let q: Vec<Value> = if hq {
    (0..if r.chance(3) { 70 } else { r.below(5) })
      .map(|_| {
        let hv = r.chance(60);
        json!({"k": codes(&word(r, 0, 5, "/?:@")), "hv": hv, "v": if hv { codes(&word(r, 0, 5, "=/?")) } else { json!([]) }})
      })
      .collect()
  } else {
    vec![]
  };
  let hf = r.chance(50);
  let f = if hf { word(r, 0, 6, "/?:@&=") } else { String::new() };
  let b = json!({"hs": !sch.is_empty(), "sch": codes(&sch), "hh": hh, "ha": ha, "user": user, "host": host, "port": port,
                 "path": {"k": k, "parts": parts.iter().map(|s| codes(s)).collect::<Vec<_>>()}, "hq": hq, "q": q, "hf": hf, "f": codes(&f)});
  let c = json!({"a": "uri", "b": b});
  let u = build(&c["b"], r.below(2)).0;
  let back = parse(&u.to_string());
  json!({"a": "build", "b": c["b"], "pr": printed(&u), "u": components(back.as_ref())})
}

fn record(kind: &str, seed: u64, count: usize, out: &str, sum: &str) {
  let mut r = Rng::new(seed ^ 0x51);
  let (mut lines, mut bad, mut events) = (vec![], vec![], 0usize);
  while lines.len() < count && bad.len() < 20 {
    if kind == "model" {
      match guarded(|| if r.chance(35) { path_line(&mut r) } else { build_line(&mut r) }) {
        Ok(l) => {
          events += 1;
          lines.push(l);
        }
        Err(e) => bad.push(json!({"why": format!("panics: {}", e)})),
      }
    } else if kind == "query" {
      let mut t = query_text(&mut r);
      if r.chance(15) {
        t = mutate(&mut r, &t).replace('#', "");
      }
      let text = format!("s:?{}", t);
      let mut ev = vec![];
      let ok = guarded(|| {
        if let Some(u) = parse(&text) {
          let mut q = u.query().expect("the query is lost").clone();
          let asked: Vec<Value> = ["a", "b", "key", "", "%41", "k/?", "nope"].iter().map(|s| codes(s)).collect();
          ev.push(see(&q, "see", "", None, &asked));
          for _ in 0..r.below(7) {
            let k = r.pick(&["a", "b", "key", "new", ""]).to_string();
            let v = if r.chance(80) { Some(word(&mut r, 0, 4, "=")) } else { None };
            let o = if v.is_none() || r.chance(40) { "opt" } else { "add" };
            apply(&mut q, o, k.clone(), v.clone());
            ev.push(see(&q, o, &k, v.as_deref(), &asked));
          }
        }
      });
      match ok {
        Ok(()) => {
          events += ev.len();
          lines.push(json!({"a": "query", "q": codes(&text), "ev": ev}));
        }
        Err(e) => bad.push(json!({"why": format!("panics: {}", e), "text": text})),
      }
    } else {
      let mut t = if kind == "host" { format!("s://{}", host_text(&mut r)) } else { uri_text(&mut r) };
      if r.chance(if kind == "host" { 30 } else { 45 }) {
        t = mutate(&mut r, &t);
      }
      match guarded(|| {
        let u = parse(&t);
        let pr = u.as_ref().map(printed).unwrap_or(json!([]));
        let back = u.as_ref().map(|u| parse(&u.to_string()).as_ref() == Some(u)).unwrap_or(true);
        (components(u.as_ref()), pr, back)
      }) {
        Ok((u, pr, true)) => {
          events += 1;
          lines.push(json!({"a": "parse", "q": codes(&t), "u": u, "pr": pr}));
        }
        Ok(_) => bad.push(json!({"why": "parsing the printed form gives another URI", "text": t})),
        Err(e) => bad.push(json!({"why": format!("parsing panics: {}", e), "text": t})),
      }
    }
  }
  write_lines(out, &lines);
  write_json(sum, &json!({"traces": lines.len(), "events": events, "bad": bad}));
}

fn main() {
  main_with(|| {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
      "parse" => replay(&tlc_lines(&a[1]), &a[2], one_parse),
      "host" => replay(&tlc_lines(&a[1]), &a[2], one_host),
      "model" => replay(&tlc_lines(&a[1]), &a[2], one_model),
      "query" => replay(&tlc_lines(&a[1]), &a[2], one_query),
      "trace" => record(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4], &a[5]),
      x => panic!("command {}", x),
    }
  });
}
