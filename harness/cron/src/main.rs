//! Conformance harness for crond/.
#[path = "../../common/common.rs"]
mod common;
mod zones;
use chrono::{DateTime, Datelike, Duration, FixedOffset, NaiveDate, NaiveDateTime, TimeZone, Timelike, Utc};
use common::*;
use intervals_rs::LimitValue;
use oni_comb_crond_rs::*;
use serde_json::{json, Value};

fn x(k: &str, n: u8, c: Vec<Value>) -> Value {
  json!({"k": k, "n": n, "c": c})
}

/// The tree in the specification's notation.
fn tree(e: &CronExpr) -> Value {
  match e {
    CronExpr::NoOp => x("noop", 0, vec![]),
    CronExpr::ValueExpr(n) => x("val", *n, vec![]),
    CronExpr::LastValueExpr => x("last", 0, vec![]),
    CronExpr::AnyValueExpr => x("any", 0, vec![]),
    CronExpr::PerExpr { digit, option } => x("per", 0, vec![tree(digit), tree(option)]),
    CronExpr::RangeExpr { from, to, per_option } => x("range", 0, vec![tree(from), tree(to), tree(per_option)]),
    CronExpr::ListExpr(es) => x("list", 0, es.iter().map(tree).collect()),
    CronExpr::CronExpr { mins, hours, days, months, day_of_weeks } => {
      Value::Array(vec![tree(mins), tree(hours), tree(days), tree(months), tree(day_of_weeks)])
    }
  }
}

fn expr(v: &Value) -> CronExpr {
  let c = |k: usize| Box::new(expr(&v["c"][k]));
  match v["k"].as_str().unwrap() {
    "noop" => CronExpr::NoOp,
    "val" => CronExpr::ValueExpr(v["n"].as_u64().unwrap() as u8),
    "last" => CronExpr::LastValueExpr,
    "any" => CronExpr::AnyValueExpr,
    "per" => CronExpr::PerExpr { digit: c(0), option: c(1) },
    "range" => CronExpr::RangeExpr { from: c(0), to: c(1), per_option: c(2) },
    "list" => CronExpr::ListExpr(v["c"].as_array().unwrap().iter().map(expr).collect()),
    k => panic!("kind {}", k),
  }
}

fn whole(fs: Vec<CronExpr>) -> CronExpr {
  let mut it = fs.into_iter().map(Box::new);
  CronExpr::CronExpr {
    mins: it.next().unwrap(),
    hours: it.next().unwrap(),
    days: it.next().unwrap(),
    months: it.next().unwrap(),
    day_of_weeks: it.next().unwrap(),
  }
}

/// The text of an expression, when it can be written.
fn text(f: usize, v: &Value) -> Option<String> {
  let c = |k: usize| text(f, &v["c"][k]);
  Some(match v["k"].as_str().unwrap() {
    "val" => v["n"].to_string(),
    "any" => "*".into(),
    "last" if f == 5 => "L".into(),
    "per" => format!("*/{}", c(1).filter(|s| s != "0" || f <= 2)?),
    "range" => {
      let step = match v["c"][2]["k"].as_str().unwrap() {
        "noop" => String::new(),
        _ => format!("/{}", c(2).filter(|s| s != "0" || f <= 2)?),
      };
      format!("{}-{}{}", c(0)?, c(1)?, step)
    }
    "list" => {
      let parts: Option<Vec<String>> = v["c"].as_array().unwrap().iter().map(|e| text(f, e)).collect();
      parts?.join(",")
    }
    _ => return None,
  })
}

fn parse(t: &str) -> Result<CronExpr, String> {
  CronParser::parse(t)
}

fn one_parse(c: &Value) -> (u64, Vec<Value>) {
  let t = c["t"].as_str().unwrap();
  let want = &c["fs"];
  let mut bad = vec![];
  match guarded(|| parse(t)) {
    Err(e) => bad.push(json!({"why": format!("parsing panics: {}", e)})),
    Ok(Err(_)) if want.as_array().unwrap().is_empty() => {}
    Ok(Err(e)) => bad.push(json!({"why": "rejected", "error": e})),
    Ok(Ok(e)) => {
      let got = tree(&e);
      if got != *want {
        bad.push(json!({"why": "parsed to another expression, or accepted", "got": got}));
      }
    }
  }
  let accepted = guarded(|| CronSchedule::<Utc>::new(t).is_ok());
  if accepted != Ok(!want.as_array().unwrap().is_empty()) {
    bad.push(json!({"why": "CronSchedule::new disagrees", "got": format!("{:?}", accepted)}));
  }
  (2, bad)
}

const ZONES: [i32; 5] = [0, 9 * 3600, -(3 * 3600 + 1800), 14 * 3600, -(11 * 3600 + 59 * 60)];

fn zone(k: usize) -> FixedOffset {
  FixedOffset::east_opt(ZONES[k % ZONES.len()]).unwrap()
}

/// A local instant, in minutes since 1970 and milliseconds within the minute.
fn at(z: FixedOffset, minutes: i64, ms: i64) -> DateTime<FixedOffset> {
  let n = NaiveDateTime::new(NaiveDate::from_ymd_opt(1970, 1, 1).unwrap(), chrono::NaiveTime::from_hms_opt(0, 0, 0).unwrap());
  let n = n + Duration::minutes(minutes) + Duration::milliseconds(ms);
  z.from_local_datetime(&n).unwrap()
}

fn minutes_of(d: &DateTime<FixedOffset>) -> (i64, i64) {
  let ms = d.naive_local().and_utc().timestamp_millis();
  (ms.div_euclid(60_000), ms.rem_euclid(60_000))
}

fn satisfied(e: &CronExpr, d: &DateTime<FixedOffset>) -> Result<bool, String> {
  let a = guarded(|| CronSpecification::new(e.clone()).is_satisfied_by(d))?;
  let b = guarded(|| CronEvaluator::new(d).eval(e))?;
  if a != b {
    return Err("specification and evaluator disagree".into());
  }
  Ok(a)
}

fn day_minutes(y: i32, mo: u32, d: u32, h: u32, mi: u32) -> i64 {
  let n = NaiveDate::from_ymd_opt(y, mo, d).unwrap().and_hms_opt(h, mi, 0).unwrap();
  n.and_utc().timestamp() / 60
}

fn one_eval(c: &Value) -> (u64, Vec<Value>) {
  let mut bad = vec![];
  let mut runs = 0;
  let set: Vec<Value> = c["s"].as_array().unwrap().clone();
  if c.get("w").is_some() {
    let e = whole(c["w"].as_array().unwrap().iter().map(expr).collect());
    for y in [1999, 2000, 2023, 2024, 2100] {
      for mo in [1u32, 2, 12] {
        for d in [1u32, 2, 28, 29, 31] {
          if NaiveDate::from_ymd_opt(y, mo, d).is_none() {
            continue;
          }
          for h in [0, 6] {
            for mi in [0, 30] {
              let key = json!([y, mo, d, h, mi]);
              let want = set.contains(&key);
              runs += 1;
              let z = zone(runs as usize);
              let dt = at(z, day_minutes(y, mo, d, h, mi), (runs as i64 * 7919) % 60_000);
              let got = satisfied(&e, &dt);
              if got != Ok(want) {
                bad.push(json!({"why": "whole expression", "at": dt.to_rfc3339(), "want": want, "got": format!("{:?}", got)}));
              }
            }
          }
        }
      }
    }
    return (runs, bad);
  }
  let f = c["f"].as_u64().unwrap() as usize;
  let mx = c["mx"].as_u64().unwrap();
  let mut fs: Vec<Value> = (0..5).map(|_| x("any", 0, vec![])).collect();
  fs[f - 1] = c["e"].clone();
  let built = whole(fs.iter().map(expr).collect());
  let mut es = vec![built.clone()];
  if let Some(t) = text(f, &c["e"]) {
    let line: Vec<String> = (1..=5).map(|k| if k == f { t.clone() } else { "*".into() }).collect();
    match guarded(|| parse(&line.join(" "))) {
      Ok(Ok(e)) => es.push(e),
      other => bad.push(json!({"why": "cannot parse the text of the expression", "text": line.join(" "), "got": format!("{:?}", other)})),
    }
  }
  let lo = if f <= 2 { 0 } else { 1 };
  for v in lo..=mx {
    let want = set.iter().any(|s| s.as_u64() == Some(v));
    for k in 0..2u64 {
      // dates on which the field has this value and this maximum; the other fields vary
      let (yy, mm) = if f == 3 {
        match (mx, k) {
          (28, 0) => (2023, 2),
          (28, _) => (1900, 2),
          (29, 0) => (2024, 2),
          (29, _) => (2000, 2),
          (30, 0) => (2023, 4),
          (30, _) => (2021, 11),
          (_, 0) => (2023, 1),
          _ => (2022, 12),
        }
      } else {
        (2020 + (v * 3 + k) as i32 % 7, 1 + ((v * 5 + k * 3) % 12) as u32)
      };
      let vv = v as u32;
      let dt = match f {
        1 => day_minutes(yy, mm, 1 + (vv * 7) % 28, (vv * 5) % 24, vv),
        2 => day_minutes(yy, mm, 1 + (vv * 7) % 28, vv, (vv * 13 + k as u32) % 60),
        3 => day_minutes(yy, mm, vv, (vv * 5) % 24, (vv * 13) % 60),
        4 => day_minutes(yy, vv, 1 + (vv * 7 + k as u32) % 28, (vv * 5) % 24, (vv * 13) % 60),
        _ => {
          let mut d = NaiveDate::from_ymd_opt(yy, mm, 1 + (vv * 3) % 20).unwrap();
          while d.weekday().number_from_sunday() != vv {
            d = d.succ_opt().unwrap();
          }
          day_minutes(d.year(), d.month(), d.day(), 23 * (k as u32), 59 * (k as u32))
        }
      };
      let dt = at(zone((v + k) as usize), dt, (v as i64 * 977) % 60_000);
      for e in &es {
        runs += 1;
        let got = satisfied(e, &dt);
        if got != Ok(want) {
          bad.push(json!({"why": "field", "field": f, "value": v, "at": dt.to_rfc3339(), "want": want, "got": format!("{:?}", got)}));
        }
      }
    }
  }
  bad.truncate(3);
  (runs, bad)
}

/// Calls next() n times; the local minute of each answer (None: -1), or why it is not acceptable.
fn drive<I: Iterator<Item = DateTime<FixedOffset>> + Clone>(mut it: I, n: usize, ms: i64, z: FixedOffset, fork: bool) -> Result<Vec<i64>, String> {
  let mut out = vec![];
  for k in 0..n {
    if fork && k % 2 == 1 {
      // a clone must go on from where the original is
      let mut c = it.clone();
      let a = guarded(|| c.next())?;
      let b = guarded(|| it.clone().next())?;
      if a != b {
        return Err("a clone of the iterator goes on differently".into());
      }
      it = c;
      out.push(a.map(|d| minutes_of(&d)));
    } else {
      let a = guarded(|| it.next())?;
      if let Some(d) = &a {
        if d.timezone() != z {
          return Err(format!("yielded in another zone: {}", d.to_rfc3339()));
        }
      }
      out.push(a.map(|d| minutes_of(&d)));
    }
  }
  let mut r = vec![];
  for o in out {
    match o {
      None => r.push(-1),
      Some((m, s)) => {
        if s != ms {
          return Err(format!("yielded minute {} at {} ms, the start is at {} ms", m, s, ms));
        }
        r.push(m);
      }
    }
  }
  Ok(r)
}

fn iterate(t: &str, start: i64, last: i64, n: usize, variant: usize) -> Result<Vec<i64>, String> {
  let z = zone(variant);
  let ms = [0, 30_500, 59_999, 1][(variant / 2) % 4];
  let from = at(z, start, ms);
  // the same instant written in another zone
  let other = if variant % 5 < 2 { from.with_timezone(&zone(variant / 5)) } else { from };
  if last < 0 {
    let sch = CronSchedule::<FixedOffset>::new(t)?;
    match variant % 3 {
      0 => drive(sch.upcoming(from), n, ms, z, false),
      1 => drive(sch.cron_interval(other).iter(z), n, ms, z, true),
      _ => drive(
        CronInterval::new(LimitValue::Limit(other), LimitValue::Limitless, CronSpecification::new(parse(t)?)).iter(z),
        n,
        ms,
        z,
        false,
      ),
    }
  } else {
    // ends that admit exactly the minutes up to `last`
    let to = match variant % 3 {
      0 => at(z, last, ms),
      1 => at(z, last, ms) + Duration::milliseconds(30_000),
      _ => at(z, last + 1, ms) - Duration::milliseconds(1),
    };
    let to = if variant % 7 < 3 { to.with_timezone(&zone(variant / 7)) } else { to };
    let iv = CronInterval::new(LimitValue::Limit(other), LimitValue::Limit(to), CronSpecification::new(parse(t)?));
    drive(iv.iter(z), n, ms, z, variant % 2 == 1)
  }
}

fn one_iter(c: &Value) -> (u64, Vec<Value>) {
  let t = c["t"].as_str().unwrap();
  let (s, l) = (c["s"].as_i64().unwrap(), c["l"].as_i64().unwrap());
  let mut want: Vec<i64> = c["out"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
  let nones = c["nones"].as_u64().unwrap() as usize;
  want.extend(std::iter::repeat(-1).take(nones));
  let mut bad = vec![];
  let h = (s.unsigned_abs() as usize).wrapping_add(t.len() * 3).wrapping_add(l.unsigned_abs() as usize);
  let mut runs = 0;
  for k in 0..3 {
    runs += 1;
    let variant = h.wrapping_add(k * 5).wrapping_add(k);
    let got = iterate(t, s, l, want.len(), variant);
    if got.as_ref() != Ok(&want) {
      let show = |v: &Vec<i64>| v.iter().map(|m| if *m < 0 { "none".to_string() } else { at(zone(0), *m, 0).naive_local().to_string() }).collect::<Vec<_>>();
      bad.push(json!({"why": "iteration", "variant": variant, "start": at(zone(0), s, 0).naive_local().to_string(), "want": show(&want),
                      "got": match &got { Ok(v) => json!(show(v)), Err(e) => json!(e) }}));
    }
  }
  (runs, bad)
}

// ---- random cases --------------------------------------------------------------------------------

const MINS: [i64; 5] = [0, 0, 1, 1, 1];
const MAXS: [i64; 5] = [59, 23, 31, 12, 7];
const NAMES: [&str; 7] = ["SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"];

fn gen_token(r: &mut Rng, f: usize) -> String {
  let v = r.range(MINS[f], MAXS[f]);
  if f == 4 {
    return match r.below(4) {
      0 => NAMES[v as usize - 1].into(),
      1 if r.chance(30) => "L".into(),
      _ => v.to_string(),
    };
  }
  if v < 10 && r.chance(30) {
    format!("0{}", v)
  } else {
    v.to_string()
  }
}

fn gen_item(r: &mut Rng, f: usize, sane: bool) -> String {
  match r.below(4) {
    0 | 1 => gen_token(r, f),
    k => {
      let (mut a, mut b) = (r.range(MINS[f], MAXS[f]), r.range(MINS[f], MAXS[f]));
      if (sane || r.chance(80)) && a > b {
        std::mem::swap(&mut a, &mut b);
      }
      if k == 2 {
        format!("{}-{}", a, b)
      } else {
        format!("{}-{}/{}", a, b, r.range(1, MAXS[f]))
      }
    }
  }
}

fn gen_field(r: &mut Rng, f: usize, sane: bool) -> String {
  match r.below(if sane && f >= 2 { 12 } else { 7 }) {
    0 | 7.. => "*".into(),
    1 => format!("*/{}", r.range(1, if sane && f >= 2 { 3.min(MAXS[f]) } else { MAXS[f] })),
    2 | 3 => gen_item(r, f, sane),
    _ => {
      let n = if r.chance(6) { 6 + r.below(70) } else { 2 + r.below(4) };
      (0..n).map(|_| gen_item(r, f, sane)).collect::<Vec<_>>().join(",")
    }
  }
}

fn gen_line(r: &mut Rng, sane: bool) -> String {
  (0..5).map(|f| gen_field(r, f, sane)).collect::<Vec<_>>().join(" ")
}

fn mutate(r: &mut Rng, s: &str) -> String {
  let mut v: Vec<char> = s.chars().collect();
  for _ in 0..1 + r.below(2) {
    let mut pool: Vec<char> = "0123456789*/-, LSUNMOx".chars().collect();
    if r.chance(25) {
      // characters that look like these, or have their low byte
      let by = *r.pick(&[0x80, 0x100, 0x630, 0xFEE0, 0x10000]);
      pool = pool.iter().filter_map(|c| char::from_u32(*c as u32 + by)).chain("\t\n\u{a0}+._".chars()).collect();
    }
    let k = r.below(v.len() + 1);
    match r.below(4) {
      0 => v.insert(k, *r.pick(&pool)),
      1 if k < v.len() => {
        v.remove(k);
      }
      2 if k + 1 < v.len() => v.swap(k, k + 1),
      _ if k < v.len() => v[k] = *r.pick(&pool),
      _ => {}
    }
  }
  v.into_iter().collect()
}

fn chars(t: &str) -> Vec<String> {
  t.chars().map(|c| c.to_string()).collect()
}

fn record(kind: &str, seed: u64, count: usize, out: &str, sum: &str) {
  let mut r = Rng::new(seed ^ 0xC0);
  let mut lines = vec![];
  let mut bad = vec![];
  let mut events = 0;
  let z0 = zone(0);
  while lines.len() < count && bad.len() < 20 {
    match kind {
      "parse" => {
        let mut t = gen_line(&mut r, false);
        if r.chance(55) {
          t = mutate(&mut r, &t);
        }
        match guarded(|| parse(&t)) {
          Ok(p) => {
            events += 1;
            lines.push(json!({"a": "parse", "t": t, "q": chars(&t), "fs": p.map(|e| tree(&e)).unwrap_or(json!([]))}));
          }
          Err(e) => bad.push(json!({"why": format!("parsing panics: {}", e), "t": t})),
        }
      }
      "sat" => {
        let t = gen_line(&mut r, true);
        // near midnight, month and year boundaries more often than not
        let y = r.range(1971, 2200) as i32;
        let mo = r.range(1, 12) as u32;
        let base = day_minutes(y, mo, 1, 0, 0);
        let m = if r.chance(50) { base + r.range(-3, 3) } else { base + r.range(0, 44_000) };
        let z = zone(r.below(5));
        let ms = r.range(0, 59_999);
        let dt = at(z, m, ms);
        match guarded(|| parse(&t)) {
          Ok(Ok(e)) => match satisfied(&e, &dt) {
            Ok(b) => {
              events += 1;
              lines.push(json!({"a": "sat", "t": t, "q": chars(&t), "at": m, "r": b}));
            }
            Err(why) => bad.push(json!({"why": why, "t": t, "at": dt.to_rfc3339()})),
          },
          other => bad.push(json!({"why": "a generated expression is not accepted", "t": t, "got": format!("{:?}", other)})),
        }
      }
      _ => {
        // every day is possible, so that every schedule recurs within a year or so
        let mut fs: Vec<String> = (0..5).map(|f| gen_field(&mut r, f, true)).collect();
        if r.chance(60) {
          fs[2] = "*".into();
        } else {
          fs[4] = "*".into();
          fs[2] = (*r.pick(&["1", "L", "1-28/9", "*/7", "5,15,25", "28-31", "10-20"])).replace('L', "28");
        }
        let t = fs.join(" ");
        let y = r.range(1971, 2160) as i32;
        let mo = r.range(1, 12) as u32;
        let base = day_minutes(y, mo, 1, 0, 0);
        let s = if r.chance(60) { base + r.range(-3, 1) } else { base + r.range(0, 44_000) };
        let l = if r.chance(50) { -1 } else { s + *r.pick(&[0, 1, 30, 1440, 10_000, 100_000]) };
        let n = if r.below(60) == 0 { 100 + r.below(400) } else { 3 + r.below(12) };
        let variant = r.below(1000);
        // an expression that selects nothing is searched for ever
        if l < 0 && !recurs(&t) {
          continue;
        }
        match iterate(&t, s, l, n, variant) {
          Ok(ev) => {
            events += ev.len();
            lines.push(json!({"a": "iter", "t": t, "q": chars(&t), "s": s, "l": l, "ev": ev}));
          }
          Err(why) => bad.push(json!({"why": why, "t": t, "start": at(z0, s, 0).naive_local().to_string(), "l": l, "variant": variant})),
        }
      }
    }
  }
  write_lines(out, &lines);
  write_json(sum, &json!({"traces": lines.len(), "events": events, "bad": bad}));
}

/// Does the expression select some minute of 2023 and 2024?  (Used to keep searches finite.)
fn recurs(t: &str) -> bool {
  let e = match parse(t) {
    Ok(e) => e,
    Err(_) => return true,
  };
  let fields = match &e {
    CronExpr::CronExpr { mins, hours, days, months, day_of_weeks } => [mins, hours, days, months, day_of_weeks],
    _ => return false,
  };
  let any = || CronExpr::AnyValueExpr;
  let only = |k: usize, mut ds: Box<dyn Iterator<Item = i64>>| {
    let mut fs = vec![any(), any(), any(), any(), any()];
    fs[k] = (**fields[k]).clone();
    let e = whole(fs);
    ds.any(|m| satisfied(&e, &at(zone(0), m, 0)) == Ok(true))
  };
  let base = day_minutes(2023, 1, 1, 0, 0);
  if !only(0, Box::new((0..60).map(move |m| base + m))) || !only(1, Box::new((0..24).map(move |h| base + h * 60))) {
    return false;
  }
  let e = whole(vec![any(), any(), (**fields[2]).clone(), (**fields[3]).clone(), (**fields[4]).clone()]);
  (0..365).any(|d| satisfied(&e, &at(zone(0), base + d * 1440, 0)) == Ok(true))
}

fn main() {
  main_with(|| {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let _ = Utc::now().hour();
    match a[0].as_str() {
      "parse" => replay(&tlc_lines(&a[1]), &a[2], one_parse),
      "eval" => replay(&tlc_lines(&a[1]), &a[2], one_eval),
      "iter" => replay(&tlc_lines(&a[1]), &a[2], one_iter),
      "zone" => replay(&tlc_lines(&a[1]), &a[2], zones::one),
      "trace" if a[1] == "zone" => zones::record(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4], &a[5]),
      "trace" => record(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4], &a[5]),
      x => panic!("command {}", x),
    }
  });
}
