//! Schedules in zones whose offset changes (K04).
use crate::common::*;
use crate::{chars, gen_field, parse, recurs};
use chrono::{DateTime, Duration, FixedOffset, LocalResult, NaiveDate, NaiveDateTime, Offset, TimeZone, Utc};
use intervals_rs::LimitValue;
use oni_comb_crond_rs::*;
use serde_json::{json, Value};
use std::rc::Rc;

/// A zone with an offset (in minutes) and the instants (in minutes of UTC) from which another one holds.
#[derive(Clone, Debug, PartialEq)]
pub struct Zone(Rc<(i64, Vec<(i64, i64)>)>);

#[derive(Clone, Debug)]
pub struct ZoneOffset(Zone, FixedOffset);

impl Offset for ZoneOffset {
  fn fix(&self) -> FixedOffset {
    self.1
  }
}

impl std::fmt::Display for ZoneOffset {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}", self.1)
  }
}

fn fixed(minutes: i64) -> FixedOffset {
  FixedOffset::east_opt(minutes as i32 * 60).unwrap()
}

impl Zone {
  fn new(v: &Value) -> Zone {
    let tr = v["tr"].as_array().unwrap().iter().map(|t| (t["u"].as_i64().unwrap(), t["o"].as_i64().unwrap())).collect();
    Zone(Rc::new((v["o"].as_i64().unwrap(), tr)))
  }
  fn offset(&self, utc: &NaiveDateTime) -> i64 {
    let s = utc.and_utc().timestamp();
    self.0 .1.iter().rev().find(|t| t.0 * 60 <= s).map(|t| t.1).unwrap_or(self.0 .0)
  }
}

impl TimeZone for Zone {
  type Offset = ZoneOffset;

  fn from_offset(o: &ZoneOffset) -> Zone {
    o.0.clone()
  }
  fn offset_from_local_date(&self, d: &NaiveDate) -> LocalResult<ZoneOffset> {
    self.offset_from_local_datetime(&d.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_local_datetime(&self, l: &NaiveDateTime) -> LocalResult<ZoneOffset> {
    let mut all: Vec<i64> = vec![self.0 .0];
    all.extend(self.0 .1.iter().map(|t| t.1));
    all.dedup();
    let mut fit: Vec<(NaiveDateTime, i64)> =
      all.into_iter().map(|o| (*l - Duration::minutes(o), o)).filter(|(u, o)| self.offset(u) == *o).collect();
    fit.sort();
    fit.dedup();
    let z = |o: i64| ZoneOffset(self.clone(), fixed(o));
    match fit.len() {
      0 => LocalResult::None,
      1 => LocalResult::Single(z(fit[0].1)),
      n => LocalResult::Ambiguous(z(fit[0].1), z(fit[n - 1].1)),
    }
  }
  fn offset_from_utc_date(&self, d: &NaiveDate) -> ZoneOffset {
    self.offset_from_utc_datetime(&d.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_utc_datetime(&self, u: &NaiveDateTime) -> ZoneOffset {
    ZoneOffset(self.clone(), fixed(self.offset(u)))
  }
}

/// A specification of the user's own.
#[derive(Clone)]
struct Mine(CronExpr);

impl Specification<DateTime<Zone>> for Mine {
  fn is_satisfied_by(&self, d: &DateTime<Zone>) -> bool {
    CronEvaluator::new(d).eval(&self.0)
  }
}

fn drive<I: Iterator<Item = DateTime<Zone>> + Clone>(mut it: I, n: usize, ms: i64, z: &Zone) -> Result<Vec<i64>, String> {
  let mut out = vec![];
  for k in 0..n {
    if k == 2 {
      it = it.clone();
    }
    match guarded(|| it.next())? {
      None => out.push(-1),
      Some(d) => {
        let t = d.timestamp_millis();
        if d.timezone() != *z || (t - ms).rem_euclid(60_000) != 0 {
          return Err(format!("yielded {:?}", d));
        }
        if d.offset().fix() != fixed(z.offset(&d.naive_utc())) {
          return Err(format!("yielded with another offset: {:?}", d));
        }
        out.push((t - ms).div_euclid(60_000));
      }
    }
  }
  Ok(out)
}

fn iterate(t: &str, z: &Zone, start: i64, last: i64, n: usize, variant: usize) -> Result<Vec<i64>, String> {
  let ms = [0, 30_500, 59_999][variant % 3];
  let at = |m: i64, more: i64| Utc.timestamp_millis_opt(m * 60_000 + ms + more).unwrap().with_timezone(z);
  let from = at(start, 0);
  if last < 0 {
    match variant % 4 {
      0 => drive(CronSchedule::<Zone>::new(t)?.upcoming(from), n, ms, z),
      1 => drive(CronSchedule::<Zone>::new(t)?.cron_interval(from).iter(z.clone()), n, ms, z),
      2 => drive(CronInterval::new(LimitValue::Limit(from), LimitValue::Limitless, Mine(parse(t)?)).iter(z.clone()), n, ms, z),
      _ => drive(CronInterval::new(LimitValue::Limit(from), LimitValue::Limitless, CronSpecification::new(parse(t)?)).iter(z.clone()), n, ms, z),
    }
  } else {
    let to = [at(last, 0), at(last, 59_999), at(last, 30_000)][variant % 3].clone();
    if variant % 2 == 0 {
      drive(CronInterval::new(LimitValue::Limit(from), LimitValue::Limit(to), Mine(parse(t)?)).iter(z.clone()), n, ms, z)
    } else {
      drive(CronInterval::new(LimitValue::Limit(from), LimitValue::Limit(to), CronSpecification::new(parse(t)?)).iter(z.clone()), n, ms, z)
    }
  }
}

pub fn one(c: &Value) -> (u64, Vec<Value>) {
  let t = c["t"].as_str().unwrap();
  let z = Zone::new(&c["z"]);
  let (s, l) = (c["s"].as_i64().unwrap(), c["l"].as_i64().unwrap());
  let mut want: Vec<i64> = c["out"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
  want.extend(std::iter::repeat(-1).take(c["nones"].as_u64().unwrap() as usize));
  let mut bad = vec![];
  let h = (s.unsigned_abs() as usize).wrapping_add(t.len() * 3).wrapping_add(l.unsigned_abs() as usize);
  for k in 0..3 {
    let got = iterate(t, &z, s, l, want.len(), h + k * 5);
    if got.as_ref() != Ok(&want) {
      let show = |v: &Vec<i64>| v.iter().map(|m| if *m < 0 { "none".into() } else { Utc.timestamp_opt(*m * 60, 0).unwrap().with_timezone(&z).to_rfc3339() }).collect::<Vec<String>>();
      bad.push(json!({"why": "iteration", "variant": h + k * 5, "want": show(&want), "got": match &got { Ok(v) => json!(show(v)), Err(e) => json!(e) }}));
    }
  }
  (3, bad)
}

/// Iterations in random zones, beginning near their transitions.
pub fn record(seed: u64, count: usize, out: &str, sum: &str) {
  let mut r = Rng::new(seed ^ 0x20E);
  let (mut lines, mut bad, mut events) = (vec![], vec![], 0);
  while lines.len() < count && bad.len() < 20 {
    let mut o = r.range(-14 * 60, 14 * 60);
    let first = r.range(1971 - 1970, 2100 - 1970) * 525_960 + r.range(0, 525_960);
    let mut u = first;
    let tr: Vec<Value> = (0..r.below(4))
      .map(|_| {
        let now = u;
        u += *r.pick(&[30, 61, 1440, 44_640, 260_000]);
        let by = *r.pick(&[60, -60, 60, -60, 30, -30, 15, 1, -7, 120, 1440, -1440]);
        o = (o + by).clamp(-23 * 60, 23 * 60);
        json!({"u": now, "o": o})
      })
      .collect();
    let z = json!({"o": r.range(-14 * 60, 14 * 60), "tr": tr});
    let mut fs: Vec<String> = (0..5).map(|f| gen_field(&mut r, f, true)).collect();
    fs[4] = if r.chance(80) { "*".into() } else { fs[4].clone() };
    if fs[4] != "*" || r.chance(60) {
      fs[2] = "*".into();
    }
    let t = fs.join(" ");
    if !recurs(&t) {
      continue;
    }
    let s = r.pick(&[first, first, u, z["tr"][1]["u"].as_i64().unwrap_or(first)]) + r.range(-200, 20);
    let l = if r.chance(60) { -1 } else { s + *r.pick(&[0, 60, 200, 1500, 10_000]) };
    let n = 3 + r.below(12);
    let variant = r.below(1000);
    match iterate(&t, &Zone::new(&z), s, l, n, variant) {
      Ok(ev) => {
        events += ev.len();
        lines.push(json!({"a": "zone", "t": t, "q": chars(&t), "z": z, "s": s, "l": l, "ev": ev}));
      }
      Err(why) => bad.push(json!({"why": why, "t": t, "z": z, "s": s, "l": l, "variant": variant})),
    }
  }
  write_lines(out, &lines);
  write_json(sum, &json!({"traces": lines.len(), "events": events, "bad": bad}));
}
