//! Grammars as the specification writes them, and how each node is built from the library's
//! public API, in several equivalent spellings ("styles").
use oni_comb_parser_rs::prelude::*;
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

#[derive(Debug, Clone)]
pub struct G {
  pub k: String,
  pub s: String,
  pub n: i64,
  pub m: i64,
  pub q: Vec<u32>,
  pub c: Vec<G>,
}

impl G {
  pub fn from(v: &Value) -> G {
    G {
      k: v["k"].as_str().unwrap().to_string(),
      s: v["s"].as_str().unwrap().to_string(),
      n: v["n"].as_i64().unwrap(),
      m: v["m"].as_i64().unwrap(),
      q: v["q"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default(),
      c: v["c"].as_array().map(|a| a.iter().map(G::from).collect()).unwrap_or_default(),
    }
  }
  pub fn json(&self) -> Value {
    serde_json::json!({"k": self.k, "s": self.s, "n": self.n, "m": self.m, "q": self.q,
      "c": self.c.iter().map(|c| c.json()).collect::<Vec<_>>()})
  }
  /// whether the node and everything below it exists for this element type
  pub fn for_bytes(&self) -> bool {
    let here = match self.k.as_str() {
      "tag" | "tagnc" | "regex" => false,
      "of" | "noneof" if self.s == "str" => false,
      "of" | "noneof" if self.s == "rfrom" || self.s == "rfull" => true,
      _ => self.q.iter().all(|x| *x <= 255) && (self.k != "elm" || self.n <= 255),
    };
    here && (self.k == "regex" || self.c.iter().all(|c| c.for_bytes()))
  }
  pub fn for_chars(&self) -> bool {
    let here = match self.k.as_str() {
      "of" | "noneof" if self.s == "arr" => false,
      _ => true,
    };
    here && (self.k == "regex" || self.c.iter().all(|c| c.for_chars()))
  }
}

thread_local! {
  pub static TICKS: Cell<u64> = const { Cell::new(0) };
  pub static TRACE: RefCell<Option<Vec<Value>>> = const { RefCell::new(None) };
  /// stack bottom-to-top of probe depth, to bound recursion
  pub static DEPTH: Cell<u32> = const { Cell::new(0) };
}

pub const MAX_TICKS: u64 = 20_000;

fn tick() {
  TICKS.with(|t| {
    t.set(t.get() + 1);
    if t.get() > MAX_TICKS {
      panic!("does not terminate: more than {} element-parser runs", MAX_TICKS);
    }
  })
}

pub trait El: Element + Debug + std::hash::Hash + Eq {
  const CHARS: bool;
  fn of_code(x: u32) -> Self;
  fn code(self) -> u32;
  fn text_leaf(g: &G) -> Option<Parser<'static, Self, String>>;
  fn set_leaf(g: &G, style: u32) -> Option<Parser<'static, Self, String>>;
}

fn codes<I: El>(xs: &[I]) -> String {
  let v: Vec<String> = xs.iter().map(|x| x.code().to_string()).collect();
  format!("[{}]", v.join(","))
}

pub fn leak_str(s: &str) -> &'static str {
  Box::leak(s.to_string().into_boxed_str())
}

fn of_or_none<I: El, S: Set<I> + ?Sized + 'static>(g: &G, set: &'static S, style: u32) -> Parser<'static, I, String> {
  match (g.k.as_str(), style % 2) {
    ("of", 0) => elm_of(set).map(|x: I| x.code().to_string()),
    ("of", _) => elm_ref_of(set).map(|x: &I| x.code().to_string()),
    (_, 0) => none_of(set).map(|x: I| x.code().to_string()),
    (_, _) => none_ref_of(set).map(|x: &I| x.code().to_string()),
  }
}

impl El for u8 {
  const CHARS: bool = false;
  fn of_code(x: u32) -> u8 {
    x as u8
  }
  fn code(self) -> u32 {
    self as u32
  }
  fn text_leaf(_: &G) -> Option<Parser<'static, u8, String>> {
    None
  }
  fn set_leaf(g: &G, style: u32) -> Option<Parser<'static, u8, String>> {
    if g.s == "arr" {
      let v: Vec<u8> = g.q.iter().map(|x| *x as u8).collect();
      let a: [u8; 3] = [v[0], v[1], v[2]];
      let a: &'static [u8; 3] = Box::leak(Box::new(a));
      return Some(of_or_none(g, a, style));
    }
    None
  }
}

impl El for char {
  const CHARS: bool = true;
  fn of_code(x: u32) -> char {
    char::from_u32(x).unwrap()
  }
  fn code(self) -> u32 {
    self as u32
  }
  fn text_leaf(g: &G) -> Option<Parser<'static, char, String>> {
    let text: String = g.q.iter().map(|x| char::of_code(*x)).collect();
    let text = leak_str(&text);
    let show = |s: String| codes(&s.chars().collect::<Vec<_>>());
    match g.k.as_str() {
      "tag" => Some(tag(text).map(show)),
      // the value of tag_no_case is the tag
      "tagnc" => Some(tag_no_case(text).map(show)),
      "regex" => Some(regex(&g.s).map(show)),
      _ => None,
    }
  }
  fn set_leaf(g: &G, style: u32) -> Option<Parser<'static, char, String>> {
    if g.s == "str" || (g.s.is_empty() && style == 2) {
      let text: String = g.q.iter().map(|x| char::of_code(*x)).collect();
      return Some(of_or_none(g, leak_str(&text), style));
    }
    None
  }
}

fn show<I: El>(p: Parser<'static, I, I>) -> Parser<'static, I, String> {
  p.map(|x| x.code().to_string())
}
fn show_ref<I: El>(p: Parser<'static, I, &'static I>) -> Parser<'static, I, String> {
  p.map(|x| x.code().to_string())
}

fn set_of<I: El>(g: &G, style: u32) -> Parser<'static, I, String> {
  if let Some(p) = I::set_leaf(g, style) {
    return p;
  }
  let (a, b) = (g.n as u32, g.m as u32);
  match g.s.as_str() {
    "rincl" => of_or_none(g, Box::leak(Box::new(I::of_code(a)..=I::of_code(b))), style),
    "rexcl" => of_or_none(g, Box::leak(Box::new(I::of_code(a)..I::of_code(b))), style),
    "rto" => of_or_none(g, Box::leak(Box::new(..I::of_code(a))), style),
    "rfrom" => of_or_none(g, Box::leak(Box::new(I::of_code(a)..)), style),
    "rfull" => of_or_none(g, &(..), style),
    "rtoincl" => of_or_none(g, Box::leak(Box::new(..=I::of_code(a))), style),
    _ => {
      let v: Vec<I> = g.q.iter().map(|x| I::of_code(*x)).collect();
      let v: &'static [I] = Box::leak(v.into_boxed_slice());
      of_or_none(g, v, style)
    }
  }
}

fn class<I: El>(s: &str, style: u32) -> Parser<'static, I, String> {
  if style % 2 == 0 {
    show(match s {
      "space" => elm_space(),
      "multispace" => elm_multi_space(),
      "alpha" => elm_alpha(),
      "alphadigit" => elm_alpha_digit(),
      "digit" => elm_digit(),
      "digit19" => elm_digit_1_9(),
      "hex" => elm_hex_digit(),
      "oct" => elm_oct_digit(),
      _ => unreachable!("class {}", s),
    })
  } else {
    show_ref(match s {
      "space" => elm_space_ref(),
      "multispace" => elm_multi_space_ref(),
      "alpha" => elm_alpha_ref(),
      "alphadigit" => elm_alpha_digit_ref(),
      "digit" => elm_digit_ref(),
      "digit19" => elm_digit_1_9_ref(),
      "hex" => elm_hex_digit_ref(),
      "oct" => elm_oct_digit_ref(),
      _ => unreachable!("class {}", s),
    })
  }
}

fn method<I: El>(s: &'static str, style: u32) -> Parser<'static, I, String> {
  let f = move |x: &I| match s {
    "space" => x.is_ascii_space(),
    "multispace" => x.is_ascii_multi_space(),
    "whitespace" => x.is_ascii_whitespace(),
    "ascii" => Element::is_ascii(x),
    "upper" => x.is_ascii_alpha_uppercase(),
    "lower" => x.is_ascii_alpha_lowercase(),
    "alpha" => x.is_ascii_alpha(),
    "digit" => Element::is_ascii_digit(x),
    "zero" => x.is_ascii_digit_zero(),
    "nonzero" => x.is_ascii_digit_non_zero(),
    "alphadigit" => x.is_ascii_alpha_digit(),
    "hex" => x.is_ascii_hex_digit(),
    "oct" => x.is_ascii_oct_digit(),
    "punct" => Element::is_ascii_punctuation(x),
    "graphic" => Element::is_ascii_graphic(x),
    "control" => Element::is_ascii_control(x),
    _ => unreachable!("method {}", s),
  };
  if style % 2 == 0 {
    show(elm_pred(f))
  } else {
    show_ref(elm_pred_ref(f))
  }
}

fn user_error<I: El>(kind: &str) -> ParseError<'static, I> {
  match kind {
    "custom" => ParseError::of_custom(0, None, "user".to_string()),
    "incomplete" => ParseError::of_in_complete(),
    "mismatch" => ParseError::of_mismatch(&[], 0, 0, "user".to_string()),
    "conversion" => ParseError::of_conversion(&[], 0, 0, "user".to_string()),
    "expect>custom" => ParseError::of_expect(0, Box::new(user_error("custom")), "user".to_string()),
    _ => unreachable!("kind {}", kind),
  }
}

fn leaf<I: El>(g: &G, style: u32) -> Option<Parser<'static, I, String>> {
  let q: Vec<u32> = g.q.clone();
  let has = {
    let q = q.clone();
    move |x: &I| q.contains(&x.code())
  };
  let odd = style % 2 == 1;
  let sl = |p: Parser<'static, I, &'static [I]>| p.map(|xs| codes(xs));
  Some(match g.k.as_str() {
    "any" => {
      if odd {
        show_ref(elm_any_ref())
      } else {
        show(elm_any())
      }
    }
    "elm" => {
      let x = I::of_code(g.n as u32);
      if odd {
        show_ref(elm_ref(x))
      } else {
        show(elm(x))
      }
    }
    "pred" => {
      if odd {
        show_ref(elm_pred_ref(has))
      } else {
        show(elm_pred(has))
      }
    }
    "cls" => {
      if g.n == 1 {
        method(leak_str(&g.s), style)
      } else {
        class(&g.s, style)
      }
    }
    "of" | "noneof" => set_of(g, style),
    "in" => {
      let (a, b) = (I::of_code(g.n as u32), I::of_code(g.m as u32));
      if odd {
        show_ref(elm_in_ref(a, b))
      } else {
        show(elm_in(a, b))
      }
    }
    "until" => {
      let (a, b) = (I::of_code(g.n as u32), I::of_code(g.m as u32));
      if odd {
        show_ref(elm_from_until_ref(a, b))
      } else {
        show(elm_from_until(a, b))
      }
    }
    "seq" => {
      let v: Vec<I> = q.iter().map(|x| I::of_code(*x)).collect();
      let v: &'static [I] = Box::leak(v.into_boxed_slice());
      seq(v).map(|xs| codes(&xs))
    }
    "tag" | "tagnc" | "regex" => I::text_leaf(g)?,
    "take" => sl(take(g.n as usize)),
    "skip" => skip(g.n as usize).map(|_| "()".to_string()),
    "while0" => sl(take_while0(has)),
    "while1" => sl(take_while1(has)),
    "whilenm" => sl(take_while_n_m(g.n as usize, g.m as usize, has)),
    "till0" => sl(take_till0(has)),
    "till1" => sl(take_till1(has)),
    "end" => end().map(|_| "()".to_string()),
    "unit" => {
      if odd {
        empty().map(|_| "()".to_string())
      } else {
        unit().map(|_| "()".to_string())
      }
    }
    "succ" => {
      let v = g.s.clone();
      match style % 4 {
        0 => successful(v),
        1 => successful_lazy(move || v.clone()),
        2 => Parser::<'static, I, String>::pure(move || v.clone()),
        _ => ParserParsers::successful(v),
      }
    }
    "fail" => {
      let commit: CommittedStatus = (g.n == 1).into();
      let e = user_error::<I>(&g.s);
      match style % 4 {
        0 => failed(e, commit),
        1 if g.n == 1 => failed_with_commit(e),
        1 => failed_with_uncommit(e),
        2 => failed_lazy(move || (e.clone(), commit)),
        _ => ParserParsers::failed(e, commit),
      }
    }
    _ => return None,
  })
}

pub type P<I> = Parser<'static, I, String>;

fn join(v: Vec<String>) -> String {
  format!("[{}]", v.join(","))
}

fn with_range<I: El>(g: &G, style: u32, item: P<I>, sep: Option<P<I>>) -> P<I> {
  let n = g.n as usize;
  let m = g.m as usize; // only used when g.m >= 0
  let odd = style % 2 == 1;
  macro_rules! range {
    ($r:expr) => {
      match sep {
        None if odd => item.of_rep_sep($r, None as Option<P<I>>),
        None => item.repeat($r),
        Some(s) => item.of_rep_sep($r, Some(s)),
      }
    };
  }
  let p = match (g.s.as_str(), odd) {
    ("many0", false) => match sep {
      None => item.of_many0(),
      Some(s) => item.of_many0_sep(s),
    },
    ("many0", true) => range!(0..),
    ("many1", false) => match sep {
      None => item.of_many1(),
      Some(s) => item.of_many1_sep(s),
    },
    ("many1", true) => range!(1..),
    ("full", _) => range!(..),
    ("from", _) => range!(n..),
    ("nm", false) => match sep {
      None => item.of_many_n_m(n, m),
      Some(s) => item.of_many_n_m_sep(n, m, s),
    },
    ("nm", true) => range!(n..=m),
    ("count", false) => match sep {
      None => item.of_count(n),
      Some(s) => item.of_count_sep(n, s),
    },
    ("count", true) => range!(n..=n),
    ("usize", _) => range!(n),
    ("excl", true) if m == 0 => range!(n..0),
    ("excl", _) => range!(n..m + 1),
    ("to", _) => range!(..m + 1),
    ("toincl", _) => range!(..=m),
    (f, _) => unreachable!("form {}", f),
  };
  p.map(join)
}

/// Builds the parser of a grammar.  In trace mode every node is wrapped in a probe that records
/// its invocations and results; otherwise only the leaves are wrapped, to bound their number.
pub fn build<I: El>(g: &G, style: u32, trace: bool, child: u32) -> P<I> {
  let p = build_node::<I>(g, style, trace);
  if trace {
    probe(p, child)
  } else {
    p
  }
}

fn probe<I: El>(p: P<I>, child: u32) -> P<I> {
  Parser::new(move |st| {
    let off = st.current_offset();
    TRACE.with(|t| {
      if let Some(v) = t.borrow_mut().as_mut() {
        v.push(serde_json::json!({"a": "in", "x": child, "o": off}));
      }
    });
    let r = p.run(st);
    TRACE.with(|t| {
      if let Some(v) = t.borrow_mut().as_mut() {
        v.push(match &r {
          ParseResult::Success { value, length } => {
            serde_json::json!({"a": "out", "ok": true, "v": value, "n": length, "c": false})
          }
          ParseResult::Failure { committed_status, .. } => {
            serde_json::json!({"a": "out", "ok": false, "v": "", "n": 0, "c": committed_status.is_committed()})
          }
        });
      }
    });
    r
  })
}

fn build_node<I: El>(g: &G, style: u32, trace: bool) -> P<I> {
  if let Some(p) = leaf::<I>(g, style) {
    return Parser::new(move |st| {
      tick();
      p.run(st)
    });
  }
  let c = |i: usize| build::<I>(&g.c[i], style, trace, i as u32 + 1);
  let odd = style % 2 == 1;
  let v = g.s.clone();
  match g.k.as_str() {
    "map" => {
      let f = |x: String| format!("m({})", x);
      if style == 3 {
        ParserParsers::map(c(0), f)
      } else {
        c(0).map(f)
      }
    }
    "discard" => c(0).discard().map(|_| "()".to_string()),
    "collect" => c(0).collect().map(|xs| codes(xs)),
    "last" => c(0).last_offset().map(|n| format!("@{}", n)),
    "next" => c(0).next_offset().map(|n| format!("@{}", n)),
    "filter" => {
      if style == 3 {
        ParserParsers::filter(c(0), move |x| *x == v)
      } else if odd {
        c(0).with_filter_not(move |x| *x != v)
      } else {
        c(0).with_filter(move |x| *x == v)
      }
    }
    "filternot" => {
      if style == 3 {
        ParserParsers::filter(c(0), move |x| *x != v)
      } else if odd {
        c(0).with_filter(move |x| *x != v)
      } else {
        c(0).with_filter_not(move |x| *x == v)
      }
    }
    "mapres" => c(0).map_res(move |x| if x == v { Err(()) } else { Ok(format!("r({})", x)) }),
    "attempt" => c(0).attempt(),
    "opt" => c(0).opt().map(|o| match o {
      Some(x) => format!("S({})", x),
      None => "N".to_string(),
    }),
    "not" => {
      if odd {
        (!c(0)).map(|_| "()".to_string())
      } else {
        OperatorParser::not(c(0)).map(|_| "()".to_string())
      }
    }
    "peek" => c(0).peek(),
    "exists" => c(0).exists().map(|b| b.to_string()),
    "name" => c(0).name("thing"),
    "log" => match style % 4 {
      0 => c(0).debug("thing"),
      1 => c(0).info("thing"),
      2 => c(0).warn("thing"),
      _ => c(0).error("thing"),
    },
    "cache" => c(0).cache(),
    "lazy" => {
      let p = c(0);
      lazy(move || p.clone())
    }
    "clone" => c(0).clone(),
    "and" => {
      let f = |(x, y): (String, String)| format!("({},{})", x, y);
      if odd {
        (c(0) + c(1)).map(f)
      } else {
        c(0).and_then(c(1)).map(f)
      }
    }
    "skipl" => {
      if odd {
        c(0) * c(1)
      } else {
        c(0).skip_left(c(1))
      }
    }
    "skipr" => {
      if odd {
        c(0) - c(1)
      } else {
        c(0).skip_right(c(1))
      }
    }
    "surround" => {
      if odd {
        surround(c(0), c(1), c(2))
      } else {
        c(1).surround(c(0), c(2))
      }
    }
    "bind" => {
      let (p, y, z) = (c(0), c(1), c(2));
      let f = move |x: String| if x == v { y.clone() } else { z.clone() };
      if style == 3 {
        ParserParsers::flat_map(p, f)
      } else {
        p.flat_map(f)
      }
    }
    "or" => {
      if odd {
        c(0) | c(1)
      } else {
        c(0).or(c(1))
      }
    }
    "rep" => {
      let sep = if g.c.len() == 2 { Some(c(1)) } else { None };
      with_range(g, style, c(0), sep)
    }
    k => {
      let op = c(1).map(|o: String| move |x: String, y: String| format!("<{} {} {}>", x, o, y));
      match k {
        "chainl1" => c(0).chain_left1(op),
        "chainr1" => c(0).chain_right1(op),
        "scanr1" => c(0).scan_right1(op),
        "chainl0" => c(0).chain_left0(op, v),
        "chainr0" => c(0).chain_right0(op, v),
        "restl1" => c(0).rest_left1(op, v),
        "restr1" => c(0).rest_right1(op, v),
        _ => unreachable!("kind {}", k),
      }
    }
  }
}

/// What the harness observes of one run.
#[derive(Debug, Clone, PartialEq)]
pub struct Obs {
  pub ok: bool,
  pub v: String,
  pub n: usize,
  pub c: bool,
  pub e: String,
  /// offset of the outermost error, None if it has none (or is the user's own)
  pub o: Option<usize>,
  pub d: Option<usize>,
}

impl Obs {
  pub fn json(&self) -> Value {
    serde_json::json!({"ok": self.ok, "v": self.v, "n": self.n, "c": self.c, "e": self.e, "o": self.o, "d": self.d})
  }
}

fn error_chain<I: Debug>(e: &ParseError<'static, I>) -> (String, Option<usize>, Option<usize>) {
  match e {
    ParseError::Mismatch { offset, message, .. } => {
      let o = if message == "user" { None } else { Some(*offset) };
      ("mismatch".to_string(), o, o)
    }
    ParseError::Conversion { offset, message, .. } => {
      let o = if message == "user" { None } else { Some(*offset) };
      ("conversion".to_string(), o, o)
    }
    ParseError::Incomplete => ("incomplete".to_string(), None, None),
    ParseError::Custom { offset, inner: None, message } => {
      let o = if message == "user" { None } else { Some(*offset) };
      ("custom".to_string(), o, o)
    }
    ParseError::Custom { offset, inner: Some(i), .. } => {
      let (c, _, d) = error_chain(i);
      (format!("custom>{}", c), Some(*offset), d)
    }
    ParseError::Expect { offset, inner, message } => {
      let (c, _, d) = error_chain(inner);
      let o = if message == "user" { None } else { Some(*offset) };
      (format!("expect>{}", c), o, d)
    }
  }
}

/// calls every accessor of an error; returns a complaint if they contradict each other
pub fn inspect<I: El>(e: &ParseError<'static, I>, w: &[I]) -> Option<String> {
  let (chain, _, _) = error_chain(e);
  let head = chain.split('>').next().unwrap();
  let flags = [
    ("mismatch", e.is_mismatch()),
    ("conversion", e.is_conversion()),
    ("incomplete", e.is_in_complete()),
    ("expect", e.is_expect()),
    ("custom", e.is_custom()),
  ];
  for (k, b) in flags {
    if b != (k == head) {
      return Some(format!("is_{} = {} on a {} error", k, b, head));
    }
  }
  let shown = format!("{} {:?}", e, e);
  if shown.is_empty() {
    return Some("no text".to_string());
  }
  if let Some(part) = e.input() {
    // the reported text is part of the input
    let found = part.is_empty() || w.windows(part.len()).any(|x| x == part);
    if !found {
      return Some(format!("input() = {:?} is not part of the input", part));
    }
  }
  None
}

pub fn observe<I: El>(r: &ParseResult<'static, I, String>) -> Obs {
  match r {
    ParseResult::Success { value, length } => {
      Obs { ok: true, v: value.clone(), n: *length, c: false, e: String::new(), o: None, d: None }
    }
    ParseResult::Failure { error, committed_status } => {
      let (e, o, d) = error_chain(error);
      Obs { ok: false, v: String::new(), n: 0, c: committed_status.is_committed(), e, o, d }
    }
  }
}
