From a12b9af677a5483a044476ad46271fcdf7518c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 01/50] fix: key the cache combinator by input and position

The key was the address of the (short-lived) parse state plus last_offset,
so a cached parser could return the result of another position or input.
---
 .../parsers_impl/cache_parsers_impl.rs        | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/parser/src/internal/parsers_impl/cache_parsers_impl.rs b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
index 57a64ee..bf9aaad 100644
--- a/parser/src/internal/parsers_impl/cache_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
@@ -6,7 +6,6 @@ use std::cell::RefCell;
 use crate::core::ParseResult;
 use fnv::FnvHashMap;
 use std::fmt::Debug;
-use std::ptr;
 
 impl CacheParsers for ParsersImpl {
   #[inline]
@@ -18,21 +17,20 @@ impl CacheParsers for ParsersImpl {
     let caches = RefCell::new(FnvHashMap::<(usize, usize, usize), ParseResult<'a, I, A>>::default());
     let method = parser.method.clone();
     Parser::new(move |parser_state| {
-      // キーをタプルとして生成（文字列変換なし）
-      let key = (
-        parser_state as *const _ as usize,
-        parser_state.last_offset().unwrap_or(0),
-        ptr::addr_of!(method) as usize,
-      );
+      // 残りの入力（位置と長さ）とオフセットをキーとする
+      let input = parser_state.input();
+      let key = (input.as_ptr() as usize, input.len(), parser_state.current_offset());
 
-      // キャッシュから結果を取得または計算
-      let parse_result = caches
-        .borrow_mut()
-        .entry(key)
-        .or_insert_with(|| method(parser_state))
-        .clone();
-
-      parse_result
+      // キャッシュから結果を取得または計算（計算中は借用を保持しない）
+      let cached = caches.borrow().get(&key).cloned();
+      match cached {
+        Some(parse_result) => parse_result,
+        None => {
+          let parse_result = method(parser_state);
+          caches.borrow_mut().insert(key, parse_result.clone());
+          parse_result
+        }
+      }
     })
   }
 }
-- 
2.43.0


From 09fa88120be7eb8b2f1a4a5dc2bcb3c9ab57158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 02/50] fix: make chain_right1/scan_right1/rest_right1
 right-associative

chain_right1 folded to the left and rest_right1 applied the operator at most once.
---
 parser/src/internal/parsers_impl/operator_parsers_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/internal/parsers_impl/operator_parsers_impl.rs b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
index efa7b35..2cb4829 100644
--- a/parser/src/internal/parsers_impl/operator_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
@@ -87,7 +87,7 @@ impl OperatorParsers for ParsersImpl {
   where
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
-    Self::flat_map(p.clone(), move |x| Self::rest_left1(p.clone(), op.clone(), x.clone()))
+    Self::flat_map(p.clone(), move |x| Self::rest_right1(p.clone(), op.clone(), x))
   }
 
   #[inline]
@@ -107,7 +107,9 @@ impl OperatorParsers for ParsersImpl {
     Self::or(
       Self::flat_map(op.clone(), move |f| {
         let default_value = x.clone();
-        Self::map(p.clone(), move |y| f(default_value.clone(), y.clone()))
+        Self::map(Self::chain_right1(p.clone(), op.clone()), move |y| {
+          f(default_value.clone(), y.clone())
+        })
       }),
       Self::successful(default_value.clone()),
     )
-- 
2.43.0


From bdd706d9e37f43f30ef5581f4206f7376dfb36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 03/50] fix: anchor the whole regex and report its length in
 elements

An alternation was only anchored in its first branch, and the consumed length
was counted in bytes instead of chars.
---
 parser/src/internal/parsers_impl/elements_parsers_impl.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index a733b84..2af6ae5 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -81,11 +81,7 @@ impl ElementsParsers for ParsersImpl {
   }
 
   fn regex<'a>(pattern: &str) -> Self::P<'a, char, String> {
-    let pattern = if !pattern.starts_with("^") {
-      format!("^{}", pattern)
-    } else {
-      pattern.to_string()
-    };
+    let pattern = format!("^(?:{})", pattern);
     let regex = Regex::new(&pattern).unwrap();
     Parser::new(move |parse_state| {
       let input: &[char] = parse_state.input();
@@ -94,7 +90,7 @@ impl ElementsParsers for ParsersImpl {
       if let Some(captures) = regex.captures(&str).as_ref() {
         if let Some(m) = captures.get(0) {
           let str = m.as_str();
-          ParseResult::successful(str.to_string(), str.len())
+          ParseResult::successful(str.to_string(), str.chars().count())
         } else {
           let msg = format!("regex {:?} found: {:?}", regex, str);
           let pe = ParseError::of_mismatch(input, parse_state.current_offset(), str.len(), msg);
-- 
2.43.0


From 898fc3ff0ec118438e6d7cf320ca6678257957f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 04/50] fix: ParseError::input and input_string no longer panic

The offset of an error may lie beyond the slice it carries.
---
 parser/src/core/parse_error.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/parse_error.rs b/parser/src/core/parse_error.rs
index 9db82af..a7d7bc3 100644
--- a/parser/src/core/parse_error.rs
+++ b/parser/src/core/parse_error.rs
@@ -91,10 +91,10 @@ impl<'a, I> ParseError<'a, I> {
       ParseError::Incomplete => None,
       ParseError::Mismatch {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => Some(Self::slice(input, *offset, *length)),
       ParseError::Conversion {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => Some(Self::slice(input, *offset, *length)),
       ParseError::Expect { ref inner, .. } => inner.input(),
       ParseError::Custom {
         inner: Some(ref inner), ..
@@ -103,6 +103,13 @@ impl<'a, I> ParseError<'a, I> {
     }
   }
 
+  // The input of an error may begin at its offset, so the range is clamped to what is there.
+  fn slice(input: &'a [I], offset: usize, length: usize) -> &'a [I] {
+    let start = offset.min(input.len());
+    let end = offset.saturating_add(length).min(input.len());
+    &input[start..end]
+  }
+
   pub fn is_expect(&self) -> bool {
     match self {
       ParseError::Expect { .. } => true,
-- 
2.43.0


From e88161ebe981dd47d549436617fb049988c1b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 05/50] fix: a repetition of at most zero items consumes
 nothing

The first item was always parsed, so of_count(0) could return an item.
---
 parser/src/internal/parsers_impl/repeat_parsers_impl.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index ca1b723..9219c0d 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -74,7 +74,12 @@ impl RepeatParsers for ParsersImpl {
       let mut all_length = 0;
       let mut items = vec![];
 
-      if let ParseResult::Success { value, length } = (method)(parse_state) {
+      let first = match range.end() {
+        // no item is allowed at all
+        Bound::Included(&0) | Bound::Excluded(&0) | Bound::Excluded(&1) => None,
+        _ => Some((method)(parse_state)),
+      };
+      if let Some(ParseResult::Success { value, length }) = first {
         let mut current_parse_state = parse_state.advance_by(length);
         items.push(value);
         all_length += length;
-- 
2.43.0


From 3541d7ea9e7c4acbe08eaf1339015af5ed1464cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 06/50] fix: an unbounded repetition of a parser that consumes
 nothing terminates

---
 parser/src/internal/parsers_impl/repeat_parsers_impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index 9219c0d..65bfb77 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -98,6 +98,7 @@ impl RepeatParsers for ParsersImpl {
             _ => (),
           }
 
+          let length_before = all_length;
           if let Some(sep) = &separator_clone {
             if let ParseResult::Success { length, .. } = (sep.method)(&current_parse_state) {
               current_parse_state = current_parse_state.advance_by(length);
@@ -107,6 +108,11 @@ impl RepeatParsers for ParsersImpl {
             }
           }
           if let ParseResult::Success { value, length } = (method)(&current_parse_state) {
+            // an unbounded repetition ends when it makes no progress
+            let enough = !matches!(range.start(), Bound::Included(&min) if items.len() < min);
+            if enough && all_length + length == length_before && matches!(range.end(), Bound::Unbounded) {
+              break;
+            }
             current_parse_state = current_parse_state.advance_by(length);
             items.push(value);
             all_length += length;
-- 
2.43.0


From 33407f8a1f0222127c2d385102d9341e86364500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 07/50] fix: take_while0/1/n_m stop at the end of the run

Later matching elements were counted too, so the slice could hold elements
that do not satisfy the condition.
---
 parser/src/internal/parsers_impl/taken_parsers_impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/internal/parsers_impl/taken_parsers_impl.rs b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
index 2dcd97c..15f3c60 100644
--- a/parser/src/internal/parsers_impl/taken_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
@@ -33,6 +33,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -59,6 +61,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -85,6 +89,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
-- 
2.43.0


From d55d04881d5b3b347f1284f783ee2c333556c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 08/50] fix: take_while0/1/n_m consume up to the end of the run
 they return

The elements skipped before the run were not counted, so the next parser
resumed inside the run.
---
 parser/src/internal/parsers_impl/taken_parsers_impl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/internal/parsers_impl/taken_parsers_impl.rs b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
index 15f3c60..4dbd134 100644
--- a/parser/src/internal/parsers_impl/taken_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
@@ -39,7 +39,7 @@ impl TakenParsers for ParsersImpl {
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::successful(parse_state.slice_with_len(0), 0),
       }
     })
@@ -67,7 +67,7 @@ impl TakenParsers for ParsersImpl {
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::failed_with_uncommitted(ParseError::of_in_complete()),
       }
     })
@@ -98,7 +98,7 @@ impl TakenParsers for ParsersImpl {
         Some(s) => {
           let str = &input[s..s + len];
           if n <= str.len() && str.len() <= m {
-            ParseResult::successful(str, len)
+            ParseResult::successful(str, s + len)
           } else {
             ParseResult::failed_with_uncommitted(ParseError::of_in_complete())
           }
-- 
2.43.0


From f6d5e89445e951d1f4a516b9688be87cccbbc970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 09/50] fix: evaluate the day-of-week field against the day of
 the week

It was compared with the minute.
---
 crond/src/cron_evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 1262254..3f4ba39 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -30,7 +30,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         );
         let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12), months);
         let fday_of_weeks = self.visit(
-          &CronEnvironment::new(self.instant.time().minute() as u8, 7),
+          &CronEnvironment::new(self.instant.date().weekday().number_from_sunday() as u8, 7),
           day_of_weeks,
         );
         fmins && fhours && fdays && fmonths && fday_of_weeks
-- 
2.43.0


From 6ad8c3c5228fe50e5938770436aef98dd3109471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 10/50] fix: a bounded cron interval yields nothing after its
 end

The search for the next match ran past the end, without limit if there was
no later match.
---
 crond/src/cron_interval_iterator.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crond/src/cron_interval_iterator.rs b/crond/src/cron_interval_iterator.rs
index 36fe241..192ec0b 100644
--- a/crond/src/cron_interval_iterator.rs
+++ b/crond/src/cron_interval_iterator.rs
@@ -44,7 +44,11 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> Iterator for CronIntervalIter
         if end >= self.curr {
           self.proceed_next();
           let curr: DateTime<Tz> = self.curr.clone();
-          Some(curr)
+          if end >= curr {
+            Some(curr)
+          } else {
+            None
+          }
         } else {
           None
         }
@@ -77,7 +81,11 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronIntervalIterator<Tz, S> {
   }
 
   fn proceed_next(&mut self) {
+    let end = self.end_value();
     while !self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
+      if matches!(&end, Some(end) if self.curr > *end) {
+        break;
+      }
       self.curr = self.next.clone();
       self.next = self.next.clone() + Duration::minutes(1);
     }
-- 
2.43.0


From c7ac5efd56eb82fe853b6e6d68db615bb08b79b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 11/50] fix: accept seven groups before a trailing :: in an
 IPv6 address

---
 uri/src/parsers/ip_v6_address_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/ip_v6_address_parsers.rs b/uri/src/parsers/ip_v6_address_parsers.rs
index 3863da6..9249596 100644
--- a/uri/src/parsers/ip_v6_address_parsers.rs
+++ b/uri/src/parsers/ip_v6_address_parsers.rs
@@ -130,7 +130,7 @@ fn ip_v6_address8<'a>() -> Parser<'a, u8, Ipv6Addr> {
 
 //                / [ *6( h16 ":" ) h16 ] "::"
 fn ip_v6_address9<'a>() -> Parser<'a, u8, Ipv6Addr> {
-  (ip_v6_address_p1(5) + seq(b"::"))
+  (ip_v6_address_p1(6) + seq(b"::"))
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From 4805c1f2dd9fd8bdfee4996fb1b9492af46dc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 12/50] fix: Uri::parse rejects text after the URI

Whatever followed the longest valid prefix was silently dropped.
---
 uri/src/models/uri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/models/uri.rs b/uri/src/models/uri.rs
index 6c82be6..a2ad508 100644
--- a/uri/src/models/uri.rs
+++ b/uri/src/models/uri.rs
@@ -6,7 +6,7 @@ use crate::models::query::Query;
 use crate::models::scheme::Scheme;
 use crate::models::user_info::UserInfo;
 use crate::parsers::uri_parsers;
-use oni_comb_parser_rs::prelude::{ParseError, ParserRunner};
+use oni_comb_parser_rs::prelude::{end, ParseError, ParserRunner};
 use std::fmt::Formatter;
 
 pub type Fragment = String;
@@ -66,7 +66,7 @@ impl std::fmt::Display for Uri {
 
 impl Uri {
   pub fn parse(text: &str) -> Result<Uri, ParseError<u8>> {
-    uri_parsers::uri().parse(text.as_bytes()).to_result()
+    (uri_parsers::uri() - end()).parse(text.as_bytes()).to_result()
   }
 
   pub fn new(
-- 
2.43.0


From 5950d7c5bad0a7991be916c2e3e8f55a47e4c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 13/50] fix: a registered name may begin like an IPv4 address

The host of http://1.2.3.4.example.com was taken to be 1.2.3.4.
---
 uri/src/parsers/host_parsers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index f54984f..133873e 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -7,7 +7,9 @@ use crate::parsers::ip_v6_address_parsers::ip_v6_address;
 
 // host          = IP-literal / IPv4address / reg-name
 pub fn host<'a>() -> Parser<'a, u8, HostName> {
-  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4_address().map(HostName::Ipv4Address).attempt() | reg_name())
+  // an IPv4address directly followed by more of a reg-name is part of that reg-name
+  let ip_v4_address = ip_v4_address() - (unreserved() | pct_encoded() | sub_delims()).not();
+  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4_address.map(HostName::Ipv4Address).attempt() | reg_name())
     .name("host")
 }
 
-- 
2.43.0


From ff84230d56b95151672837ecaadc5d73738316c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 14/50] fix: the value of a query parameter may contain '='

---
 uri/src/parsers/query_parsers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uri/src/parsers/query_parsers.rs b/uri/src/parsers/query_parsers.rs
index 0dc80fd..d3f78e3 100644
--- a/uri/src/parsers/query_parsers.rs
+++ b/uri/src/parsers/query_parsers.rs
@@ -4,14 +4,14 @@ use oni_comb_parser_rs::prelude::*;
 
 //  query         = *( pchar / "/" / "?" )
 pub fn query<'a>() -> Parser<'a, u8, Query> {
-  let code_point = || {
-    (pchar_without_eq_amp() | elm_of(b"/?").collect())
+  let code_point = |others: &'static [u8]| {
+    (pchar_without_eq_amp() | elm_of(others).collect())
       .of_many0()
       .collect()
       .map(|e| e.to_vec())
       .map_res(String::from_utf8)
   };
-  let key_values = || (code_point() + (elm(b'=') * code_point()).opt());
+  let key_values = || (code_point(b"/?") + (elm(b'=') * code_point(b"/?=")).opt());
   (key_values() + (elm(b'&') * key_values()).of_many0()).map(|(a, b)| {
     let mut m = vec![a];
     m.extend(b);
-- 
2.43.0


From 8a47a1d2bbf89e1756404b8e0c117de27d622868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 15/50] fix: a password may be empty and may contain ':'

RFC 3986: userinfo = *( unreserved / pct-encoded / sub-delims / ":" )
---
 uri/src/parsers/user_info_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/user_info_parsers.rs b/uri/src/parsers/user_info_parsers.rs
index f28bd89..cd8ac24 100644
--- a/uri/src/parsers/user_info_parsers.rs
+++ b/uri/src/parsers/user_info_parsers.rs
@@ -6,7 +6,7 @@ use oni_comb_parser_rs::prelude::*;
 pub fn user_info<'a>() -> Parser<'a, u8, UserInfo> {
   let p = || (unreserved().attempt() | pct_encoded().attempt() | sub_delims());
   (p().of_many0().collect().map(|e| e.to_vec()).map_res(String::from_utf8)
-    + (elm(b':') * p().of_many1().collect().map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
+    + (elm(b':') * (p() | elm_ref(b':').collect()).of_many0().collect().map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
   .map(|(user_name, password)| UserInfo::new(user_name, password))
   .name("user_info")
 }
-- 
2.43.0


From e385e4bba5a1d299257963e269abd0e189d2fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 16/50] fix: the port after ':' may be empty

RFC 3986: port = *DIGIT
---
 uri/src/parsers/authority_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/parsers/authority_parsers.rs b/uri/src/parsers/authority_parsers.rs
index cd635fd..0b8aa24 100644
--- a/uri/src/parsers/authority_parsers.rs
+++ b/uri/src/parsers/authority_parsers.rs
@@ -7,8 +7,8 @@ use crate::parsers::user_info_parsers::user_info;
 use oni_comb_parser_rs::prelude::*;
 
 pub fn authority<'a>() -> Parser<'a, u8, Authority> {
-  ((user_info() - elm_ref(b'@')).opt() + host() + (elm_ref(b':') * port()).opt())
-    .map(|((user_info, host_name), port)| Authority::new(host_name, port, user_info))
+  ((user_info() - elm_ref(b'@')).opt() + host() + (elm_ref(b':') * port().opt()).opt())
+    .map(|((user_info, host_name), port)| Authority::new(host_name, port.flatten(), user_info))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 360fcc12a9291d798218c3064b468b8d30b8569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 17/50] fix: the host of an authority may be empty

file:///x was taken to have no authority and the path ///x.
---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index 133873e..d17cc51 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -35,7 +35,7 @@ pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
 //  reg-name      = *( unreserved / pct-encoded / sub-delims )
 pub fn reg_name<'a>() -> Parser<'a, u8, HostName> {
   (unreserved().attempt() | pct_encoded().attempt() | sub_delims())
-    .of_many1()
+    .of_many0()
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From 1797fc3357d7695553a13bc0079ea068a7c2df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 18/50] fix: keep the sign of a number and parse exponents

The sign was dropped and an exponent panicked.
---
 hocon/src/parsers.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index df148e5..2aa9160 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -3,6 +3,7 @@ use std::char::{decode_utf16, REPLACEMENT_CHARACTER};
 use std::collections::HashMap;
 
 use oni_comb_parser_rs::prelude::*;
+use rust_decimal::Decimal;
 
 fn comment<'a>() -> Parser<'a, u8, &'a [u8]> {
   let head = seq(b"//").collect().attempt() | elm_ref(b'#').collect();
@@ -75,22 +76,17 @@ fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
-  number().map(|(s, i, f, e)| match (s, i, f, e) {
-    (None, i, None, None) => ConfigNumberValue::from(i),
-    (Some(_), i, None, None) => ConfigNumberValue::from(i),
-    (_, i, Some(f), None) => {
-      let mut s = i;
-      s.push_str(&f);
-      ConfigNumberValue::from(s)
-    }
-    (_, i, Some(f), Some(e)) => {
-      let mut s = i;
-      s.push_str(&f);
-      s.push_str(&e);
-      ConfigNumberValue::from(s)
-    }
-    _ => panic!("no match !!!"),
-  })
+  number()
+    .map_res(|(sign, i, f, e)| {
+      let mut s = sign.map(|_| "-".to_string()).unwrap_or_default();
+      s.push_str(&i);
+      s.push_str(&f.unwrap_or_default());
+      match e {
+        None => Decimal::from_str_radix(&s, 10),
+        Some(e) => Decimal::from_scientific(&(s + &e)),
+      }
+    })
+    .map(ConfigNumberValue::new)
 }
 
 fn string_double_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-- 
2.43.0


From 804428d1717512c3eae4765b18a9f88acbf92cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 19/50] fix: an empty document is an empty object

It panicked.
---
 hocon/src/model.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index fdb6063..eac7cee 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::fs::File;
 use std::io::Read;
@@ -95,9 +96,13 @@ impl ConfigFactory {
   }
 
   fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut cur = config_values[0].clone();
+    let (head, tail) = match config_values.split_first() {
+      Some(split) => split,
+      None => return ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
+    };
+    let mut cur = head.clone();
     cur.resolve(None);
-    for cv in &config_values[1..] {
+    for cv in tail {
       let mut t = cv.clone();
       t.resolve(None);
       cur.merge_with(t);
-- 
2.43.0


From 1eb2e1e55068935881853b167d29b39640e5fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 20/50] fix: accept the long names of duration units

The shortest name was tried first, so the rest of a longer one was left over.
---
 hocon/src/parsers.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 2aa9160..a7e8fbc 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -45,28 +45,28 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
-  let ns = (seq(b"ns").attempt()
-    | seq(b"nano").attempt()
-    | seq(b"nanos").attempt()
+  let ns = (seq(b"nanoseconds").attempt()
     | seq(b"nanosecond").attempt()
-    | seq(b"nanoseconds"))
+    | seq(b"nanos").attempt()
+    | seq(b"nano").attempt()
+    | seq(b"ns"))
   .map(|_| TimeUnit::Nanoseconds);
-  let us = (seq(b"us").attempt()
-    | seq(b"micro").attempt()
-    | seq(b"micros").attempt()
+  let us = (seq(b"microseconds").attempt()
     | seq(b"microsecond").attempt()
-    | seq(b"microseconds"))
+    | seq(b"micros").attempt()
+    | seq(b"micro").attempt()
+    | seq(b"us"))
   .map(|_| TimeUnit::Microseconds);
-  let ms = (seq(b"ms").attempt()
-    | seq(b"milli").attempt()
-    | seq(b"millis").attempt()
+  let ms = (seq(b"milliseconds").attempt()
     | seq(b"millisecond").attempt()
-    | seq(b"milliseconds"))
+    | seq(b"millis").attempt()
+    | seq(b"milli").attempt()
+    | seq(b"ms"))
   .map(|_| TimeUnit::Milliseconds);
-  let s = (seq(b"s").attempt() | seq(b"second").attempt() | seq(b"seconds")).map(|_| TimeUnit::Seconds);
-  let m = (seq(b"m").attempt() | seq(b"minute").attempt() | seq(b"minutes")).map(|_| TimeUnit::Minutes);
-  let h = (seq(b"h").attempt() | seq(b"hour").attempt() | seq(b"hours")).map(|_| TimeUnit::Hours);
-  let d = (seq(b"d").attempt() | seq(b"day").attempt() | seq(b"days")).map(|_| TimeUnit::Days);
+  let s = (seq(b"seconds").attempt() | seq(b"second").attempt() | seq(b"s")).map(|_| TimeUnit::Seconds);
+  let m = (seq(b"minutes").attempt() | seq(b"minute").attempt() | seq(b"m")).map(|_| TimeUnit::Minutes);
+  let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
+  let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
   number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
 }
-- 
2.43.0


From cc4d7e173a080b0cce4541c0db0fc5035919277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 21/50] fix: an unset optional reference keeps the latest
 previous value

With two or more previous values the one before the latest was taken.
---
 hocon/src/model/config_value.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 8a49771..7fbedf7 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -203,7 +203,9 @@ impl ConfigResolver for ConfigValue {
           if ref_value.is_some() {
             *cvr = ref_value.unwrap();
           } else {
-            *cvr = cvr.ref_prev().clone().unwrap().prev_latest().clone();
+            let mut prev = cvr.ref_prev().clone().unwrap().latest().clone();
+            prev.resolve(source);
+            *cvr = prev;
           }
         } else {
           if ref_value.is_none() {
-- 
2.43.0


From 770dcef691b2a0dcc4fc623e497d1cc3edede580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 22/50] fix: include opens the file without the quotes around
 its name

---
 hocon/src/model/config_value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 7fbedf7..26890fc 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -95,7 +95,7 @@ impl ConfigResolver for ConfigValue {
       (cvi @ ConfigValue::Include(..), ..) => {
         let mut config_factory = ConfigFactory::new();
         let c = config_factory
-          .load_from_file(&cvi.get_include_value().unwrap().file_name)
+          .load_from_file(cvi.get_include_value().unwrap().file_name.trim_matches('"'))
           .unwrap();
         *cvi = c.to_config_value().clone();
       }
-- 
2.43.0


From 49109b11cf7fdbc28a28ce90054a7aaca0ea0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 23/50] fix: later HOCON definitions win and objects merge at
 every level

At the root the first of two scalars won, inside an object the second of two
objects replaced the first, and a dotted key dropped the other keys of its
object or was merged in the random order of a hash map.
---
 hocon/src/model.rs              |  5 ++++-
 hocon/src/model/config_value.rs | 12 +++++-----
 hocon/src/parsers.rs            | 39 +++++++++++++--------------------
 3 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index eac7cee..d8a0a46 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -105,7 +105,10 @@ impl ConfigFactory {
     for cv in tail {
       let mut t = cv.clone();
       t.resolve(None);
-      cur.merge_with(t);
+      match (&mut cur, t) {
+        (ConfigValue::Array(l), ConfigValue::Array(r)) => l.merge_with(r),
+        (l, r) => l.merge_with(r),
+      }
     }
     cur
   }
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 26890fc..56bbc69 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -75,16 +75,18 @@ impl ConfigMergeable for ConfigValue {
       (ConfigValue::Object(l), ConfigValue::Object(r)) => {
         l.merge_with(r);
       }
-      (ConfigValue::Array(l), ConfigValue::Array(r)) => {
-        l.merge_with(r);
+      (l, r @ ConfigValue::Link(..)) => {
+        for cv in r.to_vec() {
+          l.merge_with(cv);
+        }
       }
-      (ConfigValue::Link(..), ConfigValue::Link(..)) => {}
-      (l @ ConfigValue::Link(..), r) => {
+      (l @ ConfigValue::Link(..), r @ ConfigValue::Object(..)) if l.latest().get_object_value().is_some() => {
         let mut cv = l.get_value_link().unwrap().value.clone();
         cv.merge_with(r);
         l.push(cv);
       }
-      (..) => {}
+      // the later value wins
+      (l, r) => l.push(r),
     }
   }
 }
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index a7e8fbc..ac5beed 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -204,22 +204,24 @@ fn comma<'a>() -> Parser<'a, u8, &'a u8> {
   elm_ref(b',').surround(space_or_comment(), space_or_comment())
 }
 
+/// Merges the properties in the order of the source; a key `a.b` stands for the key `b` of the object `a`.
+fn merge_properties(properties: Vec<(String, ConfigValue)>) -> HashMap<String, ConfigValue> {
+  let mut result = ConfigObjectValue::new(HashMap::new());
+  for (key, value) in properties {
+    let mut keys = key.rsplit('.').map(String::from);
+    let leaf = ConfigObjectValue::from((keys.next().unwrap_or_default(), value));
+    result.merge_with(keys.fold(leaf, |object, k| {
+      ConfigObjectValue::from((k, ConfigValue::Object(object)))
+    }));
+  }
+  result.0
+}
+
 fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
   let properties: Parser<'a, u8, Vec<(String, ConfigValue)>> = lazy(property).of_many0_sep(comma().opt());
   let obj: Parser<'a, u8, Vec<(String, ConfigValue)>> =
     properties.surround(object_left_bracket(), object_right_bracket());
-  obj.map(|properties| {
-    let m: HashMap<String, ConfigValue> = HashMap::new();
-    properties.into_iter().fold(m, |mut r, e| {
-      match r.get_mut(&e.0) {
-        Some(v) => v.push(e.1),
-        None => {
-          r.insert(e.0, e.1);
-        }
-      };
-      r
-    })
-  })
+  obj.map(merge_properties)
 }
 
 fn path_element<'a>() -> Parser<'a, u8, &'a [u8]> {
@@ -300,18 +302,7 @@ fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
   property_config_value()
     .of_many1()
     .map(|values: Vec<(String, ConfigValue)>| {
-      let map = values.into_iter().fold(HashMap::new(), |mut key_values, (k, v)| {
-        match key_values.get_mut(&k) {
-          None => {
-            key_values.insert(k, v);
-          }
-          Some(cv) => {
-            cv.merge_with(v);
-          }
-        }
-        key_values
-      });
-      vec![ConfigValue::Object(ConfigObjectValue::new(map))]
+      vec![ConfigValue::Object(ConfigObjectValue::new(merge_properties(values)))]
     })
     .attempt()
     | include_config_value().of_many1().attempt()
-- 
2.43.0


From 3d98991c33c24b0695a9b2db9ca0d072dc906b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 24/50] fix: load_from_file reports a file it cannot read

---
 hocon/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index d8a0a46..8c5ee03 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -71,7 +71,7 @@ impl ConfigFactory {
 
   pub fn load_from_file(&mut self, filename: &str) -> Result<Config, ConfigError> {
     let mut text = String::new();
-    let _ = self.file_reader.read_to_string(filename, &mut text);
+    self.file_reader.read_to_string(filename, &mut text)?;
     self.parse_from_string(&text)
   }
 
-- 
2.43.0


From eddabb4427eeadfe1a8809de859468c6221e006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 25/50] fix: root properties may be separated by commas

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index ac5beed..9c4c64c 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -300,7 +300,7 @@ fn config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 
 fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
   property_config_value()
-    .of_many1()
+    .of_many1_sep(comma().opt())
     .map(|values: Vec<(String, ConfigValue)>| {
       vec![ConfigValue::Object(ConfigObjectValue::new(merge_properties(values)))]
     })
-- 
2.43.0


From 58bd9376481f1b10c8e3ed8a90179b9e64ac0d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 26/50] fix: bind parameters, labelled parameters and global
 variables

The bindings were added to a copy that was dropped.
---
 toys/src/interpreter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6b0621f..41e95a2 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -33,8 +33,8 @@ impl Interpreter {
         for top_level in definitions {
           match &**top_level {
             Expr::GlobalVariableDefinition(name, expr) => {
-              let mut bindings = self.variable_environment.as_bindings().clone();
-              bindings.insert(name.clone(), self.interpret(expr.clone()));
+              let value = self.interpret(expr.clone());
+              self.variable_environment.as_bindings_mut().insert(name.clone(), value);
             }
             Expr::FunctionDefinition(name, ..) => {
               self.function_environment.insert(name.clone(), top_level.clone());
@@ -146,7 +146,7 @@ impl Interpreter {
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           let mut i = 0;
           for formal_param_name in formal_params {
-            let mut bindings = self.variable_environment.as_bindings().clone();
+            let bindings = self.variable_environment.as_bindings_mut();
             bindings.insert(formal_param_name.clone(), values[i].clone());
             i += 1;
           }
@@ -171,7 +171,7 @@ impl Interpreter {
           let backup = self.variable_environment.clone();
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           for (param_name, param_value) in name_with_values {
-            let mut bindings = self.variable_environment.as_bindings().clone();
+            let bindings = self.variable_environment.as_bindings_mut();
             bindings.insert(param_name, param_value);
           }
           let result = self.interpret(body.clone());
-- 
2.43.0


From ff21633cabdb7bf8492ac855bfefcbbfdb0d1d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 27/50] fix: an empty block does not panic

---
 toys/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 41e95a2..6153e8f 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -106,7 +106,7 @@ impl Interpreter {
         for expr in exprs {
           value = Some(self.interpret(expr.clone()));
         }
-        value.unwrap()
+        value.unwrap_or(Value::Bool(true))
       }
       Expr::Println(args) => {
         let value = self.interpret(args.clone());
-- 
2.43.0


From aabc99f65502098425306891e9a3b77430209273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 28/50] fix: interpret bool and array literals

The parser accepts them, the interpreter panicked.
---
 toys/src/interpreter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6153e8f..6db5cb6 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -78,6 +78,8 @@ impl Interpreter {
       }
       Expr::StringLiteral(value) => Value::String(value.clone()),
       Expr::IntegerLiteral(value) => Value::Int(*value),
+      Expr::BoolLiteral(value) => Value::Bool(*value),
+      Expr::ArrayLiteral(values) => Value::Array(values.iter().map(|e| self.interpret(e.clone())).collect()),
       Expr::Parenthesized(expr) => self.interpret(expr.clone()),
       Expr::Symbol(name) => {
         let bindings_opt = self.variable_environment.find_binding(name);
-- 
2.43.0


From 3b6cfbac5324ec9644e39e0ab1a5c803f6cae0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 29/50] fix: an identifier may begin like a bool literal

x = foo; failed on the committed tag("false"), and truex was read as true.
---
 toys/src/parsers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index fb4d158..0e63a0d 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -267,7 +267,11 @@ fn bool_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
     "false" => Expr::of_bool_literal(false),
     _ => panic!("unexpected token"),
   });
-  (space() * p - space()).name("bool_literal").cache()
+  let end_of_word = elm_pred(|c: &char| c.is_ascii_alphanumeric() || *c == '_').not();
+  (space() * p - end_of_word - space())
+    .attempt()
+    .name("bool_literal")
+    .cache()
 }
 
 fn string_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
-- 
2.43.0


From 5fb8dd2b40ce8d77866fd65b673385da8919986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 30/50] fix: assigning to a variable of an outer scope updates
 it

It panicked.
---
 toys/src/environment.rs |  9 +++++++++
 toys/src/interpreter.rs | 13 +++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/toys/src/environment.rs b/toys/src/environment.rs
index 2ac3d6b..21a584c 100644
--- a/toys/src/environment.rs
+++ b/toys/src/environment.rs
@@ -30,6 +30,15 @@ impl Environment {
     }
   }
 
+  /// Assigns to the innermost binding of the name, if there is one.
+  pub fn assign(&mut self, name: &str, value: Value) {
+    if let Some(binding) = self.bindings.get_mut(name) {
+      *binding = value;
+    } else if let Some(next) = &mut self.next {
+      Rc::make_mut(next).assign(name, value);
+    }
+  }
+
   pub fn new(bindings: HashMap<String, Value>, next: Option<Rc<Environment>>) -> Environment {
     Self { bindings, next }
   }
diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6db5cb6..31167f7 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -90,10 +90,7 @@ impl Interpreter {
         let bindings_opt = self.variable_environment.find_binding(name);
         if bindings_opt.is_some() {
           let value = self.interpret(expr.clone());
-          let mut bindings = self.variable_environment.as_bindings().clone();
-          let r = bindings.get_mut(name).unwrap();
-          *r = value.clone();
-          self.variable_environment = Environment::new(bindings, self.variable_environment.next.clone());
+          self.variable_environment.assign(name, value.clone());
           value
         } else {
           let value = self.interpret(expr.clone());
@@ -153,7 +150,9 @@ impl Interpreter {
             i += 1;
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          // the caller's variables may have been assigned to
+          let next = self.variable_environment.next.as_deref().cloned();
+          self.variable_environment = next.unwrap_or(backup);
           result
         } else {
           panic!("Function {} not defined", name);
@@ -177,7 +176,9 @@ impl Interpreter {
             bindings.insert(param_name, param_value);
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          // the caller's variables may have been assigned to
+          let next = self.variable_environment.next.as_deref().cloned();
+          self.variable_environment = next.unwrap_or(backup);
           result
         } else {
           panic!("Function {} not defined", name);
-- 
2.43.0


From 0f97d7491d52a2871d5254c3f0f0fffab2144cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 31/50] fix: is_ascii_digit_non_zero accepts only the digits 1
 to 9

---
 parser/src/core/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/element.rs b/parser/src/core/element.rs
index dfe138d..f1dc316 100644
--- a/parser/src/core/element.rs
+++ b/parser/src/core/element.rs
@@ -85,7 +85,7 @@ impl Element for u8 {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    matches!(*self, b'1'..=b'9')
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
@@ -155,7 +155,7 @@ impl Element for char {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    matches!(*self, '1'..='9')
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
-- 
2.43.0


From fccef84efed32b9d653913d16a11bff63e92829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 32/50] fix: a cron step of zero matches nothing instead of
 panicking

---
 crond/src/cron_evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 3f4ba39..08f07c7 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -51,7 +51,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         per_option,
       } => match per_option {
         box CronExpr::NoOp if *start <= env.now && env.now <= *end => true,
-        box CronExpr::ValueExpr(per) => (*start as usize..=*end as usize)
+        box CronExpr::ValueExpr(per) if *per > 0 => (*start as usize..=*end as usize)
           .step_by(*per as usize)
           .into_iter()
           .any(|e| e == env.now as usize),
@@ -60,7 +60,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
       CronExpr::PerExpr {
         digit: box CronExpr::AnyValueExpr,
         option: box CronExpr::ValueExpr(per),
-      } => (0usize..=(env.max as usize))
+      } if *per > 0 => (0usize..=(env.max as usize))
         .step_by(*per as usize)
         .into_iter()
         .any(|e| e == env.now as usize),
-- 
2.43.0


From 280b70c5312a3fe6893dcc62577e4084d1fb4613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 33/50] fix: evaluate L as an end or step of a cron range

---
 crond/src/cron_evaluator.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 08f07c7..e33ee09 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -45,6 +45,28 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
       CronExpr::LastValueExpr if env.now == env.max => true,
       CronExpr::ValueExpr(n) if env.now == *n => true,
       CronExpr::ListExpr(list) => list.iter().any(|e| self.visit(env, e)),
+      CronExpr::RangeExpr { from, to, per_option }
+        if [from, to, per_option]
+          .iter()
+          .any(|e| matches!(***e, CronExpr::LastValueExpr)) =>
+      {
+        let value = |e: &CronExpr| match e {
+          CronExpr::LastValueExpr => Box::from(CronExpr::ValueExpr(env.max)),
+          e => Box::from(e.clone()),
+        };
+        self.visit(
+          env,
+          &CronExpr::RangeExpr {
+            from: value(from),
+            to: value(to),
+            per_option: value(per_option),
+          },
+        )
+      }
+      CronExpr::PerExpr {
+        digit: box CronExpr::AnyValueExpr,
+        option: box CronExpr::LastValueExpr,
+      } => env.now == 0 || env.now == env.max,
       CronExpr::RangeExpr {
         from: box CronExpr::ValueExpr(start),
         to: box CronExpr::ValueExpr(end),
-- 
2.43.0


From d62a039968d257c2673bdaafd5a1fc446bda34ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 34/50] fix: reject a cron list ending with a comma

---
 crond/src/cron_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crond/src/cron_parser.rs b/crond/src/cron_parser.rs
index a024b7e..74f16f3 100644
--- a/crond/src/cron_parser.rs
+++ b/crond/src/cron_parser.rs
@@ -86,7 +86,8 @@ fn range_per(p: Parser<char, CronExpr>) -> Parser<char, CronExpr> {
 }
 
 fn list(p: Parser<char, CronExpr>) -> Parser<char, CronExpr> {
-  p.of_many1_sep(elm(','))
+  (p.clone().map(|e| vec![e]) + (elm(',') * p).of_many0())
+    .map(|(head, tail)| [head, tail].concat())
     .map(|e| match e {
       e if e.len() == 1 => e.get(0).unwrap().clone(),
       e => ListExpr(e),
-- 
2.43.0


From 25d6510e3fa34c98953fdd6de5fa53d96450c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 35/50] fix: an IPvFuture address may begin with an upper-case
 V

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index d17cc51..95b3bb3 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -22,7 +22,7 @@ pub fn ip_literal<'a>() -> Parser<'a, u8, IpLiteral> {
 
 // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
 pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
-  (elm_ref(b'v')
+  (elm_ref_of(b"vV")
     + elm_hex_digit().of_many1()
     + elm(b'.')
     + (unreserved() | sub_delims() | elm_ref(b':').collect()).of_many1())
-- 
2.43.0


From 8d4d81dc6b8bf2f09e4dc5bb06801002a8120a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 36/50] fix: comments and white space may alternate in any
 number

---
 hocon/src/parsers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 9c4c64c..2cd0ad8 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -16,7 +16,9 @@ fn space<'a>() -> Parser<'a, u8, &'a [u8]> {
 }
 
 fn space_or_comment<'a>() -> Parser<'a, u8, ()> {
-  (comment().attempt() | space()).discard()
+  (comment().attempt() | elm_ref_of(b" \t\r\n").of_many1().collect())
+    .of_many0()
+    .discard()
 }
 
 fn include_method<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From 75a955bba1f315f228d57515c3ae0ed8079c5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 37/50] fix: a quoted string is exactly what stands between its
 quotes

---
 hocon/src/parsers.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 2cd0ad8..673f405 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -109,11 +109,12 @@ fn string<'a>() -> Parser<'a, u8, String> {
     | elm_ref(b'r').map(|_| &b'\r')
     | elm_ref(b't').map(|_| &b'\t');
   let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
-    .map(Clone::clone)
-    .of_many1()
-    .map_res(String::from_utf8);
+  let char_string = move |excluded: &'static [u8]| {
+    (none_ref_of(excluded) | escape_sequence.clone())
+      .map(Clone::clone)
+      .of_many1()
+      .map_res(String::from_utf8)
+  };
   let utf16_char = seq(b"\\u")
     * elm_hex_digit()
       .of_count(4)
@@ -124,10 +125,14 @@ fn string<'a>() -> Parser<'a, u8, String> {
       .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
       .collect::<String>()
   });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many1();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
+  let string_part = move |excluded| char_string(excluded).attempt() | utf16_string.clone();
+  // between quotes everything but the quote itself stands for itself
+  let double_quoted = (elm_ref(b'"') * string_part(b"\r\n\\\"").of_many0() - elm_ref(b'"'))
+    .surround(space_or_comment(), space_or_comment());
+  let single_quoted = (elm_ref(b'\'') * string_part(b"\r\n\\'").of_many0() - elm_ref(b'\''))
+    .surround(space_or_comment(), space_or_comment());
+  let unquoted = string_part(b"[]\r\n\\\"'").of_many1();
+  (double_quoted.attempt() | single_quoted.attempt() | unquoted).map(|strings| strings.concat())
 }
 
 fn string_zero<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From da0bfdc022e12dff181c55a93716b6805d81f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 38/50] fix: a value that is overridden is not evaluated

---
 hocon/src/model/config_value.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 56bbc69..1a0ee96 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -102,17 +102,10 @@ impl ConfigResolver for ConfigValue {
         *cvi = c.to_config_value().clone();
       }
       (cvl @ ConfigValue::Link(..), Some(..)) => {
-        let cvs = cvl.to_vec();
-        if !cvs.is_empty() {
-          let mut head = cvs[0].clone();
-          head.resolve(source);
-          for e in &cvs[1..] {
-            let mut ee = e.clone();
-            ee.resolve(source);
-            head.push(ee.clone());
-          }
-          *cvl = head;
-        }
+        // the values that were overridden are not evaluated
+        let mut cv = cvl.latest().clone();
+        cv.resolve(source);
+        *cvl = cv;
       }
       (cva @ ConfigValue::Array(..), Some(..)) => {
         let av = cva.get_array_value().unwrap();
-- 
2.43.0


From 32ffd864e05013b0497cdb17329608186608201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 39/50] fix: an unset optional reference without a previous
 value is left out

---
 hocon/src/model/config_value.rs | 41 +++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 1a0ee96..ab810a1 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -112,11 +112,11 @@ impl ConfigResolver for ConfigValue {
         let mut m = vec![];
         for mut cv in av.0.clone().into_iter() {
           cv.resolve(source);
-          m.push(cv);
-        }
-        if !av.0.is_empty() {
-          *cva = ConfigValue::Array(ConfigArrayValue::new(m));
+          if !cv.is_undefined() {
+            m.push(cv);
+          }
         }
+        *cva = ConfigValue::Array(ConfigArrayValue::new(m));
       }
       (ConfigValue::Object(cov), None) => {
         let mut new_key_values = HashMap::new();
@@ -154,11 +154,11 @@ impl ConfigResolver for ConfigValue {
         let mut key_values = HashMap::new();
         for (key, mut cv) in ov.0.clone() {
           cv.resolve(source);
-          key_values.insert(key, cv);
-        }
-        if !key_values.is_empty() {
-          *cvo = ConfigValue::Object(ConfigObjectValue::new(key_values));
+          if !cv.is_undefined() {
+            key_values.insert(key, cv);
+          }
         }
+        *cvo = ConfigValue::Object(ConfigObjectValue::new(key_values));
       }
       (cvr @ ConfigValue::Enumeration { .. }, Some(_)) => match cvr {
         ConfigValue::Enumeration { prev, values, .. } => {
@@ -184,21 +184,20 @@ impl ConfigResolver for ConfigValue {
         _ => {}
       },
       (cvr @ ConfigValue::Reference { .. }, Some(src)) => {
-        let mut ref_value = src
+        let ref_value = src
           .get_value(cvr.ref_name().unwrap())
           .cloned()
+          .map(|mut ref_value| {
+            ref_value.resolve(source);
+            ref_value
+          })
+          .filter(|ref_value| !ref_value.is_undefined())
           .or_else(|| env::var(cvr.ref_name().unwrap()).ok().map(|s| ConfigValue::String(s)));
-        match ref_value.as_mut() {
-          Some(ref_value_mut) => {
-            ref_value_mut.resolve(source);
-          }
-          _ => {}
-        }
         if cvr.ref_missing().unwrap() {
           if ref_value.is_some() {
             *cvr = ref_value.unwrap();
-          } else {
-            let mut prev = cvr.ref_prev().clone().unwrap().latest().clone();
+          } else if let Some(prev) = cvr.ref_prev().clone() {
+            let mut prev = prev.latest().clone();
             prev.resolve(source);
             *cvr = prev;
           }
@@ -219,6 +218,14 @@ impl ConfigValue {
     ConfigValue::Reference { prev, path, missing }
   }
 
+  /// An optional reference that has neither a value nor a previous value.
+  fn is_undefined(&self) -> bool {
+    match self {
+      ConfigValue::Reference { missing, .. } => *missing,
+      _ => false,
+    }
+  }
+
   pub fn is_null(&self) -> bool {
     match self {
       ConfigValue::Null => true,
-- 
2.43.0


From af671c7dfaf1246408ee745af09b065a03553da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 40/50] fix: a reference may lead through another reference

---
 hocon/src/model/config_value.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index ab810a1..3660f67 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -185,8 +185,7 @@ impl ConfigResolver for ConfigValue {
       },
       (cvr @ ConfigValue::Reference { .. }, Some(src)) => {
         let ref_value = src
-          .get_value(cvr.ref_name().unwrap())
-          .cloned()
+          .get_value_through(cvr.ref_name().unwrap(), source)
           .map(|mut ref_value| {
             ref_value.resolve(source);
             ref_value
@@ -332,6 +331,20 @@ impl ConfigValue {
     }
   }
 
+  /// The value of the path, looking through the references on the way.
+  fn get_value_through(&self, path: &str, source: Option<&Self>) -> Option<Self> {
+    match path.split_once('.') {
+      None => self.get_value(path).cloned(),
+      Some((key, rest)) => {
+        let mut cv = self.get_value(key)?.clone();
+        if let ConfigValue::Reference { .. } = cv {
+          cv.resolve(source);
+        }
+        cv.get_value_through(rest, source)
+      }
+    }
+  }
+
   pub fn latest(&self) -> &Self {
     match self {
       ConfigValue::Link(cv) => &cv.value,
-- 
2.43.0


From 983b7c889996a6e0e30dd6403030577af8569f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 41/50] fix: a duration's unit is on the line of its number and
 is a whole word

---
 hocon/src/parsers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 673f405..3d4858b 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -41,9 +41,7 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
     + integer.map_res(std::str::from_utf8).map(String::from)
     + frac.collect().map_res(std::str::from_utf8).map(String::from).opt()
     + exp.collect().map_res(std::str::from_utf8).map(String::from).opt();
-  number
-    .surround(space_or_comment(), space_or_comment())
-    .map(|(((s, i), f), e)| (s, i, f, e))
+  number.map(|(((s, i), f), e)| (s, i, f, e))
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
@@ -70,7 +68,9 @@ fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
   let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
   let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
-  number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
+  // the unit stands on the line of its number: a name on the next line is a key
+  let unit = ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d;
+  number_value() - elm_ref_of(b" \t").of_many0() + (unit - path_element().not())
 }
 
 fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From a756bcbaafa24389dfdadf1a27cdf0c598f6938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 42/50] fix: a duration keeps its fraction

---
 hocon/src/model/config_duration_value.rs | 57 ++++++++++++++----------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index f1f9d87..9b4b9d2 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -4,6 +4,10 @@ use std::fmt::{Display, Formatter};
 use std::time::Duration;
 
 use anyhow::{bail, Result};
+use rust_decimal::prelude::ToPrimitive;
+use rust_decimal::Decimal;
+
+const NANOS_PER_SECOND: i64 = 1_000_000_000;
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct ConfigDurationValue {
@@ -36,35 +40,42 @@ impl ConfigDurationValue {
     Self { value, unit }
   }
 
-  pub fn to_std_duration(&self) -> Result<Duration> {
-    let value = match self.clone().value.to_u64() {
-      Some(v) => v,
-      None => bail!("Occurred convert error: {:?}", self.value),
+  /// The value in nanoseconds; what is shorter than a nanosecond is cut off.
+  fn to_nanos(&self) -> Result<i128> {
+    let nanos_per_unit: i64 = match self.unit {
+      TimeUnit::Nanoseconds => 1,
+      TimeUnit::Microseconds => 1_000,
+      TimeUnit::Milliseconds => 1_000_000,
+      TimeUnit::Seconds => NANOS_PER_SECOND,
+      TimeUnit::Minutes => 60 * NANOS_PER_SECOND,
+      TimeUnit::Hours => 60 * 60 * NANOS_PER_SECOND,
+      TimeUnit::Days => 24 * 60 * 60 * NANOS_PER_SECOND,
     };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(Duration::from_nanos(value)),
-      TimeUnit::Microseconds => Ok(Duration::from_micros(value)),
-      TimeUnit::Milliseconds => Ok(Duration::from_millis(value)),
-      TimeUnit::Seconds => Ok(Duration::from_secs(value)),
-      TimeUnit::Minutes => Ok(Duration::from_secs(value * 60)),
-      TimeUnit::Hours => Ok(Duration::from_secs(value * 60 * 60)),
-      TimeUnit::Days => Ok(Duration::from_secs(value * 60 * 60 * 24)),
+    let nanos = self.value.as_decimal().checked_mul(Decimal::from(nanos_per_unit));
+    match nanos.and_then(|n| n.to_i128()) {
+      Some(n) => Ok(n),
+      None => bail!("Occurred convert error: {:?}", self.value),
+    }
+  }
+
+  pub fn to_std_duration(&self) -> Result<Duration> {
+    let nanos = self.to_nanos()?;
+    let per_second = NANOS_PER_SECOND as i128;
+    match u64::try_from(nanos.div_euclid(per_second)) {
+      Ok(secs) => Ok(Duration::new(secs, nanos.rem_euclid(per_second) as u32)),
+      Err(_) => bail!("Occurred convert error: {:?}", self.value),
     }
   }
 
   pub fn to_duration(&self) -> Result<chrono::Duration> {
-    let value = match self.clone().value.to_i64() {
-      Some(v) => v,
+    let nanos = self.to_nanos()?;
+    let per_second = NANOS_PER_SECOND as i128;
+    let duration = i64::try_from(nanos.div_euclid(per_second))
+      .ok()
+      .and_then(|secs| chrono::Duration::new(secs, nanos.rem_euclid(per_second) as u32));
+    match duration {
+      Some(d) => Ok(d),
       None => bail!("Occurred convert error: {:?}", self.value),
-    };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(chrono::Duration::nanoseconds(value)),
-      TimeUnit::Microseconds => Ok(chrono::Duration::microseconds(value)),
-      TimeUnit::Milliseconds => Ok(chrono::Duration::milliseconds(value)),
-      TimeUnit::Seconds => Ok(chrono::Duration::seconds(value)),
-      TimeUnit::Minutes => Ok(chrono::Duration::minutes(value)),
-      TimeUnit::Hours => Ok(chrono::Duration::hours(value)),
-      TimeUnit::Days => Ok(chrono::Duration::days(value)),
     }
   }
 }
-- 
2.43.0


From 5063d83bebfe4f128ac66263e7279fb07da7e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:20 +0000
Subject: [PATCH 43/50] fix: a key is a path or a quoted string

---
 hocon/src/parsers.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 3d4858b..3fd5760 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -99,7 +99,7 @@ fn string_single_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
   elm_ref(b'\'').surround(space_or_comment(), space_or_comment())
 }
 
-fn string<'a>() -> Parser<'a, u8, String> {
+fn string_part<'a>(excluded: &'static [u8]) -> Parser<'a, u8, String> {
   let special_char = elm_ref(b'\\')
     | elm_ref(b'/')
     | elm_ref(b'"')
@@ -109,12 +109,10 @@ fn string<'a>() -> Parser<'a, u8, String> {
     | elm_ref(b'r').map(|_| &b'\r')
     | elm_ref(b't').map(|_| &b'\t');
   let escape_sequence = elm_ref(b'\\') * special_char;
-  let char_string = move |excluded: &'static [u8]| {
-    (none_ref_of(excluded) | escape_sequence.clone())
-      .map(Clone::clone)
-      .of_many1()
-      .map_res(String::from_utf8)
-  };
+  let char_string = (none_ref_of(excluded) | escape_sequence)
+    .map(Clone::clone)
+    .of_many1()
+    .map_res(String::from_utf8);
   let utf16_char = seq(b"\\u")
     * elm_hex_digit()
       .of_count(4)
@@ -125,14 +123,21 @@ fn string<'a>() -> Parser<'a, u8, String> {
       .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
       .collect::<String>()
   });
-  let string_part = move |excluded| char_string(excluded).attempt() | utf16_string.clone();
+  char_string.attempt() | utf16_string
+}
+
+fn quoted_string<'a>() -> Parser<'a, u8, String> {
   // between quotes everything but the quote itself stands for itself
   let double_quoted = (elm_ref(b'"') * string_part(b"\r\n\\\"").of_many0() - elm_ref(b'"'))
     .surround(space_or_comment(), space_or_comment());
   let single_quoted = (elm_ref(b'\'') * string_part(b"\r\n\\'").of_many0() - elm_ref(b'\''))
     .surround(space_or_comment(), space_or_comment());
-  let unquoted = string_part(b"[]\r\n\\\"'").of_many1();
-  (double_quoted.attempt() | single_quoted.attempt() | unquoted).map(|strings| strings.concat())
+  (double_quoted.attempt() | single_quoted).map(|strings| strings.concat())
+}
+
+fn string<'a>() -> Parser<'a, u8, String> {
+  let unquoted = string_part(b"[]\r\n\\\"'").of_many1().map(|strings| strings.concat());
+  quoted_string().attempt() | unquoted
 }
 
 fn string_zero<'a>() -> Parser<'a, u8, String> {
@@ -191,8 +196,13 @@ pub fn key<'a>() -> Parser<'a, u8, String> {
   (path().attempt() | string()).surround(space_or_comment(), space_or_comment())
 }
 
+/// The key of a property is a path or a quoted string.
+fn property_key<'a>() -> Parser<'a, u8, String> {
+  (path().attempt() | quoted_string()).surround(space_or_comment(), space_or_comment())
+}
+
 fn property<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-  key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())
+  property_key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())
 }
 
 fn property_config_value<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-- 
2.43.0


From 586d770b15460e7044f8ebe341962f050c0362a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 44/50] fix: filtering through ParserParsers rejects as
 with_filter does

---
 parser/src/core/parsers.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/parser/src/core/parsers.rs b/parser/src/core/parsers.rs
index 65a3b7c..4328870 100644
--- a/parser/src/core/parsers.rs
+++ b/parser/src/core/parsers.rs
@@ -1,3 +1,4 @@
+use crate::core::ParserFilter;
 use crate::core::ParserFunctor;
 use crate::core::ParserMonad;
 use crate::core::{CommittedStatus, ParseError, Parser};
@@ -115,17 +116,7 @@ impl Parsers for ParserParsers {
     F: Fn(&A) -> bool + 'a,
     I: Element,
     A: Clone + 'a, {
-    // 直接実装を使用
-    Self::flat_map(parser, move |a| {
-      if f(&a) {
-        Self::successful(a)
-      } else {
-        Self::failed(
-          ParseError::of_custom(0, None, "Filter predicate failed".to_string()),
-          CommittedStatus::Uncommitted,
-        )
-      }
-    })
+    parser.with_filter(f)
   }
 
   fn flat_map<'a, I, A, B, F>(parser: Self::P<'a, I, A>, f: F) -> Self::P<'a, I, B>
-- 
2.43.0


From b21378a57725d2d6f2baa6d93402d2782ae08b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 45/50] fix: parsing through ParserParsers gives the parser's
 own error

---
 parser/src/core/parsers.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/parser/src/core/parsers.rs b/parser/src/core/parsers.rs
index 4328870..da3ad7d 100644
--- a/parser/src/core/parsers.rs
+++ b/parser/src/core/parsers.rs
@@ -74,10 +74,7 @@ impl Parsers for ParserParsers {
     A: 'a,
     'b: 'a, {
     use crate::core::parser_runner::ParserRunner;
-    parser
-      .parse(input)
-      .success()
-      .ok_or_else(|| ParseError::of_custom(0, None, "Parse failed".to_string()))
+    parser.parse(input).to_result()
   }
 
   fn successful<'a, I, A>(value: A) -> Self::P<'a, I, A>
-- 
2.43.0


From fc0ca65df61c81318d7e31d02c57ac5998b2f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 46/50] fix: a printed string escapes what cannot stand for
 itself

---
 hocon/src/model/config_value.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 3660f67..bc8e489 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -37,12 +37,28 @@ pub enum ConfigValue {
   Link(Rc<ConfigValueLink>),
 }
 
+/// The string between double quotes; what cannot stand there for itself is escaped.
+fn quoted(s: &str) -> String {
+  let mut result = String::from("\"");
+  for c in s.chars() {
+    match c {
+      '"' => result.push_str("\\\""),
+      '\\' => result.push_str("\\\\"),
+      '\n' => result.push_str("\\n"),
+      '\r' => result.push_str("\\r"),
+      c => result.push(c),
+    }
+  }
+  result.push('"');
+  result
+}
+
 impl Display for ConfigValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     let s = match self {
       ConfigValue::Null => "null".to_string(),
       ConfigValue::Bool(value) => value.to_string(),
-      ConfigValue::String(value) => format!("\"{}\"", value.to_string()),
+      ConfigValue::String(value) => quoted(value),
       ConfigValue::Number(cnv) => cnv.to_string(),
       ConfigValue::Duration(cdv) => cdv.to_string(),
       ConfigValue::Array(cav) => cav.to_string(),
-- 
2.43.0


From 841314e8596cef33ee0757494931ec22504a89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 47/50] fix: a printed key is quoted where it has to be

---
 hocon/src/model/config_object_value.rs | 15 +++++++++++++--
 hocon/src/model/config_value.rs        |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/hocon/src/model/config_object_value.rs b/hocon/src/model/config_object_value.rs
index de1c8f5..cea440f 100644
--- a/hocon/src/model/config_object_value.rs
+++ b/hocon/src/model/config_object_value.rs
@@ -1,4 +1,4 @@
-use crate::model::config_value::ConfigValue;
+use crate::model::config_value::{quoted, ConfigValue};
 use crate::model::{ConfigMergeable, Monoid};
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
@@ -6,6 +6,17 @@ use std::fmt::{Display, Formatter};
 #[derive(Clone, Debug, PartialEq)]
 pub struct ConfigObjectValue(pub(crate) HashMap<String, ConfigValue>);
 
+/// The key itself if it is a path, or else the key between quotes.
+fn key_text(key: &str) -> String {
+  let is_name =
+    |name: &str| !name.is_empty() && name.chars().all(|c| c.is_ascii_alphabetic() || matches!(c, '-' | '_'));
+  if key.split('.').all(is_name) {
+    key.to_string()
+  } else {
+    quoted(key)
+  }
+}
+
 impl Display for ConfigObjectValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     let mut s = String::new();
@@ -14,7 +25,7 @@ impl Display for ConfigObjectValue {
       if !s.is_empty() {
         s.push_str(", ");
       }
-      let line = format!("{} = {}", k, v);
+      let line = format!("{} = {}", key_text(k), v);
       s.push_str(&line);
     }
     write!(f, "{{ {} }}", s)
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index bc8e489..907ba2d 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -38,7 +38,7 @@ pub enum ConfigValue {
 }
 
 /// The string between double quotes; what cannot stand there for itself is escaped.
-fn quoted(s: &str) -> String {
+pub(crate) fn quoted(s: &str) -> String {
   let mut result = String::from("\"");
   for c in s.chars() {
     match c {
-- 
2.43.0


From 6fd7b579923025a054e0deecdedd0b10345a4a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 48/50] fix: a name that begins with else is not the word else

---
 toys/src/parsers.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index 0e63a0d..db0ed2a 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -61,6 +61,10 @@ fn semi_colon<'a>() -> Parser<'a, char, String> {
   space() * tag(";") - space()
 }
 
+fn end_of_word<'a>() -> Parser<'a, char, ()> {
+  elm_pred(|c: &char| c.is_ascii_alphanumeric() || *c == '_').not().discard()
+}
+
 fn space<'a>() -> Parser<'a, char, ()> {
   elm_of(" \t\r\n").of_many0().discard()
 }
@@ -133,7 +137,7 @@ fn r#for<'a>() -> Parser<'a, char, Rc<Expr>> {
 fn r#if<'a>() -> Parser<'a, char, Rc<Expr>> {
   let r#if = tag("if") - space();
   let condition = r#if * lparen() * expression() - rparen();
-  let r#else = space() * tag("else") - space();
+  let r#else = space() * tag("else") - end_of_word() - space();
   let p = (condition + line() + (r#else * line()).opt()).map(|((p1, p2), p3)| Expr::of_if(p1, p2, p3));
   (space() * p - space()).attempt().name("if").cache()
 }
@@ -267,8 +271,7 @@ fn bool_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
     "false" => Expr::of_bool_literal(false),
     _ => panic!("unexpected token"),
   });
-  let end_of_word = elm_pred(|c: &char| c.is_ascii_alphanumeric() || *c == '_').not();
-  (space() * p - end_of_word - space())
+  (space() * p - end_of_word() - space())
     .attempt()
     .name("bool_literal")
     .cache()
-- 
2.43.0


From b2743201a7ed05758f5be81a62182390b8f24e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 49/50] fix: a reference that leads back to itself leads
 nowhere instead of overflowing the stack

---
 hocon/src/model/config_value.rs | 43 +++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 907ba2d..f0ca664 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -109,6 +109,13 @@ impl ConfigMergeable for ConfigValue {
 
 impl ConfigResolver for ConfigValue {
   fn resolve(&mut self, source: Option<&Self>) {
+    self.resolve_within(source, &mut vec![]);
+  }
+}
+
+impl ConfigValue {
+  /// Resolves this value while the references in `followed` are being followed.
+  fn resolve_within(&mut self, source: Option<&Self>, followed: &mut Vec<String>) {
     match (self, source) {
       (cvi @ ConfigValue::Include(..), ..) => {
         let mut config_factory = ConfigFactory::new();
@@ -120,14 +127,14 @@ impl ConfigResolver for ConfigValue {
       (cvl @ ConfigValue::Link(..), Some(..)) => {
         // the values that were overridden are not evaluated
         let mut cv = cvl.latest().clone();
-        cv.resolve(source);
+        cv.resolve_within(source, followed);
         *cvl = cv;
       }
       (cva @ ConfigValue::Array(..), Some(..)) => {
         let av = cva.get_array_value().unwrap();
         let mut m = vec![];
         for mut cv in av.0.clone().into_iter() {
-          cv.resolve(source);
+          cv.resolve_within(source, followed);
           if !cv.is_undefined() {
             m.push(cv);
           }
@@ -169,7 +176,7 @@ impl ConfigResolver for ConfigValue {
         let ov = cvo.get_object_value().unwrap();
         let mut key_values = HashMap::new();
         for (key, mut cv) in ov.0.clone() {
-          cv.resolve(source);
+          cv.resolve_within(source, followed);
           if !cv.is_undefined() {
             key_values.insert(key, cv);
           }
@@ -181,7 +188,7 @@ impl ConfigResolver for ConfigValue {
           let mut result = String::new();
           for cv in &mut values.0 {
             println!("cv = {:?}", cv);
-            cv.resolve(source);
+            cv.resolve_within(source, followed);
             println!("cv = {:?}", cv);
             match cv {
               ConfigValue::String(s) => {
@@ -201,11 +208,7 @@ impl ConfigResolver for ConfigValue {
       },
       (cvr @ ConfigValue::Reference { .. }, Some(src)) => {
         let ref_value = src
-          .get_value_through(cvr.ref_name().unwrap(), source)
-          .map(|mut ref_value| {
-            ref_value.resolve(source);
-            ref_value
-          })
+          .follow(cvr.ref_name().unwrap(), source, followed)
           .filter(|ref_value| !ref_value.is_undefined())
           .or_else(|| env::var(cvr.ref_name().unwrap()).ok().map(|s| ConfigValue::String(s)));
         if cvr.ref_missing().unwrap() {
@@ -213,7 +216,7 @@ impl ConfigResolver for ConfigValue {
             *cvr = ref_value.unwrap();
           } else if let Some(prev) = cvr.ref_prev().clone() {
             let mut prev = prev.latest().clone();
-            prev.resolve(source);
+            prev.resolve_within(source, followed);
             *cvr = prev;
           }
         } else {
@@ -347,16 +350,30 @@ impl ConfigValue {
     }
   }
 
+  /// The resolved value that a reference to `path` leads to; a reference that leads back to itself leads nowhere.
+  fn follow(&self, path: &str, source: Option<&Self>, followed: &mut Vec<String>) -> Option<Self> {
+    if followed.iter().any(|f| f == path) {
+      return None;
+    }
+    followed.push(path.to_string());
+    let ref_value = self.get_value_through(path, source, followed).map(|mut ref_value| {
+      ref_value.resolve_within(source, followed);
+      ref_value
+    });
+    followed.pop();
+    ref_value
+  }
+
   /// The value of the path, looking through the references on the way.
-  fn get_value_through(&self, path: &str, source: Option<&Self>) -> Option<Self> {
+  fn get_value_through(&self, path: &str, source: Option<&Self>, followed: &mut Vec<String>) -> Option<Self> {
     match path.split_once('.') {
       None => self.get_value(path).cloned(),
       Some((key, rest)) => {
         let mut cv = self.get_value(key)?.clone();
         if let ConfigValue::Reference { .. } = cv {
-          cv.resolve(source);
+          cv.resolve_within(source, followed);
         }
-        cv.get_value_through(rest, source)
+        cv.get_value_through(rest, source, followed)
       }
     }
   }
-- 
2.43.0


From f81a16d6e9657413074ee0ebcbb824e92183520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 50/50] fix: white space and comments may follow an include

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 3fd5760..ca54ce5 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -322,7 +322,7 @@ fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
       vec![ConfigValue::Object(ConfigObjectValue::new(merge_properties(values)))]
     })
     .attempt()
-    | include_config_value().of_many1().attempt()
+    | (include_config_value() - space_or_comment()).of_many1().attempt()
     | (object_config_value().attempt() | array_config_value()).of_many0()
 }
 
-- 
2.43.0

