From 19390314e3a5d885a6004f1bf1eb9753b1f880bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:06 +0000
Subject: [PATCH 01/18] fix: report an error instead of panicking on numbers
 too large to represent

---
 src/parsers/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/number.rs b/src/parsers/number.rs
index 46699a5..243bc33 100644
--- a/src/parsers/number.rs
+++ b/src/parsers/number.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for numbers, decimals and digits.
 
 use nom::character::complete::{char, digit1};
-use nom::combinator::{map, recognize};
+use nom::combinator::{map_opt, recognize};
 use nom::multi::many_m_n;
 use nom::number::complete::float;
 use nom::sequence::tuple;
@@ -27,7 +27,7 @@ use crate::types::Number;
 pub fn parse_number<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Number> {
     let pattern = recognize(tuple((digit1, many_m_n(0, 1, parse_decimal))));
     let float = pattern.and_then(float);
-    map(float, Number::new)(input.into())
+    map_opt(float, |value| Number::try_new(value).ok())(input.into())
 }
 
 /// Parses a decimal, i.e. `.<digit>⁺`.
-- 
2.43.0


From e8e9d3c42db011b15d411e01cf714cce97accc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:16 +0000
Subject: [PATCH 02/18] fix: report non-finite text as an error in
 Number::from_str

---
 src/types/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/number.rs b/src/types/number.rs
index 2741ed3..9fc1941 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -70,7 +70,7 @@ impl FromStr for Number {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match UnderlyingType::from_str(s) {
-            Ok(x) => Ok(Number::new(x)),
+            Ok(x) => Number::try_new(x),
             Err(e) => Err(NumberError::InvalidFormat(e)),
         }
     }
-- 
2.43.0


From cd0ff0c9cde55b33cb53de846e1912654291c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 03/18] fix: read a type name starting with 'object' as a whole
 name

---
 src/parsers/primitive_type.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parsers/primitive_type.rs b/src/parsers/primitive_type.rs
index eec324b..bb107ac 100644
--- a/src/parsers/primitive_type.rs
+++ b/src/parsers/primitive_type.rs
@@ -1,11 +1,9 @@
 //! Provides parsers for primitive types.
 
-use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
 use crate::parsers::{parse_name, ParseResult, Span};
-use crate::types::{Name, PrimitiveType};
+use crate::types::PrimitiveType;
 
 /// Parses a primitive type, i.e. `object | <name>`.
 ///
@@ -18,11 +16,7 @@ use crate::types::{Name, PrimitiveType};
 /// assert!(parse_primitive_type(Span::new("obj!ect")).is_value("obj".into()));
 ///```
 pub fn parse_primitive_type<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PrimitiveType> {
-    map(alt((parse_object, parse_name)), PrimitiveType::from)(input.into())
-}
-
-fn parse_object(input: Span) -> ParseResult<Name> {
-    map(tag("object"), |x: Span| Name::from(*x.fragment()))(input)
+    map(parse_name, PrimitiveType::from)(input.into())
 }
 
 impl crate::parsers::Parser for PrimitiveType {
-- 
2.43.0


From 23864c898cd0f86997e3c33cf6b4f560e8e52aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 04/18] fix: compare and hash names by their text

---
 src/types/name.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index f933e84..a76c104 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -2,6 +2,7 @@
 
 use crate::types::{PrimitiveType, ToTyped, Type, Typed};
 use std::fmt::{Debug, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[cfg(feature = "interning")]
@@ -25,7 +26,7 @@ lazy_static::lazy_static! {
 #[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
 pub struct Name(NameVariant);
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+#[derive(Clone, Eq)]
 enum NameVariant {
     String(InternedString),
     Static(&'static str),
@@ -222,6 +223,19 @@ impl Deref for NameVariant {
     }
 }
 
+// Equality and hashing only depend on the text, never on how it is stored.
+impl PartialEq for NameVariant {
+    fn eq(&self, other: &Self) -> bool {
+        **self == **other
+    }
+}
+
+impl Hash for NameVariant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        (**self).hash(state)
+    }
+}
+
 impl PartialEq<str> for NameVariant {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 3a728900dc86631fb620ae4e99ac6a70243fb0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:11 +0000
Subject: [PATCH 05/18] fix: make number equality and ordering agree with Ord
 and Hash

---
 src/types/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/number.rs b/src/types/number.rs
index 9fc1941..d48c436 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -98,7 +98,7 @@ impl Eq for Number {}
 impl<I: Into<Number> + Copy> PartialEq<I> for Number {
     fn eq(&self, other: &I) -> bool {
         let value: Number = (*other).into();
-        self.total_cmp(&value) == Ordering::Equal
+        self.cmp(&value) == Ordering::Equal
     }
 }
 
@@ -132,7 +132,7 @@ impl Ord for Number {
 
 impl PartialOrd for Number {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.total_cmp(other))
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From 11cbd4b8e3df4f8c983fc6fbc3550171e58ec1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 06/18] fix: accept empty comments and skip comment blocks
 iteratively

---
 src/parsers/comments.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ad4a2a6..1495867 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -1,8 +1,9 @@
 use crate::parsers::{ParseResult, Span};
 use nom::character::complete::{char, multispace0};
 use nom::combinator::opt;
-use nom::sequence::{terminated, tuple};
-use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
+use nom::multi::many0_count;
+use nom::sequence::tuple;
+use nom::{bytes::complete::is_not, combinator::value};
 
 /// Parses a comment and swallows trailing whitespace / newline.
 ///
@@ -34,10 +35,7 @@ use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()> {
     value(
         (), // Output is thrown away.
-        opt(terminated(
-            pair(char(';'), is_not("\r\n")),
-            tuple((multispace0, opt(ignore_eol_comment))),
-        )),
+        many0_count(tuple((char(';'), opt(is_not("\r\n")), multispace0))),
     )(input.into())
 }
 
-- 
2.43.0


From 648b4efc3e423ff7c80617d0e377d4e792a2bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:31 +0000
Subject: [PATCH 07/18] fix: report an unmatched type as a recoverable error

---
 src/parsers/type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/type.rs b/src/parsers/type.rs
index d7a670c..f3789b7 100644
--- a/src/parsers/type.rs
+++ b/src/parsers/type.rs
@@ -26,7 +26,7 @@ pub fn parse_type<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Type> {
         return Ok((remaining, Type::EitherOf(types)));
     }
 
-    Err(nom::Err::Failure(error_position!(input, ErrorKind::Alt)))
+    Err(nom::Err::Error(error_position!(input, ErrorKind::Alt)))
 }
 
 /// Parses a either type, i.e. `(either a b c)`.
-- 
2.43.0


From 5a480afe5bb12e2709a800fa73ee7b39c8f76526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:40 +0000
Subject: [PATCH 08/18] fix: do not run caller code while holding the interning
 lock

---
 src/types/name.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index a76c104..9bbf1c7 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -92,13 +92,14 @@ impl Name {
     fn new_string_interned<S: Into<String> + AsRef<str>>(name: S) -> Self {
         #[cfg(feature = "interning")]
         {
+            // Run the caller's conversion before taking the lock.
+            let name: String = name.into();
             let mut guard = STRING_INTERNING.lock().expect("failed to obtain lock");
-            let name_ref = name.as_ref();
-            let pos = guard.binary_search_by(|name| name_ref.cmp(name.as_str()));
+            let pos = guard.binary_search_by(|entry| name.as_str().cmp(entry.as_str()));
             let pos = match pos {
                 Ok(pos) => pos,
                 Err(pos) => {
-                    guard.insert(pos, Arc::new(name.into()));
+                    guard.insert(pos, Arc::new(name));
                     pos
                 }
             };
-- 
2.43.0


From ea99672286b4de8be5ce9943f37b86592e47dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 09/18] fix: let :adl contain everything it expands to

---
 src/types/requirement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 16c430f..245347a 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -146,7 +146,10 @@ impl Requirement {
                     || other == Self::NegativePreconditions
                     || other == Self::DisjunctivePreconditions
                     || other == Self::Equality
+                    || other == Self::ExistentialPreconditions
+                    || other == Self::UniversalPreconditions
                     || other == Self::QuantifiedPreconditions
+                    || other == Self::ConditionalEffects
                     || other == Self::ContinuousEffects
             }
 
-- 
2.43.0


From a6e0f289a4a8d7f578ee571cd2c1b05ee79823cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 10/18] fix: accept a comment wherever whitespace separates two
 tokens

---
 src/parsers/action_def.rs                 | 14 +++++--------
 src/parsers/c_effect.rs                   |  7 +++----
 src/parsers/con_gd.rs                     | 23 ++++++++++-----------
 src/parsers/da_def.rs                     | 25 ++++++++---------------
 src/parsers/da_effect.rs                  |  9 ++++----
 src/parsers/da_gd.rs                      |  7 ++++---
 src/parsers/derived_predicate.rs          |  8 ++------
 src/parsers/domain.rs                     | 21 +++++++++----------
 src/parsers/f_assign_da.rs                |  7 +++----
 src/parsers/f_comp.rs                     |  7 +++----
 src/parsers/f_exp.rs                      | 12 +++++------
 src/parsers/f_exp_da.rs                   | 12 +++++------
 src/parsers/f_exp_t.rs                    |  7 +++----
 src/parsers/f_head.rs                     |  5 ++---
 src/parsers/gd.rs                         |  9 ++++----
 src/parsers/init_el.rs                    | 13 +++++-------
 src/parsers/metric_f_exp.rs               | 12 +++++------
 src/parsers/metric_spec.rs                | 10 ++++-----
 src/parsers/mod.rs                        |  2 +-
 src/parsers/p_effect.rs                   | 13 ++++++------
 src/parsers/pre_gd.rs                     |  7 ++++---
 src/parsers/pref_con_gd.rs                |  9 ++++----
 src/parsers/pref_gd.rs                    |  5 ++---
 src/parsers/pref_timed_gd.rs              |  8 ++------
 src/parsers/problem.rs                    | 19 ++++++++---------
 src/parsers/simple_duration_constraint.rs | 10 +++------
 src/parsers/timed_effect.rs               | 17 +++++----------
 src/parsers/timed_gd.rs                   | 10 +++------
 src/parsers/utilities.rs                  | 18 +++++++++++-----
 29 files changed, 143 insertions(+), 183 deletions(-)

diff --git a/src/parsers/action_def.rs b/src/parsers/action_def.rs
index 218663f..18fd04d 100644
--- a/src/parsers/action_def.rs
+++ b/src/parsers/action_def.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for action definitions.
 
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ws, ParseResult, Span};
+use crate::parsers::{empty_or, layout1, parens, prefix_expr, typed_list, ws, ParseResult, Span};
 use crate::parsers::{parse_action_symbol, parse_effect, parse_pre_gd, parse_variable};
 use crate::types::ActionDefinition;
 
@@ -55,22 +54,19 @@ use crate::types::ActionDefinition;
 pub fn parse_action_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ActionDefinition> {
     let precondition = preceded(
         tag(":precondition"),
-        preceded(multispace1, empty_or(parse_pre_gd)),
-    );
-    let effect = preceded(
-        tag(":effect"),
-        preceded(multispace1, empty_or(parse_effect)),
+        preceded(layout1, empty_or(parse_pre_gd)),
     );
+    let effect = preceded(tag(":effect"), preceded(layout1, empty_or(parse_effect)));
     let action_def_body = tuple((opt(ws(precondition)), opt(ws(effect))));
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(layout1, parens(typed_list(parse_variable))),
     );
     let action_def = prefix_expr(
         ":action",
         tuple((
             parse_action_symbol,
-            preceded(multispace1, parameters),
+            preceded(layout1, parameters),
             ws(action_def_body),
         )),
     );
diff --git a/src/parsers/c_effect.rs b/src/parsers/c_effect.rs
index 141961f..aefdd27 100644
--- a/src/parsers/c_effect.rs
+++ b/src/parsers/c_effect.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for c-effects.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, typed_list, ParseResult, Span};
+use crate::parsers::{layout1, parens, prefix_expr, typed_list, ParseResult, Span};
 use crate::parsers::{parse_cond_effect, parse_effect, parse_gd, parse_p_effect, parse_variable};
 use crate::types::CEffect;
 use crate::{ForallCEffect, WhenCEffect};
@@ -130,7 +129,7 @@ pub fn parse_forall_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a,
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_effect),
+                preceded(layout1, parse_effect),
             )),
         ),
         ForallCEffect::from,
@@ -186,7 +185,7 @@ pub fn parse_when_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, W
     map(
         prefix_expr(
             "when",
-            tuple((parse_gd, preceded(multispace1, parse_cond_effect))),
+            tuple((parse_gd, preceded(layout1, parse_cond_effect))),
         ),
         WhenCEffect::from,
     )(input.into())
diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index d1cb350..c660c97 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for conditional goal definitions.
 
 use crate::parsers::{
-    parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
-    ParseResult, Span,
+    layout1, parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0,
+    typed_list, ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -168,7 +167,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_con_gd),
+                preceded(layout1, parse_con_gd),
             )),
         ),
         |(vars, gd)| ConGD::new_forall(vars, gd),
@@ -183,7 +182,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let within = map(
         prefix_expr(
             "within",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(layout1, parse_con2_gd))),
         ),
         |(num, gd)| ConGD::new_within(num, gd),
     );
@@ -196,7 +195,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_after = map(
         prefix_expr(
             "sometime-after",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(layout1, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_after(a, b),
     );
@@ -204,7 +203,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_before = map(
         prefix_expr(
             "sometime-before",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(layout1, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_before(a, b),
     );
@@ -214,8 +213,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "always-within",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_con2_gd),
-                preceded(multispace1, parse_con2_gd),
+                preceded(layout1, parse_con2_gd),
+                preceded(layout1, parse_con2_gd),
             )),
         ),
         |(num, a, b)| ConGD::new_always_within(num, a, b),
@@ -226,8 +225,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "hold-during",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_number),
-                preceded(multispace1, parse_con2_gd),
+                preceded(layout1, parse_number),
+                preceded(layout1, parse_con2_gd),
             )),
         ),
         |(t0, t1, gd)| ConGD::new_hold_during(t0, t1, gd),
@@ -236,7 +235,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let hold_after = map(
         prefix_expr(
             "hold-after",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(layout1, parse_con2_gd))),
         ),
         |(time, gd)| ConGD::new_hold_after(time, gd),
     );
diff --git a/src/parsers/da_def.rs b/src/parsers/da_def.rs
index 65bb629..5420279 100644
--- a/src/parsers/da_def.rs
+++ b/src/parsers/da_def.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for durative action definitions.
 
-use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ParseResult, Span};
+use crate::parsers::{empty_or, layout1, parens, prefix_expr, typed_list, ParseResult, Span};
 use crate::parsers::{
     parse_da_effect, parse_da_gd, parse_da_symbol, parse_duration_constraint, parse_variable,
 };
 use crate::types::DurativeActionDefinition;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,31 +54,25 @@ use nom::sequence::{preceded, tuple};
 pub fn parse_da_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, DurativeActionDefinition> {
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(layout1, parens(typed_list(parse_variable))),
     );
 
     let duration = preceded(
         tag(":duration"),
-        preceded(multispace1, parse_duration_constraint),
-    );
-    let condition = preceded(
-        tag(":condition"),
-        preceded(multispace1, empty_or(parse_da_gd)),
-    );
-    let effect = preceded(
-        tag(":effect"),
-        preceded(multispace1, empty_or(parse_da_effect)),
+        preceded(layout1, parse_duration_constraint),
     );
+    let condition = preceded(tag(":condition"), preceded(layout1, empty_or(parse_da_gd)));
+    let effect = preceded(tag(":effect"), preceded(layout1, empty_or(parse_da_effect)));
 
     let da_def = prefix_expr(
         ":durative-action",
         tuple((
             parse_da_symbol,
-            preceded(multispace1, parameters),
+            preceded(layout1, parameters),
             // <da-def body>
-            preceded(multispace1, duration),
-            preceded(multispace1, condition),
-            preceded(multispace1, effect),
+            preceded(layout1, duration),
+            preceded(layout1, condition),
+            preceded(layout1, effect),
         )),
     );
 
diff --git a/src/parsers/da_effect.rs b/src/parsers/da_effect.rs
index da7b899..9573c0e 100644
--- a/src/parsers/da_effect.rs
+++ b/src/parsers/da_effect.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for durative action effects.
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    layout1, parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_da_gd, parse_timed_effect, parse_variable};
 use crate::types::DurativeActionEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -90,7 +91,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_effect),
+                preceded(layout1, parse_da_effect),
             )),
         ),
         DurativeActionEffect::from,
@@ -100,7 +101,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
     let when = map(
         prefix_expr(
             "when",
-            tuple((parse_da_gd, preceded(multispace1, parse_timed_effect))),
+            tuple((parse_da_gd, preceded(layout1, parse_timed_effect))),
         ),
         DurativeActionEffect::from,
     );
diff --git a/src/parsers/da_gd.rs b/src/parsers/da_gd.rs
index c5798b3..dfc6034 100644
--- a/src/parsers/da_gd.rs
+++ b/src/parsers/da_gd.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for durative action goal definitions.
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    layout1, parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_pref_timed_gd, parse_variable};
 use crate::types::DurativeActionGoalDefinition;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -99,7 +100,7 @@ pub fn parse_da_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_gd),
+                preceded(layout1, parse_da_gd),
             )),
         ),
         |(vars, gd)| DurativeActionGoalDefinition::new_forall(vars, gd),
diff --git a/src/parsers/derived_predicate.rs b/src/parsers/derived_predicate.rs
index 3756829..dc46aa6 100644
--- a/src/parsers/derived_predicate.rs
+++ b/src/parsers/derived_predicate.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for derived predicates.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_atomic_formula_skeleton, parse_gd};
+use crate::parsers::{layout1, parse_atomic_formula_skeleton, parse_gd};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::DerivedPredicate;
 
@@ -31,10 +30,7 @@ pub fn parse_derived_predicate<'a, T: Into<Span<'a>>>(
     map(
         prefix_expr(
             ":derived",
-            tuple((
-                parse_atomic_formula_skeleton,
-                preceded(multispace1, parse_gd),
-            )),
+            tuple((parse_atomic_formula_skeleton, preceded(layout1, parse_gd))),
         ),
         DerivedPredicate::from,
     )(input.into())
diff --git a/src/parsers/domain.rs b/src/parsers/domain.rs
index 96f1cb9..77e166d 100644
--- a/src/parsers/domain.rs
+++ b/src/parsers/domain.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for domain definitions.
 
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
-    parse_constants_def, parse_domain_constraints_def, parse_functions_def, parse_predicates_def,
-    parse_require_def, parse_structure_def, ParseResult, Span,
+    layout1, parse_constants_def, parse_domain_constraints_def, parse_functions_def,
+    parse_predicates_def, parse_require_def, parse_structure_def, ParseResult, Span,
 };
 use crate::parsers::{parse_name, parse_types_def, prefix_expr, space_separated_list1, ws2};
 use crate::types::{
@@ -66,20 +65,20 @@ pub fn parse_domain<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Domain>
             tuple((
                 prefix_expr("domain", parse_name),
                 opt(preceded(
-                    multispace1,
+                    layout1,
                     prefix_expr(":extends", space_separated_list1(parse_name)),
                 )),
-                opt(preceded(multispace1, parse_require_def)),
+                opt(preceded(layout1, parse_require_def)),
                 // :typing
-                opt(preceded(multispace1, parse_types_def)),
-                opt(preceded(multispace1, parse_constants_def)),
-                opt(preceded(multispace1, parse_predicates_def)),
+                opt(preceded(layout1, parse_types_def)),
+                opt(preceded(layout1, parse_constants_def)),
+                opt(preceded(layout1, parse_predicates_def)),
                 // :fluents
-                opt(preceded(multispace1, parse_functions_def)),
+                opt(preceded(layout1, parse_functions_def)),
                 // :constraints
-                opt(preceded(multispace1, parse_domain_constraints_def)),
+                opt(preceded(layout1, parse_domain_constraints_def)),
                 opt(preceded(
-                    multispace1,
+                    layout1,
                     map(
                         space_separated_list1(parse_structure_def),
                         StructureDefs::new,
diff --git a/src/parsers/f_assign_da.rs b/src/parsers/f_assign_da.rs
index 4dd31f7..5b27ae6 100644
--- a/src/parsers/f_assign_da.rs
+++ b/src/parsers/f_assign_da.rs
@@ -1,9 +1,8 @@
 //! Provides parsers for f-assign-das.
 
-use crate::parsers::{parens, ParseResult, Span};
+use crate::parsers::{layout1, parens, ParseResult, Span};
 use crate::parsers::{parse_assign_op, parse_f_exp_da, parse_f_head};
 use crate::types::FAssignDa;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -18,8 +17,8 @@ pub fn parse_f_assign_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FAs
     map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(layout1, parse_f_head),
+            preceded(layout1, parse_f_exp_da),
         ))),
         FAssignDa::from,
     )(input.into())
diff --git a/src/parsers/f_comp.rs b/src/parsers/f_comp.rs
index 73857e2..db26016 100644
--- a/src/parsers/f_comp.rs
+++ b/src/parsers/f_comp.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for f-comps.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, ParseResult, Span};
+use crate::parsers::{layout1, parens, ParseResult, Span};
 use crate::parsers::{parse_binary_comp, parse_f_exp};
 use crate::types::FComp;
 
@@ -34,8 +33,8 @@ pub fn parse_f_comp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FComp> {
     map(
         parens(tuple((
             parse_binary_comp,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(layout1, parse_f_exp),
+            preceded(layout1, parse_f_exp),
         ))),
         FComp::from,
     )(input.into())
diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index dc9affe..7d454ce 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,11 +1,11 @@
 //! Provides parsers for f-exps.
 
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, parse_number, space_separated_list1, ParseResult, Span};
+use crate::parsers::{layout1, parens, parse_number, space_separated_list1, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
 use crate::types::FExp;
 
@@ -53,8 +53,8 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(layout1, parse_f_exp),
+            preceded(layout1, parse_f_exp),
         ))),
         |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
     );
@@ -63,8 +63,8 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, space_separated_list1(parse_f_exp)),
+            preceded(layout1, parse_f_exp),
+            preceded(layout1, space_separated_list1(parse_f_exp)),
         ))),
         |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
     );
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index e038eb4..ed7990c 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -2,11 +2,11 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list1, ParseResult, Span};
+use crate::parsers::{layout1, parens, space_separated_list1, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
 use crate::types::FExpDa;
 
@@ -43,8 +43,8 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(layout1, parse_f_exp_da),
+            preceded(layout1, parse_f_exp_da),
         ))),
         |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
     );
@@ -52,8 +52,8 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, space_separated_list1(parse_f_exp_da)),
+            preceded(layout1, parse_f_exp_da),
+            preceded(layout1, space_separated_list1(parse_f_exp_da)),
         ))),
         |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
     );
diff --git a/src/parsers/f_exp_t.rs b/src/parsers/f_exp_t.rs
index 73cb078..3192528 100644
--- a/src/parsers/f_exp_t.rs
+++ b/src/parsers/f_exp_t.rs
@@ -2,11 +2,10 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
-use crate::parsers::prefix_expr;
+use crate::parsers::{layout1, prefix_expr};
 use crate::parsers::{parse_f_exp, ParseResult, Span};
 use crate::types::FExpT;
 
@@ -46,8 +45,8 @@ pub fn parse_f_exp_t<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpT>
         prefix_expr(
             "*",
             alt((
-                preceded(tuple((tag("#t"), multispace1)), parse_f_exp),
-                terminated(parse_f_exp, tuple((multispace1, tag("#t")))),
+                preceded(tuple((tag("#t"), layout1)), parse_f_exp),
+                terminated(parse_f_exp, tuple((layout1, tag("#t")))),
             )),
         ),
         FExpT::new_scaled,
diff --git a/src/parsers/f_head.rs b/src/parsers/f_head.rs
index 4dde6c4..85ee49d 100644
--- a/src/parsers/f_head.rs
+++ b/src/parsers/f_head.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for f-heads.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list0, ParseResult, Span};
+use crate::parsers::{layout1, parens, space_separated_list0, ParseResult, Span};
 use crate::parsers::{parse_function_symbol, parse_term};
 use crate::types::FHead;
 
@@ -35,7 +34,7 @@ pub fn parse_f_head<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FHead> {
     let with_terms = map(
         parens(tuple((
             parse_function_symbol,
-            preceded(multispace1, space_separated_list0(parse_term)),
+            preceded(layout1, space_separated_list0(parse_term)),
         ))),
         |(symbol, terms)| FHead::new_with_terms(symbol, terms),
     );
diff --git a/src/parsers/gd.rs b/src/parsers/gd.rs
index 4e6470a..f222894 100644
--- a/src/parsers/gd.rs
+++ b/src/parsers/gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
-    atomic_formula, literal, parse_f_comp, parse_term, parse_variable, ParseResult, Span,
+    atomic_formula, layout1, literal, parse_f_comp, parse_term, parse_variable, ParseResult, Span,
 };
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list};
 use crate::types::GoalDefinition;
@@ -157,7 +156,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
 
     // :disjunctive-preconditions
     let imply = map(
-        prefix_expr("imply", tuple((parse_gd, preceded(multispace1, parse_gd)))),
+        prefix_expr("imply", tuple((parse_gd, preceded(layout1, parse_gd)))),
         GoalDefinition::new_imply_tuple,
     );
 
@@ -167,7 +166,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "exists",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(layout1, parse_gd),
             )),
         ),
         GoalDefinition::new_exists_tuple,
@@ -179,7 +178,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(layout1, parse_gd),
             )),
         ),
         GoalDefinition::new_forall_tuple,
diff --git a/src/parsers/init_el.rs b/src/parsers/init_el.rs
index c5f46fd..a4211e6 100644
--- a/src/parsers/init_el.rs
+++ b/src/parsers/init_el.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for initial state list elements.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
-    literal, parse_basic_function_term, parse_name, parse_number, prefix_expr, ParseResult, Span,
+    layout1, literal, parse_basic_function_term, parse_name, parse_number, prefix_expr,
+    ParseResult, Span,
 };
 use crate::types::InitElement;
 
@@ -60,7 +60,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_number, preceded(multispace1, literal(parse_name)))),
+            tuple((parse_number, preceded(layout1, literal(parse_name)))),
         ),
         |(time, name)| InitElement::new_at(time, name),
     );
@@ -69,10 +69,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_numeric = map(
         prefix_expr(
             "=",
-            tuple((
-                parse_basic_function_term,
-                preceded(multispace1, parse_number),
-            )),
+            tuple((parse_basic_function_term, preceded(layout1, parse_number))),
         ),
         |(fun, value)| InitElement::new_is_value(fun, value),
     );
@@ -81,7 +78,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_object = map(
         prefix_expr(
             "=",
-            tuple((parse_basic_function_term, preceded(multispace1, parse_name))),
+            tuple((parse_basic_function_term, preceded(layout1, parse_name))),
         ),
         |(fun, name)| InitElement::new_is_object(fun, name),
     );
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 3f83178..857a8bc 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,14 +1,14 @@
 //! Provides parsers for metric f-exps.
 
 use crate::parsers::{
-    parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
+    layout1, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
     space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -79,8 +79,8 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, parse_metric_f_exp),
+            preceded(layout1, parse_metric_f_exp),
+            preceded(layout1, parse_metric_f_exp),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
     );
@@ -88,8 +88,8 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, space_separated_list1(parse_metric_f_exp)),
+            preceded(layout1, parse_metric_f_exp),
+            preceded(layout1, space_separated_list1(parse_metric_f_exp)),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
     );
diff --git a/src/parsers/metric_spec.rs b/src/parsers/metric_spec.rs
index ff4be55..6ad6e5b 100644
--- a/src/parsers/metric_spec.rs
+++ b/src/parsers/metric_spec.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for metric specification.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span};
+use crate::parsers::{
+    layout1, parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span,
+};
 use crate::types::MetricSpec;
 
 /// Parses a metric specification.
@@ -25,10 +26,7 @@ pub fn parse_problem_metric_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult
     map(
         prefix_expr(
             ":metric",
-            tuple((
-                parse_optimization,
-                preceded(multispace1, parse_metric_f_exp),
-            )),
+            tuple((parse_optimization, preceded(layout1, parse_metric_f_exp))),
         ),
         |(optimization, exp)| MetricSpec::new(optimization, exp),
     )(input.into())
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4a7248e..00e4e0d 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    layout1, parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/p_effect.rs b/src/parsers/p_effect.rs
index 29162f6..0f90418 100644
--- a/src/parsers/p_effect.rs
+++ b/src/parsers/p_effect.rs
@@ -1,14 +1,13 @@
 //! Provides parsers for p-effects.
 
 use crate::parsers::{
-    atomic_formula, parse_assign_op, parse_f_exp, parse_f_head, parse_function_term, parse_term,
-    ParseResult, Span,
+    atomic_formula, layout1, parse_assign_op, parse_f_exp, parse_f_head, parse_function_term,
+    parse_term, ParseResult, Span,
 };
 use crate::parsers::{parens, prefix_expr};
 use crate::types::PEffect;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
@@ -76,8 +75,8 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let numeric = map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp),
+            preceded(layout1, parse_f_head),
+            preceded(layout1, parse_f_exp),
         ))),
         |(op, head, exp)| PEffect::new_numeric_fluent(op, head, exp),
     );
@@ -86,14 +85,14 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let object_undefined = map(
         prefix_expr(
             "assign",
-            terminated(parse_function_term, tuple((multispace1, tag("undefined")))),
+            terminated(parse_function_term, tuple((layout1, tag("undefined")))),
         ),
         |f_term| PEffect::new_object_fluent(f_term, None),
     );
     let object = map(
         prefix_expr(
             "assign",
-            tuple((parse_function_term, preceded(multispace1, parse_term))),
+            tuple((parse_function_term, preceded(layout1, parse_term))),
         ),
         |(f_term, term)| PEffect::new_object_fluent(f_term, Some(term)),
     );
diff --git a/src/parsers/pre_gd.rs b/src/parsers/pre_gd.rs
index e8e640e..cfc5278 100644
--- a/src/parsers/pre_gd.rs
+++ b/src/parsers/pre_gd.rs
@@ -1,11 +1,12 @@
 //! Provides parsers for goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    layout1, parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_pref_gd, parse_variable};
 use crate::types::PreconditionGoalDefinition;
 use crate::PreconditionGoalDefinitions;
@@ -84,7 +85,7 @@ pub fn parse_pre_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pre_gd),
+                preceded(layout1, parse_pre_gd),
             )),
         ),
         |(vars, gd)| {
diff --git a/src/parsers/pref_con_gd.rs b/src/parsers/pref_con_gd.rs
index 2bae25a..5de0d8d 100644
--- a/src/parsers/pref_con_gd.rs
+++ b/src/parsers/pref_con_gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for preferred goal definitions.
 
 use crate::parsers::{
-    parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, space_separated_list0,
-    typed_list, ParseResult, Span,
+    layout1, parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr,
+    space_separated_list0, typed_list, ParseResult, Span,
 };
 use crate::PrefConGDs;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -92,7 +91,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pref_con_gd),
+                preceded(layout1, parse_pref_con_gd),
             )),
         ),
         |(vars, gd)| PrefConGDs::new_forall(vars, gd),
@@ -102,7 +101,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
     let named_preference = map(
         prefix_expr(
             "preference",
-            tuple((parse_pref_name, preceded(multispace1, parse_con_gd))),
+            tuple((parse_pref_name, preceded(layout1, parse_con_gd))),
         ),
         |(name, gd)| PrefConGDs::new_preference(Some(name), gd),
     );
diff --git a/src/parsers/pref_gd.rs b/src/parsers/pref_gd.rs
index 5ef679f..2077bf5 100644
--- a/src/parsers/pref_gd.rs
+++ b/src/parsers/pref_gd.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for preference goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_gd, parse_pref_name};
+use crate::parsers::{layout1, parse_gd, parse_pref_name};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::{Preference, PreferenceGD};
 
@@ -62,7 +61,7 @@ pub fn parse_pref_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Prefere
     let pref_named = map(
         prefix_expr(
             "preference",
-            tuple((opt(parse_pref_name), preceded(multispace1, parse_gd))),
+            tuple((opt(parse_pref_name), preceded(layout1, parse_gd))),
         ),
         |(pref, gd)| PreferenceGD::from_preference(Preference::new(pref, gd)),
     );
diff --git a/src/parsers/pref_timed_gd.rs b/src/parsers/pref_timed_gd.rs
index 96f3471..02caeab 100644
--- a/src/parsers/pref_timed_gd.rs
+++ b/src/parsers/pref_timed_gd.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for (preferred) timed goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{terminated, tuple};
 
-use crate::parsers::{parse_pref_name, parse_timed_gd};
+use crate::parsers::{layout1, parse_pref_name, parse_timed_gd};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::PrefTimedGD;
 
@@ -67,10 +66,7 @@ pub fn parse_pref_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, P
     let preference = map(
         prefix_expr(
             "preference",
-            tuple((
-                opt(terminated(parse_pref_name, multispace1)),
-                parse_timed_gd,
-            )),
+            tuple((opt(terminated(parse_pref_name, layout1)), parse_timed_gd)),
         ),
         PrefTimedGD::from,
     );
diff --git a/src/parsers/problem.rs b/src/parsers/problem.rs
index f5937f9..ec7d6f3 100644
--- a/src/parsers/problem.rs
+++ b/src/parsers/problem.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for problem definitions.
 
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_name, prefix_expr, ws2, ParseResult, Span};
+use crate::parsers::{layout1, parse_name, prefix_expr, ws2, ParseResult, Span};
 use crate::parsers::{
     parse_problem_constraints_def, parse_problem_goal_def, parse_problem_init_def,
     parse_problem_length_spec, parse_problem_metric_spec, parse_problem_objects_declaration,
@@ -42,17 +41,17 @@ pub fn parse_problem<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Problem
             "define",
             tuple((
                 prefix_expr("problem", parse_name),
-                preceded(multispace1, prefix_expr(":domain", parse_name)),
-                opt(preceded(multispace1, parse_require_def)),
-                opt(preceded(multispace1, parse_problem_objects_declaration)),
-                preceded(multispace1, parse_problem_init_def),
-                preceded(multispace1, parse_problem_goal_def),
+                preceded(layout1, prefix_expr(":domain", parse_name)),
+                opt(preceded(layout1, parse_require_def)),
+                opt(preceded(layout1, parse_problem_objects_declaration)),
+                preceded(layout1, parse_problem_init_def),
+                preceded(layout1, parse_problem_goal_def),
                 // :constraints
-                opt(preceded(multispace1, parse_problem_constraints_def)),
+                opt(preceded(layout1, parse_problem_constraints_def)),
                 // :numeric-fluents
-                opt(preceded(multispace1, parse_problem_metric_spec)),
+                opt(preceded(layout1, parse_problem_metric_spec)),
                 // Deprecated since PDDL 2.1
-                opt(preceded(multispace1, parse_problem_length_spec)),
+                opt(preceded(layout1, parse_problem_length_spec)),
             )),
         )),
         |(name, domain, reqs, objects, init, goal, constraints, metric, length)| {
diff --git a/src/parsers/simple_duration_constraint.rs b/src/parsers/simple_duration_constraint.rs
index 7e89a13..daf1873 100644
--- a/src/parsers/simple_duration_constraint.rs
+++ b/src/parsers/simple_duration_constraint.rs
@@ -2,11 +2,10 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, ParseResult, Span};
+use crate::parsers::{layout1, parens, prefix_expr, ParseResult, Span};
 use crate::parsers::{parse_d_op, parse_d_value, parse_time_specifier};
 use crate::types::SimpleDurationConstraint;
 
@@ -41,10 +40,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
     let op = map(
         parens(tuple((
             parse_d_op,
-            preceded(
-                tuple((multispace1, tag("?duration"), multispace1)),
-                parse_d_value,
-            ),
+            preceded(tuple((layout1, tag("?duration"), layout1)), parse_d_value),
         ))),
         SimpleDurationConstraint::from,
     );
@@ -54,7 +50,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
             "at",
             tuple((
                 parse_time_specifier,
-                preceded(multispace1, parse_simple_duration_constraint),
+                preceded(layout1, parse_simple_duration_constraint),
             )),
         ),
         SimpleDurationConstraint::from,
diff --git a/src/parsers/timed_effect.rs b/src/parsers/timed_effect.rs
index 733cfaa..2926016 100644
--- a/src/parsers/timed_effect.rs
+++ b/src/parsers/timed_effect.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for timed effects.
 
-use crate::parsers::{parens, prefix_expr, ParseResult, Span};
+use crate::parsers::{layout1, parens, prefix_expr, ParseResult, Span};
 use crate::parsers::{
     parse_assign_op_t, parse_cond_effect, parse_f_assign_da, parse_f_exp_t, parse_f_head,
     parse_time_specifier,
 };
 use crate::types::TimedEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,10 +54,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let cond = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_cond_effect),
-            )),
+            tuple((parse_time_specifier, preceded(layout1, parse_cond_effect))),
         ),
         TimedEffect::from,
     );
@@ -67,10 +63,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let fluent = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_f_assign_da),
-            )),
+            tuple((parse_time_specifier, preceded(layout1, parse_f_assign_da))),
         ),
         TimedEffect::from,
     );
@@ -79,8 +72,8 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let continuous = map(
         parens(tuple((
             parse_assign_op_t,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_t),
+            preceded(layout1, parse_f_head),
+            preceded(layout1, parse_f_exp_t),
         ))),
         TimedEffect::from,
     );
diff --git a/src/parsers/timed_gd.rs b/src/parsers/timed_gd.rs
index 8ed9f8f..46953a2 100644
--- a/src/parsers/timed_gd.rs
+++ b/src/parsers/timed_gd.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for timed goal definitions.
 
-use crate::parsers::{parse_gd, parse_interval, parse_time_specifier};
+use crate::parsers::{layout1, parse_gd, parse_interval, parse_time_specifier};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::TimedGD;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -42,16 +41,13 @@ pub fn parse_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimedG
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_time_specifier, preceded(multispace1, parse_gd))),
+            tuple((parse_time_specifier, preceded(layout1, parse_gd))),
         ),
         TimedGD::from,
     );
 
     let over = map(
-        prefix_expr(
-            "over",
-            tuple((parse_interval, preceded(multispace1, parse_gd))),
-        ),
+        prefix_expr("over", tuple((parse_interval, preceded(layout1, parse_gd)))),
         TimedGD::from,
     );
 
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index e1cbf64..5825507 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,10 +1,18 @@
 //! Utility parsers.
 
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
-use nom::bytes::complete::tag;
+use nom::branch::alt;
+use nom::bytes::complete::{is_not, tag};
 use nom::character::complete::{char, multispace0, multispace1};
-use nom::multi::{separated_list0, separated_list1};
-use nom::sequence::{delimited, preceded};
+use nom::combinator::{opt, recognize, value};
+use nom::multi::{many1_count, separated_list0, separated_list1};
+use nom::sequence::{delimited, pair, preceded};
+
+/// Consumes a non-empty run of whitespace and line comments.
+pub fn layout1(input: Span) -> ParseResult<()> {
+    let comment = recognize(pair(char(';'), opt(is_not("\r\n"))));
+    value((), many1_count(alt((multispace1, comment))))(input)
+}
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -50,7 +58,7 @@ where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
     ws(separated_list0(
-        multispace1,
+        layout1,
         preceded(ignore_eol_comment, inner),
     ))
 }
@@ -62,7 +70,7 @@ where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
     ws(separated_list1(
-        multispace1,
+        layout1,
         preceded(ignore_eol_comment, inner),
     ))
 }
-- 
2.43.0


From 10c9bff1a3caaf51f19229b98097eeec74b591ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:59 +0000
Subject: [PATCH 11/18] fix: accept whitespace and comments just inside any
 parentheses

---
 src/parsers/atomic_formula.rs      |  2 +-
 src/parsers/duration_constraint.rs |  5 +++--
 src/parsers/empty_or.rs            | 12 +++++++++---
 src/parsers/function_term.rs       |  4 ++--
 src/parsers/utilities.rs           |  8 ++++++--
 5 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/parsers/atomic_formula.rs b/src/parsers/atomic_formula.rs
index d708203..7bb666e 100644
--- a/src/parsers/atomic_formula.rs
+++ b/src/parsers/atomic_formula.rs
@@ -31,7 +31,7 @@ where
 {
     let equality = map(
         delimited(
-            ws(tag("(=")),
+            tuple((ws(tag("(")), ws(tag("=")))),
             tuple((ws(inner.clone()), ws(inner.clone()))),
             ws(char(')')),
         ),
diff --git a/src/parsers/duration_constraint.rs b/src/parsers/duration_constraint.rs
index 826075b..8a5c77f 100644
--- a/src/parsers/duration_constraint.rs
+++ b/src/parsers/duration_constraint.rs
@@ -3,9 +3,10 @@
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
+use nom::sequence::tuple;
 
 use crate::parsers::{parse_simple_duration_constraint, ParseResult, Span};
-use crate::parsers::{prefix_expr, space_separated_list1};
+use crate::parsers::{prefix_expr, space_separated_list1, ws};
 use crate::types::DurationConstraint;
 
 /// Parses a duration constraint.
@@ -60,7 +61,7 @@ use crate::types::DurationConstraint;
 pub fn parse_duration_constraint<'a, T: Into<Span<'a>>>(
     input: T,
 ) -> ParseResult<'a, Option<DurationConstraint>> {
-    let none = map(tag("()"), |_| None);
+    let none = map(tuple((tag("("), ws(tag(")")))), |_| None);
     let simple = map(parse_simple_duration_constraint, |c| {
         Some(DurationConstraint::from(c))
     });
diff --git a/src/parsers/empty_or.rs b/src/parsers/empty_or.rs
index 4a62a80..b3d347a 100644
--- a/src/parsers/empty_or.rs
+++ b/src/parsers/empty_or.rs
@@ -1,9 +1,12 @@
 //! Provides the [`empty_or`] parser combinator.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
-use nom::combinator::map;
+use nom::bytes::complete::{is_not, tag};
+use nom::character::complete::multispace1;
+use nom::combinator::{map, opt, recognize};
 use nom::error::ParseError;
+use nom::multi::many0_count;
+use nom::sequence::{delimited, pair};
 
 use crate::parsers::{ParseResult, Span};
 
@@ -26,7 +29,10 @@ pub fn empty_or<'a, F, O, E: ParseError<Span<'a>>>(
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O, E>,
 {
-    let empty_parser = map(tag("()"), |_: Span| None);
+    // Whitespace and comments may appear between the parentheses.
+    let comment = recognize(pair(tag(";"), opt(is_not("\r\n"))));
+    let layout = many0_count(alt((multispace1, comment)));
+    let empty_parser = map(delimited(tag("("), layout, tag(")")), |_| None);
     let inner_parser = map(inner, |o: O| Some(o));
 
     alt((empty_parser, inner_parser))
diff --git a/src/parsers/function_term.rs b/src/parsers/function_term.rs
index 26b508d..d5c4bd6 100644
--- a/src/parsers/function_term.rs
+++ b/src/parsers/function_term.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for function terms.
 
 use crate::parsers::{parse_function_symbol, parse_term};
-use crate::parsers::{space_separated_list0, ParseResult, Span};
+use crate::parsers::{space_separated_list0, ws, ParseResult, Span};
 use crate::types::FunctionTerm;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
@@ -33,7 +33,7 @@ pub fn parse_function_term<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, F
         delimited(
             tag("("),
             tuple((parse_function_symbol, space_separated_list0(parse_term))),
-            tag(")"),
+            ws(tag(")")),
         ),
         |(symbol, terms)| FunctionTerm::new(symbol, terms),
     )(input.into())
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index 5825507..361122b 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -21,7 +21,11 @@ pub fn prefix_expr<'a, F, O>(name: &'a str, inner: F) -> impl FnMut(Span<'a>) ->
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    delimited(preceded(ws(tag("(")), tag(name)), ws(inner), ws(tag(")")))
+    delimited(
+        preceded(ws(tag("(")), ws(tag(name))),
+        ws(inner),
+        ws(tag(")")),
+    )
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
@@ -83,7 +87,7 @@ where
 {
     preceded(
         ignore_eol_comment,
-        delimited(char('('), ws(inner), char(')')),
+        delimited(char('('), ws(inner), ws(char(')'))),
     )
 }
 
-- 
2.43.0


From bc4e50d09758f3c8ac306a3344daceb6a8cd5139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 12/18] fix: match keywords as whole words

---
 src/parsers/f_exp_da.rs     |  5 ++---
 src/parsers/f_exp_t.rs      |  6 +++---
 src/parsers/metric_f_exp.rs |  7 +++----
 src/parsers/mod.rs          |  2 +-
 src/parsers/p_effect.rs     |  5 ++---
 src/parsers/utilities.rs    | 12 +++++++++---
 6 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index ed7990c..93a1262 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for f-exp-da values..
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{layout1, parens, space_separated_list1, ParseResult, Span};
+use crate::parsers::{keyword, layout1, parens, space_separated_list1, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
 use crate::types::FExpDa;
 
@@ -38,7 +37,7 @@ use crate::types::FExpDa;
 ///```
 pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa> {
     // :duration-inequalities
-    let duration = map(tag("?duration"), |_| FExpDa::new_duration());
+    let duration = map(keyword("?duration"), |_| FExpDa::new_duration());
 
     let binary_op = map(
         parens(tuple((
diff --git a/src/parsers/f_exp_t.rs b/src/parsers/f_exp_t.rs
index 3192528..93d17fd 100644
--- a/src/parsers/f_exp_t.rs
+++ b/src/parsers/f_exp_t.rs
@@ -5,7 +5,7 @@ use nom::bytes::complete::tag;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
-use crate::parsers::{layout1, prefix_expr};
+use crate::parsers::{keyword, layout1, prefix_expr};
 use crate::parsers::{parse_f_exp, ParseResult, Span};
 use crate::types::FExpT;
 
@@ -40,13 +40,13 @@ use crate::types::FExpT;
 /// ));
 ///```
 pub fn parse_f_exp_t<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpT> {
-    let now = map(tag("#t"), |_| FExpT::new());
+    let now = map(keyword("#t"), |_| FExpT::new());
     let scaled = map(
         prefix_expr(
             "*",
             alt((
                 preceded(tuple((tag("#t"), layout1)), parse_f_exp),
-                terminated(parse_f_exp, tuple((layout1, tag("#t")))),
+                terminated(parse_f_exp, tuple((layout1, keyword("#t")))),
             )),
         ),
         FExpT::new_scaled,
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 857a8bc..a91b31f 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for metric f-exps.
 
 use crate::parsers::{
-    layout1, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    space_separated_list0, space_separated_list1, ws, ParseResult, Span,
+    keyword, layout1, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name,
+    prefix_expr, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
@@ -115,7 +114,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         |(sym, names)| MetricFExp::new_function(sym, names),
     );
 
-    let total_time = map(tag("total-time"), |_| MetricFExp::new_total_time());
+    let total_time = map(keyword("total-time"), |_| MetricFExp::new_total_time());
 
     // :preferences
     let is_violated = map(
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 00e4e0d..52c066a 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    layout1, parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    keyword, layout1, parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/p_effect.rs b/src/parsers/p_effect.rs
index 0f90418..425b306 100644
--- a/src/parsers/p_effect.rs
+++ b/src/parsers/p_effect.rs
@@ -4,10 +4,9 @@ use crate::parsers::{
     atomic_formula, layout1, parse_assign_op, parse_f_exp, parse_f_head, parse_function_term,
     parse_term, ParseResult, Span,
 };
-use crate::parsers::{parens, prefix_expr};
+use crate::parsers::{keyword, parens, prefix_expr};
 use crate::types::PEffect;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
@@ -85,7 +84,7 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let object_undefined = map(
         prefix_expr(
             "assign",
-            terminated(parse_function_term, tuple((layout1, tag("undefined")))),
+            terminated(parse_function_term, tuple((layout1, keyword("undefined")))),
         ),
         |f_term| PEffect::new_object_fluent(f_term, None),
     );
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index 361122b..f371ab6 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,12 +1,13 @@
 //! Utility parsers.
 
+use crate::parsers::name::parse_any_char;
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::branch::alt;
 use nom::bytes::complete::{is_not, tag};
 use nom::character::complete::{char, multispace0, multispace1};
-use nom::combinator::{opt, recognize, value};
+use nom::combinator::{not, opt, recognize, value};
 use nom::multi::{many1_count, separated_list0, separated_list1};
-use nom::sequence::{delimited, pair, preceded};
+use nom::sequence::{delimited, pair, preceded, terminated};
 
 /// Consumes a non-empty run of whitespace and line comments.
 pub fn layout1(input: Span) -> ParseResult<()> {
@@ -14,6 +15,11 @@ pub fn layout1(input: Span) -> ParseResult<()> {
     value((), many1_count(alt((multispace1, comment))))(input)
 }
 
+/// Matches the specified keyword as a whole, i.e. not as the start of a longer name.
+pub fn keyword<'a>(name: &'a str) -> impl FnMut(Span<'a>) -> ParseResult<'a, Span<'a>> {
+    terminated(tag(name), not(parse_any_char))
+}
+
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
 #[allow(clippy::needless_lifetimes)]
@@ -22,7 +28,7 @@ where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
     delimited(
-        preceded(ws(tag("(")), ws(tag(name))),
+        preceded(ws(tag("(")), ws(keyword(name))),
         ws(inner),
         ws(tag(")")),
     )
-- 
2.43.0


From 17578d5136e9f043d891b1b62efd1d58b77d0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 13/18] fix: accept any layout between 'at' and 'end'

---
 src/parsers/con_gd.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index c660c97..a49d646 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -1,8 +1,8 @@
 //! Provides parsers for conditional goal definitions.
 
 use crate::parsers::{
-    layout1, parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0,
-    typed_list, ParseResult, Span,
+    keyword, layout1, parens, parse_gd, parse_number, parse_variable, prefix_expr,
+    space_separated_list0, typed_list, ws, ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
@@ -173,7 +173,10 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
         |(vars, gd)| ConGD::new_forall(vars, gd),
     );
 
-    let at_end = map(prefix_expr("at end", parse_gd), ConGD::new_at_end);
+    let at_end = map(
+        prefix_expr("at", preceded(keyword("end"), ws(parse_gd))),
+        ConGD::new_at_end,
+    );
 
     let always = map(prefix_expr("always", parse_con2_gd), ConGD::new_always);
 
-- 
2.43.0


From f68ed41fb26aeffa65f52291f013dcdd59e4da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 14/18] fix: do not accept layout between '?' and the name of a
 variable

---
 src/parsers/variable.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parsers/variable.rs b/src/parsers/variable.rs
index d3924c3..63c8f52 100644
--- a/src/parsers/variable.rs
+++ b/src/parsers/variable.rs
@@ -1,9 +1,10 @@
 //! Provides parsers for variables.
 
 use nom::bytes::complete::tag;
-use nom::combinator::map;
-use nom::sequence::preceded;
+use nom::combinator::{map, peek};
+use nom::sequence::{preceded, tuple};
 
+use crate::parsers::name::parse_any_char;
 use crate::parsers::{parse_name, ParseResult, Span};
 use crate::types::Variable;
 
@@ -22,7 +23,10 @@ use crate::types::Variable;
 /// assert!(parse_variable(Span::new("?1")).is_err());
 ///```
 pub fn parse_variable<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Variable> {
-    map(preceded(tag("?"), parse_name), Variable::from)(input.into())
+    map(
+        preceded(tuple((tag("?"), peek(parse_any_char))), parse_name),
+        Variable::from,
+    )(input.into())
 }
 
 impl crate::parsers::Parser for Variable {
-- 
2.43.0


From 0b91b77e69462457195afa4f2c27976cdf9117cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:53 +0000
Subject: [PATCH 15/18] fix: do not read a nested constraint as an atomic
 formula

---
 src/parsers/con_gd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index a49d646..dfbf31e 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -264,7 +264,8 @@ fn parse_con2_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Con2GD> {
 
     // TODO: Add crate feature to allow this to be forbidden if unsupported by the application.
     let con_gd = map(parse_con_gd, Con2GD::new_nested);
-    alt((gd, con_gd))(input.into())
+    // The keyword forms go first, e.g. `(at end ...)` is not an atomic formula.
+    alt((con_gd, gd))(input.into())
 }
 
 impl crate::parsers::Parser for ConGD {
-- 
2.43.0


From 7aab6ec2d2a1ae7e1d1324ac3e26b8b7875f50b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 16/18] fix: read the operands of nested numeric expressions
 only once

---
 src/parsers/f_exp.rs        | 48 +++++++++++++++++-------------------
 src/parsers/f_exp_da.rs     | 46 +++++++++++++++++-----------------
 src/parsers/metric_f_exp.rs | 49 ++++++++++++++++---------------------
 3 files changed, 65 insertions(+), 78 deletions(-)

diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index 7d454ce..1e3f5c6 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,13 +1,13 @@
 //! Provides parsers for f-exps.
 
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0};
-use nom::combinator::map;
+use nom::combinator::{map, map_opt, opt};
 use nom::sequence::{preceded, tuple};
+use std::iter::once;
 
-use crate::parsers::{layout1, parens, parse_number, space_separated_list1, ParseResult, Span};
-use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
-use crate::types::FExp;
+use crate::parsers::{layout1, parens, parse_number, space_separated_list1, ws, ParseResult, Span};
+use crate::parsers::{parse_binary_op, parse_f_head};
+use crate::types::{BinaryOp, FExp};
 
 /// Parses an f-exp.
 ///
@@ -50,35 +50,31 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let number = map(parse_number, FExp::new_number);
 
     // :numeric-fluents
-    let binary_op = map(
+    // The operands are read only once, whatever their number.
+    let operation = map_opt(
         parens(tuple((
             parse_binary_op,
-            preceded(layout1, parse_f_exp),
-            preceded(layout1, parse_f_exp),
+            ws(parse_f_exp),
+            opt(tuple((
+                preceded(layout1, parse_f_exp),
+                opt(preceded(layout1, space_separated_list1(parse_f_exp))),
+            ))),
         ))),
-        |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
-    );
-
-    // :numeric-fluents
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(layout1, parse_f_exp),
-            preceded(layout1, space_separated_list1(parse_f_exp)),
-        ))),
-        |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
-    );
-
-    // :numeric-fluents
-    let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp)),
-        FExp::new_negative,
+        |(op, lhs, rest)| match rest {
+            None if op == BinaryOp::Subtraction => Some(FExp::new_negative(lhs)),
+            None => None,
+            Some((rhs, None)) => Some(FExp::new_binary_op(op, lhs, rhs)),
+            Some((rhs, Some(rest))) => {
+                let op = op.try_into().ok()?;
+                Some(FExp::new_multi_op(op, lhs, once(rhs).chain(rest)))
+            }
+        },
     );
 
     // :numeric-fluents
     let f_head = map(parse_f_head, FExp::new_function);
 
-    alt((number, binary_op, multi_op, negated, f_head))(input.into())
+    alt((number, operation, f_head))(input.into())
 }
 
 impl crate::parsers::Parser for FExp {
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index 93a1262..f5f3e11 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -1,13 +1,13 @@
 //! Provides parsers for f-exp-da values..
 
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0};
-use nom::combinator::map;
+use nom::combinator::{map, map_opt, opt};
 use nom::sequence::{preceded, tuple};
+use std::iter::once;
 
-use crate::parsers::{keyword, layout1, parens, space_separated_list1, ParseResult, Span};
-use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
-use crate::types::FExpDa;
+use crate::parsers::{keyword, layout1, parens, space_separated_list1, ws, ParseResult, Span};
+use crate::parsers::{parse_binary_op, parse_f_exp};
+use crate::types::{BinaryOp, FExpDa};
 
 /// Parses an f-exp-da.
 ///
@@ -39,32 +39,30 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     // :duration-inequalities
     let duration = map(keyword("?duration"), |_| FExpDa::new_duration());
 
-    let binary_op = map(
+    // The operands are read only once, whatever their number.
+    let operation = map_opt(
         parens(tuple((
             parse_binary_op,
-            preceded(layout1, parse_f_exp_da),
-            preceded(layout1, parse_f_exp_da),
+            ws(parse_f_exp_da),
+            opt(tuple((
+                preceded(layout1, parse_f_exp_da),
+                opt(preceded(layout1, space_separated_list1(parse_f_exp_da))),
+            ))),
         ))),
-        |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(layout1, parse_f_exp_da),
-            preceded(layout1, space_separated_list1(parse_f_exp_da)),
-        ))),
-        |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp_da)),
-        FExpDa::new_negative,
+        |(op, lhs, rest)| match rest {
+            None if op == BinaryOp::Subtraction => Some(FExpDa::new_negative(lhs)),
+            None => None,
+            Some((rhs, None)) => Some(FExpDa::new_binary_op(op, lhs, rhs)),
+            Some((rhs, Some(rest))) => {
+                let op = op.try_into().ok()?;
+                Some(FExpDa::new_multi_op(op, lhs, once(rhs).chain(rest)))
+            }
+        },
     );
 
     let f_exp = map(parse_f_exp, FExpDa::new_f_exp);
 
-    alt((duration, binary_op, multi_op, negated, f_exp))(input.into())
+    alt((duration, operation, f_exp))(input.into())
 }
 
 impl crate::parsers::Parser for FExpDa {
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index a91b31f..53a13c7 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,15 +1,15 @@
 //! Provides parsers for metric f-exps.
 
+use crate::parsers::parse_binary_op;
 use crate::parsers::{
     keyword, layout1, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name,
     prefix_expr, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
-use crate::parsers::{parse_binary_op, parse_multi_op};
-use crate::types::MetricFExp;
+use crate::types::{BinaryOp, MetricFExp};
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0};
-use nom::combinator::map;
+use nom::combinator::{map, map_opt, opt};
 use nom::sequence::{preceded, tuple};
+use std::iter::once;
 
 /// Parses a metric f-exp.
 ///
@@ -75,30 +75,25 @@ use nom::sequence::{preceded, tuple};
 /// ));
 ///```
 pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, MetricFExp> {
-    let binary_op = map(
+    // The operands are read only once, whatever their number.
+    let operation = map_opt(
         parens(tuple((
             parse_binary_op,
-            preceded(layout1, parse_metric_f_exp),
-            preceded(layout1, parse_metric_f_exp),
+            ws(parse_metric_f_exp),
+            opt(tuple((
+                preceded(layout1, parse_metric_f_exp),
+                opt(preceded(layout1, space_separated_list1(parse_metric_f_exp))),
+            ))),
         ))),
-        |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(layout1, parse_metric_f_exp),
-            preceded(layout1, space_separated_list1(parse_metric_f_exp)),
-        ))),
-        |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(
-            tuple((char('-'), multispace0)),
-            parse_metric_f_exp,
-        )),
-        MetricFExp::new_negative,
+        |(op, lhs, rest)| match rest {
+            None if op == BinaryOp::Subtraction => Some(MetricFExp::new_negative(lhs)),
+            None => None,
+            Some((rhs, None)) => Some(MetricFExp::new_binary_op(op, lhs, rhs)),
+            Some((rhs, Some(rest))) => {
+                let op = op.try_into().ok()?;
+                Some(MetricFExp::new_multi_op(op, lhs, once(rhs).chain(rest)))
+            }
+        },
     );
 
     let number = map(parse_number, MetricFExp::new_number);
@@ -124,9 +119,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
 
     alt((
         number,
-        binary_op,
-        multi_op,
-        negated,
+        operation,
         total_time,
         is_violated,
         complex_function,
-- 
2.43.0


From baea5252ac34d85910bb24147de531e201ee41ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:00 +0000
Subject: [PATCH 17/18] fix: build without the parser feature

---
 src/types/assign_op.rs      | 13 +++++++++++--
 src/types/assign_op_t.rs    | 13 +++++++++++--
 src/types/binary_comp.rs    | 13 +++++++++++--
 src/types/binary_op.rs      | 26 ++++++++++++++++++++++----
 src/types/d_op.rs           | 13 +++++++++++--
 src/types/interval.rs       | 13 +++++++++++--
 src/types/multi_op.rs       | 13 +++++++++++--
 src/types/optimization.rs   | 13 +++++++++++--
 src/types/requirement.rs    | 13 +++++++++++--
 src/types/time_specifier.rs | 13 +++++++++++--
 10 files changed, 121 insertions(+), 22 deletions(-)

diff --git a/src/types/assign_op.rs b/src/types/assign_op.rs
index 77ba8bf..0ce0e64 100644
--- a/src/types/assign_op.rs
+++ b/src/types/assign_op.rs
@@ -108,12 +108,21 @@ impl TryFrom<&str> for AssignOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
 
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
+
 impl Borrow<str> for AssignOp {
     fn borrow(&self) -> &str {
         self.as_str()
diff --git a/src/types/assign_op_t.rs b/src/types/assign_op_t.rs
index 47b4335..ddc5cda 100644
--- a/src/types/assign_op_t.rs
+++ b/src/types/assign_op_t.rs
@@ -38,8 +38,17 @@ impl TryFrom<&str> for AssignOpT {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/binary_comp.rs b/src/types/binary_comp.rs
index cec53c4..24bd764 100644
--- a/src/types/binary_comp.rs
+++ b/src/types/binary_comp.rs
@@ -50,8 +50,17 @@ impl TryFrom<&str> for BinaryComp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/binary_op.rs b/src/types/binary_op.rs
index aef42b7..ebc0c72 100644
--- a/src/types/binary_op.rs
+++ b/src/types/binary_op.rs
@@ -68,14 +68,32 @@ impl TryFrom<BinaryOp> for MultiOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
+
+#[derive(Debug, Clone)]
 pub enum TryFromError {
-    #[error("Operation is not a MultiOp")]
     NotAMultiOp,
 }
+
+impl Display for TryFromError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::NotAMultiOp => write!(f, "Operation is not a MultiOp"),
+        }
+    }
+}
+
+impl std::error::Error for TryFromError {}
diff --git a/src/types/d_op.rs b/src/types/d_op.rs
index c768b84..50617ca 100644
--- a/src/types/d_op.rs
+++ b/src/types/d_op.rs
@@ -44,8 +44,17 @@ impl TryFrom<&str> for DOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/interval.rs b/src/types/interval.rs
index 65fd2e7..4ba8ed7 100644
--- a/src/types/interval.rs
+++ b/src/types/interval.rs
@@ -35,8 +35,17 @@ impl TryFrom<&str> for Interval {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid interval")]
     InvalidInterval,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidInterval => write!(f, "Invalid interval"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/multi_op.rs b/src/types/multi_op.rs
index 1256948..0b59b6c 100644
--- a/src/types/multi_op.rs
+++ b/src/types/multi_op.rs
@@ -39,8 +39,17 @@ impl TryFrom<&str> for MultiOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/optimization.rs b/src/types/optimization.rs
index d053aac..c32ef31 100644
--- a/src/types/optimization.rs
+++ b/src/types/optimization.rs
@@ -43,8 +43,17 @@ impl TryFrom<&str> for Optimization {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid goal")]
     InvalidGoal,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidGoal => write!(f, "Invalid goal"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 245347a..61b81f1 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -245,12 +245,21 @@ impl TryFrom<&str> for Requirement {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid requirement")]
     InvalidRequirement,
 }
 
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidRequirement => write!(f, "Invalid requirement"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
+
 impl Borrow<str> for Requirement {
     fn borrow(&self) -> &str {
         self.as_str()
diff --git a/src/types/time_specifier.rs b/src/types/time_specifier.rs
index 4ee9026..3d36743 100644
--- a/src/types/time_specifier.rs
+++ b/src/types/time_specifier.rs
@@ -40,8 +40,17 @@ impl TryFrom<&str> for TimeSpecifier {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid specifier")]
     InvalidSpecifier,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidSpecifier => write!(f, "Invalid specifier"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
-- 
2.43.0


From 95c4618568583776aa7eeb844ed035cc1fdd4557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 18/18] Restore metric_spec.rs

---
 src/parsers/metric_spec.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parsers/metric_spec.rs b/src/parsers/metric_spec.rs
index 6ad6e5b..ff4be55 100644
--- a/src/parsers/metric_spec.rs
+++ b/src/parsers/metric_spec.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for metric specification.
 
+use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{
-    layout1, parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span,
-};
+use crate::parsers::{parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span};
 use crate::types::MetricSpec;
 
 /// Parses a metric specification.
@@ -26,7 +25,10 @@ pub fn parse_problem_metric_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult
     map(
         prefix_expr(
             ":metric",
-            tuple((parse_optimization, preceded(layout1, parse_metric_f_exp))),
+            tuple((
+                parse_optimization,
+                preceded(multispace1, parse_metric_f_exp),
+            )),
         ),
         |(optimization, exp)| MetricSpec::new(optimization, exp),
     )(input.into())
-- 
2.43.0

