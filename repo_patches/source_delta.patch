From 684780e20797dc8f844ed563d3f94d0e7f5b73af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 01/52] fix: reject U+007F (DEL), which is a disallowed literal
 code point

---
 src/v2_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3551732..1d5a85e 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1577,6 +1577,7 @@ pub(crate) fn is_disallowed_unicode(c: char) -> bool {
     matches!(c,
         '\u{0000}'..='\u{0008}'
         | '\u{000E}'..='\u{001F}'
+        | '\u{007F}'
         | '\u{200E}'..='\u{200F}'
         | '\u{202A}'..='\u{202E}'
         | '\u{2066}'..='\u{2069}'
-- 
2.43.0


From a76dd1db685cf0eb9741ebe28de2990bc51830c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 02/52] fix: reject bare `-inf`, which is a reserved keyword
 identifier

---
 src/v2_parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 1d5a85e..c438cf7 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -987,9 +987,15 @@ fn unambiguous_ident(input: &mut Input<'_>) -> PResult<()> {
 
 /// `signed-ident := sign ((identifier-char - digit - '.') identifier-char*)?`
 fn signed_ident(input: &mut Input<'_>) -> PResult<()> {
-    alt(("+", "-")).parse_next(input)?;
-    not(alt((digit1.void(), ".".void()))).parse_next(input)?;
-    repeat(0.., identifier_char).parse_next(input)
+    (
+        alt(("+", "-")),
+        not(alt((digit1.void(), ".".void()))),
+        repeat(0.., identifier_char).map(|()| ()),
+    )
+        .take()
+        .verify(|s: &str| s != "-inf")
+        .void()
+        .parse_next(input)
 }
 
 /// `dotted-ident := sign? '.' ((identifier-char - digit) identifier-char*)?`
-- 
2.43.0


From e2b6b8442ece24ab372aecf85d59532502160f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 03/52] fix: only single-line raw strings can look like
 multi-line ones

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index c438cf7..df58311 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1369,7 +1369,7 @@ fn raw_string(input: &mut Input<'_>) -> PResult<KdlValue> {
         "\"".context(cx().lbl("raw string closing quotes"))
     };
     cut_err((closing_quotes, &hashes[..])).parse_next(input)?;
-    if body == "\"" {
+    if !is_multiline && (body == "\"" || body.starts_with("\"\"")) {
         Err(ErrMode::Cut(KdlParseError {
             message: Some("Single-line raw strings cannot look like multi-line ones".into()),
             span: Some((_start_loc..input.previous_token_end()).into()),
-- 
2.43.0


From f75170aae849e46e5891f809d202abbb656c0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 04/52] fix: accept `;` after a slashdashed node

---
 src/v2_parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index df58311..16920b1 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -280,7 +280,7 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let mut leading = repeat(0.., alt((line_space.void(), slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -293,7 +293,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
     opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let trailing = repeat(0.., alt((line_space.void(), slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -327,7 +327,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let leading = repeat(0.., alt((line_space.void(), slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -338,6 +338,13 @@ fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
     Ok(nd)
 }
 
+/// A whole node commented out with `/-`, along with its terminator.
+fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
+    (slashdash, base_node, opt(node_terminator))
+        .void()
+        .parse_next(input)
+}
+
 fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     trace("children closing check", not(alt(("}".void(), eof.void())))).parse_next(input)?;
     let _start = input.checkpoint();
-- 
2.43.0


From 9893b7bbd10494f00d2a3d75506ce42eaddfb945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 05/52] fix: don't require the parts of a float to fit in an
 i128

---
 src/v2_parser.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 16920b1..3051b7c 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1780,27 +1780,27 @@ fn float<T: ParseFloat>(input: &mut Input<'_>) -> PResult<T> {
     (
         alt((
             (
-                decimal::<i128>,
+                (signum, digits),
                 opt(preceded(
                     '.',
                     cut_err(
-                        udecimal::<i128>.context(
+                        digits.context(
                             cx().msg("Non-digit character found after the '.' of a float"),
                         ),
                     ),
                 )),
                 Caseless("e"),
                 opt(one_of(['-', '+'])),
-                cut_err(udecimal::<i128>.context(
+                cut_err(digits.context(
                     cx().msg("Non-digit character found in the exponent part of a float").hlp("Floats with exponent parts should look like '2.0e123', or '43.3E-4'."),
                 )),
             )
                 .take(),
             (
-                decimal::<i128>,
+                (signum, digits),
                 '.',
                 cut_err(
-                    udecimal::<i128>
+                    digits
                         .context(cx().msg("Non-digit character found after the '.' of a float")),
                 ),
             )
@@ -1854,6 +1854,17 @@ fn integer_value(input: &mut Input<'_>) -> PResult<KdlValue> {
     .parse_next(input)
 }
 
+/// `integer := digit (digit | '_')*`, when only the text matters and not whether
+/// its value fits in an integer type.
+fn digits(input: &mut Input<'_>) -> PResult<()> {
+    (
+        digit1,
+        take_while(0.., |c: char| c.is_ascii_digit() || c == '_'),
+    )
+        .void()
+        .parse_next(input)
+}
+
 /// Non-float decimal
 fn decimal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-- 
2.43.0


From 68e88626e4d5b06ab2c79726f49abc293397bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 06/52] fix: accept i128::MIN, the most negative integer

---
 src/v2_parser.rs | 130 ++++++++++++-----------------------------------
 1 file changed, 32 insertions(+), 98 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3051b7c..4772033 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -5,7 +5,6 @@ use std::{
 
 use miette::{Severity, SourceSpan};
 
-use num_traits::CheckedMul;
 use winnow::{
     LocatingSlice,
     ascii::{Caseless, digit1, hex_digit1, oct_digit1},
@@ -164,20 +163,6 @@ impl<'a> FromExternalError<Input<'a>, ParseFloatError> for KdlParseError {
     }
 }
 
-struct NegativeUnsignedError;
-
-impl<'a> FromExternalError<Input<'a>, NegativeUnsignedError> for KdlParseError {
-    fn from_external_error(_input: &Input<'a>, _e: NegativeUnsignedError) -> Self {
-        Self {
-            span: None,
-            message: Some("Tried to parse a negative number as an unsigned integer".into()),
-            label: Some("negative unsigned int".into()),
-            help: None,
-            severity: Some(Severity::Error),
-        }
-    }
-}
-
 impl<I: Stream + Location> FromRecoverableError<I, Self> for KdlParseError {
     #[inline]
     fn from_recoverable_error(
@@ -1866,17 +1851,9 @@ fn digits(input: &mut Input<'_>) -> PResult<()> {
 }
 
 /// Non-float decimal
-fn decimal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
-    let positive = signum.parse_next(input)?;
-    udecimal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+fn decimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    let sign = opt(one_of(['+', '-'])).take().parse_next(input)?;
+    udecimal(sign, input)
 }
 
 #[cfg(test)]
@@ -1889,7 +1866,7 @@ fn decimal_test() {
 }
 
 /// `integer := digit (digit | '_')*`
-fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn udecimal<T: FromStrRadix>(sign: &str, input: &mut Input<'_>) -> PResult<T> {
     (
         digit1,
         repeat(
@@ -1898,26 +1875,21 @@ fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     )
         .try_map(|(l, r): (&str, Vec<&str>)| {
-            T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 10)
+            T::from_str_radix(
+                &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+                10,
+            )
         })
         .parse_next(input)
 }
 
 /// `hex := sign? '0x' hex-digit (hex-digit | '_')*`
-fn hex<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
-    let positive = signum.parse_next(input)?;
-    uhex::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+fn hex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    let sign = opt(one_of(['+', '-'])).take().parse_next(input)?;
+    uhex(sign, input)
 }
 
-fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uhex<T: FromStrRadix>(sign: &str, input: &mut Input<'_>) -> PResult<T> {
     alt(("0x", "0X")).parse_next(input)?;
     cut_err((
         hex_digit1,
@@ -1927,7 +1899,10 @@ fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     ))
     .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 16)
+        T::from_str_radix(
+            &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+            16,
+        )
     })
     .context(cx().lbl("hexadecimal"))
     .parse_next(input)
@@ -1960,20 +1935,12 @@ fn test_hex() {
 }
 
 /// `octal := sign? '0o' [0-7] [0-7_]*`
-fn octal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
-    let positive = signum.parse_next(input)?;
-    uoctal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+fn octal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    let sign = opt(one_of(['+', '-'])).take().parse_next(input)?;
+    uoctal(sign, input)
 }
 
-fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uoctal<T: FromStrRadix>(sign: &str, input: &mut Input<'_>) -> PResult<T> {
     alt(("0o", "0O")).parse_next(input)?;
     cut_err((
         oct_digit1,
@@ -1983,7 +1950,10 @@ fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     ))
     .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 8)
+        T::from_str_radix(
+            &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+            8,
+        )
     })
     .context(cx().lbl("octal"))
     .parse_next(input)
@@ -1999,25 +1969,20 @@ fn test_octal() {
 }
 
 /// `binary := sign? '0b' ('0' | '1') ('0' | '1' | '_')*`
-fn binary<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
-    let positive = signum.parse_next(input)?;
-    ubinary::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+fn binary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    let sign = opt(one_of(['+', '-'])).take().parse_next(input)?;
+    ubinary(sign, input)
 }
 
-fn ubinary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn ubinary<T: FromStrRadix>(sign: &str, input: &mut Input<'_>) -> PResult<T> {
     alt(("0b", "0B")).parse_next(input)?;
     cut_err(
         (alt(("0", "1")), repeat(0.., alt(("0", "1", "_")))).try_map(
             move |(x, xs): (&str, Vec<&str>)| {
-                T::from_str_radix(&format!("{x}{}", str::replace(&xs.join(""), "_", "")), 2)
+                T::from_str_radix(
+                    &format!("{sign}{x}{}", str::replace(&xs.join(""), "_", "")),
+                    2,
+                )
             },
         ),
     )
@@ -2074,34 +2039,6 @@ impl_from_str_radix!(
     i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize
 );
 
-trait MaybeNegatable: CheckedMul {
-    fn negated(&self) -> Option<Self>;
-}
-
-macro_rules! impl_negatable_signed {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    Some(self * -1)
-                }
-            }
-        )*
-    };
-}
-
-macro_rules! impl_negatable_unsigned {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    None
-                }
-            }
-        )*
-    };
-}
-
 trait ParseFloat {
     fn parse_float(input: &str) -> Result<Self, ParseFloatError>
     where
@@ -2119,9 +2056,6 @@ impl ParseFloat for f64 {
     }
 }
 
-impl_negatable_signed!(i8, i16, i32, i64, i128, isize);
-impl_negatable_unsigned!(u8, u16, u32, u64, u128, usize);
-
 #[cfg(test)]
 mod failure_tests {
     use miette::Severity;
-- 
2.43.0


From 9bfa0bd913302ea9f4dae6ff1483f8b7856e6f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 07/52] fix: require a terminator between a node and what
 follows it when either is slashdashed

---
 src/v2_parser.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 4772033..7539c25 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -277,11 +277,14 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     )
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
-    opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), slashdashed_node)))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let trailing = opt(preceded(
+        node_terminator,
+        repeat(0.., alt((line_space.void(), slashdashed_node)))
+            .map(|()| ())
+            .take(),
+    ))
+    .map(|trailing| trailing.unwrap_or_default())
+    .parse_next(input)?;
 
     // If there is a node, let it have the leading format
     // This gives more consistent behavior
@@ -325,7 +328,11 @@ fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
 
 /// A whole node commented out with `/-`, along with its terminator.
 fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
-    (slashdash, base_node, opt(node_terminator))
+    (
+        slashdash,
+        base_node,
+        alt((node_terminator, peek("}").void(), eof.void())),
+    )
         .void()
         .parse_next(input)
 }
-- 
2.43.0


From 4aed091efbcf5513b7c198b685de1e541e26b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 08/52] fix: reject a slashdash applied to another slashdash

---
 src/v2_parser.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 7539c25..56acbaa 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -543,6 +543,17 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let leading = (node_space0, opt((slashdashed_entries, node_space1)))
         .take()
         .parse_next(input)?;
+    let entry = prop_or_arg.parse_next(input)?;
+    Ok(entry.map(|mut value| {
+        if let Some(fmt) = value.format_mut() {
+            fmt.leading = leading.into();
+        }
+        value
+    }))
+}
+
+/// A [`node_entry`] on its own, without anything leading up to it.
+fn prop_or_arg(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let _start = input.checkpoint();
     let maybe_ident = trace("prop name or string val", opt(identifier)).parse_next(input)?;
     let ident_was_parsed = maybe_ident.is_some();
@@ -590,20 +601,16 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
             .parse_next(input)?
             .flatten()
     };
-    Ok(entry.map(|mut value| {
-        if let Some(fmt) = value.format_mut() {
-            fmt.leading = leading.into();
-        }
-        #[cfg(feature = "span")]
-        {
-            value.span = span_from_checkpoint(input, &_start);
-        }
+    #[cfg(feature = "span")]
+    let entry = entry.map(|mut value| {
+        value.span = span_from_checkpoint(input, &_start);
         value
-    }))
+    });
+    Ok(entry)
 }
 
 fn slashdashed_entries(input: &mut Input<'_>) -> PResult<()> {
-    separated(1.., (slashdash, node_entry), node_space1)
+    separated(1.., (slashdash, prop_or_arg), node_space1)
         .map(|()| ())
         .take()
         .map(|x| x.to_string())
-- 
2.43.0


From d49a1c1599beb1fa9f20d19f633c2fe9a4aab3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 09/52] fix: keep the whitespace between a children block and
 the node terminator

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 56acbaa..a2f1586 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -402,7 +402,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     .parse_next(input)?;
     let (before_terminator, terminator) = if children.is_some() {
         (
-            opt(slashdashed_children).take(),
+            (opt(slashdashed_children), node_space0).take(),
             peek(opt(node_terminator).take()),
         )
             .parse_next(input)?
-- 
2.43.0


From 70fcf191466b7d1e4ffa2ceab7958ac5a4c93d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 10/52] fix: print the whitespace and comments around a node's
 type annotation

---
 src/node.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6b3c75f..e6d40a6 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -277,13 +277,18 @@ impl KdlNode {
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
         if let Some(KdlNodeFormat {
             leading,
+            before_ty_name,
+            after_ty_name,
+            after_ty,
             before_terminator,
             terminator,
             trailing,
             before_children,
-            ..
         }) = self.format_mut()
         {
+            before_ty_name.clear();
+            after_ty_name.clear();
+            after_ty.clear();
             crate::fmt::autoformat_leading(leading, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
@@ -835,7 +840,17 @@ impl KdlNode {
             write!(f, "{:indent$}", "", indent = indent)?;
         }
         if let Some(ty) = &self.ty {
-            write!(f, "({ty})")?;
+            if let Some(KdlNodeFormat {
+                before_ty_name,
+                after_ty_name,
+                after_ty,
+                ..
+            }) = self.format()
+            {
+                write!(f, "({before_ty_name}{ty}{after_ty_name}){after_ty}")?;
+            } else {
+                write!(f, "({ty})")?;
+            }
         }
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
-- 
2.43.0


From 4a20c62beaf5813c18843257fe215eb0e13ea851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 11/52] fix: remove a property by its name, however the name is
 written

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index e6d40a6..6b7f6f4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -705,7 +705,7 @@ impl KdlNode {
         match key {
             NodeKey::Key(key) => {
                 for (idx, entry) in self.entries.iter().enumerate() {
-                    if entry.name.is_some() && entry.name.as_ref() == Some(&key) {
+                    if entry.name.as_ref().map(|name| name.value()) == Some(key.value()) {
                         return Some(self.entries.remove(idx));
                     }
                 }
-- 
2.43.0


From 61feecf226f9ca1bda9fa659f1eed94885755135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 12/52] fix: print strings so that they parse back

Escape the code points that can't appear literally in a quoted string, and
quote strings such as '+.5', which would otherwise be read as numbers.
---
 src/value.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 50853c0..1d2ecd0 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -154,13 +154,10 @@ impl Display for KdlValue {
 }
 
 pub(crate) fn is_plain_ident(ident: &str) -> bool {
-    let ident_bytes = ident.as_bytes();
     ident
         .find(crate::v2_parser::is_disallowed_ident_char)
         .is_none()
-        && ident_bytes.first().map(|c| c.is_ascii_digit()) != Some(true)
-        && !(ident.chars().next().map(|c| matches!(c, '.' | '-' | '+')) == Some(true)
-            && ident_bytes.get(1).map(|c| c.is_ascii_digit()) == Some(true))
+        && !looks_like_number(ident)
         && ident != "inf"
         && ident != "-inf"
         && ident != "nan"
@@ -169,6 +166,14 @@ pub(crate) fn is_plain_ident(ident: &str) -> bool {
         && ident != "null"
 }
 
+/// Whether the text starts the way a number does (`1`, `-1`, `.1`, `+.1`),
+/// which identifiers may not.
+fn looks_like_number(ident: &str) -> bool {
+    let unsigned = ident.strip_prefix(['-', '+']).unwrap_or(ident);
+    let digits = unsigned.strip_prefix('.').unwrap_or(unsigned);
+    digits.starts_with(|c: char| c.is_ascii_digit())
+}
+
 #[cfg(test)]
 #[test]
 fn plain_ident_test() {
@@ -191,6 +196,12 @@ impl KdlValue {
                     '\t' => write!(f, "\\t")?,
                     '\u{08}' => write!(f, "\\b")?,
                     '\u{0C}' => write!(f, "\\f")?,
+                    // Anything that can't appear literally in a quoted string.
+                    _ if crate::v2_parser::is_disallowed_unicode(char)
+                        || matches!(char, '\u{0B}' | '\u{85}' | '\u{2028}' | '\u{2029}') =>
+                    {
+                        write!(f, "\\u{{{:x}}}", char as u32)?
+                    }
                     _ => write!(f, "{char}")?,
                 }
             }
-- 
2.43.0


From 82d025d969d30e75cfaac4d44141536c5508a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 13/52] fix: separate an entry without leading whitespace from
 what precedes it

---
 src/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 6b7f6f4..5b8b656 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -855,7 +855,8 @@ impl KdlNode {
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
         for entry in &self.entries {
-            if entry.format().is_none() {
+            // There has to be whitespace before an entry.
+            if entry.format().is_none_or(|fmt| fmt.leading.is_empty()) {
                 write!(f, " ")?;
             }
             write!(f, "{entry}")?;
-- 
2.43.0


From 31a1ba63ad95245e0fe2d0e404fba335db654a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 14/52] fix: end each node before printing what follows it

---
 src/document.rs | 13 ++++++++-----
 src/node.rs     | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 300f176..bb02e97 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -541,13 +541,16 @@ impl KdlDocument {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
             write!(f, "{leading}")?;
         }
-        for node in &self.nodes {
+        let trailing = self.format().map_or("", |fmt| &fmt.trailing[..]);
+        let mut nodes = self.nodes.iter().peekable();
+        while let Some(node) = nodes.next() {
             node.stringify(f, indent)?;
+            // Only the very last thing in a document can go unterminated.
+            if !node.is_terminated() && (nodes.peek().is_some() || !trailing.is_empty()) {
+                writeln!(f)?;
+            }
         }
-        if let Some(KdlDocumentFormat { trailing, .. }) = self.format() {
-            write!(f, "{trailing}")?;
-        }
-        Ok(())
+        write!(f, "{trailing}")
     }
 }
 
diff --git a/src/node.rs b/src/node.rs
index 5b8b656..8cf90b0 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -829,6 +829,36 @@ impl Display for KdlNode {
 }
 
 impl KdlNode {
+    /// Whether this node's formatting ends it, such that another node can
+    /// follow.
+    pub(crate) fn is_terminated(&self) -> bool {
+        fn is_newline(c: char) -> bool {
+            v2_parser::NEWLINES.iter().any(|nl| nl.contains(c))
+        }
+        self.format().is_some_and(|fmt| {
+            let terminator = if fmt.terminator.is_empty() {
+                fmt.trailing.trim_start_matches([' ', '\t'])
+            } else {
+                &fmt.terminator
+            };
+            terminator.starts_with(|c| c == ';' || is_newline(c))
+                || fmt.terminator.ends_with(is_newline)
+        })
+    }
+
+    /// Whether this node ends in something that reaches all the way to the end
+    /// of the line, but that line was never ended.
+    fn is_open_ended(&self) -> bool {
+        !self.is_terminated()
+            && self.format().is_some_and(|fmt| {
+                fmt.terminator.starts_with("//")
+                    || fmt
+                        .before_terminator
+                        .trim_end_matches([' ', '\t'])
+                        .ends_with('\\')
+            })
+    }
+
     pub(crate) fn stringify(
         &self,
         f: &mut std::fmt::Formatter<'_>,
@@ -876,6 +906,12 @@ impl KdlNode {
                 writeln!(f)?;
             }
             children.stringify(f, indent + 4)?;
+            // The closing `}` must not become a part of the last node.
+            if children.nodes().last().is_some_and(|node| {
+                node.is_open_ended() || children.format().is_none() && !node.is_terminated()
+            }) {
+                writeln!(f)?;
+            }
             if children.format().is_none() {
                 write!(f, "{:indent$}", "", indent = indent)?;
             }
-- 
2.43.0


From 08862d8fe87ceae8b6880ed6341fa65d966a1b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 15/52] fix: put children after any slashdashed entries of a
 node that had none

---
 src/node.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 8cf90b0..3a77e02 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -229,6 +229,7 @@ impl KdlNode {
 
     /// Sets the KdlDocument representing this node's children.
     pub fn set_children(&mut self, children: KdlDocument) {
+        self.make_room_for_children();
         self.children = Some(children);
     }
 
@@ -241,11 +242,23 @@ impl KdlNode {
     /// creating one first if one does not already exist.
     pub fn ensure_children(&mut self) -> &mut KdlDocument {
         if self.children.is_none() {
+            self.make_room_for_children();
             self.children = Some(KdlDocument::new());
         }
         self.children_mut().as_mut().unwrap()
     }
 
+    /// What comes before the terminator of a node without children may include
+    /// slashdashed entries, which can't come after a children block.
+    fn make_room_for_children(&mut self) {
+        if self.children.is_none()
+            && let Some(fmt) = self.format.as_mut()
+        {
+            let after_entries = std::mem::take(&mut fmt.before_terminator);
+            fmt.before_children.push_str(&after_entries);
+        }
+    }
+
     /// Gets the formatting details (including whitespace and comments) for this node.
     pub fn format(&self) -> Option<&KdlNodeFormat> {
         self.format.as_ref()
-- 
2.43.0


From d59de5cb9cbc6642adc8d1c44b01778117081e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 16/52] fix: end each node before printing what follows it

---
 src/document.rs  |  9 +++++--
 src/fmt.rs       | 10 ++++++++
 src/node.rs      | 61 ++++++++++++++++++++++++++++++++----------------
 src/v2_parser.rs |  4 ++++
 4 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index bb02e97..85d8661 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -540,14 +540,19 @@ impl KdlDocument {
     ) -> std::fmt::Result {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
             write!(f, "{leading}")?;
+            // A document without nodes can be all comments, which must not
+            // affect any nodes added since.
+            if !self.nodes.is_empty() && crate::fmt::is_open_ended(leading) {
+                writeln!(f)?;
+            }
         }
         let trailing = self.format().map_or("", |fmt| &fmt.trailing[..]);
         let mut nodes = self.nodes.iter().peekable();
         while let Some(node) = nodes.next() {
             node.stringify(f, indent)?;
             // Only the very last thing in a document can go unterminated.
-            if !node.is_terminated() && (nodes.peek().is_some() || !trailing.is_empty()) {
-                writeln!(f)?;
+            if nodes.peek().is_some() || !trailing.is_empty() {
+                node.terminate(f)?;
             }
         }
         write!(f, "{trailing}")
diff --git a/src/fmt.rs b/src/fmt.rs
index 238fb75..9b1d9fa 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -150,6 +150,16 @@ pub(crate) fn autoformat_trailing(decor: &mut String, no_comments: bool) {
     *decor = result;
 }
 
+/// Whether there might be something at the end of this whitespace and comments
+/// that would affect whatever is written right after it on the same line.
+pub(crate) fn is_open_ended(decor: &str) -> bool {
+    let last_line = decor
+        .rsplit(crate::v2_parser::is_newline_char)
+        .next()
+        .unwrap_or_default();
+    !last_line.trim().is_empty() && ["//", "/-", "\\"].iter().any(|x| decor.contains(x))
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/node.rs b/src/node.rs
index 3a77e02..ee2dd42 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -845,31 +845,52 @@ impl KdlNode {
     /// Whether this node's formatting ends it, such that another node can
     /// follow.
     pub(crate) fn is_terminated(&self) -> bool {
-        fn is_newline(c: char) -> bool {
-            v2_parser::NEWLINES.iter().any(|nl| nl.contains(c))
-        }
         self.format().is_some_and(|fmt| {
             let terminator = if fmt.terminator.is_empty() {
                 fmt.trailing.trim_start_matches([' ', '\t'])
             } else {
                 &fmt.terminator
             };
-            terminator.starts_with(|c| c == ';' || is_newline(c))
-                || fmt.terminator.ends_with(is_newline)
+            (terminator.starts_with(|c| c == ';' || v2_parser::is_newline_char(c))
+                || fmt.terminator.ends_with(v2_parser::is_newline_char))
+                && !crate::fmt::is_open_ended(&fmt.trailing)
         })
     }
 
-    /// Whether this node ends in something that reaches all the way to the end
-    /// of the line, but that line was never ended.
-    fn is_open_ended(&self) -> bool {
-        !self.is_terminated()
-            && self.format().is_some_and(|fmt| {
-                fmt.terminator.starts_with("//")
-                    || fmt
-                        .before_terminator
-                        .trim_end_matches([' ', '\t'])
-                        .ends_with('\\')
-            })
+    /// Whether this node is one that ended along with the text it was parsed
+    /// from, while still in a single-line comment or line continuation.
+    pub(crate) fn is_open_ended(&self) -> bool {
+        self.format().is_some_and(|fmt| {
+            fmt.terminator.starts_with("//")
+                && !fmt.terminator.ends_with(v2_parser::is_newline_char)
+                || crate::fmt::is_open_ended(&fmt.trailing)
+        }) || self.is_continued()
+    }
+
+    /// Whether this node ends in a line continuation without a next line.
+    fn is_continued(&self) -> bool {
+        self.format().is_some_and(|fmt| {
+            let after_escline = fmt
+                .before_terminator
+                .rsplit_once('\\')
+                .map(|(_, rest)| rest.trim_matches([' ', '\t']));
+            fmt.terminator.is_empty()
+                && after_escline.is_some_and(|rest| {
+                    rest.is_empty()
+                        || rest.starts_with("//") && !rest.contains(v2_parser::is_newline_char)
+                })
+        })
+    }
+
+    /// Ends this node, if its formatting doesn't already.
+    pub(crate) fn terminate(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        if !self.is_terminated() {
+            writeln!(f)?;
+            if self.is_continued() {
+                writeln!(f)?;
+            }
+        }
+        Ok(())
     }
 
     pub(crate) fn stringify(
@@ -920,10 +941,10 @@ impl KdlNode {
             }
             children.stringify(f, indent + 4)?;
             // The closing `}` must not become a part of the last node.
-            if children.nodes().last().is_some_and(|node| {
-                node.is_open_ended() || children.format().is_none() && !node.is_terminated()
-            }) {
-                writeln!(f)?;
+            if let Some(last) = children.nodes().last()
+                && (children.format().is_none() || last.is_open_ended())
+            {
+                last.terminate(f)?;
             }
             if children.format().is_none() {
                 write!(f, "{:indent$}", "", indent = indent)?;
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index a2f1586..8658a8b 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1643,6 +1643,10 @@ pub(crate) static NEWLINES: [&str; 8] = [
     "\u{2029}",
 ];
 
+pub(crate) fn is_newline_char(c: char) -> bool {
+    NEWLINES.iter().any(|nl| nl.contains(c))
+}
+
 /// `newline := <See Table>`
 fn newline(input: &mut Input<'_>) -> PResult<()> {
     alt(NEWLINES)
-- 
2.43.0


From b91769d267bc1d28ccdd1c3146443864769d8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 17/52] fix: keep comments, and what they comment out, intact
 when autoformatting

Comments at the end of a node's line were dropped, slashdashed text was
re-indented from the inside (which can break multi-line strings), and line
continuations were left dangling.
---
 src/document.rs  | 13 ++++-------
 src/fmt.rs       | 60 ++++++++++++++++++++++++++----------------------
 src/node.rs      | 29 +++++++++++------------
 src/v2_parser.rs | 31 +++++++++++++++++++++++++
 4 files changed, 83 insertions(+), 50 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 85d8661..9072917 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -251,17 +251,14 @@ impl KdlDocument {
 
     /// Formats the document according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
-        if let Some(KdlDocumentFormat { leading, .. }) = (*self).format_mut() {
-            crate::fmt::autoformat_leading(leading, config);
-        }
-        let mut has_nodes = false;
         for node in &mut self.nodes {
-            has_nodes = true;
             node.autoformat_config(config);
         }
-        if let Some(KdlDocumentFormat { trailing, .. }) = (*self).format_mut() {
-            crate::fmt::autoformat_trailing(trailing, config.no_comments);
-            if !has_nodes {
+        let has_nodes = !self.nodes.is_empty();
+        if let Some(KdlDocumentFormat { leading, trailing }) = (*self).format_mut() {
+            crate::fmt::autoformat_lines(leading, config);
+            crate::fmt::autoformat_lines(trailing, config);
+            if !has_nodes && leading.is_empty() && trailing.is_empty() {
                 trailing.push('\n');
             }
         };
diff --git a/src/fmt.rs b/src/fmt.rs
index 9b1d9fa..5965fd6 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -1,5 +1,7 @@
 use std::fmt::Write as _;
 
+use crate::v2_parser;
+
 /// Formatting configuration for use with [`KdlDocument::autoformat_config`](`crate::KdlDocument::autoformat_config`)
 /// and [`KdlNode::autoformat_config`](`crate::KdlNode::autoformat_config`).
 #[non_exhaustive]
@@ -111,50 +113,54 @@ impl<'a> FormatConfigBuilder<'a> {
     }
 }
 
-pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>) {
+/// Auto-formats the whitespace and comments around nodes, putting each comment on
+/// lines of its own.
+pub(crate) fn autoformat_lines(decor: &mut String, config: &FormatConfig<'_>) {
     let mut result = String::new();
     if !config.no_comments {
-        let input = leading.trim();
-        if !input.is_empty() {
-            for line in input.lines() {
-                let trimmed = line.trim();
-                if !trimmed.is_empty() {
-                    for _ in 0..config.indent_level {
-                        result.push_str(config.indent);
-                    }
-                    writeln!(result, "{trimmed}").unwrap();
-                }
+        let comments = v2_parser::try_parse(v2_parser::comments, decor).unwrap_or_else(|_| {
+            let lines = decor.lines().map(str::trim);
+            lines.filter(|x| !x.is_empty()).map(Into::into).collect()
+        });
+        for comment in comments {
+            autoformat_indent(&mut result, config);
+            if comment.starts_with("//") {
+                result.push_str(comment.trim_end());
+            } else {
+                result.push_str(&comment);
+            }
+            if !result.ends_with(v2_parser::is_newline_char) {
+                result.push('\n');
             }
         }
     }
-    for _ in 0..config.indent_level {
-        result.push_str(config.indent);
-    }
-    *leading = result;
+    *decor = result;
 }
 
-pub(crate) fn autoformat_trailing(decor: &mut String, no_comments: bool) {
-    if decor.is_empty() {
-        return;
-    }
-    *decor = decor.trim().to_string();
+/// Auto-formats the whitespace and comments between a node and its terminator.
+pub(crate) fn autoformat_before_terminator(decor: &mut String, no_comments: bool) {
     let mut result = String::new();
-    if !decor.is_empty() && !no_comments {
-        if decor.trim_start() == &decor[..] {
-            write!(result, " ").unwrap();
-        }
-        for comment in decor.lines() {
-            writeln!(result, "{comment}").unwrap();
+    if !no_comments {
+        let comments = v2_parser::try_parse(v2_parser::node_comments, decor)
+            .unwrap_or_else(|_| vec![decor.trim().to_string()]);
+        for comment in comments.iter().filter(|x| !x.is_empty()) {
+            write!(result, " {comment}").unwrap();
         }
     }
     *decor = result;
 }
 
+pub(crate) fn autoformat_indent(decor: &mut String, config: &FormatConfig<'_>) {
+    for _ in 0..config.indent_level {
+        decor.push_str(config.indent);
+    }
+}
+
 /// Whether there might be something at the end of this whitespace and comments
 /// that would affect whatever is written right after it on the same line.
 pub(crate) fn is_open_ended(decor: &str) -> bool {
     let last_line = decor
-        .rsplit(crate::v2_parser::is_newline_char)
+        .rsplit(v2_parser::is_newline_char)
         .next()
         .unwrap_or_default();
     !last_line.trim().is_empty() && ["//", "/-", "\\"].iter().any(|x| decor.contains(x))
diff --git a/src/node.rs b/src/node.rs
index ee2dd42..07665d9 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -302,22 +302,24 @@ impl KdlNode {
             before_ty_name.clear();
             after_ty_name.clear();
             after_ty.clear();
-            crate::fmt::autoformat_leading(leading, config);
-            crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
-            crate::fmt::autoformat_trailing(trailing, config.no_comments);
-            *trailing = trailing.trim().into();
-            if !terminator.starts_with('\n') {
+            crate::fmt::autoformat_lines(leading, config);
+            crate::fmt::autoformat_indent(leading, config);
+            crate::fmt::autoformat_before_terminator(before_terminator, config.no_comments);
+            if terminator.starts_with("//") && !config.no_comments {
+                *terminator = format!("{}\n", terminator.trim_end());
+                before_terminator.push(' ');
+            } else {
                 *terminator = "\n".into();
             }
-            if let Some(c) = trailing.chars().next()
-                && !c.is_whitespace()
-            {
-                trailing.insert(0, ' ');
-            }
+            crate::fmt::autoformat_lines(trailing, config);
 
             *before_children = " ".into();
         } else {
+            let mut leading = String::new();
+            crate::fmt::autoformat_indent(&mut leading, config);
             self.set_format(KdlNodeFormat {
+                leading,
+                before_children: " ".into(),
                 terminator: "\n".into(),
                 ..Default::default()
             })
@@ -338,11 +340,8 @@ impl KdlNode {
                 ..*config
             });
             if let Some(KdlDocumentFormat { leading, trailing }) = children.format_mut() {
-                *leading = leading.trim().into();
-                leading.push('\n');
-                for _ in 0..config.indent_level {
-                    trailing.push_str(config.indent);
-                }
+                leading.insert(0, '\n');
+                crate::fmt::autoformat_indent(trailing, config);
             }
         }
     }
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 8658a8b..670bd4c 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -714,6 +714,37 @@ fn entry_test() {
     );
 }
 
+/// The individual comments, including slashdashed nodes, that surround nodes.
+pub(crate) fn comments(input: &mut Input<'_>) -> PResult<Vec<String>> {
+    comments_with(slashdashed_node, input)
+}
+
+/// The individual comments, including slashdashed entries and children, that
+/// come between a node and its terminator.
+pub(crate) fn node_comments(input: &mut Input<'_>) -> PResult<Vec<String>> {
+    let skipped = alt((prop_or_arg.void(), node_children.void()));
+    comments_with((slashdash, skipped), input)
+}
+
+fn comments_with<'a, T>(
+    slashdashed: impl ModalParser<Input<'a>, T, KdlParseError>,
+    input: &mut Input<'a>,
+) -> PResult<Vec<String>> {
+    repeat(
+        0..,
+        alt((
+            // Comments on a continued line are gone once the lines are joined.
+            escline.value(None),
+            alt((slashdashed.void(), multi_line_comment, single_line_comment))
+                .take()
+                .map(|comment| Some(comment.to_string())),
+            alt((unicode_space, newline, bom)).value(None),
+        )),
+    )
+    .map(|comments: Vec<Option<String>>| comments.into_iter().flatten().collect())
+    .parse_next(input)
+}
+
 fn before_node_children(input: &mut Input<'_>) -> PResult<()> {
     alt((
         (
-- 
2.43.0


From f832fb0607fb00c6fa29bb42ede26592dc45e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 18/52] fix: end a line continuation before printing another
 node

---
 src/document.rs |  2 +-
 src/fmt.rs      | 19 ++++++++++++++++---
 src/node.rs     | 14 ++++++++------
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 9072917..d7ec7dd 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -540,7 +540,7 @@ impl KdlDocument {
             // A document without nodes can be all comments, which must not
             // affect any nodes added since.
             if !self.nodes.is_empty() && crate::fmt::is_open_ended(leading) {
-                writeln!(f)?;
+                crate::fmt::end_line(leading, f)?;
             }
         }
         let trailing = self.format().map_or("", |fmt| &fmt.trailing[..]);
diff --git a/src/fmt.rs b/src/fmt.rs
index 5965fd6..2c3a996 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -159,11 +159,24 @@ pub(crate) fn autoformat_indent(decor: &mut String, config: &FormatConfig<'_>) {
 /// Whether there might be something at the end of this whitespace and comments
 /// that would affect whatever is written right after it on the same line.
 pub(crate) fn is_open_ended(decor: &str) -> bool {
-    let last_line = decor
+    let last_line = last_line(decor);
+    !last_line.trim().is_empty() && ["//", "/-", "\\"].iter().any(|x| decor.contains(x))
+}
+
+/// Ends the line that this whitespace and comments left open.
+pub(crate) fn end_line(decor: &str, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+    if last_line(decor).contains('\\') {
+        // The first newline only ends the line continuation.
+        writeln!(f)?;
+    }
+    writeln!(f)
+}
+
+fn last_line(decor: &str) -> &str {
+    decor
         .rsplit(v2_parser::is_newline_char)
         .next()
-        .unwrap_or_default();
-    !last_line.trim().is_empty() && ["//", "/-", "\\"].iter().any(|x| decor.contains(x))
+        .unwrap_or_default()
 }
 
 #[cfg(test)]
diff --git a/src/node.rs b/src/node.rs
index 07665d9..4a7ac2d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -863,7 +863,8 @@ impl KdlNode {
             fmt.terminator.starts_with("//")
                 && !fmt.terminator.ends_with(v2_parser::is_newline_char)
                 || crate::fmt::is_open_ended(&fmt.trailing)
-        }) || self.is_continued()
+                || self.is_continued()
+        })
     }
 
     /// Whether this node ends in a line continuation without a next line.
@@ -883,13 +884,14 @@ impl KdlNode {
 
     /// Ends this node, if its formatting doesn't already.
     pub(crate) fn terminate(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        if !self.is_terminated() {
+        if self.is_terminated() {
+            return Ok(());
+        }
+        if self.is_continued() {
+            // The first newline only ends the line continuation.
             writeln!(f)?;
-            if self.is_continued() {
-                writeln!(f)?;
-            }
         }
-        Ok(())
+        crate::fmt::end_line(self.format().map_or("", |fmt| &fmt.trailing), f)
     }
 
     pub(crate) fn stringify(
-- 
2.43.0


From bf7b4c076bd5ae9377986b27d21c3dcc366af90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 19/52] fix: end a line continuation before printing another
 node

---
 src/fmt.rs  |  8 ++++----
 src/node.rs | 15 ++++++++++-----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 2c3a996..921b657 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -157,15 +157,15 @@ pub(crate) fn autoformat_indent(decor: &mut String, config: &FormatConfig<'_>) {
 }
 
 /// Whether there might be something at the end of this whitespace and comments
-/// that would affect whatever is written right after it on the same line.
+/// that would affect whatever is written right after it.
 pub(crate) fn is_open_ended(decor: &str) -> bool {
-    let last_line = last_line(decor);
-    !last_line.trim().is_empty() && ["//", "/-", "\\"].iter().any(|x| decor.contains(x))
+    !last_line(decor).trim().is_empty() && ["//", "/-", "\\"].iter().any(|x| decor.contains(x))
+        || decor.trim_end().ends_with('\\')
 }
 
 /// Ends the line that this whitespace and comments left open.
 pub(crate) fn end_line(decor: &str, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-    if last_line(decor).contains('\\') {
+    if last_line(decor).contains('\\') || decor.ends_with('\r') {
         // The first newline only ends the line continuation.
         writeln!(f)?;
     }
diff --git a/src/node.rs b/src/node.rs
index 4a7ac2d..361d104 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -887,11 +887,16 @@ impl KdlNode {
         if self.is_terminated() {
             return Ok(());
         }
-        if self.is_continued() {
-            // The first newline only ends the line continuation.
-            writeln!(f)?;
-        }
-        crate::fmt::end_line(self.format().map_or("", |fmt| &fmt.trailing), f)
+        let decor = self.format().map(|fmt| {
+            let KdlNodeFormat {
+                before_terminator,
+                terminator,
+                trailing,
+                ..
+            } = fmt;
+            format!("{before_terminator}{terminator}{trailing}")
+        });
+        crate::fmt::end_line(&decor.unwrap_or_default(), f)
     }
 
     pub(crate) fn stringify(
-- 
2.43.0


From 7ecc5e0048c2b5a19d388f68eba6697c58aa49c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 20/52] fix: end a line continuation before printing another
 node

---
 src/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index d7ec7dd..ea5ab8a 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -539,8 +539,12 @@ impl KdlDocument {
             write!(f, "{leading}")?;
             // A document without nodes can be all comments, which must not
             // affect any nodes added since.
-            if !self.nodes.is_empty() && crate::fmt::is_open_ended(leading) {
-                crate::fmt::end_line(leading, f)?;
+            if !self.nodes.is_empty()
+                && (crate::fmt::is_open_ended(leading)
+                    || leading.contains("/-") && leading.contains('\\'))
+            {
+                // The first newline might only end a line continuation.
+                write!(f, "\n\n")?;
             }
         }
         let trailing = self.format().map_or("", |fmt| &fmt.trailing[..]);
-- 
2.43.0


From 61517ddbfd71532d20b8e9ad6f8b1d10b0f957fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 21/52] fix: don't recurse for every asterisk and slash of a
 comment

---
 src/v2_parser.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 670bd4c..40c6c8e 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1732,19 +1732,19 @@ fn multi_line_comment(input: &mut Input<'_>) -> PResult<()> {
 
 /// `commented-block := '*/' | (multi-line-comment | '*' | '/' | [^*/]+) commented-block`
 fn commented_block(input: &mut Input<'_>) -> PResult<()> {
-    alt((
-        "*/".void(),
-        preceded(
-            alt((
-                multi_line_comment,
-                "*".void(),
-                "/".void(),
-                repeat(1.., none_of(['*', '/'])).map(|()| ()),
-            )),
-            commented_block,
-        ),
-    ))
-    .parse_next(input)
+    // Not recursive: there's no limit to how long or deeply nested comments are.
+    let mut depth = 1usize;
+    while depth > 0 {
+        let (opened, closed) = alt((
+            "*/".value((0, 1)),
+            "/*".value((1, 0)),
+            one_of(['*', '/']).value((0, 0)),
+            take_while(1.., |c| !matches!(c, '*' | '/')).value((0, 0)),
+        ))
+        .parse_next(input)?;
+        depth = depth + opened - closed;
+    }
+    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 82d32d66704850dd05e900c0e0a6769408fac52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 22/52] fix: parse slashdashed children once rather than twice
 per level

---
 src/v2_parser.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 40c6c8e..833a4da 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -395,29 +395,20 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     )
     .map(|e: Vec<Option<KdlEntry>>| e.into_iter().flatten().collect::<Vec<KdlEntry>>())
     .parse_next(input)?;
-    let children = opt((
-        before_node_children.take(),
-        trace("node children", node_children),
-    ))
-    .parse_next(input)?;
-    let (before_terminator, terminator) = if children.is_some() {
-        (
-            (opt(slashdashed_children), node_space0).take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+    // Slashdashed children are only gone over once here, because they can nest.
+    let after_entries = before_node_children.take().parse_next(input)?;
+    let children = opt(trace("node children", node_children)).parse_next(input)?;
+    let (before_children, before_terminator) = if children.is_some() {
+        let before_terminator = (opt(slashdashed_children), node_space0)
+            .take()
+            .parse_next(input)?;
+        (after_entries, before_terminator)
     } else {
-        (
-            before_node_children.take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+        ("", after_entries)
     };
+    let terminator = peek(opt(node_terminator).take()).parse_next(input)?;
     node_space0.parse_next(input)?;
     let (before_inner_ty, ty, after_inner_ty) = ty.unwrap_or_default();
-    let (before_children, children) = children
-        .map(|(before_children, children)| (before_children.into(), Some(children)))
-        .unwrap_or(("".into(), None));
     Ok(KdlNode {
         ty,
         name,
@@ -427,7 +418,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
             before_ty_name: before_inner_ty.into(),
             after_ty_name: after_inner_ty.into(),
             after_ty: after_ty.into(),
-            before_children,
+            before_children: before_children.into(),
             before_terminator: before_terminator.into(),
             terminator: terminator.into(),
             ..Default::default()
-- 
2.43.0


From d81e3735be00889aeb09c5009514898abb4dc430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 23/52] fix: don't recurse for every piece of junk after the
 end of a document

---
 src/v2_parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 833a4da..411a09f 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -246,14 +246,15 @@ fn new_input(s: &str) -> Input<'_> {
 pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
     let bom = opt(bom.take()).parse_next(input)?;
     let mut doc = nodes.parse_next(input)?;
-    let badend = resume_after_cut(
+    while resume_after_cut(
         cut_err(eof).context(cx().lbl("EOF").msg("Expected end of document")),
         any.void(),
     )
     .parse_next(input)?
-    .is_none();
-    if badend {
-        document.parse_next(input)?;
+    .is_none()
+    {
+        // Whatever this finds isn't part of the document, but may have errors.
+        (opt(self::bom), nodes).parse_next(input)?;
     }
     if let Some(bom) = bom
         && let Some(fmt) = doc.format_mut()
-- 
2.43.0


From cb7f99a283f908aec1a2f0aee6e1d0aa7a175d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:01 +0000
Subject: [PATCH 24/52] fix: honour v1-fallback in KdlNode's FromStr, as in
 KdlNode::parse

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 361d104..cd1e364 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -830,7 +830,7 @@ impl FromStr for KdlNode {
     type Err = KdlError;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
-        v2_parser::try_parse(v2_parser::padded_node, input)
+        Self::parse(input)
     }
 }
 
-- 
2.43.0


From a64728a96815e1abe47dda79a842b601165d6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 25/52] fix: report a slashdashed node without a terminator
 instead of backtracking

---
 src/v2_parser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 411a09f..d0a708c 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -329,13 +329,18 @@ fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
 
 /// A whole node commented out with `/-`, along with its terminator.
 fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
-    (
-        slashdash,
-        base_node,
-        alt((node_terminator, peek("}").void(), eof.void())),
+    (slashdash, base_node).parse_next(input)?;
+    // Backtracking over what can nest would take exponential time, so a
+    // missing terminator is only reported here.
+    resume_after_cut(
+        cut_err(alt((node_terminator, peek("}").void(), eof.void()))).context(
+            cx().msg("Expected the end of a slashdashed node")
+                .lbl("node terminator"),
+        ),
+        empty,
     )
-        .void()
-        .parse_next(input)
+    .void()
+    .parse_next(input)
 }
 
 fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
-- 
2.43.0


From c9d1311a4d1a780335a4195b7713ec3bbae71cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 26/52] fix: keep an entry's keep_format flag across autoformat

---
 src/entry.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entry.rs b/src/entry.rs
index 93fcef4..8633f87 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -186,6 +186,7 @@ impl KdlEntry {
             self.format = self.format.take().map(|f| KdlEntryFormat {
                 value_repr: f.value_repr,
                 leading: f.leading,
+                autoformat_keep: f.autoformat_keep,
                 ..Default::default()
             });
         }
-- 
2.43.0


From c0fd11510c8f0adc44d7f66556efbd8792eb8280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 27/52] fix: clear the node's type annotation in
 clear_format_recursive

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index cd1e364..b37b2d4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -140,6 +140,9 @@ impl KdlNode {
     /// children formatting will also be cleared.
     pub fn clear_format_recursive(&mut self) {
         self.clear_format();
+        if let Some(ty) = &mut self.ty {
+            ty.clear_format();
+        }
         self.name.clear_format();
         if let Some(children) = &mut self.children {
             children.clear_format_recursive();
-- 
2.43.0


From ac1045996b0bf2bc1bafd957130ece5cde8b8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 28/52] fix: order KdlValue floats consistently with their
 equality

---
 src/value.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/value.rs b/src/value.rs
index 1d2ecd0..5e3b9ff 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -1,7 +1,7 @@
 use std::fmt::Display;
 
 /// A specific [KDL Value](https://github.com/kdl-org/kdl/blob/main/SPEC.md#value).
-#[derive(Debug, Clone, PartialOrd)]
+#[derive(Debug, Clone)]
 pub enum KdlValue {
     /// A [KDL String](https://github.com/kdl-org/kdl/blob/main/SPEC.md#string).
     String(String),
@@ -45,6 +45,31 @@ impl PartialEq for KdlValue {
     }
 }
 
+impl PartialOrd for KdlValue {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        // Values of different kinds are ordered by kind.
+        fn rank(value: &KdlValue) -> u8 {
+            match value {
+                KdlValue::String(_) => 0,
+                KdlValue::Integer(_) => 1,
+                KdlValue::Float(_) => 2,
+                KdlValue::Bool(_) => 3,
+                KdlValue::Null => 4,
+            }
+        }
+        match (self, other) {
+            (Self::String(l0), Self::String(r0)) => l0.partial_cmp(r0),
+            (Self::Integer(l0), Self::Integer(r0)) => l0.partial_cmp(r0),
+            // Has to agree with `PartialEq`.
+            (Self::Float(l0), Self::Float(r0)) => {
+                normalize_float(l0).partial_cmp(&normalize_float(r0))
+            }
+            (Self::Bool(l0), Self::Bool(r0)) => l0.partial_cmp(r0),
+            _ => rank(self).partial_cmp(&rank(other)),
+        }
+    }
+}
+
 // NOTE: I know, I know. This is terrible and I shouldn't do it, but it's
 // better than not being able to hash KdlValue at all.
 impl std::hash::Hash for KdlValue {
-- 
2.43.0


From aa8cb4dd9e6fc4798775359778d1f348dac766bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 29/52] fix: keep comments after line continuations, and what
 ends in one stable, in autoformat

---
 src/fmt.rs       | 22 ++++++++++++++++------
 src/v2_parser.rs | 12 ++++++++----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 921b657..cb5aff7 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -124,19 +124,29 @@ pub(crate) fn autoformat_lines(decor: &mut String, config: &FormatConfig<'_>) {
         });
         for comment in comments {
             autoformat_indent(&mut result, config);
-            if comment.starts_with("//") {
-                result.push_str(comment.trim_end());
-            } else {
-                result.push_str(&comment);
+            let mut comment = match comment.strip_prefix("//") {
+                Some(_) => comment.trim_end().to_string(),
+                None => comment,
+            };
+            if !comment.ends_with(v2_parser::is_newline_char) {
+                comment.push('\n');
             }
-            if !result.ends_with(v2_parser::is_newline_char) {
-                result.push('\n');
+            while ends_in_continued_line(&comment) {
+                comment.push('\n');
             }
+            result.push_str(&comment);
         }
     }
     *decor = result;
 }
 
+/// Whether this slashdashed node's last newline ends a line continuation
+/// instead of the node itself.
+fn ends_in_continued_line(comment: &str) -> bool {
+    comment.contains('\\')
+        && v2_parser::try_parse(v2_parser::slashdashed_node, &format!("{comment}\n")).is_ok()
+}
+
 /// Auto-formats the whitespace and comments between a node and its terminator.
 pub(crate) fn autoformat_before_terminator(decor: &mut String, no_comments: bool) {
     let mut result = String::new();
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index d0a708c..e07a07f 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -328,7 +328,7 @@ fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
 }
 
 /// A whole node commented out with `/-`, along with its terminator.
-fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
+pub(crate) fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
     (slashdash, base_node).parse_next(input)?;
     // Backtracking over what can nest would take exponential time, so a
     // missing terminator is only reported here.
@@ -731,7 +731,7 @@ fn comments_with<'a, T>(
         0..,
         alt((
             // Comments on a continued line are gone once the lines are joined.
-            escline.value(None),
+            continued_line.value(None),
             alt((slashdashed.void(), multi_line_comment, single_line_comment))
                 .take()
                 .map(|comment| Some(comment.to_string())),
@@ -1647,10 +1647,14 @@ fn disallowed_unicode(input: &mut Input<'_>) -> PResult<()> {
 
 /// `escline := '\\' ws* (single-line-comment | newline | eof)`
 fn escline(input: &mut Input<'_>) -> PResult<()> {
+    continued_line.parse_next(input)?;
+    wss.parse_next(input)
+}
+
+fn continued_line(input: &mut Input<'_>) -> PResult<()> {
     "\\".parse_next(input)?;
     wss.parse_next(input)?;
-    alt((single_line_comment, newline, eof.void())).parse_next(input)?;
-    wss.parse_next(input)
+    alt((single_line_comment, newline, eof.void())).parse_next(input)
 }
 
 #[cfg(test)]
-- 
2.43.0


From d9af467662fd8bfd3969fcdd8029f7e293d4472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 30/52] fix: only keep an entry's representation in ensure_v2
 if it means the same in v2

---
 src/entry.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 8633f87..028b376 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -270,6 +270,23 @@ impl KdlEntry {
             }
         });
 
+        // None of this is exact. If the result isn't the same value in v2, give
+        // up on keeping its representation.
+        let value_repr = value_repr.map(|repr| {
+            let reparsed = v2_parser::try_parse(v2_parser::padded_node_entry, &repr);
+            match reparsed {
+                Ok(entry) if entry.is_just(&self.value) => repr,
+                _ => self.value.to_string(),
+            }
+        });
+
+        if let Some(ty) = &mut self.ty {
+            ty.clear_format();
+        }
+        if let Some(name) = &mut self.name {
+            name.clear_format();
+        }
+
         if let Some(value_repr) = value_repr.as_ref() {
             self.format = Some(
                 self.format
@@ -287,6 +304,17 @@ impl KdlEntry {
         }
     }
 
+    /// Whether this entry is an argument with this value, and nothing else.
+    fn is_just(&self, value: &KdlValue) -> bool {
+        self.name.is_none()
+            && self.ty.is_none()
+            && &self.value == value
+            && self
+                .format
+                .as_ref()
+                .is_none_or(|x| x.leading.trim().is_empty() && x.trailing.is_empty())
+    }
+
     /// Makes sure this entry is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-- 
2.43.0


From 13d176ebd278380fb40d101502fca14cea2404d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 31/52] fix: keep node endings, comments and disallowed
 characters intact when converting from KDL v1

The conversion removed every ';' and one newline from what follows a node,
even inside comments and line continuations, and kept characters that are
whitespace or allowed in comments in v1, but not in v2.
---
 src/document.rs  |  4 +--
 src/entry.rs     |  4 +--
 src/fmt.rs       | 67 ++++++++++++++++++++++++++++++++++++++++++++++++
 src/node.rs      | 36 +++++---------------------
 src/v2_parser.rs |  5 ++++
 5 files changed, 82 insertions(+), 34 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index ea5ab8a..24d3b8b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -457,8 +457,8 @@ impl From<kdlv1::KdlDocument> for KdlDocument {
         Self {
             nodes: value.nodes().iter().map(|x| x.clone().into()).collect(),
             format: Some(KdlDocumentFormat {
-                leading: value.leading().unwrap_or("").into(),
-                trailing: value.trailing().unwrap_or("").into(),
+                leading: crate::fmt::from_v1(value.leading()),
+                trailing: crate::fmt::from_v1(value.trailing()),
             }),
             #[cfg(feature = "span")]
             span: SourceSpan::new(value.span().offset().into(), value.span().len()),
diff --git a/src/entry.rs b/src/entry.rs
index 028b376..5dc148d 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -420,8 +420,8 @@ impl From<kdlv1::KdlEntry> for KdlEntry {
             name: value.name().map(|x| x.clone().into()),
             format: Some(KdlEntryFormat {
                 value_repr: value.value_repr().unwrap_or("").into(),
-                leading: value.leading().unwrap_or("").into(),
-                trailing: value.trailing().unwrap_or("").into(),
+                leading: crate::fmt::from_v1(value.leading()),
+                trailing: crate::fmt::from_v1(value.trailing()),
                 ..Default::default()
             }),
             #[cfg(feature = "span")]
diff --git a/src/fmt.rs b/src/fmt.rs
index cb5aff7..766b7b9 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -173,6 +173,73 @@ pub(crate) fn is_open_ended(decor: &str) -> bool {
         || decor.trim_end().ends_with('\\')
 }
 
+/// Replaces the characters that KDL v1 treats as whitespace, or as part of a
+/// comment, but KDL v2 doesn't.
+#[cfg(feature = "v1")]
+pub(crate) fn from_v1(decor: Option<&str>) -> String {
+    decor
+        .unwrap_or_default()
+        .chars()
+        .map(|c| match c {
+            '\u{0B}' => ' ',
+            _ if v2_parser::is_disallowed_unicode(c) => ' ',
+            _ => c,
+        })
+        .collect()
+}
+
+/// Splits what follows a node into the whitespace and comments before its
+/// terminator, the terminator itself, and the rest.
+#[cfg(feature = "v1")]
+pub(crate) fn split_trailing(decor: &str) -> (&str, &str, &str) {
+    let mut rest = skip_ws(decor);
+    while let Some(escline) = rest.strip_prefix('\\') {
+        (_, rest) = split_line(skip_ws(escline));
+        rest = skip_ws(rest);
+    }
+    let before = &decor[..decor.len() - rest.len()];
+    let (terminator, rest) = match rest.strip_prefix(';') {
+        Some(after) => (";", after),
+        None => split_line(rest),
+    };
+    (before, terminator, rest)
+}
+
+/// Skips whitespace and multi-line comments.
+#[cfg(feature = "v1")]
+fn skip_ws(s: &str) -> &str {
+    let mut rest = s.trim_start_matches(v2_parser::is_unicode_space);
+    while rest.starts_with("/*") {
+        let mut depth = 0;
+        while !rest.is_empty() {
+            if let Some(inner) = rest.strip_prefix("/*") {
+                (depth, rest) = (depth + 1, inner);
+            } else if let Some(outer) = rest.strip_prefix("*/") {
+                (depth, rest) = (depth - 1, outer);
+            } else {
+                rest = rest.chars().next().map_or("", |c| &rest[c.len_utf8()..]);
+            }
+            if depth == 0 {
+                break;
+            }
+        }
+        rest = rest.trim_start_matches(v2_parser::is_unicode_space);
+    }
+    rest
+}
+
+/// Splits off the first line, including its newline.
+#[cfg(feature = "v1")]
+fn split_line(s: &str) -> (&str, &str) {
+    let end = s.find(v2_parser::is_newline_char).unwrap_or(s.len());
+    let rest = &s[end..];
+    let newline = match rest.strip_prefix("\r\n") {
+        Some(_) => 2,
+        None => rest.chars().next().map_or(0, char::len_utf8),
+    };
+    s.split_at(end + newline)
+}
+
 /// Ends the line that this whitespace and comments left open.
 pub(crate) fn end_line(decor: &str, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
     if last_line(decor).contains('\\') || decor.ends_with('\r') {
diff --git a/src/node.rs b/src/node.rs
index b37b2d4..b6289be 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -410,46 +410,22 @@ impl KdlNode {
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlNode> for KdlNode {
     fn from(value: kdlv1::KdlNode) -> Self {
-        let terminator = value
-            .trailing()
-            .map(|t| if t.contains(';') { ";" } else { "\n" })
-            .unwrap_or("\n");
-        let trailing = value.trailing().map(|t| {
-            if t.contains(';') {
-                t.replace(';', "")
-            } else {
-                let t = t.replace("\r\n", "\n");
-                let t = t
-                    .chars()
-                    .map(|c| {
-                        if v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) {
-                            '\n'
-                        } else {
-                            c
-                        }
-                    })
-                    .collect::<String>();
-                if terminator == ";" {
-                    t
-                } else {
-                    t.replacen('\n', "", 1)
-                }
-            }
-        });
+        let trailing = crate::fmt::from_v1(value.trailing());
+        let (before_terminator, terminator, trailing) = crate::fmt::split_trailing(&trailing);
         KdlNode {
             ty: value.ty().map(|x| x.clone().into()),
             name: value.name().clone().into(),
             entries: value.entries().iter().map(|x| x.clone().into()).collect(),
             children: value.children().map(|x| x.clone().into()),
             format: Some(KdlNodeFormat {
-                leading: value.leading().unwrap_or("").into(),
+                leading: crate::fmt::from_v1(value.leading()),
                 before_ty_name: "".into(),
                 after_ty_name: "".into(),
                 after_ty: "".into(),
-                before_children: value.before_children().unwrap_or("").into(),
-                before_terminator: "".into(),
+                before_children: crate::fmt::from_v1(value.before_children()),
+                before_terminator: before_terminator.into(),
                 terminator: terminator.into(),
-                trailing: trailing.unwrap_or_else(|| "".into()),
+                trailing: trailing.into(),
             }),
             #[cfg(feature = "span")]
             span: SourceSpan::new(value.span().offset().into(), value.span().len()),
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index e07a07f..7b6711a 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1679,6 +1679,11 @@ pub(crate) fn is_newline_char(c: char) -> bool {
     NEWLINES.iter().any(|nl| nl.contains(c))
 }
 
+#[cfg(feature = "v1")]
+pub(crate) fn is_unicode_space(c: char) -> bool {
+    UNICODE_SPACES.contains(&c)
+}
+
 /// `newline := <See Table>`
 fn newline(input: &mut Input<'_>) -> PResult<()> {
     alt(NEWLINES)
-- 
2.43.0


From 003a3165982d7f3a11063c1cd550067d42ce0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 32/52] fix: make ensure_v1 produce text that is KDL v1 and
 means the same

Whitespace around types, keys and '=', `\` between nodes or at the end of
the text, vertical tabs, missing terminators in children blocks, multi-line
strings, escapes and identifiers that v1 doesn't have were left as they are,
and integers were truncated to 64 bits.
---
 src/document.rs   | 41 ++------------------------
 src/entry.rs      | 73 +++++++++++++++++++++++++++++------------------
 src/fmt.rs        | 36 +++++++++++++++++++++--
 src/identifier.rs | 15 ++++++++++
 src/node.rs       | 61 ++++++++++++++++++++++++++++++---------
 src/v2_parser.rs  |  1 -
 6 files changed, 145 insertions(+), 82 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 24d3b8b..2ec998c 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -2,8 +2,6 @@
 use miette::SourceSpan;
 use std::fmt::Display;
 
-#[cfg(feature = "v1")]
-use crate::KdlNodeFormat;
 use crate::{FormatConfig, KdlError, KdlNode, KdlValue};
 
 /// Represents a KDL
@@ -408,42 +406,9 @@ impl KdlDocument {
     /// Makes sure this document is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        // No need to touch KdlDocumentFormat, probably. In the longer term,
-        // we'll want to make sure to parse out whitespace and comments and make
-        // sure they're actually compliant, but this is good enough for now.
-
-        // the last node in v1 docs/children has to have a semicolon.
-        let mut iter = self.nodes_mut().iter_mut().rev();
-        let last = iter.next();
-        let penult = iter.next();
-        if let Some(last) = last {
-            if let Some(fmt) = last.format_mut() {
-                if !fmt.trailing.contains(';')
-                    && fmt
-                        .trailing
-                        .chars()
-                        .any(|c| crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                {
-                    fmt.terminator = ";".into();
-                }
-            } else {
-                let maybe_indent = {
-                    if let Some(penult) = penult {
-                        if let Some(fmt) = penult.format() {
-                            fmt.leading.clone()
-                        } else {
-                            "".into()
-                        }
-                    } else {
-                        "".into()
-                    }
-                };
-                last.format = Some(KdlNodeFormat {
-                    leading: maybe_indent,
-                    terminator: "\n".into(),
-                    ..Default::default()
-                })
-            }
+        if let Some(fmt) = self.format_mut() {
+            crate::fmt::lines_to_v1(&mut fmt.leading);
+            crate::fmt::lines_to_v1(&mut fmt.trailing);
         }
         for node in self.nodes_mut().iter_mut() {
             node.ensure_v1();
diff --git a/src/entry.rs b/src/entry.rs
index 5dc148d..657f782 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -380,34 +380,53 @@ impl KdlEntry {
             }
         });
 
-        if let Some(value_repr) = value_repr.as_ref() {
-            self.format = Some(
-                self.format
-                    .clone()
-                    .map(|mut x| {
-                        x.value_repr = value_repr.into();
-                        x
-                    })
-                    .unwrap_or_else(|| KdlEntryFormat {
-                        value_repr: value_repr.into(),
-                        leading: " ".into(),
-                        ..Default::default()
-                    }),
-            )
-        } else {
-            let v1_val = match self.value() {
-                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()),
-                KdlValue::Integer(i) => kdlv1::KdlValue::Base10(*i as i64),
-                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f),
-                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b),
-                KdlValue::Null => kdlv1::KdlValue::Null,
-            };
-            self.format = Some(KdlEntryFormat {
-                value_repr: v1_val.to_string(),
-                leading: " ".into(),
-                ..Default::default()
-            })
+        // None of this is exact. If the result isn't the same value in v1, give
+        // up on keeping its representation.
+        let v1_val = match self.value() {
+            KdlValue::String(s) => Some(kdlv1::KdlValue::String(s.clone())),
+            KdlValue::Integer(i) => i64::try_from(*i).ok().map(kdlv1::KdlValue::Base10),
+            KdlValue::Float(f) => Some(kdlv1::KdlValue::Base10Float(*f)),
+            KdlValue::Bool(b) => Some(kdlv1::KdlValue::Bool(*b)),
+            KdlValue::Null => Some(kdlv1::KdlValue::Null),
+        };
+        let value_repr = match (value_repr, v1_val) {
+            (Some(repr), Some(v1_val)) => match repr.parse::<kdlv1::KdlEntry>() {
+                Ok(entry) if Self::from(entry.clone()).is_just(&self.value) => repr,
+                _ => v1_val.to_string(),
+            },
+            (Some(repr), None) => repr,
+            (None, Some(v1_val)) => v1_val.to_string(),
+            // There's no such value in v1.
+            (None, None) => self.value.to_string(),
+        };
+
+        if let Some(ty) = &mut self.ty {
+            ty.ensure_v1();
+        }
+        if let Some(name) = &mut self.name {
+            name.ensure_v1();
+        }
+
+        let format = self.format.get_or_insert_with(|| KdlEntryFormat {
+            leading: " ".into(),
+            ..Default::default()
+        });
+        format.value_repr = value_repr;
+        // v1 has no whitespace in these places.
+        for decor in [
+            &mut format.after_key,
+            &mut format.after_eq,
+            &mut format.before_ty_name,
+            &mut format.after_ty_name,
+            &mut format.after_ty,
+        ] {
+            let decor = std::mem::take(decor);
+            if decor.contains('/') {
+                format.leading.push_str(&decor);
+            }
         }
+        crate::fmt::to_v1(&mut format.leading);
+        crate::fmt::to_v1(&mut format.trailing);
     }
 }
 
diff --git a/src/fmt.rs b/src/fmt.rs
index 766b7b9..da882b8 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -188,6 +188,39 @@ pub(crate) fn from_v1(decor: Option<&str>) -> String {
         .collect()
 }
 
+/// Replaces the newlines in whitespace and comments that KDL v1 doesn't have.
+#[cfg(feature = "v1")]
+pub(crate) fn to_v1(decor: &mut String) {
+    if decor.contains('\u{0B}') {
+        *decor = decor.replace('\u{0B}', "\u{0C}");
+    }
+}
+
+/// Like [`to_v1`], but for what's between nodes, where KDL v1 doesn't have line
+/// continuations. They are always followed by a newline anyway.
+#[cfg(feature = "v1")]
+pub(crate) fn lines_to_v1(decor: &mut String) {
+    to_v1(decor);
+    let mut out = String::with_capacity(decor.len());
+    let mut rest = decor.as_str();
+    while let Some(at) = rest.find(['\\', '/']) {
+        let (before, found) = rest.split_at(at);
+        out.push_str(before);
+        rest = if found.starts_with("//") {
+            split_line(found).1
+        } else if found.starts_with("/*") {
+            skip_ws(found)
+        } else {
+            &found[1..]
+        };
+        if found.starts_with('/') {
+            out.push_str(&found[..found.len() - rest.len()]);
+        }
+    }
+    out.push_str(rest);
+    *decor = out;
+}
+
 /// Splits what follows a node into the whitespace and comments before its
 /// terminator, the terminator itself, and the rest.
 #[cfg(feature = "v1")]
@@ -206,8 +239,7 @@ pub(crate) fn split_trailing(decor: &str) -> (&str, &str, &str) {
 }
 
 /// Skips whitespace and multi-line comments.
-#[cfg(feature = "v1")]
-fn skip_ws(s: &str) -> &str {
+pub(crate) fn skip_ws(s: &str) -> &str {
     let mut rest = s.trim_start_matches(v2_parser::is_unicode_space);
     while rest.starts_with("/*") {
         let mut depth = 0;
diff --git a/src/identifier.rs b/src/identifier.rs
index 49762f6..d0df7cf 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -114,6 +114,21 @@ impl KdlIdentifier {
     }
 }
 
+#[cfg(feature = "v1")]
+impl KdlIdentifier {
+    /// Makes sure this identifier is in v1 format.
+    pub(crate) fn ensure_v1(&mut self) {
+        let is_keyword = matches!(self.value.as_str(), "true" | "false" | "null");
+        let v1 = kdlv1::KdlIdentifier::from(self.value());
+        let is_plain = !is_keyword && v1.to_string() == self.value;
+        self.repr = Some(if is_plain {
+            self.value.clone()
+        } else {
+            kdlv1::KdlValue::String(self.value.clone()).to_string()
+        });
+    }
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlIdentifier> for KdlIdentifier {
     fn from(value: kdlv1::KdlIdentifier) -> Self {
diff --git a/src/node.rs b/src/node.rs
index b6289be..67b09e0 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -391,19 +391,55 @@ impl KdlNode {
     /// Makes sure this node is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        self.ty = self.ty.take().map(|ty| {
-            let v1_name: kdlv1::KdlIdentifier = ty.value().into();
-            v1_name.into()
-        });
-        let v1_name: kdlv1::KdlIdentifier = self.name.value().into();
-        self.name = v1_name.into();
+        if let Some(ty) = &mut self.ty {
+            ty.ensure_v1();
+        }
+        self.name.ensure_v1();
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
-        self.children = self.children.take().map(|mut children| {
+        if let Some(children) = &mut self.children {
             children.ensure_v1();
-            children
-        });
+            // the last node in v1 children has to have a terminator.
+            let formatted = children.format().is_some();
+            if let Some(last) = children.nodes_mut().last_mut() {
+                let is_terminated = last.is_terminated();
+                if let Some(fmt) = &mut last.format {
+                    if !is_terminated {
+                        fmt.terminator = ";".into();
+                    }
+                } else if formatted {
+                    last.format = Some(KdlNodeFormat {
+                        before_children: " ".into(),
+                        terminator: "\n".into(),
+                        ..Default::default()
+                    });
+                }
+            }
+        }
+        if let Some(fmt) = self.format_mut() {
+            // v1 has no whitespace in these places.
+            for decor in [
+                &mut fmt.before_ty_name,
+                &mut fmt.after_ty_name,
+                &mut fmt.after_ty,
+            ] {
+                let decor = std::mem::take(decor);
+                if decor.contains('/') {
+                    fmt.leading.push_str(&decor);
+                }
+            }
+            crate::fmt::lines_to_v1(&mut fmt.leading);
+            crate::fmt::to_v1(&mut fmt.before_children);
+            crate::fmt::to_v1(&mut fmt.before_terminator);
+            crate::fmt::to_v1(&mut fmt.terminator);
+            crate::fmt::lines_to_v1(&mut fmt.trailing);
+        }
+        if self.is_continued() {
+            if let Some(fmt) = self.format_mut() {
+                fmt.before_terminator.push('\n');
+            }
+        }
     }
 }
 
@@ -849,12 +885,9 @@ impl KdlNode {
     /// Whether this node ends in a line continuation without a next line.
     fn is_continued(&self) -> bool {
         self.format().is_some_and(|fmt| {
-            let after_escline = fmt
-                .before_terminator
-                .rsplit_once('\\')
-                .map(|(_, rest)| rest.trim_matches([' ', '\t']));
             fmt.terminator.is_empty()
-                && after_escline.is_some_and(|rest| {
+                && fmt.before_terminator.match_indices('\\').any(|(at, _)| {
+                    let rest = crate::fmt::skip_ws(&fmt.before_terminator[at + 1..]);
                     rest.is_empty()
                         || rest.starts_with("//") && !rest.contains(v2_parser::is_newline_char)
                 })
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 7b6711a..2edf6e6 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1679,7 +1679,6 @@ pub(crate) fn is_newline_char(c: char) -> bool {
     NEWLINES.iter().any(|nl| nl.contains(c))
 }
 
-#[cfg(feature = "v1")]
 pub(crate) fn is_unicode_space(c: char) -> bool {
     UNICODE_SPACES.contains(&c)
 }
-- 
2.43.0


From 0a91bd096eed6dbc6e2bb671880d4c2254dacbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 33/52] fix: only leave out fields that are false or null
 themselves when serializing

---
 src/se.rs | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 920527a..89c4a9a 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -397,13 +397,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
     ) -> Result<(), Self::Error> {
         let mut node = KdlNode::new(key);
         serialize_value_into_node(&mut node, value)?;
-        match node.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                self.nodes.push(node);
-            }
+        if !is_omitted(value) {
+            self.nodes.push(node);
         }
         Ok(())
     }
@@ -455,13 +450,8 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
             let mut child_ser = NodeValueSerializer { node: &mut child };
             value.serialize(&mut child_ser)?;
             let children = node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if !is_omitted(value) {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -475,6 +465,15 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
     }
 }
 
+/// Whether a field with this value is represented by leaving its node out: the
+/// case for `false` and null, but not for sequences that start with them.
+fn is_omitted<T: ?Sized + Serialize>(value: &T) -> bool {
+    matches!(
+        to_kdl_value(value),
+        Ok(KdlValue::Bool(false) | KdlValue::Null)
+    )
+}
+
 /// Serializes a value into a node, adding it as an argument, or as children
 /// if the value is complex (struct/map/seq).
 fn serialize_value_into_node<T: ?Sized + Serialize>(
@@ -824,13 +823,8 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
             let mut child_ser = NodeValueSerializer { node: &mut child };
             value.serialize(&mut child_ser)?;
             let children = self.node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if !is_omitted(value) {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -877,13 +871,8 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
         } else {
             let mut child_ser = NodeValueSerializer { node: &mut node };
             value.serialize(&mut child_ser)?;
-            match node.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    self.children.nodes_mut().push(node);
-                }
+            if !is_omitted(value) {
+                self.children.nodes_mut().push(node);
             }
         }
         Ok(())
-- 
2.43.0


From 578fde40e4cd236afcd003c407d3854e86c56007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 34/52] fix: keep the keys of nested maps whose value is false
 or null

---
 src/se.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 89c4a9a..a5764fb 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -775,15 +775,8 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
         let mut child = KdlNode::new(key);
         let mut child_ser = NodeValueSerializer { node: &mut child };
         value.serialize(&mut child_ser)?;
-        match child.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                let children = self.node.ensure_children();
-                children.nodes_mut().push(child);
-            }
-        }
+        let children = self.node.ensure_children();
+        children.nodes_mut().push(child);
         Ok(())
     }
 
-- 
2.43.0


From a5e80b8915209e46e8c0b9d5080bc466c46e8d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 35/52] fix: keep the fields of a struct variant when
 serializing it at the top level

---
 src/se.rs | 265 ++----------------------------------------------------
 1 file changed, 8 insertions(+), 257 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index a5764fb..83f67f5 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -35,7 +35,7 @@
 //! (de)serialization model.
 
 use serde::ser::{self, Serialize};
-use std::{collections::HashSet, fmt};
+use std::fmt;
 
 use crate::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 
@@ -289,9 +289,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(StructVariantSerializer {
             parent_nodes: &mut self.doc.nodes,
-            variant,
-            children: KdlDocument::new(),
-            used_indices: Default::default(),
+            node: KdlNode::new(variant),
         })
     }
 }
@@ -410,9 +408,7 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
 
 struct StructVariantSerializer<'a> {
     parent_nodes: &'a mut Vec<KdlNode>,
-    variant: &'static str,
-    used_indices: HashSet<usize>,
-    children: KdlDocument,
+    node: KdlNode,
 }
 
 impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
@@ -424,25 +420,21 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
+        let node = &mut self.node;
         if let Some(attr_name) = key.strip_prefix("#@") {
             let kdl_val = to_kdl_value(value)?;
             node.entries_mut()
                 .push(KdlEntry::new_prop(attr_name, kdl_val));
         } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
+            let mut ser = ArgsSerializer { node };
             value.serialize(&mut ser)?;
         } else if key == "#rest" {
-            let mut ser = RestSerializer {
-                node: &mut node,
-                used_indices: &self.used_indices,
-            };
+            let mut ser = ArgsSerializer { node };
             value.serialize(&mut ser)?;
         } else if key.starts_with("#") {
-            let idx: usize = key.strip_prefix('#').unwrap().parse().map_err(|e| Error {
+            let _: usize = key.strip_prefix('#').unwrap().parse().map_err(|e| Error {
                 msg: format!("Failed to parse index rename {key}: {e}"),
             })?;
-            self.used_indices.insert(idx);
             let kdl_val = to_kdl_value(value)?;
             node.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
@@ -458,9 +450,7 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
-        self.parent_nodes.push(node);
+        self.parent_nodes.push(self.node);
         Ok(())
     }
 }
@@ -1245,245 +1235,6 @@ impl ser::Serializer for KdlValueSerializer {
     }
 }
 
-struct RestSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-}
-
-impl<'a> ser::Serializer for &'a mut RestSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    type SerializeSeq = RestSeqSerializer<'a>;
-    type SerializeTuple = RestSeqSerializer<'a>;
-    type SerializeTupleStruct = RestSeqSerializer<'a>;
-    type SerializeTupleVariant = ser::Impossible<(), Error>;
-    type SerializeMap = ser::Impossible<(), Error>;
-    type SerializeStruct = ser::Impossible<(), Error>;
-    type SerializeStructVariant = ser::Impossible<(), Error>;
-
-    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Ok(RestSeqSerializer {
-            node: self.node,
-            used_indices: self.used_indices,
-            current_idx: 0,
-        })
-    }
-
-    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_tuple_struct(
-        self,
-        _: &'static str,
-        len: usize,
-    ) -> Result<Self::SerializeTupleStruct, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(v));
-        Ok(())
-    }
-
-    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_f64(v as f64)
-    }
-    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Float(v)));
-        Ok(())
-    }
-
-    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(&v.to_string())
-    }
-
-    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::String(v.to_string())));
-        Ok(())
-    }
-
-    fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "bytes cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
-        self.serialize_unit()
-    }
-
-    fn serialize_unit_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        variant: &'static str,
-    ) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(variant)
-    }
-
-    fn serialize_newtype_struct<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        value: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_newtype_variant<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "newtype variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        Err(ser::Error::custom(
-            "maps are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct(
-        self,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStruct, Self::Error> {
-        Err(ser::Error::custom(
-            "structs are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "struct variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_tuple_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "tuple variants cannot be represented as KDL arguments",
-        ))
-    }
-}
-
-struct RestSeqSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-    current_idx: usize,
-}
-
-impl<'a> ser::SerializeSeq for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        if !self.used_indices.contains(&self.current_idx) {
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        }
-        self.current_idx += 1;
-        Ok(())
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
-impl<'a> ser::SerializeTuple for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
-impl<'a> ser::SerializeTupleStruct for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
 struct ArgsSerializer<'a> {
     node: &'a mut KdlNode,
 }
-- 
2.43.0


From c3ff41f2c7ae77afde3dfbe0044805d009999449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 36/52] fix: keep #args and #rest of a nested struct variant
 when serializing it

---
 src/se.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 83f67f5..144678f 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -840,11 +840,11 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
                 .entries_mut()
                 .push(KdlEntry::new_prop(attr_name, kdl_val));
         } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
+            let mut ser = ArgsSerializer { node: self.parent };
             value.serialize(&mut ser)?;
         } else if key == "#rest" {
             // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: &mut node };
+            let mut ser = ArgsSerializer { node: self.parent };
             value.serialize(&mut ser)?;
         } else if key.starts_with("#") {
             // TODO(@zkat): How do we get the ordering here?... This will just
-- 
2.43.0


From def57860a30b5c1abbdb8925fb291fa6623ea933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 37/52] fix: only deserialize the last of several properties
 with the same name

---
 src/de.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 83df6bf..eb7a2ed 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1183,9 +1183,24 @@ impl<'a> NodeMapAccess<'a> {
         }
 
         let mut used_names = Vec::new();
-        for prop in node.entries().iter().filter(|e| e.name().is_some()) {
+        // When a property is repeated, only the last one counts.
+        let mut last_props = std::collections::HashMap::new();
+        for (i, prop) in node.entries().iter().enumerate() {
+            if let Some(name) = prop.name() {
+                last_props.insert(name.value(), i);
+            }
+        }
+        for (i, prop) in node
+            .entries()
+            .iter()
+            .enumerate()
+            .filter(|(_, e)| e.name().is_some())
+        {
             // SAFETY: we just filtered for things with names.
             let name = prop.name().unwrap().value();
+            if last_props.get(name) != Some(&i) {
+                continue;
+            }
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
                 let ty_name = format!("{hash_name}#type");
-- 
2.43.0


From 9c5422e0706882f815968696638c88184c1dda77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 38/52] fix: honour special field names and left-out fields in
 struct variants

---
 src/de.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index eb7a2ed..aba83fb 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1446,16 +1446,10 @@ impl<'de, 'a> de::VariantAccess<'de> for NodeVariantAccess<'a> {
 
     fn struct_variant<V: Visitor<'de>>(
         self,
-        _fields: &'static [&'static str],
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        de::Deserializer::deserialize_map(
-            NodeDeserializer {
-                node: self.node,
-                input: self.input,
-            },
-            visitor,
-        )
+        visitor.visit_map(NodeMapAccess::new(self.node, self.input, Some(fields)))
     }
 }
 
-- 
2.43.0


From 01106fca16e80e5eb2868ea8e94341f042d0801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 39/52] fix: read a nested struct variant's arguments from
 where the serializer puts them

---
 src/de.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index aba83fb..3512544 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -633,6 +633,7 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         if nodes.len() == 1 {
             visitor.visit_enum(NodeEnumAccess {
                 node: &nodes[0],
+                parent: None,
                 input: self.input,
             })
         } else {
@@ -976,6 +977,7 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
             if child_nodes.len() == 1 {
                 return visitor.visit_enum(NodeEnumAccess {
                     node: &child_nodes[0],
+                    parent: Some(self.node),
                     input: self.input,
                 });
             }
@@ -996,6 +998,7 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
         // Fall back: just node name is variant
         visitor.visit_enum(NodeEnumAccess {
             node: self.node,
+            parent: None,
             input: self.input,
         })
     }
@@ -1135,6 +1138,16 @@ impl<'a> NodeMapAccess<'a> {
         node: &'a KdlNode,
         input: &'a Arc<String>,
         fields: Option<&'static [&'static str]>,
+    ) -> Self {
+        Self::with_entries(node, node.entries(), input, fields)
+    }
+
+    /// Like `new`, for a node whose arguments and properties are elsewhere.
+    fn with_entries(
+        node: &'a KdlNode,
+        node_entries: &'a [KdlEntry],
+        input: &'a Arc<String>,
+        fields: Option<&'static [&'static str]>,
     ) -> Self {
         let mut entries: Vec<(Cow<'a, str>, NodeMapValue<'a>)> = Vec::new();
 
@@ -1154,8 +1167,7 @@ impl<'a> NodeMapAccess<'a> {
         {
             let mut args = Vec::new();
             let mut rest = Vec::new();
-            for (i, arg) in node
-                .entries()
+            for (i, arg) in node_entries
                 .iter()
                 .filter(|e| e.name().is_none())
                 .enumerate()
@@ -1185,13 +1197,12 @@ impl<'a> NodeMapAccess<'a> {
         let mut used_names = Vec::new();
         // When a property is repeated, only the last one counts.
         let mut last_props = std::collections::HashMap::new();
-        for (i, prop) in node.entries().iter().enumerate() {
+        for (i, prop) in node_entries.iter().enumerate() {
             if let Some(name) = prop.name() {
                 last_props.insert(name.value(), i);
             }
         }
-        for (i, prop) in node
-            .entries()
+        for (i, prop) in node_entries
             .iter()
             .enumerate()
             .filter(|(_, e)| e.name().is_some())
@@ -1377,6 +1388,8 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
 
 struct NodeEnumAccess<'a> {
     node: &'a KdlNode,
+    /// The node this one is the only child of, if that is the enum's node.
+    parent: Option<&'a KdlNode>,
     input: &'a Arc<String>,
 }
 
@@ -1402,6 +1415,7 @@ impl<'de, 'a> de::EnumAccess<'de> for NodeEnumAccess<'a> {
             val,
             NodeVariantAccess {
                 node: self.node,
+                parent: self.parent,
                 input: self.input,
             },
         ))
@@ -1410,6 +1424,8 @@ impl<'de, 'a> de::EnumAccess<'de> for NodeEnumAccess<'a> {
 
 struct NodeVariantAccess<'a> {
     node: &'a KdlNode,
+    /// The node this one is the only child of, if that is the enum's node.
+    parent: Option<&'a KdlNode>,
     input: &'a Arc<String>,
 }
 
@@ -1449,7 +1465,18 @@ impl<'de, 'a> de::VariantAccess<'de> for NodeVariantAccess<'a> {
         fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        visitor.visit_map(NodeMapAccess::new(self.node, self.input, Some(fields)))
+        // The serializer leaves a variant's arguments and properties on the
+        // parent node, as in `command sky { up { how-high 1 } }`.
+        let entries = match self.parent {
+            Some(parent) if self.node.entries().is_empty() => parent.entries(),
+            _ => self.node.entries(),
+        };
+        visitor.visit_map(NodeMapAccess::with_entries(
+            self.node,
+            entries,
+            self.input,
+            Some(fields),
+        ))
     }
 }
 
-- 
2.43.0


From 4733de7b1f5a2cd0d62b1b42daa07df1c191a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 40/52] fix: deserialize left-out unit and newtype fields like
 the serializer writes them

---
 src/de.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 3512544..276df4c 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1379,9 +1379,38 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
         visitor.visit_none()
     }
 
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
+    fn deserialize_unit_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct tuple newtype_struct seq
+        bytes byte_buf tuple seq
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From 2d43aa5e0c1685a5ba8a964b22f9da9bff81fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 41/52] fix: deserialize repeated nodes into options and
 newtypes of sequences

---
 src/de.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 276df4c..bd86075 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1084,9 +1084,21 @@ impl<'de, 'a> de::Deserializer<'de> for NodeGroupDeserializer<'a> {
         })
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct tuple
+        bytes byte_buf unit unit_struct tuple
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From e963e800c20235450a44646b4bf6aaa41f180422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 42/52] fix: deserialize type annotations and names into
 options

---
 src/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index bd86075..f99fea9 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -426,6 +426,10 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
         self.annotate(visitor.visit_str(self.ident.value()))
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_newtype_struct<V: Visitor<'de>>(
         self,
         _name: &'static str,
@@ -446,7 +450,7 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
         bytes byte_buf unit unit_struct seq tuple
-        tuple_struct map struct option identifier ignored_any
+        tuple_struct map struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From b5baa5d6858637089004eb100eb6980b18d86581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 43/52] fix: don't offer a field more than the names it asked
 for when deserializing nodes

---
 src/de.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index f99fea9..af1c7d0 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1193,7 +1193,9 @@ impl<'a> NodeMapAccess<'a> {
                 }
                 let idx_name = format!("#{i}");
                 let ty_name = format!("{idx_name}#type");
-                if let Some(ty) = arg.ty() {
+                if let Some(ty) = arg.ty()
+                    && fields.contains(&ty_name.as_ref())
+                {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
                 if fields.contains(&idx_name.as_ref()) {
@@ -1231,14 +1233,17 @@ impl<'a> NodeMapAccess<'a> {
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
                 let ty_name = format!("{hash_name}#type");
-                if fields.contains(&hash_name.as_ref()) {
-                    entries.push((hash_name.into(), NodeMapValue::Arg(prop)));
-                }
                 if let Some(ty) = prop.ty()
                     && fields.contains(&ty_name.as_ref())
                 {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
+                if fields.contains(&hash_name.as_ref()) {
+                    // This field is for the property alone, so the plain name
+                    // is left to a child node.
+                    entries.push((hash_name.into(), NodeMapValue::Arg(prop)));
+                    continue;
+                }
             }
             entries.push((name.into(), NodeMapValue::Arg(prop)));
             used_names.push(name);
-- 
2.43.0


From a031fba3a908fc5c41d2aefc6a35de1829a7c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 44/52] fix: deserialize documents into tuples like into other
 sequences

---
 src/de.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index af1c7d0..d73cd7f 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -597,6 +597,23 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         })
     }
 
+    fn deserialize_tuple<V: Visitor<'de>>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         if self.doc.nodes().is_empty() {
             visitor.visit_none()
@@ -653,8 +670,7 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         i64 i128 u8 u16
         u32 u64 u128 f32
         f64 char str string
-        bytes byte_buf tuple
-        tuple_struct identifier ignored_any
+        bytes byte_buf identifier ignored_any
     }
 }
 
-- 
2.43.0


From 4d2aaba8781bbe2821ace2cb25f712e575e16af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 45/52] fix: deserialize the repeated nodes a top-level tuple
 variant is written as

---
 src/de.rs | 77 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/src/de.rs b/src/de.rs
index d73cd7f..676229a 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -657,6 +657,15 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
                 parent: None,
                 input: self.input,
             })
+        } else if nodes
+            .iter()
+            .all(|n| n.name().value() == nodes[0].name().value())
+            && !nodes.is_empty()
+        {
+            visitor.visit_enum(NodeGroupEnumAccess {
+                nodes: nodes.iter().collect(),
+                input: self.input,
+            })
         } else {
             Err(Error::new(
                 "expected exactly one node for enum deserialization",
@@ -1546,6 +1555,74 @@ impl<'de, 'a> de::VariantAccess<'de> for NodeVariantAccess<'a> {
     }
 }
 
+/// A variant written as several nodes of its name, one for each element.
+struct NodeGroupEnumAccess<'a> {
+    nodes: Vec<&'a KdlNode>,
+    input: &'a Arc<String>,
+}
+
+impl<'de, 'a> de::EnumAccess<'de> for NodeGroupEnumAccess<'a> {
+    type Error = Error;
+    type Variant = Self;
+
+    fn variant_seed<V: DeserializeSeed<'de>>(
+        self,
+        seed: V,
+    ) -> Result<(V::Value, Self::Variant), Self::Error> {
+        let node = self.nodes[0];
+        let val = seed
+            .deserialize(str_deserializer(node.name().value()))
+            .map_err(|err| {
+                err.with_span(
+                    self.input,
+                    node_span(node),
+                    "while deserializing this enum variant",
+                )
+            })?;
+        Ok((val, self))
+    }
+}
+
+impl<'de, 'a> de::VariantAccess<'de> for NodeGroupEnumAccess<'a> {
+    type Error = Error;
+
+    fn unit_variant(self) -> Result<(), Self::Error> {
+        Err(Error::new("expected exactly one node for a unit variant").with_input(self.input))
+    }
+
+    fn newtype_variant_seed<T: DeserializeSeed<'de>>(
+        self,
+        seed: T,
+    ) -> Result<T::Value, Self::Error> {
+        seed.deserialize(NodeGroupDeserializer {
+            nodes: &self.nodes,
+            input: self.input,
+        })
+    }
+
+    fn tuple_variant<V: Visitor<'de>>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        de::Deserializer::deserialize_seq(
+            NodeGroupDeserializer {
+                nodes: &self.nodes,
+                input: self.input,
+            },
+            visitor,
+        )
+    }
+
+    fn struct_variant<V: Visitor<'de>>(
+        self,
+        _fields: &'static [&'static str],
+        _visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        Err(Error::new("expected exactly one node for a struct variant").with_input(self.input))
+    }
+}
+
 struct PropertyEnumAccess<'a> {
     key: &'a str,
     entry: &'a KdlEntry,
-- 
2.43.0


From a8002c2750219aa563058421744cbcb2bcfc6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 46/52] fix: sync the language server to the last of several
 content changes

---
 tools/kdl-lsp/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 539061c..05756c9 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -82,8 +82,11 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        self.on_change(params.text_document.uri, &params.content_changes[0].text)
-            .await;
+        // We only ask for full syncs, so each change carries the whole document
+        // and the last one is what the document is now.
+        if let Some(change) = params.content_changes.last() {
+            self.on_change(params.text_document.uri, &change.text).await;
+        }
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-- 
2.43.0


From 0daa0842982bf108253f67e06077be871f597f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:06 +0000
Subject: [PATCH 47/52] fix: count lines like the LSP does when reporting
 positions

---
 tools/kdl-lsp/src/main.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 05756c9..c9afbfa 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -108,14 +108,19 @@ impl LanguageServer for Backend {
         if let Some(doc) = self.document_map.get(&params.text_document.uri.to_string()) {
             let res: std::result::Result<KdlDocument, KdlError> = doc.to_string().parse();
             if let Err(kdl_err) = res {
+                let lines = line_starts(&doc);
                 let diags = kdl_err
                     .diagnostics
                     .into_iter()
                     .map(|diag| {
                         Diagnostic::new(
                             Range::new(
-                                byte_to_position(diag.span.offset(), &doc),
-                                byte_to_position(diag.span.offset() + diag.span.len(), &doc),
+                                byte_to_position(diag.span.offset(), &doc, &lines),
+                                byte_to_position(
+                                    diag.span.offset() + diag.span.len(),
+                                    &doc,
+                                    &lines,
+                                ),
                             ),
                             diag.severity().map(to_lsp_sev),
                             diag.code().map(|c| NumberOrString::String(c.to_string())),
@@ -162,21 +167,35 @@ impl LanguageServer for Backend {
     // }
 }
 
+/// Finds the byte offsets at which the lines of a document start, as the LSP
+/// counts lines: they end with `\n`, `\r\n` or `\r`, and nothing else.
+fn line_starts(rope: &Rope) -> Vec<usize> {
+    let mut starts = vec![0];
+    let mut bytes = rope.bytes().enumerate().peekable();
+    while let Some((idx, byte)) = bytes.next() {
+        let crlf = byte == b'\r' && matches!(bytes.peek(), Some((_, b'\n')));
+        if matches!(byte, b'\n' | b'\r') && !crlf {
+            starts.push(idx + 1);
+        }
+    }
+    starts
+}
+
 /// Converts a byte offset to an LSP [`Position`].
 ///
 /// This panics when we feed it a byte index that falls somewhere inside a multi-byte UTF-8 char.
-fn byte_to_position(byte_idx: usize, rope: &Rope) -> Position {
+fn byte_to_position(byte_idx: usize, rope: &Rope, line_starts: &[usize]) -> Position {
     // Clamp the byte position to the end of the buffer. Just in case.
     let byte_idx = byte_idx.min(rope.len_bytes());
     // Get the correct line for that byte offset
-    let line_idx = rope.byte_to_line(byte_idx);
+    let line_idx = line_starts.partition_point(|start| *start <= byte_idx) - 1;
     // Calculate the correct UTF-16 code unit.
     // The LSP doesn't use characters for columns, but instead for some reason they chose to use
     // UTF-16 code units.
     // If not not explicitly handled as such, passing a UTF-8 char column position would result
     // in a shift of one char backwards per prior 4-byte UTF-16 character in the current line.
     let col_idx = rope.char_to_utf16_cu(rope.byte_to_char(byte_idx))
-        - rope.char_to_utf16_cu(rope.line_to_char(line_idx));
+        - rope.char_to_utf16_cu(rope.byte_to_char(line_starts[line_idx]));
     Position::new(line_idx as u32, col_idx as u32)
 }
 
-- 
2.43.0


From 38aa8d3c89415adad8eb47a93918e20a14a9a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 48/52] fix: line up the closing brace of a block without
 formatting with its auto-formatted node

---
 src/fmt.rs  | 2 +-
 src/node.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index da882b8..43f100a 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -281,7 +281,7 @@ pub(crate) fn end_line(decor: &str, f: &mut std::fmt::Formatter<'_>) -> std::fmt
     writeln!(f)
 }
 
-fn last_line(decor: &str) -> &str {
+pub(crate) fn last_line(decor: &str) -> &str {
     decor
         .rsplit(v2_parser::is_newline_char)
         .next()
diff --git a/src/node.rs b/src/node.rs
index 67b09e0..bfa71f6 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -965,7 +965,13 @@ impl KdlNode {
                 last.terminate(f)?;
             }
             if children.format().is_none() {
-                write!(f, "{:indent$}", "", indent = indent)?;
+                // Lines up with where this node starts.
+                match self.format().map(|fmt| crate::fmt::last_line(&fmt.leading)) {
+                    Some(own) if own.chars().all(v2_parser::is_unicode_space) => {
+                        write!(f, "{own}")?
+                    }
+                    _ => write!(f, "{:indent$}", "", indent = indent)?,
+                }
             }
             write!(f, "}}")?;
         }
-- 
2.43.0


From 1bad2cf2bd4ec0bb8fc7a13a2eeff0531c6bb6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 49/52] fix: only look for a line continuation outside strings
 and comments when ending a node

---
 src/fmt.rs       |  3 ++-
 src/node.rs      | 13 ++++++++-----
 src/v2_parser.rs |  7 +++++++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 43f100a..300308f 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -239,7 +239,8 @@ pub(crate) fn split_trailing(decor: &str) -> (&str, &str, &str) {
 }
 
 /// Skips whitespace and multi-line comments.
-pub(crate) fn skip_ws(s: &str) -> &str {
+#[cfg(feature = "v1")]
+fn skip_ws(s: &str) -> &str {
     let mut rest = s.trim_start_matches(v2_parser::is_unicode_space);
     while rest.starts_with("/*") {
         let mut depth = 0;
diff --git a/src/node.rs b/src/node.rs
index bfa71f6..18f4e2e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -885,12 +885,15 @@ impl KdlNode {
     /// Whether this node ends in a line continuation without a next line.
     fn is_continued(&self) -> bool {
         self.format().is_some_and(|fmt| {
+            // Only a line continuation takes a newline and carries on. (Not a
+            // line feed, which would be part of the newline after a CR.)
             fmt.terminator.is_empty()
-                && fmt.before_terminator.match_indices('\\').any(|(at, _)| {
-                    let rest = crate::fmt::skip_ws(&fmt.before_terminator[at + 1..]);
-                    rest.is_empty()
-                        || rest.starts_with("//") && !rest.contains(v2_parser::is_newline_char)
-                })
+                && fmt.before_terminator.contains('\\')
+                && v2_parser::try_parse(
+                    v2_parser::after_entries,
+                    &format!("{}\u{85}", fmt.before_terminator),
+                )
+                .is_ok()
         })
     }
 
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 2edf6e6..3e0d9e0 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -723,6 +723,13 @@ pub(crate) fn node_comments(input: &mut Input<'_>) -> PResult<Vec<String>> {
     comments_with((slashdash, skipped), input)
 }
 
+/// Whitespace, and slashdashed entries and children, that come between a node
+/// and its terminator.
+pub(crate) fn after_entries(input: &mut Input<'_>) -> PResult<()> {
+    let skipped = alt((prop_or_arg.void(), node_children.void()));
+    repeat(0.., alt((node_space1, (slashdash, skipped).void()))).parse_next(input)
+}
+
 fn comments_with<'a, T>(
     slashdashed: impl ModalParser<Input<'a>, T, KdlParseError>,
     input: &mut Input<'a>,
-- 
2.43.0


From 9e149f7bf9d287d58bbd48c8f8b98534e9979292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:10 +0000
Subject: [PATCH 50/52] fix: read map keys back the way the serializer writes
 them

---
 src/de.rs | 75 +++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 68 insertions(+), 7 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 676229a..d2421c2 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -205,7 +205,6 @@ use std::{fmt, iter};
 
 use miette::{Diagnostic, LabeledSpan, Severity, SourceCode, SourceSpan};
 use serde::Deserialize;
-use serde::de::value::StringDeserializer;
 use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
 
 use crate::{KdlDiagnostic, KdlDocument, KdlEntry, KdlIdentifier, KdlNode, KdlValue};
@@ -405,6 +404,71 @@ where
     T::deserialize(de).map_err(|err| err.with_input(&input))
 }
 
+/// Deserializer for the keys of maps, which are node or property names. Keys
+/// that aren't strings are read back the way the serializer writes them.
+struct KeyDeserializer<'a> {
+    key: &'a str,
+}
+
+macro_rules! deserialize_parsed_key {
+    ($($method:ident $visit:ident)*) => { $(
+        fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+            match self.key.parse() {
+                Ok(key) => visitor.$visit(key),
+                Err(_) => visitor.visit_str(self.key),
+            }
+        }
+    )* };
+}
+
+impl<'de, 'a> de::Deserializer<'de> for KeyDeserializer<'a> {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_str(self.key)
+    }
+
+    deserialize_parsed_key! {
+        deserialize_bool visit_bool
+        deserialize_i8 visit_i8
+        deserialize_i16 visit_i16
+        deserialize_i32 visit_i32
+        deserialize_i64 visit_i64
+        deserialize_u8 visit_u8
+        deserialize_u16 visit_u16
+        deserialize_u32 visit_u32
+        deserialize_u64 visit_u64
+        deserialize_f32 visit_f32
+        deserialize_f64 visit_f64
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_enum(str_deserializer(self.key))
+    }
+
+    serde::forward_to_deserialize_any! {
+        i128 u128 char str string bytes byte_buf unit unit_struct seq tuple
+        tuple_struct map struct identifier ignored_any
+    }
+}
+
 struct IdentDeserializer<'a> {
     ident: &'a KdlIdentifier,
     input: &'a Arc<String>,
@@ -731,7 +795,7 @@ impl<'de, 'a> MapAccess<'de> for DocumentMapAccess<'a> {
             return Ok(None);
         }
         let key = self.keys[self.idx];
-        seed.deserialize(str_deserializer(key)).map(Some)
+        seed.deserialize(KeyDeserializer { key }).map(Some)
     }
 
     fn next_value_seed<V: DeserializeSeed<'de>>(
@@ -1322,11 +1386,8 @@ impl<'de, 'a> MapAccess<'de> for NodeMapAccess<'a> {
         if self.idx >= self.entries.len() {
             return Ok(None);
         }
-        match &self.entries[self.idx].0 {
-            Cow::Borrowed(s) => seed.deserialize(str_deserializer(s)),
-            Cow::Owned(s) => seed.deserialize(StringDeserializer::new(s.clone())),
-        }
-        .map(Some)
+        let key = &self.entries[self.idx].0;
+        seed.deserialize(KeyDeserializer { key }).map(Some)
     }
 
     fn next_value_seed<V: DeserializeSeed<'de>>(
-- 
2.43.0


From a28817692ac415bcf132c5c70a52467f08280f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:10 +0000
Subject: [PATCH 51/52] fix: write no arguments for #args and #rest that are
 None

---
 src/se.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/se.rs b/src/se.rs
index 144678f..a282e39 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -1332,7 +1332,6 @@ impl<'a> ser::Serializer for &'a mut ArgsSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
         Ok(())
     }
 
-- 
2.43.0


From 988b4f5f013222b9234c6e8ca6d44c1e35ede589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:59 +0000
Subject: [PATCH 52/52] fix: go on after a missing property value or empty type
 annotation

A missing property value or an empty type annotation ended the parse, so
that errors later in the document were not reported.
---
 src/v2_parser.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3e0d9e0..420ad73 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -563,15 +563,12 @@ fn prop_or_arg(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     };
     let entry = if let Some(after_key) = after_key {
         let after_eq = node_space0.take().parse_next(input)?;
-        let _span = input.checkpoint();
-        let value = cut_err(value.context(cx().lbl("property value")))
-            .parse_next(input)
-            .map_err(|e| {
-                e.map(|mut e: KdlParseError| {
-                    e.span = e.span.or_else(|| Some(span_from_checkpoint(input, &_span)));
-                    e
-                })
-            })?;
+        let value = resume_after_cut(
+            cut_err(value.context(cx().lbl("property value"))),
+            repeat_till(0.., any, peek(value_terminator)).map(|((), _)| ()),
+        )
+        .parse_next(input)?
+        .flatten();
         value.map(|mut value| {
             value.name = maybe_ident;
             if let Some(fmt) = value.format_mut() {
@@ -913,7 +910,7 @@ fn ty<'s>(input: &mut Input<'s>) -> PResult<(&'s str, Option<KdlIdentifier>, &'s
                         .msg("invalid contents inside type annotation"),
                 ),
             ),
-            repeat_till(1.., (not(badval_ty_char), any), peek(badval_ty_char)).map(|((), _)| ()),
+            repeat_till(0.., (not(badval_ty_char), any), peek(badval_ty_char)).map(|((), _)| ()),
         )
         .map(|opt| opt.map(|(i, _)| i)),
         node_space0.take(),
-- 
2.43.0

