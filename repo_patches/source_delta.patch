From 9ff52b35495d941eb5c2fde7f4cf89df3ac34d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 01/15] fix: keep values matched by a nested group available
 for rewind

Committing an inner snapshot dropped the values it had recorded, so when the
enclosing group later failed those values were lost instead of being put back.
---
 src/validate.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 564e539..217abe5 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -207,9 +207,13 @@ impl WorkingMap {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
+        let top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, it may still be rewound, so it
+        // needs to remember these values too.  Otherwise, they were
         // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.extend(top_snap);
+        }
     }
 
     // Peek at the value correspending to a given key (if any)
@@ -283,9 +287,13 @@ impl WorkingArray {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
+        let top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, it may still be rewound, so it
+        // needs to remember these values too.  Otherwise, they were
         // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.extend(top_snap);
+        }
     }
 
     // Peek at the front of the working array.
-- 
2.43.0


From 427488cb6cca0f98eb0ccdf1f06840e7dcfcaa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 02/15] fix: restore data when an unwrapped array or map fails
 part-way

Elements or entries matched by the first members of an unwrapped array or map
were lost when a later member did not match, so a following alternative or
optional member no longer saw them.
---
 src/validate.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 217abe5..e8870c8 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -598,11 +598,19 @@ fn validate_array_unwrap(
     // Array node too.
     match node {
         Node::Array(a) => {
+            // We don't know how many items the members might speculatively
+            // pop from the list, so be prepared to put them back.
+            working_array.snapshot();
+
             // Recurse into each member of the unwrapped array.
             for member in &a.members {
-                validate_array_member(member, working_array, ctx)?;
+                if let Err(e) = validate_array_member(member, working_array, ctx) {
+                    working_array.rewind();
+                    return Err(e);
+                }
             }
             // All array members validated Ok.
+            working_array.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap array")),
@@ -873,11 +881,19 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
     // Map node too.
     match node {
         Node::Map(m) => {
-            // Recurse into each member of the unwrapped array.
+            // We don't know how many items the members might speculatively
+            // remove from the map, so be prepared to put them back.
+            working_map.snapshot();
+
+            // Recurse into each member of the unwrapped map.
             for member in &m.members {
-                validate_map_member(member, working_map, ctx)?;
+                if let Err(e) = validate_map_member(member, working_map, ctx) {
+                    working_map.rewind();
+                    return Err(e);
+                }
             }
-            // All array members validated Ok.
+            // All map members validated Ok.
+            working_map.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap map")),
-- 
2.43.0


From fc20cfd2402608d75f13fe5af4e45c7010365636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 03/15] fix: honour an upper limit of zero and stop repetitions
 that match nothing

An occurrence always tried its node at least once, so '0*0' accepted an
element, and a repeated part that can match without using any data (such as
'* (? int)') was repeated up to the upper limit, i.e. practically forever.
---
 src/validate.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index e8870c8..cecbcba 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -627,7 +627,8 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    while count < upper_limit {
+        let remaining = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -642,9 +643,10 @@ fn validate_array_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
+        if working_array.array.len() == remaining {
+            // Nothing was consumed, so every further repetition would match
+            // in the same way.
+            count = upper_limit;
         }
     }
     if count < lower_limit {
@@ -909,7 +911,8 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    while count < upper_limit {
+        let remaining = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -924,9 +927,10 @@ fn validate_map_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
+        if working_map.map.len() == remaining {
+            // Nothing was consumed, so every further repetition would match
+            // in the same way.
+            count = upper_limit;
         }
     }
     if count < lower_limit {
-- 
2.43.0


From 733f96a0ba1390774768e72db062bbd191ddbe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 04/15] fix: restore data when an occurrence matches too few
 times

The repetitions that did match had already used up their data, so an
alternative tried afterwards, or an enclosing optional occurrence, did not see
it any more.
---
 src/validate.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index cecbcba..e24e698 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -627,6 +627,9 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If there are too few repetitions, the data they consumed must be put back.
+    working_array.snapshot();
+
     while count < upper_limit {
         let remaining = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
@@ -639,6 +642,7 @@ fn validate_array_occur(
                 // The error is something serious (e.g. MissingRule or
                 // Unsupported).  We should fail now and propagate that
                 // error upward.
+                working_array.rewind();
                 return Err(e);
             }
         }
@@ -650,8 +654,10 @@ fn validate_array_occur(
         }
     }
     if count < lower_limit {
+        working_array.rewind();
         return Err(mismatch(format!("more array element [{}]", occur)));
     }
+    working_array.commit();
     Ok(())
 }
 
@@ -911,6 +917,9 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If there are too few repetitions, the data they consumed must be put back.
+    working_map.snapshot();
+
     while count < upper_limit {
         let remaining = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
@@ -923,6 +932,7 @@ fn validate_map_occur(
                 // Either we got a MapCut error, or it's something even more
                 // serious (e.g. MissingRule or Unsupported).  We should fail
                 // now and propagate that error upward.
+                working_map.rewind();
                 return Err(e);
             }
         }
@@ -934,11 +944,13 @@ fn validate_map_occur(
         }
     }
     if count < lower_limit {
+        working_map.rewind();
         // Read this format string as "{{" then "{}" then "}}"
         // The first and last print a single brace; the value is in the
         // middle, e.g "{foo}".
         return Err(mismatch(format!("map{{{}}}]", occur)));
     }
+    working_map.commit();
     Ok(())
 }
 
-- 
2.43.0


From 867ff18ce14303b903ae9aadcb9267281a8212d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 05/15] fix: report schema errors met while searching for a map
 key

A key type that is broken (for example a missing rule) was treated as a key
that does not match, which turned the error into a mismatch or, for optional
members, into success.
---
 src/validate.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index e24e698..a98aed7 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -430,9 +430,12 @@ fn map_search<'a>(
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
     for (key, value) in &working_map.map {
-        let attempt = validate(key, node, ctx);
-        if attempt.is_ok() {
-            return Ok((key.clone(), value));
+        match validate(key, node, ctx) {
+            Ok(()) => return Ok((key.clone(), value)),
+            // Only fail if the error is considered fatal.
+            // Otherwise, we'll keep looking at other keys.
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(_) => {}
         }
     }
     // We searched all the keys without finding a match.  Validation fails.
-- 
2.43.0


From 34c94516fecf9050aabee1ae014d3477c1c0e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 06/15] fix: count generic parameters towards the recursion
 limit

Resolving a generic parameter went back to the depth of the place where the
argument was written, so chains of rules through generic parameters could grow
far beyond the recursion limit and overflow the stack.
---
 src/validate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index a98aed7..049f48f 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -77,10 +77,13 @@ impl<'a> Context<'a> {
             // If we stored a past_ctx along with the generic args, then pass that
             // context along with the node that is substituting for this generic
             // parameter name.  Otherwise, return a new blank Context.
-            let ctx = match self.generic_map.past_ctx {
+            // The depth keeps counting from here, otherwise a circular
+            // definition could escape the recursion limit.
+            let mut ctx = match self.generic_map.past_ctx {
                 Some(ctx) => ctx.clone(),
                 None => self.blank()?,
             };
+            ctx.depth = self.inc_depth()?;
             return Ok(NodeContext { node, ctx });
         }
 
-- 
2.43.0


From f1d2494d9bef7b19a19a58eabe91fe00ecc1e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 07/15] fix: treat byte strings that aren't one CBOR item as a
 .cbor mismatch

Malformed embedded CBOR aborted the whole validation as if the schema were
broken, so other alternatives were not tried, and bytes following the data item
were ignored.
---
 src/validate.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 049f48f..a29a802 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1116,8 +1116,14 @@ fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) ->
 
     match value {
         Value::Bytes(bytes) => {
-            let cbor_value: CBOR_Value = ciborium::from_reader(bytes.as_slice())
-                .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+            // If the bytes aren't exactly one CBOR data item, then this is
+            // just data that doesn't match.
+            let mut reader = bytes.as_slice();
+            let cbor_value: CBOR_Value =
+                ciborium::from_reader(&mut reader).map_err(|_| mismatch("encoded cbor"))?;
+            if !reader.is_empty() {
+                return Err(mismatch("encoded cbor"));
+            }
 
             let nested_value = Value::try_from(cbor_value)?;
 
-- 
2.43.0


From 6d6c37c55460905e53ede0158a9c4b165578b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 08/15] fix: don't ignore bytes after the CBOR data item

validate_cbor_bytes stopped reading at the end of the first data item and
accepted whatever followed it.
---
 src/cbor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cbor.rs b/src/cbor.rs
index 2ed61e1..9c5c298 100644
--- a/src/cbor.rs
+++ b/src/cbor.rs
@@ -143,8 +143,14 @@ pub fn validate_cbor_bytes(name: &str, cddl: &str, cbor: &[u8]) -> ValidateResul
         .ok_or_else(|| ValidateError::MissingRule(name.into()))?;
 
     // Deserialize the CBOR bytes
-    let cbor_value: CBOR_Value =
-        ciborium::from_reader(cbor).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    let mut reader = cbor;
+    let cbor_value: CBOR_Value = ciborium::from_reader(&mut reader)
+        .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    if !reader.is_empty() {
+        return Err(ValidateError::ValueError(
+            "trailing data after the CBOR data item".into(),
+        ));
+    }
 
     // Convert the CBOR tree into a Value tree for validation
     let value = Value::try_from(cbor_value)?;
-- 
2.43.0


From a202db254cd04c7ffe91e43cf4bc81736739049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 09/15] fix: reject CBOR maps with duplicate keys

All but the last of several entries with the same key were dropped without
being validated.
---
 src/cbor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cbor.rs b/src/cbor.rs
index 9c5c298..f76ef93 100644
--- a/src/cbor.rs
+++ b/src/cbor.rs
@@ -97,7 +97,14 @@ impl TryFrom<&CBOR_Value> for Value {
                         Ok((Value::try_from(k)?, Value::try_from(v)?))
                     })
                     .collect();
-                Value::Map(map?)
+                let map = map?;
+                if map.len() != m.len() {
+                    // Only one of the duplicates would be validated.
+                    return Err(ValidateError::ValueError(
+                        "duplicate key in cbor map".into(),
+                    ));
+                }
+                Value::Map(map)
             }
             _ => {
                 // cbor::Value has a few hidden internal variants.  We should
-- 
2.43.0


From eccccb50d47468e8bf7996056d94edc3df9b123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 10/15] fix: allow all of U+0080 to U+10FFFD in text and byte
 strings

The upper bound was missing a digit, so characters above U+10FFD (most emoji,
for example) were rejected.
---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e52fe05..4d9b6d1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -387,7 +387,7 @@ fn is_unescaped_bchar(c: char) -> bool {
         (0x20 ..= 0x26),
         (0x28 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
@@ -489,7 +489,7 @@ fn is_unescaped_schar(c: char) -> bool {
         (0x20 ..= 0x21),
         (0x23 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
-- 
2.43.0


From 7b78fe72ce60fc93660f4f758688ef4cf18ebe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 11/15] fix: don't discard a malformed-literal error inside a
 group entry

---
 src/parser/mod.rs | 60 ++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4d9b6d1..3af7da3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -648,13 +648,17 @@ fn grpent_member(input: &str) -> JResult<&str, Member> {
         Type1::Simple(Type2::Value(_)) |
         Type1::Simple(Type2::Typename(_)) => {
             // Next, try to match ":" ws ty
-            if let Ok((input, tail_type)) = grpent_memberkey_tail(input) {
-                let member = assemble_basic_member(first_type1, tail_type);
-                match member {
-                    Ok(member) => return Ok((input, member)),
-                    Err(e) => return Err(nom::Err::Failure(e)),
+            match grpent_memberkey_tail(input) {
+                Ok((input, tail_type)) => {
+                    let member = assemble_basic_member(first_type1, tail_type);
+                    match member {
+                        Ok(member) => return Ok((input, member)),
+                        Err(e) => return Err(nom::Err::Failure(e)),
+                    }
                 }
-
+                // A malformed literal is malformed however we read the rest.
+                Err(e @ nom::Err::Failure(_)) => return Err(e),
+                Err(_) => {}
             }
         }
         // "X:Y" isn't allowed when X is some other Type1 variant.
@@ -665,43 +669,45 @@ fn grpent_member(input: &str) -> JResult<&str, Member> {
     // should return a Member, with key: Some(MemberKey{val, cut})
     // and value: Type
 
-    if let Ok((input, matched_tuple)) = tuple((
+    match tuple((
         opt(terminated(tag("^"), ws)),
         tag("=>"),
         ws,
         ty,
     ))(input) {
-        let (cut, _, _, val) = matched_tuple;
-        let member = Member {
-            key: Some(MemberKey {
-                val: MemberKeyVal::Type1(first_type1),
-                cut: cut.is_some(),
-            }),
-            value: val,
-        };
-        return Ok((input, member));
+        Ok((input, matched_tuple)) => {
+            let (cut, _, _, val) = matched_tuple;
+            let member = Member {
+                key: Some(MemberKey {
+                    val: MemberKeyVal::Type1(first_type1),
+                    cut: cut.is_some(),
+                }),
+                value: val,
+            };
+            return Ok((input, member));
+        }
+        Err(e @ nom::Err::Failure(_)) => return Err(e),
+        Err(_) => {}
     }
 
     // grpent without memberkey
     // should return a Member, with key: None and value: Type containing Vec<Type1>
     // This is a lot like the fn `ty` but we will concatenate this with first_type1
 
-    if let Ok((input, mut ty1s)) = many0(
+    let (input, mut ty1s) = many0(
         preceded(
             delimited(ws, tag("/"), ws),
             type1
         )
-    )(input) {
-        // insert the first type1 (from the top of this function)
-        ty1s.insert(0, first_type1);
-        let member = Member {
-            key: None,
-            value: Type(ty1s),
-        };
-        return Ok((input, member));
-    }
+    )(input)?;
 
-    Err(nom::Err::Error(parse_error(ErrorKind::Unparseable, "grpent_member")))
+    // insert the first type1 (from the top of this function)
+    ty1s.insert(0, first_type1);
+    let member = Member {
+        key: None,
+        value: Type(ty1s),
+    };
+    Ok((input, member))
 }
 
 #[rustfmt::skip]
-- 
2.43.0


From b1c957f9fde020b5ed112a819e4c6e0b289ec658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 12/15] fix: don't take the digits of a float literal for an
 occurrence limit

---
 src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3af7da3..2c72bce 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -34,7 +34,7 @@ use nom::{
     character::complete::{
         anychar, char as charx, digit0, digit1, hex_digit1, multispace1, not_line_ending, one_of,
     },
-    combinator::{all_consuming, map, map_res, opt, recognize, value as valuex},
+    combinator::{all_consuming, map, map_res, opt, peek, recognize, value as valuex},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
 };
@@ -747,8 +747,13 @@ where
 //       / "?"
 #[rustfmt::skip]
 fn occur_star(input: &str) -> JResult<&str, Occur> {
+    // Only convert the lower limit once we know that "*" follows; otherwise
+    // the digits may be the start of a longer literal.
     let f = tuple((
-        opt(uint_u64),
+        opt(preceded(
+            peek(pair(uint, tag("*"))),
+            uint_u64
+        )),
         tag("*"),
         opt(uint_u64),
     ));
-- 
2.43.0


From 24d1d45ad6bbf47c0b84eff44edc27c69fadc647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 13/15] fix: accept the integer literal -9223372036854775808

---
 src/parser/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2c72bce..e438323 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -316,10 +316,11 @@ fn parse_int(raw: RawInt) -> Result<Value, CowParseError> {
         .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;
 
     if raw.neg {
-        // i64 has a larger positive range than negative range, so if we
-        // survive the conversion to i64 then unary `-` must succeed.
-        let negint: i64 = try_into_int(posint, raw.slice)?;
-        Ok(Value::Nint(-negint))
+        // i64 can hold one more negative value than positive ones, so subtract
+        // from zero instead of negating.
+        0i64.checked_sub_unsigned(posint)
+            .map(Value::Nint)
+            .ok_or_else(|| parse_error(ErrorKind::MalformedInteger, raw.slice))
     } else {
         Ok(Value::Uint(posint))
     }
-- 
2.43.0


From 72d1374e7420527a369fdfcfff9f734f9119341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 14/15] fix: refuse float literals that overflow to infinity

---
 src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e438323..f520dd6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -302,8 +302,9 @@ fn e_exponent(input: &str) -> JResult<&str, &str> {
 #[rustfmt::skip]
 fn parse_float(s: &str) -> Result<Value, CowParseError> {
     match s.parse::<f64>() {
-        Ok(fl) => Ok(Value::Float(fl)),
-        Err(_) => Err(parse_error(ErrorKind::MalformedFloat, s)),
+        // A literal that's too large for an f64 would turn into infinity.
+        Ok(fl) if fl.is_finite() => Ok(Value::Float(fl)),
+        _ => Err(parse_error(ErrorKind::MalformedFloat, s)),
     }
 }
 
-- 
2.43.0


From e556e4e5641fafae8946196e67a5644b15e1f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 15/15] fix: allow double quotes and escaped single quotes in
 byte strings

---
 src/parser/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f520dd6..6dfc8fe 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -418,6 +418,28 @@ fn bchar(input: &str) -> JResult<&str, &str> {
     (input)
 }
 
+// `unescape` expects the content of a text literal, where `"` is written with
+// an escape and `'` is not.  In a byte string it's the other way around.
+fn bchar_to_schar(s: &str) -> String {
+    let mut out = String::with_capacity(s.len());
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => match chars.next() {
+                Some('\'') => out.push('\''),
+                Some(escaped) => {
+                    out.push('\\');
+                    out.push(escaped);
+                }
+                None => out.push('\\'),
+            },
+            c => out.push(c),
+        }
+    }
+    out
+}
+
 // This is basically identical to `text_literal` except that
 // it uses single-quotes.
 #[rustfmt::skip]
@@ -429,7 +451,7 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
+        unescape(bchar_to_schar(s)).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
 }
-- 
2.43.0

