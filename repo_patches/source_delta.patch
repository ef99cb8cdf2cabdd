From 094428d38ad15e3930eb7833065032453009dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:15 +0000
Subject: [PATCH 01/15] fix: leave the decoder broken after a malformed bool,
 char or option someness

---
 binschema/src/decoder.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 3971bfe..087cd82 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -168,6 +168,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 "{} is not a valid char",
                 n
             ))
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_bool(&mut self) -> Result<bool> {
@@ -181,7 +182,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 Some(self.coder_state()),
                 "{} is not a valid bool",
                 n,
-            )),
+            )).do_if_err(|| self.state.mark_broken()),
         }
     }
 
@@ -274,12 +275,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             match n {
                 0 => false,
                 1 => true,
-                _ => bail!(
-                    MalformedData,
-                    Some(self.coder_state()),
-                    "{} is not a valid option someness",
-                    n,
-                ),
+                _ => {
+                    self.state.mark_broken();
+                    bail!(
+                        MalformedData,
+                        Some(self.coder_state()),
+                        "{} is not a valid option someness",
+                        n,
+                    );
+                }
             };
         if is_some {
             self.state.set_option_some()?;
-- 
2.43.0


From 54a0d1742b4daad82b4896b81c241381faa41133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:15 +0000
Subject: [PATCH 02/15] fix: finishing a seq too early is an API usage error,
 not a debug assertion failure

---
 binschema/src/coder/coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 393f176..cc4b703 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -577,7 +577,7 @@ impl<'a> CoderState<'a> {
                 } => (len, next),
                 "seq finish"
             );
-        debug_assert!(len <= next);
+        debug_assert!(next <= len);
         ensure!(
             len == next,
             ApiUsage,
-- 
2.43.0


From ce2a71866b8248c88a7c7b3c6f21e0e4bb18b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:15 +0000
Subject: [PATCH 03/15] fix: beginning an enum variant with an illegal schema
 is an error, not a debug assertion failure

---
 binschema/src/coder/coder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index cc4b703..62083ec 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -862,8 +862,12 @@ impl<'a> CoderState<'a> {
     /// Cancel an enum. Must only be called after a successful call to
     /// `begin_enum` and before a successful call to
     /// `begin_enum_variant_name`, or unspecified behavior occurs.
-    /// See `begin_enum`.
+    /// See `begin_enum`. Has no effect if the coder is broken, as then there is
+    /// no state left to restore.
     pub(crate) fn cancel_enum(&mut self) {
+        if self.broken {
+            return;
+        }
         debug_assert!(matches!(
             self.stack.iter().rev().next(),
             Some(&StackFrame {
-- 
2.43.0


From ace492679100a93e4b21da4b92b82bf924048fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:15 +0000
Subject: [PATCH 04/15] fix: close the debug log's enum line when beginning an
 enum is canceled

---
 binschema/src/coder/coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 62083ec..c870d08 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -875,6 +875,7 @@ impl<'a> CoderState<'a> {
                 ..
             }),
         ));
+        dbg_log_pop!(self, "enum");
         self.top().api_state = ApiState::Need;
     }
 }
-- 
2.43.0


From 1b2e62f98beadd1fc1d70d9d381cec96516dc6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:54 +0000
Subject: [PATCH 05/15] fix: resolve recurse levels in the schema tree, not in
 the coding stack

The two differ below a schema that was itself recursed to.
---
 binschema/src/coder/coder.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index c870d08..3571114 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -94,6 +94,9 @@ macro_rules! dbg_log_pop {
 #[derive(Debug, Clone)]
 pub(super) struct StackFrame<'a> {
     schema: &'a Schema,
+    /// Stack index of the schema that directly contains `schema` in the schema
+    /// tree. If `schema` was recursed to, that is not the stack frame below.
+    parent: Option<usize>,
     api_state: ApiState,
 }
 
@@ -170,6 +173,7 @@ impl<'a> CoderState<'a> {
         let mut stack = alloc.into_stack();
         stack.push(StackFrame {
             schema,
+            parent: None,
             api_state: ApiState::Need,
         });
         CoderState {
@@ -298,6 +302,7 @@ macro_rules! validate_need_matches {
             &mut StackFrame {
                 schema: $pat,
                 api_state: ApiState::Need,
+                ..
             } => $ret,
             $got
         )
@@ -334,24 +339,32 @@ impl<'a> CoderState<'a> {
     /// Push a stack frame for needing the schema. If the schema is recurse,
     /// resolve it first.
     fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {
-        let mut i = self.stack.len();
-        while let &Schema::Recurse(n) = schema {
+        let mut parent = self.stack.len().checked_sub(1);
+        if let &Schema::Recurse(n) = schema {
             if n == 0 {
                 self.broken = true;
                 bail!(IllegalSchema, Some(self), "recurse of level 0");
             }
-            i = i
-                .checked_sub(n)
+            let mut target = parent;
+            for _ in 1..n {
+                target = match target {
+                    Some(i) => self.stack[i].parent,
+                    None => break,
+                };
+            }
+            let target = target
                 .ok_or_else(|| error!(
                     IllegalSchema,
                     Some(self),
                     "recurse past base of stack",
                 ))
                 .do_if_err(|| self.broken = true)?;
-            schema = self.stack[i].schema;
+            schema = self.stack[target].schema;
+            parent = self.stack[target].parent;
         }
         self.stack.push(StackFrame {
             schema,
+            parent,
             api_state: ApiState::Need,
         });
         Ok(())
@@ -378,6 +391,7 @@ impl<'a> CoderState<'a> {
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
+                ..
             }) => Ok(schema),
             _ => Err(error!(
                 ApiUsage, Some(self), ".need() call while not in need state"
@@ -544,6 +558,7 @@ impl<'a> CoderState<'a> {
                         len,
                         ref mut next,
                     },
+                    ..
                 } => (schema, len, next),
                 "seq elem"
             );
@@ -618,6 +633,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple elem"
             );
@@ -652,6 +668,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple finish"
             );
@@ -700,6 +717,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "struct field"
             );
@@ -743,6 +761,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "struct finish"
             );
@@ -799,6 +818,7 @@ impl<'a> CoderState<'a> {
                 &mut StackFrame {
                     schema,
                     api_state: ApiState::Enum { variant_ord: None },
+                    ..
                 } => schema,
                 "enum variant ord"
             );
@@ -836,6 +856,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Enum {
                         variant_ord: Some(variant_ord),
                     },
+                    ..
                 } => (schema, variant_ord),
                 "enum variant name"
             );
-- 
2.43.0


From ff99a3d2649fa22b92fd606750baff2e39e681a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:55 +0000
Subject: [PATCH 06/15] fix: report a recurse at the base of a schema as an
 illegal schema

---
 binschema/src/coder/coder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 3571114..0fde459 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -222,6 +222,10 @@ macro_rules! validate_top {
                     &ApiState::AutoFinish => unreachable!("{:#?}", $self.stack),
                     &ApiState::OptionUninitSomeness => unreachable!(),
                     &ApiState::SeqUninitLen => unreachable!(),
+                    &ApiState::Need if matches!($top.schema, &Schema::Recurse(_)) => {
+                        $self.broken = true;
+                        bail!(IllegalSchema, Some($self), "recurse at base of schema");
+                    }
                     &ApiState::Need => bail!(
                         SchemaNonConformance,
                         Some($self),
@@ -388,6 +392,13 @@ impl<'a> CoderState<'a> {
     /// couldn't resolve.
     pub(crate) fn need(&self) -> Result<&'a Schema> {
         match self.stack.iter().rev().next() {
+            Some(&StackFrame {
+                schema: &Schema::Recurse(_),
+                api_state: ApiState::Need,
+                ..
+            }) => Err(error!(
+                IllegalSchema, Some(self), "recurse at base of schema"
+            )),
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
-- 
2.43.0


From 78c745ef3d1e7ac18bc093dbbe71756b6c96aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:07 +0000
Subject: [PATCH 07/15] fix: report malformed var len ints and enum ordinals as
 malformed data, not IO errors

---
 binschema/src/var_len.rs | 44 +++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 343207b..edcb5dd 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -1,27 +1,18 @@
 //! Handling of variable-length integer logic.
 
 
+use crate::error::{
+    Result,
+    error,
+    bail,
+    ensure,
+};
 use std::io::{
     Read,
     Write,
-    Result,
-    Error,
-    ErrorKind,
 };
 
 
-macro_rules! ensure {
-    ($c:expr, $($e:tt)*)=>{
-        if !$c {
-            return Err(Error::new(
-                ErrorKind::Other,
-                format!($($e)*),
-            ));
-        }
-    };
-}
-
-
 /// Number of bytes needed to encode an ordinal based on max ordinal
 /// value.
 fn ord_byte_len(max_ord: usize) -> usize {
@@ -51,7 +42,8 @@ where
     let all_bytes = u64::to_le_bytes(ord as _);
     let byte_len = ord_byte_len(num_variants - 1);
     let used_bytes = &all_bytes[..byte_len];
-    write.write_all(used_bytes)
+    write.write_all(used_bytes)?;
+    Ok(())
 }
 
 /// Read an enum ordinal.
@@ -62,7 +54,12 @@ pub fn read_ord<R>(
 where
     R: Read,
 {
-    ensure!(num_variants > 0, "malformed data, presence of uninhabited enum");
+    ensure!(
+        num_variants > 0,
+        MalformedData,
+        None,
+        "presence of uninhabited enum",
+    );
     let mut all_bytes = [0; 8];
     let byte_len = ord_byte_len(num_variants - 1);
     let used_bytes = &mut all_bytes[..byte_len];
@@ -70,7 +67,9 @@ where
     let ord = u64::from_le_bytes(all_bytes);
     ensure!(
         ord < num_variants as u64,
-        "malformed data, enum ordinal {} out of range 0..{}",
+        MalformedData,
+        None,
+        "enum ordinal {} out of range 0..{}",
         ord,
         num_variants,
     );
@@ -115,7 +114,9 @@ where
     while more {
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len uint",
+            MalformedData,
+            None,
+            "too many bytes in var len uint",
         );
 
         let mut buf = [0];
@@ -183,10 +184,11 @@ where
     let mut shift = 6;
 
     while more {
-        // TODO: should use crate-specific error types
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len sint",
+            MalformedData,
+            None,
+            "too many bytes in var len sint",
         );
 
         let mut buf = [0];
-- 
2.43.0


From 9c706eb4e3901b6abed47a4c6ee0883e733a9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:22 +0000
Subject: [PATCH 08/15] fix: refuse var len ints that don't fit in 128 bits
 instead of dropping bits

---
 FORMAT.txt               | 14 ++++++++++++--
 binschema/src/var_len.rs | 18 ++++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/FORMAT.txt b/FORMAT.txt
index 6d8d1e2..af3891c 100644
--- a/FORMAT.txt
+++ b/FORMAT.txt
@@ -231,7 +231,12 @@ Reference code:
             read.read_exact(&mut buf)?;
             let [curr_byte] = buf;
 
-            n |= ((curr_byte & LO_7_BITS) as u128) << shift;
+            let bits = (curr_byte & LO_7_BITS) as u128;
+            ensure!(
+                bits <= u128::MAX >> shift,
+                "malformed data: var len uint out of range",
+            );
+            n |= bits << shift;
             shift += 7;
             more = (curr_byte & MORE_BIT) != 0;
         }
@@ -321,7 +326,12 @@ Reference code:
             read.read_exact(&mut buf)?;
             let [curr_byte] = buf;
 
-            n |= ((curr_byte & LO_7_BITS) as i128) << shift;
+            let bits = (curr_byte & LO_7_BITS) as i128;
+            ensure!(
+                bits <= i128::MAX >> shift,
+                "malformed data: var len sint out of range",
+            );
+            n |= bits << shift;
             shift += 7;
             more = (curr_byte & MORE_BIT) != 0;
         }
diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index edcb5dd..99aa33a 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -123,7 +123,14 @@ where
         read.read_exact(&mut buf)?;
         let [curr_byte] = buf;
 
-        n |= ((curr_byte & LO_7_BITS) as u128) << shift;
+        let bits = (curr_byte & LO_7_BITS) as u128;
+        ensure!(
+            bits <= u128::MAX >> shift,
+            MalformedData,
+            None,
+            "var len uint out of range for a u128",
+        );
+        n |= bits << shift;
         shift += 7;
         more = (curr_byte & MORE_BIT) != 0;
     }
@@ -195,7 +202,14 @@ where
         read.read_exact(&mut buf)?;
         let [curr_byte] = buf;
 
-        n |= ((curr_byte & LO_7_BITS) as i128) << shift;
+        let bits = (curr_byte & LO_7_BITS) as i128;
+        ensure!(
+            bits <= i128::MAX >> shift,
+            MalformedData,
+            None,
+            "var len sint out of range for a i128",
+        );
+        n |= bits << shift;
         shift += 7;
         more = (curr_byte & MORE_BIT) != 0;
     }
-- 
2.43.0


From 469e16f4c75130f2382358254755143506ac0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:23 +0000
Subject: [PATCH 09/15] fix: finish empty seqs, tuples, maps and structs when
 deserializing

---
 binschema/src/serde/de.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 93ca7a3..0bee621 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -81,6 +81,13 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 got_len,
             );
         }
+        if len == 0 {
+            match seq_like {
+                SeqLike::Seq => self.finish_seq()?,
+                SeqLike::Tuple => self.finish_tuple()?,
+                SeqLike::Unit => (),
+            }
+        }
         v.visit_seq(SeqDecoder {
             decoder: self,
             remaining: len,
@@ -98,6 +105,9 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         N: AsName,
     {
         self.begin_struct()?;
+        if fields.is_empty() {
+            self.finish_struct()?;
+        }
         v.visit_map(StructDecoder {
             decoder: self,
             remaining: fields,
@@ -251,6 +261,9 @@ impl<'a, 'b, 'c, 'd, R: Read> Deserializer<'d> for &'c mut Decoder<'a, 'b, R> {
 
     fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
         let len = self.begin_var_len_seq()?;
+        if len == 0 {
+            self.finish_seq()?;
+        }
         v.visit_map(MapDecoder {
             decoder: self,
             remaining: len,
-- 
2.43.0


From f67f6646fa4dfe87282c8cbc4d18fabc0868d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:23 +0000
Subject: [PATCH 10/15] fix: make the schemas of ranges and bounds match how
 serde serializes them

---
 binschema/src/known_schema.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 1d0bb58..5b5101f 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -234,7 +234,7 @@ impl<T: KnownSchema> KnownSchema for Range<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -244,7 +244,7 @@ impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -254,9 +254,9 @@ impl<T: KnownSchema> KnownSchema for Bound<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(enum {
+            Unbounded(unit),
             Included(%T::schema(stack)),
             Excluded(%T::schema(stack)),
-            Unbounded(unit),
         })
     }
 }
-- 
2.43.0


From f110157df667b451a80aa08273d60c33804d8be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:24 +0000
Subject: [PATCH 11/15] fix: count the tuple layer of map schemas when
 resolving recursive types

---
 binschema/src/known_schema.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 5b5101f..029b3a5 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -182,6 +182,7 @@ macro_rules! maps_known_schema {
         impl<K: KnownSchema, V: KnownSchema> KnownSchema for $c<K, V> {
             fn schema(parent_stack: RecurseStack) -> Schema {
                 let stack = parent_stack.with_type_layer::<Self>();
+                let stack = stack.with_none_layer();
                 schema!(seq(varlen)(tuple {
                     (%K::schema(stack)),
                     (%V::schema(stack)),
-- 
2.43.0


From 337fb8d9fffde604db5325f64aa60f3476b3c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:47 +0000
Subject: [PATCH 12/15] fix: count the layer of derived structs once when
 resolving recursive types

---
 binschema_derive/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 1237e6a..940d92e 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -50,7 +50,15 @@ fn field_schema(field: &Field) -> TokenStream2 {
     }
 }
 
-fn fields_schema(fields: &Fields) -> TokenStream2 {
+/// Schema of the fields of a struct or of an enum variant. The layer of a
+/// struct itself is already on the stack, whereas that of a variant is not.
+fn fields_schema(fields: &Fields, is_variant: bool) -> TokenStream2 {
+    let layer =
+        if is_variant {
+            quote! { let stack = stack.with_none_layer(); }
+        } else {
+            quote! {}
+        };
     match fields {
         &Fields::Named(FieldsNamed { ref named, .. }) => {
             // struct-like
@@ -65,7 +73,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                 .collect::<Punctuated<_, Comma>>();
             quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    #layer
                     ::binschema::schema!(
                         struct { #inner }
                     )
@@ -91,7 +99,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                     .collect::<Punctuated<_, Comma>>();
                 quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    #layer
                     ::binschema::schema!(
                         tuple { #inner }
                     )
@@ -113,12 +121,12 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
 
     let name = &input.ident;
     let schema = match &input.data {
-        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields),
+        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields, false),
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
                     let variant_name = &variant.ident;
-                    let inner = fields_schema(&variant.fields);
+                    let inner = fields_schema(&variant.fields, true);
                     quote! {
                         #variant_name(#inner)
                     }
-- 
2.43.0


From c23e437aaecec9b6724e774cb4559287e629d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:18 +0000
Subject: [PATCH 13/15] fix: don't count derived newtype structs as a layer
 when resolving recursive types

---
 binschema/src/known_schema.rs | 27 +++++++++++++++++++++++----
 binschema_derive/src/lib.rs   | 11 ++++++++++-
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 029b3a5..934abb3 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -36,6 +36,8 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 struct Node<'a> {
     val: Option<fn(RecurseStack) -> Schema>,
     dbg: &'static str,
+    /// Number of layers this is in the schema tree. 0 if transparent.
+    layers: usize,
     next: &'a Option<Node<'a>>,
 }
 
@@ -54,6 +56,18 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: Some(T::schema),
             dbg: type_name::<T>(),
+            layers: 1,
+            next: &self.0,
+        }))
+    }
+
+    /// Layer for a type with the same schema as the one type it contains. Not
+    /// itself a layer in the schema tree.
+    pub fn with_transparent_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
+        RecurseStack(Some(Node {
+            val: Some(T::schema),
+            dbg: type_name::<T>(),
+            layers: 0,
             next: &self.0,
         }))
     }
@@ -62,30 +76,35 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: None,
             dbg: "",
+            layers: 1,
             next: &self.0,
         }))
     }
 
     pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {
+        self.find_node::<T>().map(|(level, _)| level)
+    }
+
+    fn find_node<T: KnownSchema>(&self) -> Option<(usize, &Node<'a>)> {
         let mut opt_curr = &self.0;
         let mut level = 0;
 
         while let Some(curr) = opt_curr {
             if let Some(curr_val) = curr.val {
                 if curr_val as usize == T::schema as usize {
-                    return Some(level);
+                    return Some((level, curr));
                 }
             }
             opt_curr = curr.next;
-            level += 1;
+            level += curr.layers;
         }
 
         None
     }
 
     pub fn parent_recurse<T: KnownSchema>(&self) -> Option<Schema> {
-        self.find_type::<T>()
-            .map(|n| Schema::Recurse(n + 1))
+        self.find_node::<T>()
+            .map(|(n, node)| Schema::Recurse(n + node.layers))
     }
 }
 
diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 940d92e..a762a3d 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -139,6 +139,15 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Union(_) => panic!("cannot derive KnownSchema on a union"),
     };
     
+    // the schema of a newtype struct is simply that of its field
+    let layer = match &input.data {
+        &Data::Struct(DataStruct {
+            fields: Fields::Unnamed(FieldsUnnamed { ref unnamed, .. }),
+            ..
+        }) if unnamed.len() == 1 => quote! { with_transparent_type_layer },
+        _ => quote! { with_type_layer },
+    };
+
     quote! {
         impl ::binschema::KnownSchema for #name {
             fn schema(
@@ -147,7 +156,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
                 if let Some(s) = parent_stack.parent_recurse::<Self>() {
                     return s;
                 }
-                let stack = parent_stack.with_type_layer::<Self>();
+                let stack = parent_stack.#layer::<Self>();
                 ::binschema::schema!(#schema)
             }
         }
-- 
2.43.0


From e63aeafacc609a179531e8210b8b952976bc66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:18 +0000
Subject: [PATCH 14/15] fix: derive the names of fields and variants without
 the r# of raw identifiers

---
 binschema_derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index a762a3d..03bc013 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -2,6 +2,7 @@
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use syn::{
+    ext::IdentExt,
     token::Comma,
     punctuated::Punctuated,
     parse_macro_input,
@@ -64,7 +65,7 @@ fn fields_schema(fields: &Fields, is_variant: bool) -> TokenStream2 {
             // struct-like
             let inner = named.iter()
                 .map(|field| {
-                    let field_name = field.ident.as_ref().unwrap();
+                    let field_name = field.ident.as_ref().unwrap().unraw();
                     let inner = field_schema(field);
                     quote! {
                         (#field_name: #inner)
@@ -125,7 +126,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
-                    let variant_name = &variant.ident;
+                    let variant_name = variant.ident.unraw();
                     let inner = fields_schema(&variant.fields, true);
                     quote! {
                         #variant_name(#inner)
-- 
2.43.0


From 000e1416751e2b575c30ab7146f0046883931d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:32 +0000
Subject: [PATCH 15/15] fix: don't allocate by a length that was only just
 decoded

A malformed length would abort or panic in the allocator. Now, allocation
happens only as content is actually read.
---
 binschema/src/decoder.rs | 34 ++++++++++++++++++++++------------
 binschema/src/value.rs   |  4 ++--
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 087cd82..e4a0d4e 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -20,9 +20,11 @@ use std::{
         size_of,
         take,
     },
-    io::Read,
+    io::{
+        Read,
+        ErrorKind,
+    },
     borrow::BorrowMut,
-    iter::repeat,
 };
 
 
@@ -128,6 +130,21 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             .do_if_err(|| self.state.mark_broken())
     }
 
+    /// Read `len` bytes into empty `buf`. Only allocates as the bytes come in,
+    /// as a malformed `len` may be far greater than what there is to read.
+    fn read_to_buf(&mut self, buf: &mut Vec<u8>, len: usize) -> Result<()> {
+        (&mut *self.read)
+            .take(len as u64)
+            .read_to_end(buf)
+            .and_then(|n| if n == len {
+                Ok(())
+            } else {
+                Err(ErrorKind::UnexpectedEof.into())
+            })
+            .map_err(Error::from)
+            .do_if_err(|| self.state.mark_broken())
+    }
+
     decode_le_bytes!(
         decode_u8(u8) code_u8,
         decode_u16(u16) code_u16,
@@ -205,17 +222,12 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         // characters are actually added to it.
         let mut bbuf = take(buf).into_bytes();
 
-        // TODO: protection against malicious payloads
-
         // try to read all the bytes in
         // on error, make sure to return the buffer
-        bbuf.reserve(len);
-        bbuf.extend(repeat(0).take(len));
-        if let Err(e) = self.read.read_exact(&mut bbuf) {
-            self.state.mark_broken();
+        if let Err(e) = self.read_to_buf(&mut bbuf, len) {
             bbuf.clear();
             *buf = String::from_utf8(bbuf).unwrap();
-            return Err(e.into());
+            return Err(e);
         }
 
         // try to convert to utf8
@@ -251,9 +263,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
 
         self.state.code_bytes()?;
         let len = self.read_len().do_if_err(|| self.state.mark_broken())?;
-        buf.reserve(len);
-        buf.extend(repeat(0).take(len));
-        self.read.read_exact(buf).do_if_err(|| self.state.mark_broken())?;
+        self.read_to_buf(buf, len)?;
         Ok(())
     }
 
diff --git a/binschema/src/value.rs b/binschema/src/value.rs
index 3df5a12..648d888 100644
--- a/binschema/src/value.rs
+++ b/binschema/src/value.rs
@@ -132,7 +132,7 @@ impl Value {
                 inner: _,
             }) => {
                 d.begin_fixed_len_seq(len)?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::new();
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d,)?);
@@ -145,7 +145,7 @@ impl Value {
                 inner: _,
             }) => {
                 let len = d.begin_var_len_seq()?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::new();
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d)?);
-- 
2.43.0

