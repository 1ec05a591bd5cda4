From f1a9366bfddd8dbec47c7e6a9b30c99e5c468909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 01/30] fix: reject opaque data whose padding is missing

read_bytes() checked that the payload was present but then advanced past the
payload and its padding, panicking when the buffer ended inside the padding.
---
 src/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index bd6e379..0d3d2f5 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -133,15 +133,16 @@ pub mod xdr {
 
         /// Try to read an opaque XDR array with a fixed length and padded modulo 4.
         fn read_bytes(&mut self, n: usize) -> Result<Self::Sliced, Error> {
-            // Validate the buffer contains enough data
-            if self.remaining() < n {
+            // Validate the buffer contains enough data, including any padding.
+            let padded = n.checked_add(pad_length(n)).ok_or(Error::InvalidLength)?;
+            if self.remaining() < padded {
                 return Err(Error::InvalidLength);
             }
 
             let data = self.slice(..n);
 
             // Advance the buffer cursor, including any padding.
-            self.advance(n + pad_length(n));
+            self.advance(padded);
 
             Ok(data)
         }
-- 
2.43.0


From 59cc5699e78eb668fd20a17d01640f5da3b476b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 02/30] fix: do not size array allocations from the wire count

read_variable_array() reserved room for as many elements as the length prefix
claimed, aborting the process (or requesting gigabytes) on a short input with
a large count.
---
 src/header.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 0d3d2f5..d9036e8 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -161,7 +161,10 @@ pub mod xdr {
 
             // Try and decode n instances of T.
             let mut sum = 0;
-            let mut out = Vec::with_capacity(n);
+            //
+            // The element count is not trusted to size the allocation - it may
+            // be far larger than the number of elements in the buffer.
+            let mut out = Vec::new();
             for _ in 0..n {
                 let t = T::try_from(self.clone())?;
                 if self.remaining() < t.wire_size() {
-- 
2.43.0


From 4d8546f30373b0948dae5679de40f75327188643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 03/30] fix: check for array padding before skipping it

read_variable_array() advanced past the padding of its elements without
checking that the buffer holds it.
---
 src/header.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index d9036e8..12f2af8 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -175,6 +175,9 @@ pub mod xdr {
                 out.push(t);
             }
 
+            if self.remaining() < pad_length(sum) {
+                return Err(Error::InvalidLength);
+            }
             self.advance(pad_length(sum));
 
             Ok(out)
-- 
2.43.0


From 08800c89dd55b2e90aa1a9321a9c137e99e15591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 04/30] fix: generated code only needs fastxdr as a dependency

The derive of thiserror 2 expands to paths starting at ::thiserror, so the
generated module did not compile in a crate that, as the README says, depends
on fastxdr alone. Write the (unchanged) error implementations out instead.
---
 src/header.rs | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 12f2af8..e852e0d 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -10,29 +10,45 @@ pub mod xdr {
     use std::mem::size_of;
     
     use fastxdr::bytes::{Buf, Bytes};
-    use fastxdr::thiserror::Error;
 
-    #[derive(Debug, Error, PartialEq)]
+    #[derive(Debug, PartialEq)]
     pub enum Error {
-        #[error("invalid message length")]
         InvalidLength,
-
-        #[error("non-utf8 characters in string: {0}")]
-        NonUtf8String(#[from] std::string::FromUtf8Error),
-
-        #[error("invalid boolean value")]
+        NonUtf8String(std::string::FromUtf8Error),
         InvalidBoolean,
-
-        #[error("unknown enum variant {0}")]
         UnknownVariant(i32),
-
-        #[error("unknown option variant {0}")]
         UnknownOptionVariant(u32),
-
-        #[error("{0}")]
         Unknown(String),
     }
 
+    impl std::fmt::Display for Error {
+        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+            match self {
+                Self::InvalidLength => write!(f, "invalid message length"),
+                Self::NonUtf8String(e) => write!(f, "non-utf8 characters in string: {}", e),
+                Self::InvalidBoolean => write!(f, "invalid boolean value"),
+                Self::UnknownVariant(v) => write!(f, "unknown enum variant {}", v),
+                Self::UnknownOptionVariant(v) => write!(f, "unknown option variant {}", v),
+                Self::Unknown(s) => write!(f, "{}", s),
+            }
+        }
+    }
+
+    impl std::error::Error for Error {
+        fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+            match self {
+                Self::NonUtf8String(e) => Some(e),
+                _ => None,
+            }
+        }
+    }
+
+    impl From<std::string::FromUtf8Error> for Error {
+        fn from(e: std::string::FromUtf8Error) -> Self {
+            Self::NonUtf8String(e)
+        }
+    }
+
     pub trait DeserialiserExt {
         type Sliced: WireSize + IntoIterator<Item = u8>;
         type TryFrom;
-- 
2.43.0


From 36a2c0ae0c6530c714c716037bcd41309bf62aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 05/30] fix: match TRUE and FALSE labels of void arms as
 booleans

A void arm labelled TRUE or FALSE was emitted as the bare identifier, which is
a binding that matches every value.
---
 src/impls/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index d3194ef..302f73c 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -157,7 +157,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         enum_name, variant, v.switch.var_type,
                                     ),
                                 })
-                                .unwrap_or_else(|| other.to_string()),
+                                .unwrap_or_else(|| SafeName(other).to_string()),
                         };
                         writeln!(
                             w,
-- 
2.43.0


From 5dcef306d651a89c7a379ec8296fe9f99cfa2880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 06/30] fix: write the void default branch after all other
 branches

`default: void;` followed by more void cases put the wildcard before them, so
their discriminants decoded as the default.
---
 src/impls/from.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 302f73c..4e9a7a2 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -140,9 +140,11 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     for c in v.void_cases.iter() {
                         let variant = c.as_str();
                         let matcher = match variant {
+                            // The wildcard hides every branch after it, so it
+                            // is written once all the others are.
                             "default" => {
                                 did_void_default = true;
-                                "_".to_string()
+                                continue;
                             }
                             other => ast
                                 .constants()
@@ -180,7 +182,9 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             try_from,
                         )?;
                         writeln!(w, "),")?;
-                    } else if !did_void_default {
+                    } else if did_void_default {
+                        writeln!(w, "_ => Self::default,")?;
+                    } else {
                         writeln!(w, "d => return Err(Error::UnknownVariant(d as i32)),")?;
                     }
 
-- 
2.43.0


From cd7ef7bf6854daa3a94de664f752a6561d983b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 07/30] fix: do not implement traits for typedefs to self

`typedef unsigned int uint32_t;` declares no new type, but decoders and
wire_size() were emitted for it - as impls for u32, which do not compile.
---
 src/impls/from.rs      | 3 +++
 src/impls/wire_size.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 4e9a7a2..554a6ed 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -205,6 +205,9 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                 })?
             }
 
+            // No type is generated for typedefs to self.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => print_try_from(
                 &mut w,
                 template,
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 3395dde..d021d84 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -80,6 +80,9 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                 })?;
             }
 
+            // No type is generated for typedefs to self.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => {
                 print_impl(
                     &mut w,
-- 
2.43.0


From c1ddfe886c987eb9cda654e7f82a54ae607c2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 08/30] fix: decode optional primitives with their reader

`unsigned int *x;` was decoded with u32::try_from(), which does not exist for
Bytes.
---
 src/impls/from.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 554a6ed..0c8fdb4 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -46,12 +46,15 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             // 		}
                             writeln!(w, "{{ match v.read_u32()? {{")?;
                             writeln!(w, "0 => None,")?;
-                            writeln!(
+                            write!(w, "1 => Some(Box::new(")?;
+                            print_decode_basic_type(
                                 w,
-                                "1 => Some(Box::new({}::try_from({})?)),",
                                 f.field_value.unwrap_array(),
-                                try_from
+                                ast,
+                                TypeResolve::UseAlias,
+                                try_from,
                             )?;
+                            writeln!(w, "?)),")?;
                             writeln!(w, "d => return Err(Error::UnknownOptionVariant(d)),")?;
                             writeln!(w, "}}}},")?;
                         } else {
-- 
2.43.0


From c894beb6a4758bb1d353b34aa0d3de589a49573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 09/30] fix: print exactly the generated code

The CLI appended a newline to the text the library generates.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index db6a188..b182a2b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ fn main() -> Result<()> {
     for e in env::args().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
-        println!("{}", code);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 252cfe7a807cb546f74550c2302c7fc7e82d29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 10/30] fix: treat every reserved word of Rust as reserved

Fields named `try`, `abstract`, `final`, ... produced code that does not
compile.
---
 src/ast/basic_type.rs | 12 +++++++-----
 src/impls/mod.rs      | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ast/basic_type.rs b/src/ast/basic_type.rs
index 4adb135..bafe250 100644
--- a/src/ast/basic_type.rs
+++ b/src/ast/basic_type.rs
@@ -42,11 +42,13 @@ impl<'a> BasicType {
         };
 
         match name.as_str() {
-            "as" | "async" | "await" | "break" | "const" | "continue" | "crate" | "dyn"
-            | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
-            | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
-            | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => format!("{}_v", name),
+            "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const"
+            | "continue" | "crate" | "do" | "dyn" | "else" | "enum" | "extern" | "false"
+            | "final" | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop" | "macro"
+            | "match" | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return"
+            | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "try"
+            | "type" | "typeof" | "union" | "unsafe" | "unsized" | "use" | "virtual" | "where"
+            | "while" | "yield" => format!("{}_v", name),
             _ => name,
         }
     }
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6a3eedb..be244fb 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -19,11 +19,13 @@ where
 {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self.0.as_ref() {
-            "as" | "async" | "await" | "break" | "const" | "continue" | "crate" | "dyn"
-            | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
-            | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
-            | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => write!(f, "{}_v", self.0.as_ref()),
+            "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const"
+            | "continue" | "crate" | "do" | "dyn" | "else" | "enum" | "extern" | "false"
+            | "final" | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop" | "macro"
+            | "match" | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return"
+            | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "try"
+            | "type" | "typeof" | "union" | "unsafe" | "unsized" | "use" | "virtual" | "where"
+            | "while" | "yield" => write!(f, "{}_v", self.0.as_ref()),
             "TRUE" | "FALSE" => write!(f, "{}", self.0.as_ref().to_lowercase()),
             _ => write!(f, "{}", self.0.as_ref()),
         }
-- 
2.43.0


From 49a6df4dd28dc41b725c5c69379a0108e6b2cf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 11/30] fix: accept hex constants as array sizes

`const SIZE = 0x10; opaque a<SIZE>;` was rejected as an invalid digit.
---
 src/impls/from.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 0c8fdb4..99f1693 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -359,7 +359,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or(format!("unknown constant {}", size))?;
 
-            print_fixed(w, t, size.parse()?)?
+            print_fixed(w, t, parse_size(&size)?)?
         }
         ArrayType::VariableSize(t, Some(ArraySize::Known(size))) => {
             print_variable(w, t, Some(*size))?
@@ -372,7 +372,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or("unknown constant")?;
 
-            print_variable(w, t, Some(size.parse()?))?;
+            print_variable(w, t, Some(parse_size(&size)?))?;
         }
         ArrayType::VariableSize(t, None) => {
             print_variable(w, t, None)?;
@@ -382,6 +382,14 @@ where
     Ok(())
 }
 
+/// Parses the value of a constant used as an array size, in decimal or hex.
+fn parse_size(v: &str) -> Result<u32> {
+    Ok(match v.strip_prefix("0x") {
+        Some(hex) => u32::from_str_radix(hex, 16)?,
+        None => v.parse()?,
+    })
+}
+
 /// Generates the template required to decode `t` from a variable called `v`
 /// that implements the reader trait.
 ///
-- 
2.43.0


From f95ba43269293ee96e60991ef5b149a27c1fe2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 12/30] fix: fixed length opaque typedefs have no length prefix

wire_size() of `typedef opaque x[N];` counted a length prefix that is not on
the wire.
---
 src/impls/wire_size.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index d021d84..7a3d623 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::AstType, Ast, BasicType};
+use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -93,9 +93,14 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "self.0.wire_size()")?;
 
                         // If the target is opaque, it needs padding, and a
-                        // length prefix adding.
+                        // length prefix adding (unless it has a fixed length).
                         if let BasicType::Opaque = v.target {
-                            writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?;
+                            match v.alias {
+                                ArrayType::FixedSize(..) => {
+                                    writeln!(w, "+ pad_length(self.0.wire_size())")?
+                                }
+                                _ => writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?,
+                            }
                         }
 
                         Ok(())
-- 
2.43.0


From 83ee580d59fd49f7bef9849ebbe3a17c9518261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 13/30] fix: count the length prefix of in-line opaques

wire_size() of a struct with an `opaque x<>` field was 4 bytes short, so arrays
of such structs were decoded from the wrong offsets.
---
 src/impls/wire_size.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 7a3d623..ff31baf 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -23,6 +23,11 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                                 SafeName(&f.field_name)
                             )?;
                         }
+
+                        // And a length prefix if they're counted
+                        if is_counted_opaque(&f.field_value) {
+                            writeln!(w, " 4 +")?;
+                        }
                     }
 
                     writeln!(w, "0")?;
@@ -52,10 +57,14 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
 
                             // In-line opaques require padding
                             if case.contains_opaque() {
-                                writeln!(w, r#" + pad_length(inner.wire_size()),"#)?;
-                            } else {
-                                writeln!(w, ",")?;
+                                write!(w, r#" + pad_length(inner.wire_size())"#)?;
+                            }
+
+                            // And a length prefix if they're counted
+                            if is_counted_opaque(&case.field_value) {
+                                write!(w, " + 4")?;
                             }
+                            writeln!(w, ",")?;
                         }
                     }
 
@@ -113,6 +122,11 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
     Ok(())
 }
 
+/// Returns true if `t` is an opaque with a length prefix.
+fn is_counted_opaque(t: &ArrayType<BasicType>) -> bool {
+    matches!(t, ArrayType::VariableSize(BasicType::Opaque, _))
+}
+
 fn print_impl<W: std::fmt::Write, T: FromTemplate, F: Fn(&mut W) -> Result<()>>(
     mut w: W,
     template: T,
-- 
2.43.0


From ebd5c285cbe51322dac180b2b00f823efedac9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 14/30] fix: count the length prefix of opaques declared
 without a length

`opaque x;` is decoded as counted opaque data, but wire_size() did not include
its length prefix.
---
 src/ast/lower.rs | 32 ++++++++++++++++++++++++++++++++
 src/ast/mod.rs   |  2 ++
 src/lib.rs       |  2 +-
 3 files changed, 35 insertions(+), 1 deletion(-)
 create mode 100644 src/ast/lower.rs

diff --git a/src/ast/lower.rs b/src/ast/lower.rs
new file mode 100644
index 0000000..002eb94
--- /dev/null
+++ b/src/ast/lower.rs
@@ -0,0 +1,32 @@
+use super::*;
+
+impl Ast {
+    /// Rewrites declarations into the equivalent form code is generated from.
+    pub(crate) fn lower(mut self) -> Result<Self> {
+        for item in self.type_index.0.values_mut() {
+            match item {
+                AstType::Struct(v) => {
+                    for f in v.fields.iter_mut().filter(|f| !f.is_optional) {
+                        lower_opaque(&mut f.field_value);
+                    }
+                }
+                AstType::Union(v) => {
+                    for c in v.cases.iter_mut().chain(v.default.iter_mut()) {
+                        lower_opaque(&mut c.field_value);
+                    }
+                }
+                AstType::Enum(_) | AstType::Typedef(_) => {}
+            }
+        }
+
+        Ok(self)
+    }
+}
+
+/// An opaque without a length is decoded as a counted opaque - `opaque x` is
+/// `opaque x<>`.
+fn lower_opaque(v: &mut ArrayType<BasicType>) {
+    if let ArrayType::None(BasicType::Opaque) = v {
+        *v = ArrayType::VariableSize(BasicType::Opaque, None);
+    }
+}
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 9cd4c38..1fce1e4 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -22,6 +22,8 @@ pub use typedef::*;
 pub mod indexes;
 use indexes::*;
 
+mod lower;
+
 pub trait CompoundType {
     fn inner_types(&self) -> Vec<&ArrayType<BasicType>>;
     fn contains_opaque(&self) -> bool;
diff --git a/src/lib.rs b/src/lib.rs
index c532500..bd6646a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -87,7 +87,7 @@ impl Generator {
 
     pub fn generate<T: AsRef<str>>(&self, xdr: T) -> Result<String> {
         // Create the AST
-        let ast = crate::ast::Ast::new(xdr.as_ref())?;
+        let ast = crate::ast::Ast::new(xdr.as_ref())?.lower()?;
 
         let mut out = String::new();
 
-- 
2.43.0


From 0a19c163f6757b0dcd6beebe7bd64c68b8538865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 15/30] fix: enforce the bound of opaque and string typedefs

The maximum length of `typedef opaque x<N>;` was dropped when parsing, and
`typedef string x<N>;` was generated as an array of strings.
---
 src/ast/typedef.rs |  5 -----
 src/impls/from.rs  | 12 ++++++------
 src/impls/types.rs |  6 ++++++
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/ast/typedef.rs b/src/ast/typedef.rs
index 1ca7ad8..e612394 100644
--- a/src/ast/typedef.rs
+++ b/src/ast/typedef.rs
@@ -25,11 +25,6 @@ impl Typedef {
             match vs.remove(0) {
                 Node::ArrayFixed(s) => ArrayType::FixedSize(alias, ArraySize::from(s)),
 
-                // Typedefs to opaque types include a variable array identifier so the
-                // caller knows to read the length prefix bytes. This is already handled
-                // by the opaque reader however, so map this to a "no array" wrapper.
-                Node::ArrayVariable(_) if target.is_opaque() => ArrayType::None(alias),
-
                 Node::ArrayVariable(s) => ArrayType::VariableSize(
                     alias,
                     match s.trim() {
diff --git a/src/impls/from.rs b/src/impls/from.rs
index 99f1693..03a07c1 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -317,17 +317,17 @@ where
 
     // Print a length-prefixed variable sized array, or a string with a maximum value.
     let print_variable = |w: &mut W, t: &BasicType, size: Option<u32>| -> Result<()> {
-        let mut type_str = t.to_string();
+        let mut t = t;
 
         // If requested, resolve a typedef the type to the target type.
         if !resolve_typedefs.use_alias() {
-            type_str = ast
-                .types()
-                .get(&type_str)
-                .map(|t| t.to_string())
-                .unwrap_or(type_str)
+            if let Some(typedef) = ast.types().typedef_target(t.as_str()) {
+                t = &typedef.target;
+            }
         }
 
+        let mut type_str = t.to_string();
+
         if ast.generics().contains(type_str.as_str()) {
             type_str = format!("{}<{}>", type_str, template.type_name());
         };
diff --git a/src/impls/types.rs b/src/impls/types.rs
index 974c385..acad527 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -140,6 +140,12 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     continue;
                 }
 
+                // And likewise for strings.
+                if v.target == BasicType::String {
+                    writeln!(w, "(pub String);")?;
+                    continue;
+                }
+
                 if ast.generics().contains(v.target.as_str()) {
                     write!(w, " (pub ")?;
                     target.write_with_bounds(w, Some(&["T"]))?;
-- 
2.43.0


From 886f4e6943a0509291af7fbf521de9c891f20d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 16/30] fix: carry the value of a union default arm in its
 variant

The decoder built `Self::default(value)` while the type declared a variant
without a payload, and wire_size() matched both, so a union with a value in its
default arm did not compile.
---
 src/ast/lower.rs       | 14 ++++++++++++++
 src/impls/from.rs      |  2 +-
 src/impls/types.rs     | 10 ++++++++--
 src/impls/wire_size.rs |  4 ----
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/ast/lower.rs b/src/ast/lower.rs
index 002eb94..63c5b32 100644
--- a/src/ast/lower.rs
+++ b/src/ast/lower.rs
@@ -14,6 +14,7 @@ impl Ast {
                     for c in v.cases.iter_mut().chain(v.default.iter_mut()) {
                         lower_opaque(&mut c.field_value);
                     }
+                    lower_default(v);
                 }
                 AstType::Enum(_) | AstType::Typedef(_) => {}
             }
@@ -23,6 +24,19 @@ impl Ast {
     }
 }
 
+/// Labels that fall through to a default with a value select a variant of their
+/// own, like the labels of any other case.
+fn lower_default(v: &mut Union) {
+    if let Some(ref mut d) = v.default {
+        let mut c = d.clone();
+        c.case_values.retain(|v| v != "default");
+        d.case_values.retain(|v| v == "default");
+        if !c.case_values.is_empty() {
+            v.cases.push(c);
+        }
+    }
+}
+
 /// An opaque without a length is decoded as a counted opaque - `opaque x` is
 /// `opaque x<>`.
 fn lower_opaque(v: &mut ArrayType<BasicType>) {
diff --git a/src/impls/from.rs b/src/impls/from.rs
index 03a07c1..4683326 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -181,7 +181,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             template,
                             &d.field_value,
                             ast,
-                            TypeResolve::UseTarget,
+                            TypeResolve::UseAlias,
                             try_from,
                         )?;
                         writeln!(w, "),")?;
diff --git a/src/impls/types.rs b/src/impls/types.rs
index acad527..fb87f2c 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -91,8 +91,14 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     writeln!(w, "{},", NonDigitName(SafeName(c.as_str())))?;
                 }
 
-                if v.default.is_some() {
-                    writeln!(w, "default,")?;
+                if let Some(ref d) = v.default {
+                    match d.field_value.unwrap_array() {
+                        BasicType::Opaque => writeln!(w, "default(T),")?,
+                        BasicType::Ident(i) if ast.generics().contains(i.as_ref()) => {
+                            writeln!(w, "default({}<T>),", i)?
+                        }
+                        t => writeln!(w, "default({}),", t)?,
+                    }
                 }
 
                 writeln!(w, "}}")?;
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index ff31baf..5daad55 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -73,10 +73,6 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "Self::{} => 0,", NonDigitName(SafeName(c.as_str())))?;
                     }
 
-                    if v.default.is_some() {
-                        writeln!(w, "Self::default => 0,")?;
-                    }
-
                     writeln!(w, "}}")?;
                     Ok(())
                 })?;
-- 
2.43.0


From 3306199b2bf2562db904261719f4d474588646e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 17/30] fix: count 8 bytes for 64-bit union discriminants

---
 src/impls/wire_size.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 5daad55..5091713 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -37,7 +37,12 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
 
             AstType::Union(v) => {
                 print_impl(&mut w, template, v.name(), ast, |w| {
-                    writeln!(w, "4 + match self {{")?;
+                    let discriminant_size = match v.switch.var_type {
+                        BasicType::U64 | BasicType::I64 => 8,
+                        _ => 4,
+                    };
+
+                    writeln!(w, "{} + match self {{", discriminant_size)?;
                     // Iterate over all the variants of v, including the
                     // default.
                     for case in v.cases.iter().chain(v.default.iter()) {
-- 
2.43.0


From 78186aae7e9d3fd08eb063dfb866c74424df3537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 18/30] fix: resolve typedefs of union discriminants

Enum labels were cast to the typedef instead of the type the discriminant is
decoded as, and a typedef of a typedef was matched on as the newtype.
---
 src/ast/lower.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ast/lower.rs b/src/ast/lower.rs
index 63c5b32..3bc9cb2 100644
--- a/src/ast/lower.rs
+++ b/src/ast/lower.rs
@@ -1,8 +1,11 @@
 use super::*;
+use std::collections::BTreeMap;
 
 impl Ast {
     /// Rewrites declarations into the equivalent form code is generated from.
     pub(crate) fn lower(mut self) -> Result<Self> {
+        let types = self.type_index.0.clone();
+
         for item in self.type_index.0.values_mut() {
             match item {
                 AstType::Struct(v) => {
@@ -15,6 +18,7 @@ impl Ast {
                         lower_opaque(&mut c.field_value);
                     }
                     lower_default(v);
+                    lower_switch(v, &types);
                 }
                 AstType::Enum(_) | AstType::Typedef(_) => {}
             }
@@ -37,6 +41,20 @@ fn lower_default(v: &mut Union) {
     }
 }
 
+/// The discriminant is matched on as the type its typedefs lead to.
+fn lower_switch(v: &mut Union, types: &BTreeMap<String, AstType>) {
+    // Typedefs may form a loop.
+    for _ in 0..types.len() {
+        match types.get(v.switch.var_type.as_str()) {
+            Some(AstType::Typedef(Typedef {
+                target,
+                alias: ArrayType::None(_),
+            })) => v.switch.var_type = target.clone(),
+            _ => break,
+        }
+    }
+}
+
 /// An opaque without a length is decoded as a counted opaque - `opaque x` is
 /// `opaque x<>`.
 fn lower_opaque(v: &mut ArrayType<BasicType>) {
-- 
2.43.0


From 904b6037e8b9bf9af0433de22edddb16af948794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 19/30] fix: allow numbers and constants as labels of enum
 unions

`case 1:` of a union switching on an enum was matched as an integer, which does
not compile. Match the variant with that value.
---
 src/impls/from.rs | 69 +++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 4683326..b7f7fc9 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType};
+use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType, VariantValue};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -98,27 +98,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                         // 		// statement
                         //
                         for c_value in c.case_values.iter() {
-                            // The case value may be a declared constant or enum
-                            // value.
-                            //
-                            // Enum values are i32, which may not be the same as
-                            // the type of the variable this code is matching
-                            // on, so write enums in a longer form to allow a
-                            // primitive cast.
-                            let matcher = ast
-                                .constants()
-                                .get(c_value.as_str())
-                                .map(|c| match *c {
-                                    ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
-                                    ConstantType::EnumValue {
-                                        ref enum_name,
-                                        ref variant,
-                                    } => format!(
-                                        "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
-                                    ),
-                                })
-                                .unwrap_or_else(|| SafeName(c_value).to_string());
+                            let matcher = case_matcher(ast, &v.switch.var_type, c_value)?;
 
                             write!(
                                 w,
@@ -149,20 +129,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                 did_void_default = true;
                                 continue;
                             }
-                            other => ast
-                                .constants()
-                                .get(other)
-                                .map(|c| match *c {
-                                    ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
-                                    ConstantType::EnumValue {
-                                        ref enum_name,
-                                        ref variant,
-                                    } => format!(
-                                        "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
-                                    ),
-                                })
-                                .unwrap_or_else(|| SafeName(other).to_string()),
+                            other => case_matcher(ast, &v.switch.var_type, other)?,
                         };
                         writeln!(
                             w,
@@ -236,6 +203,36 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
     Ok(())
 }
 
+/// Returns the pattern that matches the case value `label` of a union switching
+/// on a value of type `t`.
+fn case_matcher(ast: &Ast, t: &BasicType, label: &str) -> Result<String> {
+    // The case value may be a declared constant or enum value.
+    //
+    // Enum values are i32, which may not be the same as the type of the variable
+    // the generated code is matching on, so write enums in a longer form to
+    // allow a primitive cast.
+    let value = match ast.constants().get(label) {
+        Some(ConstantType::EnumValue { enum_name, variant }) => {
+            return Ok(format!("c if c == {}::{} as {}", enum_name, variant, t))
+        }
+        Some(ConstantType::ConstValue(v)) => v,
+        None => label,
+    };
+
+    // A number can't be matched with an enum - find the variant it stands for.
+    if let Some(AstType::Enum(e)) = ast.types().get(t.as_str()) {
+        let n = VariantValue::from(value);
+        let variant = e
+            .variants
+            .iter()
+            .find(|v| v.value == n)
+            .ok_or_else(|| format!("case {} is not a variant of {}", label, e.name))?;
+        return Ok(format!("c if c == {}::{} as {}", e.name, variant.name, t));
+    }
+
+    Ok(SafeName(value).to_string())
+}
+
 /// Prints the `impl TryFrom` block around the output of func.
 ///
 /// `func` should write the body of the `try_from` implementation to `w`, using
-- 
2.43.0


From 13dad2b05b8615b12dae9907b5cceff0fd8e6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 20/30] fix: allow a union discriminant called v

The discriminant was bound to a variable of the same name as the buffer the arms
are decoded from.
---
 src/ast/lower.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/lower.rs b/src/ast/lower.rs
index 3bc9cb2..c6f5802 100644
--- a/src/ast/lower.rs
+++ b/src/ast/lower.rs
@@ -19,6 +19,11 @@ impl Ast {
                     }
                     lower_default(v);
                     lower_switch(v, &types);
+
+                    // The generated decoders read from a variable called v.
+                    if v.switch.var_name == "v" {
+                        v.switch.var_name = "v_v".to_string();
+                    }
                 }
                 AstType::Enum(_) | AstType::Typedef(_) => {}
             }
-- 
2.43.0


From bf8a2c9eb389f5ad917812f6f26d5cdec83a5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 21/30] fix: resolve named constants used as enum values

The decoder matched an i32 with the u32 constant, which does not compile.
---
 src/ast/lower.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/ast/lower.rs b/src/ast/lower.rs
index c6f5802..0e228f6 100644
--- a/src/ast/lower.rs
+++ b/src/ast/lower.rs
@@ -25,7 +25,12 @@ impl Ast {
                         v.switch.var_name = "v_v".to_string();
                     }
                 }
-                AstType::Enum(_) | AstType::Typedef(_) => {}
+                AstType::Enum(v) => {
+                    for variant in v.variants.iter_mut() {
+                        lower_variant(variant, &self.constant_index)?;
+                    }
+                }
+                AstType::Typedef(_) => {}
             }
         }
 
@@ -60,6 +65,21 @@ fn lower_switch(v: &mut Union, types: &BTreeMap<String, AstType>) {
     }
 }
 
+/// Replaces a named constant with its value - constants are u32, enums i32.
+fn lower_variant(v: &mut Variant, constants: &ConstantIndex) -> Result<()> {
+    if let VariantValue::String(ref name) = v.value {
+        v.value = match constants.get(name) {
+            Some(ConstantType::ConstValue(c)) => VariantValue::from(c),
+            _ => return Err(format!("unknown constant {}", name).into()),
+        };
+    }
+
+    match v.value {
+        VariantValue::Numeric(_) => Ok(()),
+        VariantValue::String(ref s) => Err(format!("invalid enum value {}", s).into()),
+    }
+}
+
 /// An opaque without a length is decoded as a counted opaque - `opaque x` is
 /// `opaque x<>`.
 fn lower_opaque(v: &mut ArrayType<BasicType>) {
-- 
2.43.0


From 71285853179286d5d9f3371e910070e1fe72df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 22/30] fix: decode large fixed arrays in a loop

An expression was generated per element, so `unsigned int a[4294967295];` kept
generate() busy until it ran out of memory.
---
 src/impls/from.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index b7f7fc9..52fb09c 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -3,6 +3,10 @@ use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType, VariantValue}
 use crate::impls::template::*;
 use crate::Result;
 
+/// The number of elements of a fixed array up to which an expression is generated
+/// per element.
+const MAX_UNROLLED: u32 = 256;
+
 /// `TypeResolve` controls how callees should handle XDR type aliases.
 ///
 /// `None` instructs the callee to use the type alias directly, while
@@ -300,6 +304,16 @@ where
         match field {
             BasicType::Opaque => write!(w, "v.read_bytes({})?", size)?,
             BasicType::String => unreachable!("unexpected fixed length string"),
+            // Do not unroll large arrays.
+            _ if size > MAX_UNROLLED => {
+                writeln!(w, "{{\nlet mut a = Vec::new();")?;
+                write!(w, "for _ in 0..{} {{\na.push(", size)?;
+                print_decode_basic_type(w, t, ast, resolve_typedefs, try_from)?;
+                writeln!(w, "?);\n}}")?;
+                writeln!(w, "match TryFrom::try_from(a) {{")?;
+                writeln!(w, "Ok(a) => a,")?;
+                write!(w, "Err(_) => return Err(Error::InvalidLength),\n}}\n}}")?;
+            }
             _ => {
                 writeln!(w, "[")?;
                 for _i in 0..size {
-- 
2.43.0


From 2c077a80f36f8d50b64d2496b50e31d182f764fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 23/30] fix: reject unions with an undeclared case label

The label was emitted as a bare identifier, which is a binding that matches every
value.
---
 src/impls/from.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 52fb09c..33f5b9b 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -234,6 +234,11 @@ fn case_matcher(ast: &Ast, t: &BasicType, label: &str) -> Result<String> {
         return Ok(format!("c if c == {}::{} as {}", e.name, variant.name, t));
     }
 
+    // Anything else would be a binding, matching all values.
+    if value != "TRUE" && value != "FALSE" && !value.starts_with(|c: char| c.is_ascii_digit()) {
+        return Err(format!("unknown case value {}", label).into());
+    }
+
     Ok(SafeName(value).to_string())
 }
 
-- 
2.43.0


From a3e151706292b11efa800d958ca5ffa93d694250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 24/30] fix: do not panic on malformed hex enum values

`enum e { A = 0xZZ };` and values that do not fit an i32 are accepted by the
grammar. They are now reported as an invalid enum value.
---
 src/ast/enumeration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast/enumeration.rs b/src/ast/enumeration.rs
index a6d6b98..19038c9 100644
--- a/src/ast/enumeration.rs
+++ b/src/ast/enumeration.rs
@@ -51,7 +51,9 @@ where
         let v = v.as_ref();
         if v.starts_with("0x") {
             let clean = v.trim_start_matches("0x");
-            return Self::Numeric(i32::from_str_radix(clean, 16).unwrap());
+            return i32::from_str_radix(clean, 16)
+                .map(Self::Numeric)
+                .unwrap_or_else(|_| Self::String(v.to_string()));
         }
 
         v.parse::<i32>()
-- 
2.43.0


From 9ac80f867c5f2f08e53465da70b9537303768999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 25/30] fix: return an error for fixed length strings

---
 src/impls/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 33f5b9b..24024c6 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -308,7 +308,7 @@ where
 
         match field {
             BasicType::Opaque => write!(w, "v.read_bytes({})?", size)?,
-            BasicType::String => unreachable!("unexpected fixed length string"),
+            BasicType::String => return Err("unexpected fixed length string".into()),
             // Do not unroll large arrays.
             _ if size > MAX_UNROLLED => {
                 writeln!(w, "{{\nlet mut a = Vec::new();")?;
-- 
2.43.0


From e0d52338f485d8c746b9413ab5c428a7e83d73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 26/30] fix: return errors instead of panicking on unsupported
 declarations

The grammar accepts declarations no AST node can be built for - arrays and
optionals in union arms, primitive names as field names, duplicate constants -
for which Ast::new() and generate() panicked.
---
 src/ast/enumeration.rs       | 18 +++++++-------
 src/ast/indexes/constants.rs | 13 +++++++---
 src/ast/mod.rs               | 47 ++++++++++++++++++++----------------
 src/ast/structure.rs         | 18 +++++++-------
 src/ast/typedef.rs           | 10 ++++----
 src/ast/union.rs             | 38 +++++++++++++++--------------
 6 files changed, 78 insertions(+), 66 deletions(-)

diff --git a/src/ast/enumeration.rs b/src/ast/enumeration.rs
index 19038c9..029aed6 100644
--- a/src/ast/enumeration.rs
+++ b/src/ast/enumeration.rs
@@ -7,18 +7,18 @@ pub struct Enum {
 }
 
 impl<'a> Enum {
-    pub(crate) fn new(vs: Vec<Node<'a>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'a>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut vars = Vec::new();
         for v in vs.into_iter().skip(1) {
-            vars.push(Variant::new(v))
+            vars.push(Variant::new(v)?)
         }
 
-        Self {
+        Ok(Self {
             name,
             variants: vars,
-        }
+        })
     }
 }
 
@@ -63,20 +63,20 @@ where
 }
 
 impl<'a> Variant {
-    fn new(v: Node<'a>) -> Self {
+    fn new(v: Node<'a>) -> Result<Self> {
         let f = match v {
             Node::EnumVariant(f) => f,
-            e => panic!("not a struct field: {:?}", e),
+            e => return Err(format!("not an enum variant: {:?}", e).into()),
         };
 
         if f.len() != 2 {
-            panic!("unexpected number of tokens in enum")
+            return Err("unexpected number of tokens in enum".into());
         }
 
-        Self {
+        Ok(Self {
             name: f[0].ident_str().to_string(),
             value: f[1].ident_str().into(),
-        }
+        })
     }
 }
 
diff --git a/src/ast/indexes/constants.rs b/src/ast/indexes/constants.rs
index 647953d..f411bce 100644
--- a/src/ast/indexes/constants.rs
+++ b/src/ast/indexes/constants.rs
@@ -1,4 +1,5 @@
 use crate::ast::Node;
+use crate::Result;
 use std::collections::BTreeMap;
 
 #[derive(Debug)]
@@ -21,7 +22,7 @@ pub struct ConstantIndex(pub BTreeMap<String, ConstantType>);
 
 impl ConstantIndex {
     /// Build an index of all consts / enums for use in the union switches.
-    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> ConstantIndex {
+    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> Result<ConstantIndex> {
         let mut case_values = BTreeMap::new();
         if let Node::Root(r) = ast {
             for item in r.iter() {
@@ -35,7 +36,9 @@ impl ConstantIndex {
                             )
                             .is_some()
                         {
-                            panic!("duplicate case keys {}", vs[0].ident_str());
+                            return Err(
+                                format!("duplicate case keys {}", vs[0].ident_str()).into()
+                            );
                         }
                     }
                     Node::Enum(e) => {
@@ -54,7 +57,9 @@ impl ConstantIndex {
                                 )
                                 .is_some()
                             {
-                                panic!("duplicate case keys {}", v.name.as_str());
+                                return Err(
+                                    format!("duplicate case keys {}", v.name.as_str()).into()
+                                );
                             }
                         }
                     }
@@ -63,7 +68,7 @@ impl ConstantIndex {
             }
         }
 
-        ConstantIndex(case_values)
+        Ok(ConstantIndex(case_values))
     }
 
     /// Returns the constant value as a string for `name`.
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 1fce1e4..df5fe1f 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -53,11 +53,11 @@ impl Ast {
         // Tokenise the input
         let mut root = XDRParser::parse(Rule::item, xdr)?;
         // Parse into an AST
-        let ast = walk(root.next().ok_or("unable to tokenise input")?);
+        let ast = try_walk(root.next().ok_or("unable to tokenise input")?)?;
 
         // Build some helpful indexes to answer questions about types when
         // generating the Rust code.
-        let constant_index = ConstantIndex::new(&ast);
+        let constant_index = ConstantIndex::new(&ast)?;
         let generic_index = GenericIndex::new(&ast);
         let type_index = TypeIndex::new(&ast);
 
@@ -86,15 +86,15 @@ impl Ast {
 //
 // These higher-level types will then be extracted and added to the type index
 // later.
-fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
-    fn collect_values(ast: Pair<'_, Rule>) -> Vec<Node<'_>> {
-        ast.into_inner().map(walk).collect()
+fn try_walk(ast: Pair<'_, Rule>) -> Result<Node<'_>> {
+    fn collect_values(ast: Pair<'_, Rule>) -> Result<Vec<Node<'_>>> {
+        ast.into_inner().map(try_walk).collect()
     }
 
-    match ast.as_rule() {
-        Rule::item => Node::Root(collect_values(ast)),
-        Rule::typedef => Node::Typedef(Typedef::new(collect_values(ast))),
-        Rule::constant => Node::Constant(collect_values(ast)),
+    Ok(match ast.as_rule() {
+        Rule::item => Node::Root(collect_values(ast)?),
+        Rule::typedef => Node::Typedef(Typedef::new(collect_values(ast)?)?),
+        Rule::constant => Node::Constant(collect_values(ast)?),
         Rule::ident | Rule::ident_const | Rule::ident_value => {
             if let Ok(t) = BasicType::try_from(ast.as_str()) {
                 Node::Type(t)
@@ -102,23 +102,28 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
                 Node::Ident(ast.as_str())
             }
         }
-        Rule::enum_type => Node::Enum(Enum::new(collect_values(ast))),
-        Rule::enum_variant => Node::EnumVariant(collect_values(ast)),
-        Rule::array => Node::Array(collect_values(ast)),
+        Rule::enum_type => Node::Enum(Enum::new(collect_values(ast)?)?),
+        Rule::enum_variant => Node::EnumVariant(collect_values(ast)?),
+        Rule::array => Node::Array(collect_values(ast)?),
         Rule::array_variable => Node::ArrayVariable(ast.into_inner().as_str()),
         Rule::array_fixed => Node::ArrayFixed(ast.into_inner().as_str()),
-        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast))),
-        Rule::struct_data_field => Node::StructDataField(collect_values(ast)),
-        Rule::union_data_field => Node::UnionDataField(collect_values(ast)),
-        Rule::union => Node::Union(Union::new(collect_values(ast))),
-        Rule::union_case => Node::UnionCase(collect_values(ast)),
-        Rule::union_default => Node::UnionDefault(collect_values(ast)),
+        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast)?)?),
+        Rule::struct_data_field => Node::StructDataField(collect_values(ast)?),
+        Rule::union_data_field => Node::UnionDataField(collect_values(ast)?),
+        Rule::union => Node::Union(Union::new(collect_values(ast)?)?),
+        Rule::union_case => Node::UnionCase(collect_values(ast)?),
+        Rule::union_default => Node::UnionDefault(collect_values(ast)?),
         Rule::union_void => Node::UnionVoid,
-        Rule::option => Node::Option(collect_values(ast)),
+        Rule::option => Node::Option(collect_values(ast)?),
         Rule::basic_type => {
             Node::Type(BasicType::try_from(ast.as_str()).expect("unrecognised type"))
         }
         Rule::EOI => Node::EOF,
-        e => panic!("unknown token type {:?}", e),
-    }
+        e => return Err(format!("unknown token type {:?}", e).into()),
+    })
+}
+
+#[cfg(test)]
+fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
+    try_walk(ast).unwrap()
 }
diff --git a/src/ast/structure.rs b/src/ast/structure.rs
index b4b94a0..43f7589 100644
--- a/src/ast/structure.rs
+++ b/src/ast/structure.rs
@@ -7,15 +7,15 @@ pub struct Struct {
 }
 
 impl Struct {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut fields = Vec::new();
         for v in vs.into_iter().skip(1) {
-            fields.push(StructField::new(v));
+            fields.push(StructField::new(v)?);
         }
 
-        Struct { name, fields }
+        Ok(Struct { name, fields })
     }
 
     pub fn name(&self) -> &str {
@@ -41,13 +41,13 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub(crate) fn new(v: Node<'_>) -> Self {
+    pub(crate) fn new(v: Node<'_>) -> Result<Self> {
         let f = match v {
             Node::StructDataField(f) => f,
-            e => panic!("not a struct field: {:?}", e),
+            e => return Err(format!("not a struct field: {:?}", e).into()),
         };
 
-        match f.as_slice() {
+        Ok(match f.as_slice() {
             [Node::Type(rhs), Node::Type(BasicType::Ident(lhs))] => Self {
                 field_name: lhs.to_string(),
                 field_value: ArrayType::None(rhs.to_owned()),
@@ -72,7 +72,7 @@ impl StructField {
             [Node::Type(rhs), Node::Option(opt)] => {
                 let lhs = match &opt[0] {
                     Node::Type(BasicType::Ident(lhs)) => lhs,
-                    _ => panic!("unexpected struct field option layout"),
+                    _ => return Err("unexpected struct field option layout".into()),
                 };
 
                 Self {
@@ -81,8 +81,8 @@ impl StructField {
                     is_optional: true,
                 }
             }
-            _ => panic!("invalid number of struct field tokens"),
-        }
+            _ => return Err("invalid number of struct field tokens".into()),
+        })
     }
 
     pub fn contains_opaque(&self) -> bool {
diff --git a/src/ast/typedef.rs b/src/ast/typedef.rs
index e612394..3ad190d 100644
--- a/src/ast/typedef.rs
+++ b/src/ast/typedef.rs
@@ -7,17 +7,17 @@ pub struct Typedef {
 }
 
 impl Typedef {
-    pub(crate) fn new(mut vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(mut vs: Vec<Node<'_>>) -> Result<Self> {
         // Extract the target type
         let target = match vs.remove(0) {
             Node::Type(t) => t,
-            _ => unreachable!("incorrect type in typedef"),
+            _ => return Err("incorrect type in typedef".into()),
         };
 
         // Extract the defined alias
         let alias = match vs.remove(0) {
             Node::Type(t) => t,
-            _ => unreachable!("incorrect type in typedef"),
+            _ => return Err("incorrect type in typedef".into()),
         };
 
         // Optionally, extract the array definition
@@ -32,12 +32,12 @@ impl Typedef {
                         s => Some(ArraySize::from(s)),
                     },
                 ),
-                t => unreachable!("incorrect type in typedef {:?}", t),
+                t => return Err(format!("incorrect type in typedef {:?}", t).into()),
             }
         } else {
             ArrayType::None(alias)
         };
 
-        Self { target, alias }
+        Ok(Self { target, alias })
     }
 }
diff --git a/src/ast/union.rs b/src/ast/union.rs
index 7948022..ede3d26 100644
--- a/src/ast/union.rs
+++ b/src/ast/union.rs
@@ -16,7 +16,7 @@ pub struct Union {
 }
 
 impl Union {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut cases = Vec::new();
@@ -35,13 +35,13 @@ impl Union {
         for v in vs.into_iter().skip(3) {
             let mut is_default_case = false;
             let stmt = match v {
-                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes),
+                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes)?,
                 Node::UnionDefault(nodes) => {
                     is_default_case = true;
                     case_values.push("default".to_string());
-                    CaseStmt::parse(case_values, nodes)
+                    CaseStmt::parse(case_values, nodes)?
                 }
-                v => panic!("unexpected token type for union {:?}", v),
+                v => return Err(format!("unexpected token type for union {:?}", v).into()),
             };
 
             match stmt {
@@ -59,13 +59,13 @@ impl Union {
             case_values = Vec::new()
         }
 
-        Union {
+        Ok(Union {
             name,
             cases,
             default,
             void_cases,
             switch,
-        }
+        })
     }
 
     pub fn name(&self) -> &str {
@@ -102,15 +102,15 @@ pub struct UnionCase {
 }
 
 impl UnionCase {
-    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Self {
-        match field.as_slice() {
+    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Result<Self> {
+        Ok(match field.as_slice() {
             [Node::Type(t), Node::Type(BasicType::Ident(l))] => Self {
                 case_values,
                 field_name: l.to_string(),
                 field_value: ArrayType::None(t.to_owned()),
             },
-            _ => panic!("invalid number of union field tokens"),
-        }
+            _ => return Err("invalid number of union field tokens".into()),
+        })
     }
 
     pub fn contains_opaque(&self) -> bool {
@@ -130,28 +130,30 @@ enum CaseStmt {
 }
 
 impl CaseStmt {
-    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Self {
+    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Result<Self> {
         match nodes.remove(0) {
             Node::Type(t) => case_values.push(t.as_str().to_string()),
             Node::UnionVoid => {
                 // No ident, this is a default case
-                return Self::Void(case_values);
+                return Ok(Self::Void(case_values));
             }
             Node::UnionDataField(nodes) => {
                 // No ident, this is a default case
-                return Self::Defined(UnionCase::new(case_values, nodes));
+                return Ok(Self::Defined(UnionCase::new(case_values, nodes)?));
             }
-            _ => unreachable!(),
+            _ => return Err("unexpected token in union case".into()),
         };
 
         if nodes.is_empty() {
-            return Self::Fallthrough(case_values);
+            return Ok(Self::Fallthrough(case_values));
         }
 
         match nodes.remove(0) {
-            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)),
-            Node::UnionVoid => Self::Void(case_values),
-            _ => unreachable!(),
+            Node::UnionDataField(nodes) => {
+                Ok(Self::Defined(UnionCase::new(case_values, nodes)?))
+            }
+            Node::UnionVoid => Ok(Self::Void(case_values)),
+            _ => Err("unexpected token in union case".into()),
         }
     }
 }
-- 
2.43.0


From 47494f58065b2b97175917ac81789533cd76cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 27/30] fix: ignore the layout of two word types

---
 src/ast/mod.rs |  4 +++-
 src/xdr.pest   | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index df5fe1f..e78c8df 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -116,7 +116,9 @@ fn try_walk(ast: Pair<'_, Rule>) -> Result<Node<'_>> {
         Rule::union_void => Node::UnionVoid,
         Rule::option => Node::Option(collect_values(ast)?),
         Rule::basic_type => {
-            Node::Type(BasicType::try_from(ast.as_str()).expect("unrecognised type"))
+            // The words of the type, however they are spaced.
+            let words: Vec<_> = ast.into_inner().map(|w| w.as_str()).collect();
+            Node::Type(BasicType::from(words.join(" ")))
         }
         Rule::EOI => Node::EOF,
         e => return Err(format!("unknown token type {:?}", e).into()),
diff --git a/src/xdr.pest b/src/xdr.pest
index a7690a6..cc9ec1e 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -1,10 +1,14 @@
 ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
 ident_value = { ASCII_DIGIT+ }
-basic_type = @{ 
-	("unsigned" ~ WHITESPACE+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
-	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
+basic_type = ${ 
+	(basic_sign ~ gap)? ~ basic_int ~ gap |
+	basic_other ~ gap
 }
+basic_sign = { "unsigned" }
+basic_int = { "int" | "hyper" }
+basic_other = { "float" | "double" | "string"| "opaque" }
+gap = _{ (WHITESPACE | COMMENT)+ }
 
 // Comment types
 comment = { comment_long | comment_short }
-- 
2.43.0


From 05e013a01063933919cbd0f9ae53b6215ad431be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 28/30] fix: end a number at its last digit

A non-atomic "+" also takes the white space and comments that follow, so
the text of a number before a closing bracket included them and was no
longer a number.
---
 src/xdr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.pest b/src/xdr.pest
index cc9ec1e..2e890a0 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -1,6 +1,6 @@
 ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
-ident_value = { ASCII_DIGIT+ }
+ident_value = @{ ASCII_DIGIT+ }
 basic_type = ${ 
 	(basic_sign ~ gap)? ~ basic_int ~ gap |
 	basic_other ~ gap
-- 
2.43.0


From 73aeef064dffb017693535049e43744eebdb0649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:16 +0000
Subject: [PATCH 29/30] fix: find typedefs called like a primitive type by name

`typedef unsigned int uint32_t` is indexed as u32, the name of the
primitive, and types().get("uint32_t") did not return it.
---
 src/ast/indexes/type_index.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ast/indexes/type_index.rs b/src/ast/indexes/type_index.rs
index 80047e1..ecccbf9 100644
--- a/src/ast/indexes/type_index.rs
+++ b/src/ast/indexes/type_index.rs
@@ -1,4 +1,4 @@
-use crate::ast::{Enum, Node, Struct, Typedef, Union};
+use crate::ast::{BasicType, Enum, Node, Struct, Typedef, Union};
 use std::collections::BTreeMap;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -61,12 +61,19 @@ impl TypeIndex {
 
     /// Returns the `AstType` for `name`.
     pub fn get<T: AsRef<str>>(&self, name: T) -> Option<&AstType> {
-        self.0.get(name.as_ref())
+        let name = name.as_ref();
+        self.0.get(match BasicType::from(name) {
+            // These names are keywords, there is nothing to find.
+            BasicType::Opaque | BasicType::String => name,
+            // Names that are also spellings of a primitive type are indexed
+            // under the name of the primitive.
+            ref t => t.as_str(),
+        })
     }
 
     /// Returns the type aliased by `name` if `name` is a typedef.
     pub fn typedef_target<T: AsRef<str>>(&self, name: T) -> Option<&Typedef> {
-        match self.0.get(name.as_ref()) {
+        match self.get(name) {
             Some(AstType::Typedef(t)) => Some(t),
             _ => None,
         }
-- 
2.43.0


From 59b33f1369343d83eaf908aecf3572baeda0c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:56 +0000
Subject: [PATCH 30/30] fix: read files whose names are not UTF-8

The command line panicked on any argument that is not valid Unicode, though
it names a readable file with a valid specification.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b182a2b..5266a57 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -8,7 +8,7 @@ fn main() -> Result<()> {
         std::process::exit(1);
     }
 
-    for e in env::args().skip(1) {
+    for e in env::args_os().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
         print!("{}", code);
-- 
2.43.0

