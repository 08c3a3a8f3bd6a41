From 50e23379b7821ecc793eb4d482b4873901723e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 1/9] fix: text Tag counts characters, not UTF-8 bytes

A tag with non-ASCII characters took too many characters from the input,
so it never matched unless the input ended right after it.
---
 nommy/src/text/tag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/text/tag.rs b/nommy/src/text/tag.rs
index bffbc2d..99d1bc0 100644
--- a/nommy/src/text/tag.rs
+++ b/nommy/src/text/tag.rs
@@ -15,7 +15,7 @@ pub struct Tag<const TAG: &'static str>;
 
 impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     fn parse(input: &mut impl Buffer<char>) -> eyre::Result<Self> {
-        let s = String::from_iter(input.take(TAG.len()));
+        let s = String::from_iter(input.take(TAG.chars().count()));
         if TAG == s {
             Ok(Self)
         } else {
@@ -24,7 +24,7 @@ impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        TAG.chars().eq(input.take(TAG.len()))
+        TAG.chars().eq(input.take(TAG.chars().count()))
     }
 }
 
-- 
2.43.0


From 8c7fb9d60f67787178bd031732ccd8bd0fc32e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 2/9] fix: WhileNot1::peek ends at the end of the input

It looped forever when no stop character followed, and accepted an empty
input that parse rejects.
---
 nommy/src/text/many.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nommy/src/text/many.rs b/nommy/src/text/many.rs
index ee9df2d..df3e5fc 100644
--- a/nommy/src/text/many.rs
+++ b/nommy/src/text/many.rs
@@ -87,18 +87,14 @@ impl<const CHARS: &'static str> Parse<char> for WhileNot1<CHARS> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        if OneOf::<CHARS>::peek(input) {
-            return false;
-        }
-        loop {
-            let mut cursor = input.cursor();
-            if OneOf::<CHARS>::peek(&mut cursor) {
+        let mut found = false;
+        while !OneOf::<CHARS>::peek(&mut input.cursor()) {
+            if input.next().is_none() {
                 break;
             }
-            let pos = cursor.position();
-            input.fast_forward(pos);
+            found = true;
         }
-        true
+        found
     }
 }
 
-- 
2.43.0


From f59be30ac100764b3d46a0df6631d1c6d588ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 3/9] fix: array parsing neither drops uninitialised memory nor
 leaks

Assigning through MaybeUninit::as_mut_ptr dropped the uninitialised slot
first, and a failing element leaked the ones parsed before it.
---
 nommy/src/impls.rs | 21 ++++++++++-----------
 nommy/src/lib.rs   |  2 --
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/nommy/src/impls.rs b/nommy/src/impls.rs
index 2364f9e..85b3c09 100644
--- a/nommy/src/impls.rs
+++ b/nommy/src/impls.rs
@@ -1,7 +1,7 @@
 //! Implemtations of [`Parse`] and [`Peek`] for types in
 //! the rust standard library
 use crate::{eyre, Buffer, Context, Parse};
-use std::mem::MaybeUninit;
+use std::convert::TryInto;
 
 /// Result is `None` if parsing `P` fails, otherwise, result is `Some(p)`
 impl<P: Parse<T>, T> Parse<T> for Option<P> {
@@ -155,17 +155,16 @@ impl<P: Parse<T>, T> Parse<T> for Vec1<P> {
 /// ```
 impl<P: Parse<T>, T, const N: usize> Parse<T> for [P; N] {
     fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
-        // safety: we only return the new data if no errors occured,
-        // and if no errors occured, then we definitely filled all N spaces
-        // therefore the array was initialised.
-        unsafe {
-            let mut output = MaybeUninit::uninit_array();
-            for (i, output) in output.iter_mut().enumerate() {
-                *output.as_mut_ptr() =
-                    P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?;
-            }
+        let mut output = Vec::with_capacity(N);
+        for i in 0..N {
+            output.push(
+                P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?,
+            );
+        }
 
-            Ok(MaybeUninit::array_assume_init(output))
+        match output.try_into() {
+            Ok(output) => Ok(output),
+            Err(_) => unreachable!("exactly N elements were parsed"),
         }
     }
 
diff --git a/nommy/src/lib.rs b/nommy/src/lib.rs
index a83100a..aee2981 100644
--- a/nommy/src/lib.rs
+++ b/nommy/src/lib.rs
@@ -1,7 +1,5 @@
 #![allow(incomplete_features)]
 #![feature(array_map)]
-#![feature(maybe_uninit_uninit_array)]
-#![feature(maybe_uninit_array_assume_init)]
 #![feature(const_generics)]
 #![deny(missing_docs)]
 #![warn(clippy::pedantic)]
-- 
2.43.0


From dcc1b9ab7ac13402fedca7e80d0a624eab73db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 4/9] fix: reading a cursor at the end of the input does not
 move it

The position ran past the end, so committing it counted items that were
never read and the zero-width checks missed matches at the end of input.
---
 nommy/src/buffer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index 915278a..ddc9154 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -198,7 +198,9 @@ impl<'a, T, B: Buffer<T>> Iterator for Cursor<'a, T, B> {
 
     fn next(&mut self) -> Option<T> {
         let output = self.buf.peek_ahead(self.base + self.index);
-        self.index += 1;
+        if output.is_some() {
+            self.index += 1;
+        }
         output
     }
 }
-- 
2.43.0


From 01b5dca04297910a79dc7da03f5ccd6b14a3e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 5/9] fix: cursor arithmetic saturates

A large fast_forward or peek_ahead on a cursor that had moved panicked in
debug builds and wrapped round to the start of the input in release.
---
 nommy/src/buffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index ddc9154..3d6d9df 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -175,18 +175,19 @@ impl<'a, T, B: Buffer<T>> Cursor<'a, T, B> {
 
 impl<'a, T, B: Buffer<T>> Buffer<T> for Cursor<'a, T, B> {
     fn fast_forward(&mut self, n: usize) {
-        self.index += n;
+        self.index = self.index.saturating_add(n);
     }
 
     fn peek_ahead(&mut self, i: usize) -> Option<T> {
-        self.buf.peek_ahead(self.base + self.index + i)
+        self.buf
+            .peek_ahead(self.base.saturating_add(self.index).saturating_add(i))
     }
 
     type CursorBase = B;
     fn cursor(&mut self) -> Cursor<T, Self::CursorBase> {
         Cursor {
             buf: self.buf,
-            base: self.base + self.index,
+            base: self.base.saturating_add(self.index),
             index: 0,
             _t: PhantomData,
         }
@@ -197,7 +198,7 @@ impl<'a, T, B: Buffer<T>> Iterator for Cursor<'a, T, B> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
-        let output = self.buf.peek_ahead(self.base + self.index);
+        let output = self.buf.peek_ahead(self.base.saturating_add(self.index));
         if output.is_some() {
             self.index += 1;
         }
-- 
2.43.0


From 74e01c2619806a7be98323eba7ecdf0a596b5f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 6/9] fix: ignored items are skipped after inner_parser fields

The derived parse did not skip ignored items between an inner_parser field
and whatever followed it, although the derived peek did.
---
 nommy-derive/src/fn_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index b5dd3e8..ff956f0 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -112,8 +112,8 @@ impl<'a> Builder<'a> {
                 &format!("failed to parse field `{}`", name),
             ));
             self.peek_impl.extend(self.peeker_peek_tokens(&parser));
-            self.ignore();
         }
+        self.ignore();
 
         self.add_fix(&attrs.suffix, "suffix", format!("field `{}`", name));
     }
-- 
2.43.0


From 8c55e09d72942bd4c63b4f78b2b86ce32ed6986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 7/9] fix: derived peek of inner_parser fields follows the list
 grammar

The derived peek ignored seperated_by and trailing, so it rejected input
that the derived parse accepts and the other way round.
---
 nommy-derive/src/fn_impl.rs | 63 ++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index ff956f0..dcd9ce8 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -101,7 +101,8 @@ impl<'a> Builder<'a> {
             self.add_where(&parser);
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
-            self.peek_impl.extend(self.peeker_peek_vec_tokens(&parser));
+            self.peek_impl
+                .extend(self.peeker_peek_vec_tokens(&attrs.vec));
         } else {
             let parser: Option<&syn::Type> = (&attrs.parser).into();
             let parser = parser.unwrap_or(&ty);
@@ -232,7 +233,13 @@ impl<'a> Builder<'a> {
         }
     }
 
-    fn parser_parse_vec_tokens(&self, name: &syn::Ident, attrs: &VecFieldAttr) -> TokenStream {
+    /// The call that parses a list, collecting its elements as `target`,
+    /// and the least number of elements the list needs
+    fn vec_call_tokens(
+        &self,
+        attrs: &VecFieldAttr,
+        target: &TokenStream,
+    ) -> (TokenStream, TokenStream) {
         let generic = &self.generic;
 
         let parser: Option<&syn::Type> = (&attrs.parser).into();
@@ -253,51 +260,43 @@ impl<'a> Builder<'a> {
             }
         };
 
-        if let Some(sep) = &attrs.seperated_by {
+        let call = if let Some(sep) = &attrs.seperated_by {
             match &attrs.trailing {
                 Some(true) => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, #target, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
                 Some(false) => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, #target, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
                 None => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by::<#parser, #target, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
             }
         } else {
             quote! {
-                let #name = ::nommy::vec::parse_vec::<#parser, _, __ParseIgnore, #generic, _>(#max, input)?;
-                if #name.len() < #min {
-                    return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                }
+                ::nommy::vec::parse_vec::<#parser, #target, __ParseIgnore, #generic, _>(#max, input)
             }
-        }
+        };
+        (call, min)
     }
 
-    pub fn peeker_peek_vec_tokens(&self, ty: &syn::Type) -> TokenStream {
-        let generic = &self.generic;
-        let after_each = &self.after_each;
-
+    fn parser_parse_vec_tokens(&self, name: &syn::Ident, attrs: &VecFieldAttr) -> TokenStream {
+        let (call, min) = self.vec_call_tokens(attrs, &quote! { _ });
         quote! {
-            loop {
-                let mut cursor = input.cursor();
-                if !<#ty as ::nommy::Parse<#generic>>::peek(&mut cursor) {
-                    break;
-                }
-                let pos = cursor.position();
-                input.fast_forward(pos);
+            let #name = #call?;
+            if #name.len() < #min {
+                return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
+            }
+        }
+    }
 
-                #after_each
+    pub fn peeker_peek_vec_tokens(&self, attrs: &VecFieldAttr) -> TokenStream {
+        let parser: Option<&syn::Type> = (&attrs.parser).into();
+        let (call, min) = self.vec_call_tokens(attrs, &quote! { #parser });
+        quote! {
+            match #call {
+                Ok(list) if list.len() >= #min => {}
+                _ => return false,
             }
         }
     }
-- 
2.43.0


From 9e54e253495d8bfa53432627886a1891b2387ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 8/9] fix: derive bounds the seperated_by type

Without parse_type the derived impl lacked the bound and did not compile.
---
 nommy-derive/src/fn_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index dcd9ce8..f59fc53 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -99,6 +99,9 @@ impl<'a> Builder<'a> {
             let parser: Option<&syn::Type> = (&attrs.vec.parser).into();
             let parser = parser.unwrap();
             self.add_where(&parser);
+            if let Some(sep) = &attrs.vec.seperated_by {
+                self.add_where(sep);
+            }
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
             self.peek_impl
-- 
2.43.0


From 430d7126647963971eb897171ad60a3e0ea273c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 9/9] fix: convert a list's element only once its trailing
 separator is there

parse_vec_seperated_by_trailing converted an element before it had seen the
separator that makes it part of the list, so a conversion that fails on the
item behind the list failed the whole list.
---
 nommy/src/vec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nommy/src/vec.rs b/nommy/src/vec.rs
index 85fb7c2..dd95a12 100644
--- a/nommy/src/vec.rs
+++ b/nommy/src/vec.rs
@@ -117,8 +117,8 @@ where
         }
 
         let mut cursor = input.cursor();
-        let q: Q = match P::parse(&mut cursor) {
-            Ok(p) => p.try_into()?,
+        let p = match P::parse(&mut cursor) {
+            Ok(p) => p,
             Err(_) => break,
         };
 
@@ -130,7 +130,7 @@ where
         let pos = cursor.position();
         input.fast_forward(pos);
 
-        output.push(q);
+        output.push(p.try_into()?);
     }
 
     Ok(output)
-- 
2.43.0

