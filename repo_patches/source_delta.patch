From 2cf54fb52475f1da0f3ee3a38397637094327bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 01/24] fix: parenthesize user expressions before casting them

Count, Take, Align*, Skip*, Move and MoveAbs accept any expression, but the
cast bound tighter than the operators of the expression (Count="a + 1" was
expanded to 'a + 1 as usize'), so most compound expressions were rejected.
---
 nom-derive-impl/src/parsertree.rs | 4 ++--
 nom-derive-impl/src/structs.rs    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b0498f6..38b8faf 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -141,7 +141,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::combinator::cond(#c, #expr) }
             }
             ParserExpr::Count(expr, n) => {
-                quote! { nom::multi::count(#expr, #n as usize) }
+                quote! { nom::multi::count(#expr, (#n) as usize) }
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
@@ -171,7 +171,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::bytes::streaming::tag(&#s[..]) }
             }
             ParserExpr::Take(s) => {
-                quote! { nom::bytes::streaming::take(#s as usize) }
+                quote! { nom::bytes::streaming::take((#s) as usize) }
             }
             ParserExpr::Value(ts) => {
                 quote! {
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index ce8d1e5..fc8b8b5 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -283,7 +283,7 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     quote! {
         let (#input, _) = {
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
-            let align = #align as usize;
+            let align = (#align) as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
@@ -298,7 +298,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
         let #input = {
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = #offset as isize;
+            let offset = (#offset) as isize;
             let offset_u = offset.abs() as usize;
             let new_offset = if offset < 0 {
                 if offset_u > pos {
@@ -322,7 +322,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
-            let offset = #offset as usize;
+            let offset = (#offset) as usize;
             if offset > #orig_input.len() {
                 return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
             }
@@ -335,7 +335,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
-            let skip = #skip as usize;
+            let skip = (#skip) as usize;
             nom::bytes::streaming::take(skip)(#input)
         }?;
     }
-- 
2.43.0


From 5b706d86476e58522f6fa0001836533e413907f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 02/24] fix: Verify conditions starting with a literal were
 expanded to Map

---
 nom-derive-impl/src/structs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index fc8b8b5..c6b87fa 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -250,7 +250,11 @@ fn get_parser(
                 let ts_arg = meta.arg().unwrap();
                 if let Some(TokenTree::Literal(_)) = ts_arg.clone().into_iter().next() {
                     let ts_arg = syn::parse2::<Expr>(ts_arg.clone())?;
-                    return Ok(ParserExpr::Map(Box::new(expr), ts_arg.to_token_stream()));
+                    return Ok(ParserExpr::Verify(
+                        Box::new(expr),
+                        ident.clone(),
+                        ts_arg.to_token_stream(),
+                    ));
                 }
                 let ts_arg = meta.arg().unwrap();
                 return Ok(ParserExpr::Verify(
-- 
2.43.0


From 80d832d463395dc6dca9bcb6c88764e5a232f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 03/24] fix: bring nom::Parser in scope in functions derived
 for enums

The functions derived for structs already do so. Variant parsers end with
'.parse', which requires the trait.
---
 nom-derive-impl/src/gen/enums.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 217736a..08a992e 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -75,6 +75,8 @@ impl Generator for GenEnum {
             quote! { _ => Err(nom::Err::Error(nom::error_position!(#input, nom::error::ErrorKind::Switch))) }
         };
         let tokens = quote! {
+            #[allow(unused_imports)]
+            use nom::Parser;
             let #input = #orig_input;
             #tl_pre
             let (#input, enum_def) = match selector {
-- 
2.43.0


From ff88f57e883f13c4a42686e8b243d222d5204bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 04/24] fix: keep order of selectors when moving the default
 case last

Swapping the default case with the last variant changed which variant was
selected when selectors overlap (for ex. with pattern guards or ranges).
---
 nom-derive-impl/src/gen/enums.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 08a992e..734c5f6 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -215,8 +215,10 @@ impl GenEnum {
                 .expect("default case is handled but couldn't find index");
             let last_index = self.variants_defs.len() - 1;
             if pos != last_index {
-                // self.variants_defs.swap(pos, last_index);
-                variants_code.swap(pos, last_index);
+                // move the default case, and keep the order of all other entries (match order is
+                // significant if selectors overlap)
+                let default_case = variants_code.remove(pos);
+                variants_code.push(default_case);
             }
         }
         Ok((default_case_handled, variants_code))
-- 
2.43.0


From bb0b8b7342c8ce00250ee33436b6681d9e47c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:22 +0000
Subject: [PATCH 05/24] fix: allow Debug to wrap combinators

dbg_dmp requires a Fn, but nom combinators are Parser objects since nom 8:
Debug could not be combined with Complete, Cond, Count, Take, Map, etc.
---
 nom-derive-impl/src/parsertree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 38b8faf..31260db 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -145,7 +145,10 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
-                quote! { nom::error::dbg_dmp(#expr, #ident) }
+                // `dbg_dmp` requires a function, while combinators return a `Parser`
+                quote! {
+                    nom::error::dbg_dmp(|__i__| nom::Parser::parse(&mut #expr, __i__), #ident)
+                }
             }
             ParserExpr::Into(expr) => {
                 quote! { nom::combinator::into(#expr) }
-- 
2.43.0


From 0d58071ce775b184c314d47ce063a6ba0c36c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 06/24] fix: apply field-level SetEndian to all following
 fields

As documented, SetEndian affects the field it is applied to and all following
ones, but only that single field used the dynamic endianness.
---
 nom-derive-impl/src/structs.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index c6b87fa..edb7994 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -447,6 +447,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
             // so the caller must check and add attributes
         }
     }
+    let object_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
         let ident_str = if let Some(s) = field.ident.as_ref() {
             s.to_string()
@@ -457,6 +458,11 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         // eprintln!("meta_list: {:?}", meta_list);
         let mut p = get_field_parser(field, &meta_list, config)?;
 
+        // SetEndian applies to this field and to all following fields
+        if meta_list.iter().any(|m| m.is_type(MetaAttrType::SetEndian)) {
+            config.object_endianness = ParserEndianness::SetEndian;
+        }
+
         if config.complete {
             p = p.complete();
         }
@@ -481,6 +487,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         let sp = StructParser::new(ident_str, item, pre, post);
         parsers.push(sp);
     }
+    config.object_endianness = object_endianness;
     Ok(StructParserTree {
         empty,
         unnamed,
-- 
2.43.0


From 322efa5daf66f63be13c8ff9cb500bc2e18c49bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 07/24] fix: evaluate offset and alignment expressions before
 internal variables

The variables used by the generated code (offset, start, pos) captured fields
with the same names: Move(pos) used the current position instead of field pos.
---
 nom-derive-impl/src/structs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index edb7994..1027c17 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -286,8 +286,8 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
-            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = (#align) as usize;
+            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
@@ -300,9 +300,9 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
+            let offset = (#offset) as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = (#offset) as isize;
             let offset_u = offset.abs() as usize;
             let new_offset = if offset < 0 {
                 if offset_u > pos {
-- 
2.43.0


From fdf3b21981884ee018dd5f2affd067bb1960a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 08/24] fix: Move panicked with an offset of isize::MIN

---
 nom-derive-impl/src/structs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 1027c17..c4e2b8a 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -303,7 +303,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
             let offset = (#offset) as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset_u = offset.abs() as usize;
+            let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
                     return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
-- 
2.43.0


From 929c1af3dd668539fb5577e57056af90b612de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 09/24] fix: Move and MoveAbs reported too many needed bytes

Needed is the number of missing bytes. Move and MoveAbs returned the offset
itself, so a streaming caller could wait for data that is not required.
---
 nom-derive-impl/src/structs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index c4e2b8a..7b47348 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -311,7 +311,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
                 pos - offset_u
             } else {
                 if pos + offset_u > #orig_input.len() {
-                    return Err(nom::Err::Incomplete(nom::Needed::new(offset_u)));
+                    return Err(nom::Err::Incomplete(nom::Needed::new(pos + offset_u - #orig_input.len())));
                 }
                 pos + offset_u
             };
@@ -328,7 +328,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
         let #input = {
             let offset = (#offset) as usize;
             if offset > #orig_input.len() {
-                return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
+                return Err(nom::Err::Incomplete(nom::Needed::new(offset - #orig_input.len())));
             }
             &#orig_input[offset..]
         };
-- 
2.43.0


From 090b2ac8a0e431c3876796f31dbbc2f679480596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 10/24] fix: AlignBefore and AlignAfter panicked if alignment
 was 0

The value can come from the input. As in other formats (for ex. ELF), use 0 as
'no alignment constraint'.
---
 nom-derive-impl/src/structs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 7b47348..8018b2d 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -288,7 +288,8 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
         let (#input, _) = {
             let align = (#align) as usize;
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
-            let align = ((align - (offset % align)) % align);
+            // 0 means no alignment
+            let align = if align == 0 { 0 } else { (align - (offset % align)) % align };
             nom::bytes::streaming::take(align)(#input)
         }?;
     }
-- 
2.43.0


From 4932eb6ad900e23c872ed40b7aedef7adb01f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 11/24] fix: LengthData panicked if length exceeded remaining
 input

---
 src/helpers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index c0a8c9e..481c0b2 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,5 +1,6 @@
 use crate::traits::*;
 use core::marker::PhantomData;
+use nom::bytes::streaming::take;
 use nom::error::ParseError;
 use nom::{IResult, ToUsize};
 
@@ -24,17 +25,17 @@ where
 {
     fn parse(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_be(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_le(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
 }
-- 
2.43.0


From a38918914e7405c487f5c43a252830ffe0743d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 12/24] fix: Complete was ignored on fieldless enums

---
 nom-derive-impl/src/gen/fieldless_enums.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 4f3d92f..3eebf87 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -73,9 +73,11 @@ impl Generator for GenFieldlessEnum {
         let parser = &self.repr_parser.with_endianness(endianness);
         // generate body
         let tokens = quote! {
+            #[allow(unused_imports)]
+            use nom::Parser;
             let #input = #orig_input;
             #tl_pre
-            let (#input, selector) = #parser(#input)?;
+            let (#input, selector) = #parser.parse(#input)?;
             let enum_def =
                 #(#variants_code else)*
             { return Err(nom::Err::Error(nom::error::make_error(#orig_input, nom::error::ErrorKind::Switch))); };
@@ -155,6 +157,12 @@ impl GenFieldlessEnum {
             }
         };
 
+        let repr_parser = if config.complete {
+            repr_parser.complete()
+        } else {
+            repr_parser
+        };
+
         let variants_code: Vec<_> = data_enum
             .variants
             .iter()
-- 
2.43.0


From 8f85a9bcaa9c0bdeb8a74fffd39cadda08ec11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 13/24] fix: accept alternatives in Selector given as a string

---
 nom-derive-impl/src/meta/attr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 863a1de..0dba900 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -304,7 +304,7 @@ struct PatternAndGuard {
 
 impl Parse for PatternAndGuard {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        let pat = Pat::parse_single(input)?;
+        let pat = Pat::parse_multi(input)?;
         let guard = if input.peek(Token![if]) {
             let tk_if: Token![if] = input.parse()?;
             let expr: syn::Expr = input.parse()?;
-- 
2.43.0


From b17aa92e3119f572f9e78975493bae91c9cfe6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 14/24] fix: GenericErrors with type parameters or String in
 functions that are not from the trait

---
 nom-derive-impl/src/gen/generator.rs | 53 +++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index f44e539..3528e16 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -35,6 +35,7 @@ pub(crate) trait Generator {
             ParserEndianness::BigEndian,
             self.extra_args(),
             self.config(),
+            &self.fn_where_predicates(),
         );
         if self.has_impl_for_endianness(ParserEndianness::BigEndian) {
             let fn_body = self.gen_fn_body(ParserEndianness::BigEndian)?;
@@ -62,6 +63,7 @@ pub(crate) trait Generator {
             ParserEndianness::LittleEndian,
             self.extra_args(),
             self.config(),
+            &self.fn_where_predicates(),
         );
         if self.has_impl_for_endianness(ParserEndianness::LittleEndian) {
             let fn_body = self.gen_fn_body(ParserEndianness::LittleEndian)?;
@@ -101,11 +103,13 @@ pub(crate) trait Generator {
         };
         let tokens_parse = {
             let (fn_generics, where_clause) = if self.config().generic_errors && special_case {
+                let predicates = self.fn_where_predicates();
                 (
                     quote!(<#ident_e>),
                     quote! {where
                         #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>,
                         #ident_e: std::fmt::Debug,
+                        #(#predicates,)*
                     },
                 )
             } else {
@@ -122,8 +126,8 @@ pub(crate) trait Generator {
         Ok(tokens_parse)
     }
 
-    fn gen_impl(&self) -> Result<TokenStream> {
-        let name = self.name();
+    /// Requirements on types (parameters must implement `Parse`) and on the error type
+    fn type_where_predicates(&self) -> Vec<WherePredicate> {
         let lft = Lifetime::new(self.config().lifetime_name(), Span::call_site());
         let ident_e = Ident::new(self.config().error_name(), Span::call_site());
         let maybe_err = if self.config().generic_errors {
@@ -131,6 +135,35 @@ pub(crate) trait Generator {
         } else {
             quote!()
         };
+        // make sure generic parameters inplement Parse
+        let mut v: Vec<WherePredicate> = self
+            .orig_generics()
+            .type_params()
+            .map(|param| {
+                let param_ident = &param.ident;
+                parse_quote! { #param_ident: Parse< &#lft [u8] #maybe_err > }
+            })
+            .collect();
+        if let Some(impl_where_predicates) = self.impl_where_predicates() {
+            v.extend(impl_where_predicates.iter().cloned());
+        }
+        v
+    }
+
+    /// If the error type is a parameter of functions (not of the impl), so are requirements using it
+    fn fn_where_predicates(&self) -> Vec<WherePredicate> {
+        let special_case = self.extra_args().is_some() || self.config().selector_type().is_some();
+        if special_case && self.config().generic_errors {
+            self.type_where_predicates()
+        } else {
+            Vec::new()
+        }
+    }
+
+    fn gen_impl(&self) -> Result<TokenStream> {
+        let name = self.name();
+        let lft = Lifetime::new(self.config().lifetime_name(), Span::call_site());
+        let ident_e = Ident::new(self.config().error_name(), Span::call_site());
 
         let tokens_parse = self.gen_parse()?;
         let tokens_parse_be = self.gen_parse_be()?;
@@ -158,16 +191,8 @@ pub(crate) trait Generator {
             gen_wh.predicates.push(wh);
         };
 
-        // make sure generic parameters inplement Parse
-        for param in orig_generics.type_params() {
-            let param_ident = &param.ident;
-            let dep: WherePredicate = parse_quote! { #param_ident: Parse< &#lft [u8] #maybe_err > };
-            gen_wh.predicates.push(dep);
-        }
-        if let Some(impl_where_predicates) = self.impl_where_predicates() {
-            for wh in impl_where_predicates {
-                gen_wh.predicates.push(wh.clone());
-            }
+        if self.fn_where_predicates().is_empty() {
+            gen_wh.predicates.extend(self.type_where_predicates());
         }
 
         // Global impl
@@ -276,6 +301,7 @@ pub(crate) fn gen_fn_decl(
     endianness: ParserEndianness,
     extra_args: Option<&TokenStream>,
     config: &Config,
+    where_predicates: &[WherePredicate],
 ) -> TokenStream {
     let parse = match endianness {
         ParserEndianness::BigEndian => "parse_be",
@@ -315,6 +341,9 @@ pub(crate) fn gen_fn_decl(
             fn_where_clause.predicates.push(dep);
             let dep: WherePredicate = parse_quote! { #ident_e: std::fmt::Debug };
             fn_where_clause.predicates.push(dep);
+            fn_where_clause
+                .predicates
+                .extend(where_predicates.iter().cloned());
             // add error type to function generics
             fn_generics = Some(quote!(<#ident_e>));
         }
-- 
2.43.0


From bd270a9665da0300799912663fbd1addc5171293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 15/24] fix: String with GenericErrors and SetEndian missed a
 requirement on the error type

---
 nom-derive-impl/src/parsertree.rs | 17 ++++++++++++++---
 nom-derive-impl/src/structs.rs    | 13 +------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 31260db..0998507 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -47,6 +47,7 @@ pub enum ParserExpr {
     CallParse(TypeItem),
     CallParseBE(TypeItem),
     CallParseLE(TypeItem),
+    CallParseSetEndian(TypeItem),
     Complete(Box<ParserExpr>),
     Cond(Box<ParserExpr>, TokenStream),
     Count(Box<ParserExpr>, TokenStream),
@@ -106,9 +107,10 @@ impl ParserExpr {
 
     pub fn last_type(&self) -> Option<&TypeItem> {
         match self {
-            ParserExpr::CallParse(e) | ParserExpr::CallParseBE(e) | ParserExpr::CallParseLE(e) => {
-                Some(e)
-            }
+            ParserExpr::CallParse(e)
+            | ParserExpr::CallParseBE(e)
+            | ParserExpr::CallParseLE(e)
+            | ParserExpr::CallParseSetEndian(e) => Some(e),
             ParserExpr::Complete(expr)
             | ParserExpr::Cond(expr, _)
             | ParserExpr::Count(expr, _)
@@ -134,6 +136,15 @@ impl ToTokens for ParserExpr {
             ParserExpr::CallParseLE(s) => {
                 quote! { <#s>::parse_le }
             }
+            ParserExpr::CallParseSetEndian(s) => {
+                quote! {
+                    if __endianness == nom::number::Endianness::Big {
+                        <#s>::parse_be
+                    } else {
+                        <#s>::parse_le
+                    }
+                }
+            }
             ParserExpr::Complete(expr) => {
                 quote! { nom::combinator::complete(#expr) }
             }
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 8018b2d..f56c8ce 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -49,18 +49,7 @@ fn get_type_parser(ty: &Type, meta_list: &[MetaAttr], config: &Config) -> Result
     match endian {
         ParserEndianness::BigEndian => Ok(ParserExpr::CallParseBE(TypeItem(ty.clone()))),
         ParserEndianness::LittleEndian => Ok(ParserExpr::CallParseLE(TypeItem(ty.clone()))),
-        ParserEndianness::SetEndian => {
-            let be = ParserExpr::CallParseBE(TypeItem(ty.clone()));
-            let le = ParserExpr::CallParseLE(TypeItem(ty.clone()));
-            let qq = quote! {
-                if __endianness == nom::number::Endianness::Big {
-                    #be
-                } else {
-                    #le
-                }
-            };
-            Ok(ParserExpr::Raw(qq))
-        }
+        ParserEndianness::SetEndian => Ok(ParserExpr::CallParseSetEndian(TypeItem(ty.clone()))),
         ParserEndianness::Unspecified => Ok(ParserExpr::CallParse(TypeItem(ty.clone()))),
     }
 }
-- 
2.43.0


From a64d7a065efd8ca37712d7f6d454e4f2b3929521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 16/24] fix: InputName could not be align, skip, offset, start
 or pos with positioning attributes

---
 nom-derive-impl/src/structs.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index f56c8ce..fc4db6a 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -275,11 +275,13 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
+            // InputName can be any of the names used here
+            let __i__ = #input;
             let align = (#align) as usize;
-            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
+            let offset = __i__.as_ptr() as usize - #orig_input.as_ptr() as usize;
             // 0 means no alignment
             let align = if align == 0 { 0 } else { (align - (offset % align)) % align };
-            nom::bytes::streaming::take(align)(#input)
+            nom::bytes::streaming::take(align)(__i__)
         }?;
     }
 }
@@ -290,13 +292,14 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
+            let __i__ = #input;
             let offset = (#offset) as isize;
             let start = #orig_input.as_ptr() as usize;
-            let pos = #input.as_ptr() as usize - start;
+            let pos = __i__.as_ptr() as usize - start;
             let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
-                    return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
+                    return Err(nom::Err::Error(nom::error::make_error(__i__, nom::error::ErrorKind::TooLarge)));
                 }
                 pos - offset_u
             } else {
@@ -329,8 +332,9 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
+            let __i__ = #input;
             let skip = (#skip) as usize;
-            nom::bytes::streaming::take(skip)(#input)
+            nom::bytes::streaming::take(skip)(__i__)
         }?;
     }
 }
-- 
2.43.0


From 307f118cc1aecf475bb72e707ca881dcc7b32d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 17/24] fix: types named Parser conflicted with the generated
 import of the trait

---
 nom-derive-impl/src/gen/enums.rs           | 2 +-
 nom-derive-impl/src/gen/fieldless_enums.rs | 2 +-
 nom-derive-impl/src/gen/structs.rs         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 734c5f6..eb49150 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -76,7 +76,7 @@ impl Generator for GenEnum {
         };
         let tokens = quote! {
             #[allow(unused_imports)]
-            use nom::Parser;
+            use nom::Parser as _;
             let #input = #orig_input;
             #tl_pre
             let (#input, enum_def) = match selector {
diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 3eebf87..22f294d 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -74,7 +74,7 @@ impl Generator for GenFieldlessEnum {
         // generate body
         let tokens = quote! {
             #[allow(unused_imports)]
-            use nom::Parser;
+            use nom::Parser as _;
             let #input = #orig_input;
             #tl_pre
             let (#input, selector) = #parser.parse(#input)?;
diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index 0eafc1a..e33d8fc 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -102,7 +102,7 @@ impl Generator for GenStruct {
         };
 
         let fn_body = quote! {
-            use nom::Parser;
+            use nom::Parser as _;
             let #input = #orig_input;
             #tl_pre
             #(#pre let (#input, #idents) = #parser_tokens (#input) ?; #post)*
-- 
2.43.0


From b23dd260efab72c8a60af065fcd0305ef1512202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:16 +0000
Subject: [PATCH 18/24] fix: declarations whose lifetimes have bounds made the
 derive panic

The bound parameters, not the lifetimes, were put in the where clause of the
generated implementation.
---
 nom-derive-impl/src/gen/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 3528e16..04c0308 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -184,7 +184,7 @@ pub(crate) trait Generator {
         } else {
             parse_quote!(#where_clause)
         };
-        let lfts: Vec<_> = orig_generics.lifetimes().collect();
+        let lfts: Vec<_> = orig_generics.lifetimes().map(|l| &l.lifetime).collect();
         if !lfts.is_empty() {
             // input slice must outlive all lifetimes from Self
             let wh: WherePredicate = parse_quote! { #lft: #(#lfts)+* };
-- 
2.43.0


From 3c87348ff545133f9e24363ec51767a1a0253e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:13 +0000
Subject: [PATCH 19/24] fix: GenericErrors: use core::fmt, so that the derived
 code compiles in no_std crates

---
 nom-derive-impl/src/gen/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 04c0308..d7ab00a 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -108,7 +108,7 @@ pub(crate) trait Generator {
                     quote!(<#ident_e>),
                     quote! {where
                         #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>,
-                        #ident_e: std::fmt::Debug,
+                        #ident_e: core::fmt::Debug,
                         #(#predicates,)*
                     },
                 )
@@ -339,7 +339,7 @@ pub(crate) fn gen_fn_decl(
                 #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>
             };
             fn_where_clause.predicates.push(dep);
-            let dep: WherePredicate = parse_quote! { #ident_e: std::fmt::Debug };
+            let dep: WherePredicate = parse_quote! { #ident_e: core::fmt::Debug };
             fn_where_clause.predicates.push(dep);
             fn_where_clause
                 .predicates
-- 
2.43.0


From 9db0a350615345e5b1b547df94eecb44a7519ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:45 +0000
Subject: [PATCH 20/24] fix: Ignore: use the default value of the field type,
 whatever the type

An array of Option or Vec did not compile (the first ident of the type was
that of the elements), and slices, tuples and types with several path
segments were rejected.
---
 nom-derive-impl/src/structs.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index fc4db6a..dd9a793 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -104,20 +104,10 @@ pub(crate) fn get_type_first_ident(ty: &Type) -> Result<String> {
 }
 
 fn get_type_default(ty: &Type) -> Result<ParserExpr> {
-    let ident_s = get_type_first_ident(ty)?;
-    let default = match ident_s.as_ref() {
-        // "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128" => {
-        //     "0".to_string()
-        // }
-        // "f32" | "f64" => "0.0".to_string(),
-        "Option" => quote! { None },
-        "PhantomData" => quote! { PhantomData },
-        "Vec" => quote! { Vec::new() },
-        _ => quote! { <#ty>::default() },
-    };
+    // any type is possible here, since it is not parsed
     // ParserTree::Raw(format!("{{ |i| Ok((i, {})) }}", default))
     let ts = quote! {
-        { |i| Ok((i, #default )) }
+        { |i| Ok((i, <#ty>::default() )) }
     };
     Ok(ParserExpr::Raw(ts))
 }
-- 
2.43.0


From a83b858eaf9d0ae89dc477febdc4e462a12e5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:37 +0000
Subject: [PATCH 21/24] fix: accept a trailing comma in ExtraArgs

The derive panicked, while the list was checked with parse_terminated.
---
 nom-derive-impl/src/gen/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index d7ab00a..62273f2 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -278,7 +278,7 @@ pub(crate) trait Generator {
         // extra args, if any
         if let Some(ts) = self.extra_args() {
             let ts = ts.clone();
-            let parser = Punctuated::<syn::FnArg, Comma>::parse_separated_nonempty;
+            let parser = Punctuated::<syn::FnArg, Comma>::parse_terminated;
             let extra_args = parser.parse2(ts).expect("parse extra_args");
             for extra_arg in &extra_args {
                 match extra_arg {
@@ -389,7 +389,7 @@ pub(crate) fn get_fn_args(
     if let Some(ts) = extra_args {
         let ts = ts.clone();
         type Comma = syn::Token![,];
-        let parser = Punctuated::<syn::FnArg, Comma>::parse_separated_nonempty;
+        let parser = Punctuated::<syn::FnArg, Comma>::parse_terminated;
         let extra_args = parser.parse2(ts).expect("parse extra_args");
         for extra_arg in &extra_args {
             fn_args.push(extra_arg.clone());
-- 
2.43.0


From 2f8ad18fb7b47e8839a503a308bd88de1b36f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:53 +0000
Subject: [PATCH 22/24] fix: enums with GenericErrors and a String field

The requirement of String on the error type was added for structs only, so
such enums did not compile.
---
 nom-derive-impl/src/gen/enums.rs   | 13 ++++++++++++-
 nom-derive-impl/src/gen/structs.rs |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index eb49150..4acf259 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -11,7 +11,7 @@ use crate::r#gen::get_extra_args;
 use crate::structs::get_pre_post_exec;
 use crate::Result;
 
-use super::Generator;
+use super::{structs::add_extra_where_predicates, Generator};
 
 pub struct GenEnum {
     pub name: Ident,
@@ -23,6 +23,7 @@ pub struct GenEnum {
     tl_pre: Option<TokenStream>,
     tl_post: Option<TokenStream>,
     variants_defs: Vec<VariantParserTree>,
+    impl_where_predicates: Option<Vec<WherePredicate>>,
 }
 
 impl Generator for GenEnum {
@@ -58,6 +59,10 @@ impl Generator for GenEnum {
         &self.orig_generics
     }
 
+    fn impl_where_predicates(&self) -> Option<&Vec<WherePredicate>> {
+        self.impl_where_predicates.as_ref()
+    }
+
     #[inline]
     fn config(&self) -> &Config {
         &self.config
@@ -130,6 +135,11 @@ impl GenEnum {
             .map(|v| parse_variant(v, &mut config))
             .collect::<Result<Vec<_>>>()?;
 
+        let impl_where_predicates = variants_defs
+            .iter()
+            .filter_map(|v| add_extra_where_predicates(&v.struct_def, &config))
+            .reduce(|a, b| a.into_iter().chain(b).collect());
+
         Ok(Self {
             name,
             config,
@@ -138,6 +148,7 @@ impl GenEnum {
             tl_pre,
             tl_post,
             variants_defs,
+            impl_where_predicates,
         })
     }
 
diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index e33d8fc..a8c5702 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -163,7 +163,7 @@ impl GenStruct {
 
 /// Find additional where clauses to add (for ex. `String` requires `FromExternalError<&[u8], Utf8Error>`)
 #[allow(clippy::single_match)]
-fn add_extra_where_predicates(
+pub(crate) fn add_extra_where_predicates(
     parser_tree: &StructParserTree,
     config: &Config,
 ) -> Option<Vec<WherePredicate>> {
-- 
2.43.0


From 118f4e815c601f04538b5ccfb908d7b45c2c3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:32 +0000
Subject: [PATCH 23/24] fix: GenericErrors with String as argument of a type
 (Option<String>)

The requirement of String on the error type was added only if the type of the
field itself was String.
---
 nom-derive-impl/src/gen/structs.rs | 31 +++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index a8c5702..09a848a 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -162,7 +162,6 @@ impl GenStruct {
 }
 
 /// Find additional where clauses to add (for ex. `String` requires `FromExternalError<&[u8], Utf8Error>`)
-#[allow(clippy::single_match)]
 pub(crate) fn add_extra_where_predicates(
     parser_tree: &StructParserTree,
     config: &Config,
@@ -174,14 +173,9 @@ pub(crate) fn add_extra_where_predicates(
         // visit parser tree and look for types with requirement on Error type
         for p in &parser_tree.parsers {
             if let Some(ty) = p.item.expr.last_type() {
-                if let Ok(s) = get_type_first_ident(&ty.0) {
-                    match s.as_ref() {
-                        "String" => {
-                            let wh: WherePredicate = parse_quote! {#err: nom::error::FromExternalError<&#lft [u8], core::str::Utf8Error>};
-                            v.push(wh)
-                        }
-                        _ => (),
-                    }
+                if uses_string(&ty.0) {
+                    let wh: WherePredicate = parse_quote! {#err: nom::error::FromExternalError<&#lft [u8], core::str::Utf8Error>};
+                    v.push(wh)
                 }
             }
         }
@@ -194,3 +188,22 @@ pub(crate) fn add_extra_where_predicates(
         None
     }
 }
+
+/// Test if `String` appears in a type (for ex. `Option<String>`)
+fn uses_string(ty: &Type) -> bool {
+    match ty {
+        Type::Path(ty) => ty.path.segments.iter().any(|segment| {
+            let in_args = match &segment.arguments {
+                PathArguments::AngleBracketed(args) => args
+                    .args
+                    .iter()
+                    .any(|arg| matches!(arg, GenericArgument::Type(ty) if uses_string(ty))),
+                _ => false,
+            };
+            in_args || segment.ident == "String"
+        }),
+        Type::Array(ty) => uses_string(&ty.elem),
+        Type::Tuple(ty) => ty.elems.iter().any(uses_string),
+        _ => false,
+    }
+}
-- 
2.43.0


From dedf37fb9b00692512b827fd3a2d911fa3ffdcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:31 +0000
Subject: [PATCH 24/24] fix: GenericErrors with Debug

dbg_dmp requires the error type to be Debug: structs with both attributes did
not compile.
---
 nom-derive-impl/src/gen/structs.rs |  4 ++++
 nom-derive-impl/src/parsertree.rs  | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index 09a848a..31f78ac 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -172,6 +172,10 @@ pub(crate) fn add_extra_where_predicates(
         let err = Ident::new(config.error_name(), Span::call_site());
         // visit parser tree and look for types with requirement on Error type
         for p in &parser_tree.parsers {
+            if p.item.expr.uses_debug() {
+                let wh: WherePredicate = parse_quote! {#err: core::fmt::Debug};
+                v.push(wh)
+            }
             if let Some(ty) = p.item.expr.last_type() {
                 if uses_string(&ty.0) {
                     let wh: WherePredicate = parse_quote! {#err: nom::error::FromExternalError<&#lft [u8], core::str::Utf8Error>};
diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 0998507..6ca4867 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -105,6 +105,21 @@ impl ParserExpr {
         ParserExpr::Complete(Box::new(self))
     }
 
+    /// Test if `dbg_dmp` is used by this parser
+    pub fn uses_debug(&self) -> bool {
+        match self {
+            ParserExpr::DbgDmp(_, _) => true,
+            ParserExpr::Complete(expr)
+            | ParserExpr::Cond(expr, _)
+            | ParserExpr::Count(expr, _)
+            | ParserExpr::Into(expr)
+            | ParserExpr::LengthCount(expr, _)
+            | ParserExpr::Map(expr, _)
+            | ParserExpr::Verify(expr, _, _) => expr.uses_debug(),
+            _ => false,
+        }
+    }
+
     pub fn last_type(&self) -> Option<&TypeItem> {
         match self {
             ParserExpr::CallParse(e)
-- 
2.43.0

