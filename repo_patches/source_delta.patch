From f840fb9c116d57e67c726cca98e961eaa9b8e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 01/33] fix: do not show or require the `r#` of a raw
 identifier in variant names

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 2d47b5e..f0f58ba 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -617,7 +617,7 @@ impl DisplayStyle {
             }
         }
 
-        let s = ident.to_string();
+        let s = ident.unraw().to_string();
         let (line_head, word_head, normal, sep) = match self {
             DisplayStyle::None => {
                 return s;
-- 
2.43.0


From 6cc6acb3d39a649d2b5f576a411c58f0b2649d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 02/33] fix: `{x}` in the format of a field is a member of that
 field when parsing, too

---
 parse-display-derive/src/parser_builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7086605..a4973ba 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -212,7 +212,8 @@ impl<'a> ParserBuilder<'a> {
                             continue;
                         }
                     }
-                    if keys.len() == 1 {
+                    let is_field = matches!(vb, VarBase::Field { .. } | VarBase::FieldSome { .. });
+                    if keys.len() == 1 && !is_field {
                         self.push_field(vb, &keys[0], format.span)?;
                         continue;
                     }
-- 
2.43.0


From ba75b55a2a9ae108c06cbc85797781d7f75263f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 03/33] fix: accept `(?<0.a>..)`, a nested member of an unnamed
 field, in `regex`

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index a4973ba..f5f10f8 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -125,7 +125,7 @@ impl<'a> ParserBuilder<'a> {
             s.len() % 2 == 1
         }
 
-        let regex_number = regex!("^[0-9]+$");
+        let regex_number = regex!("^[0-9]");
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
 
         let text = s.value();
-- 
2.43.0


From b68ecee10b22b0727a6cbc6e0416794922664753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 04/33] fix: `#[from_str(with = ..)]` takes priority over
 `#[display(with = ..)]` in either order

---
 parse-display-derive/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index f0f58ba..396eae6 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -418,15 +418,19 @@ impl HelperAttributes {
             dump_from_str: false,
             crate_path: parse_quote!(::parse_display),
         };
+        let mut with_from_str = None;
         for a in attrs {
             if a.path().is_ident("display") {
                 hattrs.set_display_args(a.parse_args()?)?;
             }
             if use_from_str && a.path().is_ident("from_str") {
                 hattrs.push_from_str_warning_spans(a)?;
-                hattrs.set_from_str_args(a.parse_args()?);
+                let mut args: FromStrArgs = a.parse_args()?;
+                with_from_str = args.with.take().or(with_from_str);
+                hattrs.set_from_str_args(args);
             }
         }
+        hattrs.with = with_from_str.or(hattrs.with);
         Ok(hattrs)
     }
     fn set_display_args(&mut self, args: DisplayArgs) -> Result<()> {
@@ -462,9 +466,6 @@ impl HelperAttributes {
             self.regex = Some(regex);
         }
         self.regex_infer |= args.regex_infer.value();
-        if let Some(with) = args.with {
-            self.with = Some(with);
-        }
         if let Some(new) = args.new {
             self.new_expr = Some(new);
         }
-- 
2.43.0


From ea02314df3608cf0786183b7e4bc84b40fbea82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 05/33] fix: honour the format spec of `#[display(opt)]` fields

---
 parse-display-derive/src/lib.rs |  8 +++++++-
 parse-display/src/helpers.rs    | 33 +++++++++++++++++++++------------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 396eae6..672cc57 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -920,6 +920,11 @@ impl VarBase<'_> {
             let in_expr = self.field_expr(key);
             let formatter_ident = Ident::new("_formatter", Span::call_site());
             let vb = VarBase::FieldSome { key, ty: inner_ty };
+            let fmt_trait = if hattrs.format.is_some() {
+                FormatType::Display.trait_name()
+            } else {
+                format_spec.format_type.trait_name()
+            };
             let out_expr = vb.format_arg_from_some_format(
                 hattrs.format,
                 format_spec,
@@ -929,12 +934,13 @@ impl VarBase<'_> {
                 cx,
             )?;
             let ident = key.binding_var();
+            let tr = format_ident!("{}", fmt_trait);
             Ok(quote! {
                 (
                     #crate_path::helpers::OptionFormatHelper::<#inner_ty, _> {
                         value: &#in_expr,
                         f: |#ident : &#inner_ty, #formatter_ident : &mut ::core::fmt::Formatter| {
-                             ::core::write!(#formatter_ident, "{}", #out_expr)
+                             ::core::fmt::#tr::fmt(&#out_expr, #formatter_ident)
                         },
                         none_value: "",
                     }
diff --git a/parse-display/src/helpers.rs b/parse-display/src/helpers.rs
index 5659cba..3140b06 100644
--- a/parse-display/src/helpers.rs
+++ b/parse-display/src/helpers.rs
@@ -1,5 +1,5 @@
 use ::core::{
-    fmt::{self, Display, Formatter},
+    fmt::{self, Formatter},
     ops::Fn,
 };
 
@@ -43,18 +43,27 @@ pub struct OptionFormatHelper<'a, T, F> {
     pub f: F,
     pub none_value: &'a str,
 }
-impl<'a, T, F> Display for OptionFormatHelper<'a, T, F>
-where
-    F: Fn(&'a T, &mut Formatter) -> fmt::Result,
-{
-    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        if let Some(value) = self.value {
-            (self.f)(value, f)
-        } else {
-            Formatter::write_str(f, self.none_value)
-        }
-    }
+macro_rules! impl_option_format_helper {
+    ($($tr:ident,)*) => {
+        $(
+            impl<'a, T, F> fmt::$tr for OptionFormatHelper<'a, T, F>
+            where
+                F: Fn(&'a T, &mut Formatter) -> fmt::Result,
+            {
+                fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+                    if let Some(value) = self.value {
+                        (self.f)(value, f)
+                    } else {
+                        Formatter::write_str(f, self.none_value)
+                    }
+                }
+            }
+        )*
+    };
 }
+impl_option_format_helper!(
+    Display, Debug, LowerHex, UpperHex, Octal, Binary, LowerExp, UpperExp, Pointer,
+);
 
 #[deprecated(
     note = "`#[from_str(default_fields)]` will be removed in a future version. Use `#[from_str(default)]` instead."
-- 
2.43.0


From 5c00900a1da67b272f0b8e1f3dd0e4520e7fad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 06/33] fix: parse the element of `#[display(opt)]` fields with
 `with` and `regex_infer`

---
 parse-display-derive/src/parser_builder.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index f5f10f8..b085363 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -14,7 +14,7 @@ use std::{
     mem,
 };
 use syn::{
-    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Variant, parse_quote,
+    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, parse_quote,
     spanned::Spanned,
 };
 
@@ -227,8 +227,9 @@ impl<'a> ParserBuilder<'a> {
                             match vb {
                                 VarBase::Struct { .. } => {}
                                 VarBase::Variant { .. } => {}
-                                VarBase::Field { field, key, .. } => {
-                                    self.with.push(With::new(c, key, with_expr, &field.ty));
+                                VarBase::Field { key, .. } => {
+                                    let ty = self.field(key, format.span)?.parse_ty();
+                                    self.with.push(With::new(c, key, with_expr, ty));
                                 }
                                 VarBase::FieldSome { key, ty } => {
                                     self.with.push(With::new(c, key, with_expr, ty));
@@ -512,6 +513,15 @@ impl<'a> FieldEntry<'a> {
             crate_path,
         })
     }
+    /// The type to be parsed, `T` for `Option<T>` with `#[display(opt)]`.
+    fn parse_ty(&self) -> &'a Type {
+        let ty = &self.source.ty;
+        if self.hattrs.opt.value() {
+            get_option_element(ty).unwrap_or(ty)
+        } else {
+            ty
+        }
+    }
     #[allow(clippy::collapsible_else_if)]
     fn set_capture(&mut self, keys: &[FieldKey], capture_next: &mut usize) -> String {
         let idx = if keys.is_empty() {
@@ -696,7 +706,7 @@ fn str_expr_to_parse_capture_expr(
     crate_path: &Path,
 ) -> TokenStream {
     if let Some(with) = &field.hattrs.with {
-        let ty = &field.source.ty;
+        let ty = field.parse_ty();
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-- 
2.43.0


From c3d61ce3a7be08dfdbef2f790c7648b8d9c86bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 07/33] fix: `#[from_str(new = ..)]` with fields named by
 keywords or `c`

---
 parse-display-derive/src/lib.rs            |  5 ++---
 parse-display-derive/src/parser_builder.rs | 15 ++++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 672cc57..b5e6050 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1138,10 +1138,9 @@ impl FieldKey {
     }
     fn new_arg_var(&self) -> Ident {
         match self {
-            Self::Named(s) => parse_str(s),
-            Self::Unnamed(idx) => parse_str(&format!("_{idx}")),
+            Self::Named(s) => format_ident!("r#{s}"),
+            Self::Unnamed(idx) => format_ident!("_{idx}"),
         }
-        .unwrap()
     }
 }
 impl std::fmt::Display for FieldKey {
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index b085363..4c1e6e7 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -352,19 +352,20 @@ impl<'a> ParserBuilder<'a> {
         }
 
         let code = if let Some(new_expr) = &self.new_expr {
-            let mut code = TokenStream::new();
+            let mut vars = Vec::new();
+            let mut exprs = Vec::new();
             for (key, field) in &self.fields {
-                let expr = field.build_field_init_expr(&names, key, self.span)?;
-                let var = key.new_arg_var();
-                code.extend(quote! { let #var = #expr; });
+                exprs.push(field.build_field_init_expr(&names, key, self.span)?);
+                vars.push(key.new_arg_var());
             }
             let crate_path = self.crate_path;
-            code.extend(quote! {
+            // bound all at once, so that no field hides what the other expressions use
+            quote! {
+                let (#(#vars,)*) = (#(#exprs,)*);
                 if let ::core::result::Result::Ok(value) = #crate_path::IntoResult::into_result(#new_expr) {
                     return ::core::result::Result::Ok(value);
                 }
-            });
-            code
+            }
         } else if self.use_default {
             let mut setters = Vec::new();
             for (key, field) in &self.fields {
-- 
2.43.0


From 74cf9bf3cf887f0688fded6d8d5a8e7dbb0f2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 08/33] fix: `FromStrRegex` of numbers covers `+1`, `infinity`
 and signed `nan`

---
 parse-display/src/from_str_regex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse-display/src/from_str_regex.rs b/parse-display/src/from_str_regex.rs
index c7a3c12..e5378de 100644
--- a/parse-display/src/from_str_regex.rs
+++ b/parse-display/src/from_str_regex.rs
@@ -47,7 +47,7 @@ impl FromStrRegex for bool {
 }
 
 fn regex_uint() -> String {
-    r"[0-9]+".into()
+    r"\+?[0-9]+".into()
 }
 impl FromStrRegex for u8 {
     fn from_str_regex() -> String {
@@ -116,7 +116,7 @@ impl FromStrRegex for NonZero<usize> {
 }
 
 fn regex_sint() -> String {
-    r"-?[0-9]+".into()
+    r"[+-]?[0-9]+".into()
 }
 
 impl FromStrRegex for i8 {
@@ -185,7 +185,7 @@ impl FromStrRegex for NonZero<isize> {
 }
 
 fn regex_f() -> String {
-    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?inf|nan)".into()
+    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?(inf|infinity|nan))".into()
 }
 impl FromStrRegex for f32 {
     fn from_str_regex() -> String {
-- 
2.43.0


From 5433ba7259dbd5f9fc64e2a18cf9082f47026460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 09/33] fix: do not depend on the `String`, `format!`,
 `format_args!` and `Into` in scope

---
 parse-display-derive/src/lib.rs            | 10 +++++-----
 parse-display-derive/src/parser_builder.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index b5e6050..8180726 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -201,7 +201,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -282,7 +282,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
             let s = fmts.join("|");
-            quote! { #s.into() }
+            quote! { ::std::string::String::from(#s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
@@ -292,7 +292,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 })
                 .collect::<Vec<_>>();
             let fmt = fmts.join("|");
-            quote! { format!(#fmt, #(#regex_args,)*) }
+            quote! { ::std::format!(#fmt, #(#regex_args,)*) }
         };
 
         ts.extend(impl_trait(
@@ -300,7 +300,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -968,7 +968,7 @@ impl VarBase<'_> {
     ) -> Result<TokenStream> {
         if let Some(format) = format {
             let args = format.format_args(self, with, bounds, cx)?;
-            Ok(quote! { format_args!(#args) })
+            Ok(quote! { ::core::format_args!(#args) })
         } else {
             self.format_arg("", format_spec, span, with, bounds, cx)
         }
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 4c1e6e7..c981c90 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -307,7 +307,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { #s.into() })
+                Ok(quote! { ::std::string::String::from(#s) })
             }
         }
     }
-- 
2.43.0


From 45279224aa44a4168be43ea2f345cc89622f1447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 10/33] fix: `#[derive(FromStr)]` for an enum with a variant
 named `Err`

---
 parse-display-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 8180726..6c89e5c 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -187,7 +187,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #body
             }
@@ -267,7 +267,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
-- 
2.43.0


From 4b84b5e903aafa61c5cbbfeb7dc2becee4d13608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 11/33] fix: accept a line feed as the fill character

---
 parse-display-derive/src/format_syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/format_syntax.rs b/parse-display-derive/src/format_syntax.rs
index 226b7f5..0f80f7b 100644
--- a/parse-display-derive/src/format_syntax.rs
+++ b/parse-display-derive/src/format_syntax.rs
@@ -96,7 +96,7 @@ impl<'a> FormatSpec<'a> {
     pub fn parse(s: &'a str) -> std::result::Result<Self, FormatParseError> {
         let re = regex!(
             "^\
-             ((?<fill>.)?\
+             ((?<fill>(?s:.))?\
              (?<align>[<>^]))??\
              (?<sign>[+-])?\
              (?<is_alternate>#)?\
-- 
2.43.0


From cd3ba866ffef1071e1e687b133636c4b7187dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 12/33] fix: `#[derive(Display)]` for an enum with no variants

---
 parse-display-derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 6c89e5c..e1d5d02 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -149,9 +149,14 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
         arms.push(make_arm(&hattrs, variant, &mut bounds, &cx)?);
     }
     let trait_path = parse_quote!(::core::fmt::Display);
+    let value = if arms.is_empty() {
+        quote!(*self)
+    } else {
+        quote!(self)
+    };
     let contents = quote! {
         fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-            match self {
+            match #value {
                 #(#arms)*
             }
         }
-- 
2.43.0


From 18cdb30d3e29112bd1a481e2729baa29d9446df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 13/33] fix: accept non-ASCII field names in `regex`

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index c981c90..04d72b3 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -126,7 +126,7 @@ impl<'a> ParserBuilder<'a> {
         }
 
         let regex_number = regex!("^[0-9]");
-        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
+        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[\w.]*)>");
 
         let text = s.value();
         let text_debug = regex_capture.replace_all(&text, |c: &Captures| {
-- 
2.43.0


From 735ab9c5917bfb77d550b008f0aa62441eff3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 14/33] fix: try every variant with the same text when
 `#[from_str(new = ..)]` fails

---
 parse-display-derive/src/lib.rs            | 12 +-----------
 parse-display-derive/src/parser_builder.rs |  2 +-
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index e1d5d02..02df0d2 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -251,16 +251,6 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         }
         p.build_regex_fmts_args(&mut regex_fmts, &mut regex_args)?;
     }
-    let match_body = if arms.is_empty() {
-        quote! {}
-    } else {
-        quote! {
-            match s {
-                #(#arms,)*
-                _ => { }
-            }
-        }
-    };
     let wheres = bounds.build_wheres(&trait_path);
     let warnings =
         deprecated_default_fields_warnings(crate_path, &deprecated_default_fields_warning_spans);
@@ -274,7 +264,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
             type Err = #crate_path::ParseError;
             fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
-                #match_body
+                #(#arms)*
                 #({ #bodys })*
                 ::core::result::Result::Err(#crate_path::ParseError::new())
             }
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 04d72b3..4144881 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -330,7 +330,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let code = self.build_construct_code(constructor)?;
-                let code = quote! { #s  => { #code }};
+                let code = quote! { if s == #s { #code } };
                 Ok(ParseVariantCode::MatchArm(code))
             }
         }
-- 
2.43.0


From 2a89af07ea497bac370dedf1a48bc8dd88cfddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 15/33] fix: fields and constants named `PARSER` in types with
 `#[derive(FromStr)]`

---
 parse-display-derive/src/parser_builder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 4144881..fc64db9 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -440,9 +440,15 @@ impl<'a> ParserBuilder<'a> {
                 } = self.build_parser_init(&hirs_with_start_end(hirs))?;
                 let crate_path = self.crate_path;
                 quote! {
-                    static PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
                     #[allow(clippy::trivial_regex)]
-                    let p = PARSER.get_or_init(|| #expr);
+                    let p = {
+                        let init = || #expr;
+                        // not visible to the expressions written by the user
+                        {
+                            static PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
+                            PARSER.get_or_init(init)
+                        }
+                    };
                     #(#debug_asserts)*
                     if let ::core::option::Option::Some(c) = p.re.captures(&s) {
                          #code
-- 
2.43.0


From 21d405c584fdfc89e4355779d41515031e778cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 16/33] fix: do not depend on the `str` in scope

---
 parse-display-derive/src/lib.rs            | 4 ++--
 parse-display-derive/src/parser_builder.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 02df0d2..61f9a91 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -192,7 +192,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(s: &::core::primitive::str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #body
             }
@@ -262,7 +262,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(s: &::core::primitive::str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #(#arms)*
                 #({ #bodys })*
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index fc64db9..ac46e0f 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -319,7 +319,7 @@ impl<'a> ParserBuilder<'a> {
                 let crate_path = self.crate_path;
                 let code = self.build_from_str_body(constructor)?;
                 let code = quote! {
-                    let #fn_ident = |s: &str| -> ::core::result::Result<Self, #crate_path::ParseError> {
+                    let #fn_ident = |s: &::core::primitive::str| -> ::core::result::Result<Self, #crate_path::ParseError> {
                         #code
                     };
                     if let ::core::result::Result::Ok(value) = #fn_ident(s) {
-- 
2.43.0


From 0d2ec86b42d743b103c162306acef476a26860ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 17/33] fix: do not depend on `From` in scope in
 `from_str_regex`

---
 parse-display-derive/src/lib.rs            | 2 +-
 parse-display-derive/src/parser_builder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 61f9a91..eb42cb5 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -277,7 +277,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
             let s = fmts.join("|");
-            quote! { ::std::string::String::from(#s) }
+            quote! { ::std::string::ToString::to_string(#s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index ac46e0f..db7f142 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -307,7 +307,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { ::std::string::String::from(#s) })
+                Ok(quote! { ::std::string::ToString::to_string(#s) })
             }
         }
     }
-- 
2.43.0


From bbdeb0841bbc81d6acd331c86ca1e3f331be36ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 18/33] fix: `#[derive(FromStr)]` in a `no_std` crate while the
 `std` feature is on

---
 parse-display-derive/src/lib.rs            | 8 ++++----
 parse-display-derive/src/parser_builder.rs | 5 +++--
 parse-display/src/helpers_std.rs           | 1 +
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index eb42cb5..cb8f19a 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -206,7 +206,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> ::std::string::String {
+                fn from_str_regex() -> #crate_path::helpers::String {
                     #body
                 }
             },
@@ -277,7 +277,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
             let s = fmts.join("|");
-            quote! { ::std::string::ToString::to_string(#s) }
+            quote! { #crate_path::helpers::format!("{}", #s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
@@ -287,7 +287,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 })
                 .collect::<Vec<_>>();
             let fmt = fmts.join("|");
-            quote! { ::std::format!(#fmt, #(#regex_args,)*) }
+            quote! { #crate_path::helpers::format!(#fmt, #(#regex_args,)*) }
         };
 
         ts.extend(impl_trait(
@@ -295,7 +295,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> ::std::string::String {
+                fn from_str_regex() -> #crate_path::helpers::String {
                     #body
                 }
             },
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index db7f142..7201fc7 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -307,7 +307,8 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { ::std::string::ToString::to_string(#s) })
+                let crate_path = self.crate_path;
+                Ok(quote! { #crate_path::helpers::format!("{}", #s) })
             }
         }
     }
@@ -445,7 +446,7 @@ impl<'a> ParserBuilder<'a> {
                         let init = || #expr;
                         // not visible to the expressions written by the user
                         {
-                            static PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
+                            static PARSER: #crate_path::helpers::OnceLock<#crate_path::helpers::Parser> = #crate_path::helpers::OnceLock::new();
                             PARSER.get_or_init(init)
                         }
                     };
diff --git a/parse-display/src/helpers_std.rs b/parse-display/src/helpers_std.rs
index 688374f..2d82fb9 100644
--- a/parse-display/src/helpers_std.rs
+++ b/parse-display/src/helpers_std.rs
@@ -8,6 +8,7 @@ use regex_syntax::ast::{Ast, Flags, GroupKind};
 use crate::{ANY_REGEX, DisplayFormat, FromStrFormat, FromStrRegex};
 
 pub use regex;
+pub use std::{format, string::String, sync::OnceLock};
 
 #[track_caller]
 pub fn to_regex<T, E>(format: &dyn FromStrFormat<T, Err = E>) -> Option<String> {
-- 
2.43.0


From 5a92c83591efb57c108e9671b35679b3eaf5c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 19/33] fix: generic fields `&T` and `T` in one format

---
 parse-display-derive/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index cb8f19a..bd0a999 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1028,6 +1028,12 @@ fn format_arg(
         let tr = format_spec.format_type.trait_name();
         let tr: Ident = parse_str(tr).unwrap();
         if bounds.can_extend {
+            // `&T: Display` is equivalent to `T: Display`, but as a predicate it would hide
+            // the implementation for other references to `T`.
+            let ty = match format_spec.format_type {
+                FormatType::Pointer => ty.clone(),
+                _ => unref_ty(ty),
+            };
             bounds.pred.push(parse_quote!(#ty : ::core::fmt::#tr));
         }
     }
-- 
2.43.0


From d586c1bf2e49cc34983693c8ff5d704abe01a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 20/33] fix: trait bounds for field types like `A<{ N }>`

---
 parse-display-derive/src/syn_utils.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index b11b4e6..a786de8 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -1,14 +1,14 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
 use quote::{ToTokens, quote, quote_spanned};
 use std::collections::HashSet;
 use syn::{
-    DeriveInput, GenericParam, Generics, Ident, LitStr, Path, PathArguments, PathSegment, Result,
-    Token, Type, WherePredicate,
+    DeriveInput, Expr, GenericParam, Generics, Ident, LitStr, Path, PathArguments, PathSegment,
+    Result, Token, Type, WherePredicate,
     ext::IdentExt,
     parse::{Parse, ParseStream, discouraged::Speculative},
     parse_str, parse2,
     punctuated::Punctuated,
-    visit::{Visit, visit_path},
+    visit::{Visit, visit_expr, visit_path},
 };
 
 macro_rules! bail {
@@ -55,6 +55,13 @@ impl GenericParamSet {
         self.idents.contains(&ident.unraw())
     }
 
+    fn contains_in_tokens(&self, ts: TokenStream) -> bool {
+        ts.into_iter().any(|t| match t {
+            TokenTree::Ident(i) => self.contains(&i),
+            TokenTree::Group(g) => self.contains_in_tokens(g.stream()),
+            _ => false,
+        })
+    }
     pub fn contains_in_type(&self, ty: &Type) -> bool {
         struct Visitor<'a> {
             generics: &'a GenericParamSet,
@@ -71,6 +78,15 @@ impl GenericParamSet {
                 }
                 visit_path(self, i);
             }
+            fn visit_expr(&mut self, i: &'ast Expr) {
+                // Without the `full` feature of `syn`, `{ N }` is not parsed.
+                if let Expr::Verbatim(ts) = i {
+                    if self.generics.contains_in_tokens(ts.clone()) {
+                        self.result = true;
+                    }
+                }
+                visit_expr(self, i);
+            }
         }
         let mut visitor = Visitor {
             generics: self,
-- 
2.43.0


From cfd5b71860a214ad27a1c247bec55788cb1d7d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 21/33] fix: reject `{}` in the format of a struct in
 `#[derive(FromStr)]`

---
 parse-display-derive/src/parser_builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7201fc7..109c021 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -212,6 +212,9 @@ impl<'a> ParserBuilder<'a> {
                             continue;
                         }
                     }
+                    if matches!(vb, VarBase::Struct { .. }) && keys.is_empty() {
+                        bail!(format.span, "{{}} is not allowed in struct format.")
+                    }
                     let is_field = matches!(vb, VarBase::Field { .. } | VarBase::FieldSome { .. });
                     if keys.len() == 1 && !is_field {
                         self.push_field(vb, &keys[0], format.span)?;
-- 
2.43.0


From 511458ac9ac1466c0baafa0586d650a1f0de77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:38 +0000
Subject: [PATCH 22/33] fix: reject unknown format traits in
 `#[derive(FromStr)]`

---
 parse-display-derive/src/parser_builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 109c021..0fe4f05 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -1,6 +1,7 @@
 use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
-    With, field_map, get_option_element, join, regex_utils::*, set_span, syn_utils::*,
+    With, field_map, format_syntax::FormatSpec, get_option_element, join, regex_utils::*, set_span,
+    syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
@@ -204,7 +205,8 @@ impl<'a> ParserBuilder<'a> {
                 DisplayFormatPart::Str(s) => self.push_str(s),
                 DisplayFormatPart::EscapedBeginBracket => self.push_str("{"),
                 DisplayFormatPart::EscapedEndBracket => self.push_str("}"),
-                DisplayFormatPart::Var { arg, .. } => {
+                DisplayFormatPart::Var { arg, format_spec } => {
+                    FormatSpec::parse_with_span(format_spec, format.span)?;
                     let keys = FieldKey::from_str_deep(arg);
                     if let VarBase::Variant { variant, style, .. } = vb {
                         if keys.is_empty() {
-- 
2.43.0


From 09119bf51c2a6901cc7948114e1b0b3108af948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 23/33] fix: reject `#[display(opt)]` on a field that is not an
 `Option` and has only nested fields parsed

---
 parse-display-derive/src/parser_builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 0fe4f05..70eb6d1 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -257,6 +257,9 @@ impl<'a> ParserBuilder<'a> {
         let parent = vb;
         let field = e.source;
         if e.hattrs.opt.value() {
+            if get_option_element(&field.ty).is_none() {
+                bail!(field.ty.span(), "field `{key}` is not a option type.");
+            }
             let mut hirs = mem::take(&mut self.parse_format).into_hirs();
             self.push_attrs(&hattrs, &VarBase::Field { parent, key, field })?;
             let hirs_child = mem::take(&mut self.parse_format).into_hirs();
-- 
2.43.0


From 5e7a4ed6ced2fc2de1e96d6665fdd2c74e2bee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 24/33] fix: reject `{+0}` as the name of a field

---
 parse-display-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index bd0a999..c62e28a 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1075,10 +1075,10 @@ enum FieldKey {
 
 impl FieldKey {
     fn from_str(s: &str) -> FieldKey {
-        if let Ok(idx) = s.parse() {
-            FieldKey::Unnamed(idx)
-        } else {
-            FieldKey::Named(trim_raw(s).to_string())
+        match s.parse() {
+            // `usize::from_str` accepts `+0` too.
+            Ok(idx) if !s.starts_with('+') => FieldKey::Unnamed(idx),
+            _ => FieldKey::Named(trim_raw(s).to_string()),
         }
     }
     fn from_string(mut s: String) -> FieldKey {
-- 
2.43.0


From ce5ea1dea9ee86ba460a2046c965b5cd22cd788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 25/33] fix: text in a character class or a comment of a regex
 being treated as a group

---
 parse-display-derive/src/parser_builder.rs | 12 +++++++++++-
 parse-display-derive/src/regex_utils.rs    |  9 +++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 70eb6d1..4613e1c 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -148,12 +148,22 @@ impl<'a> ParserBuilder<'a> {
             bail!(s.span(), "{e}")
         }
 
+        // What looks like a group may be a part of a character class or of a comment.
+        let mut index = 0;
+        let text_indexed = regex_capture.replace_all(&text, |c: &Captures| {
+            index += 1;
+            format!("{}(?<_{index}>", &c[IDX_ESC])
+        });
+        let groups = capture_names(&text_indexed);
+
+        let mut index = 0;
         let mut has_capture = false;
         let mut has_capture_empty = false;
         let mut p = "";
         let mut text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
             let esc = &c[IDX_ESC];
-            if is_escaped(esc) {
+            index += 1;
+            if !groups.contains(&format!("_{index}")) {
                 return Ok(c[0].to_owned());
             }
             has_capture = true;
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 35849f1..5dbf600 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,6 +1,7 @@
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
 use regex_syntax::hir::Hir;
+use std::collections::HashSet;
 
 pub fn to_hir(s: &str) -> Hir {
     regex_syntax::Parser::new().parse(s).unwrap()
@@ -79,6 +80,14 @@ fn expand_capture(ast: &mut Ast, mut f: impl FnMut(&str) -> Option<Ast>) {
         true
     });
 }
+pub fn capture_names(s: &str) -> HashSet<String> {
+    let mut names = HashSet::new();
+    expand_capture(&mut to_ast(s), |name| {
+        names.insert(name.to_string());
+        None
+    });
+    names
+}
 pub fn try_replace_all<R: AsRef<str>, E>(
     regex: &Regex,
     text: &str,
-- 
2.43.0


From ec0de4a2bd013905216be82ab4c2f66d63225d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 26/33] fix: an optional repetition in a regex becoming a lazy
 repetition

---
 parse-display-derive/src/regex_utils.rs | 33 +++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 5dbf600..df75f04 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,6 +1,6 @@
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
-use regex_syntax::hir::Hir;
+use regex_syntax::hir::{Hir, HirKind, Literal};
 use std::collections::HashSet;
 
 pub fn to_hir(s: &str) -> Hir {
@@ -36,7 +36,36 @@ pub fn hirs_with_start_end(hirs: &[Hir]) -> Vec<Hir> {
     hs
 }
 pub fn to_regex_string(hirs: &[Hir]) -> String {
-    Hir::concat(hirs.to_vec()).to_string()
+    group_nested_repetitions(Hir::concat(hirs.to_vec())).to_string()
+}
+
+/// `Hir` prints `(?:a{2})?` as `a{2}?`, so use `(?:a{2}|)` instead.
+fn group_nested_repetitions(hir: Hir) -> Hir {
+    let map = |hirs: Vec<Hir>| hirs.into_iter().map(group_nested_repetitions).collect();
+    match hir.into_kind() {
+        HirKind::Empty => Hir::empty(),
+        HirKind::Literal(Literal(bytes)) => Hir::literal(bytes),
+        HirKind::Class(class) => Hir::class(class),
+        HirKind::Look(look) => Hir::look(look),
+        HirKind::Repetition(mut rep) => {
+            *rep.sub = group_nested_repetitions(*rep.sub);
+            if let (0, Some(1), HirKind::Repetition(_)) = (rep.min, rep.max, rep.sub.kind()) {
+                let mut hirs = vec![*rep.sub, Hir::empty()];
+                if !rep.greedy {
+                    hirs.reverse();
+                }
+                Hir::alternation(hirs)
+            } else {
+                Hir::repetition(rep)
+            }
+        }
+        HirKind::Capture(mut capture) => {
+            *capture.sub = group_nested_repetitions(*capture.sub);
+            Hir::capture(capture)
+        }
+        HirKind::Concat(hirs) => Hir::concat(map(hirs)),
+        HirKind::Alternation(hirs) => Hir::alternation(map(hirs)),
+    }
 }
 
 fn replace_asts(asts: &mut Vec<Ast>, f: &mut impl FnMut(&mut Ast) -> bool) {
-- 
2.43.0


From e7a97279e4a0a050472067241f14aad67e75e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 27/33] fix: a field's regex ending with a comment, and `.` in
 a field's regex combined with a format

---
 parse-display-derive/src/parser_builder.rs | 12 +++++-------
 parse-display-derive/src/regex_utils.rs    | 10 +++++++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 4613e1c..cdc066a 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -160,7 +160,7 @@ impl<'a> ParserBuilder<'a> {
         let mut has_capture = false;
         let mut has_capture_empty = false;
         let mut p = "";
-        let mut text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
+        let text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
             let esc = &c[IDX_ESC];
             index += 1;
             if !groups.contains(&format!("_{index}")) {
@@ -197,7 +197,8 @@ impl<'a> ParserBuilder<'a> {
                     return self.push_format(format, vb, None, Some(&text));
                 }
                 let name = self.set_capture(vb, &[], s.span())?;
-                text = format!("(?<{name}>{text})");
+                self.parse_format.push_hir(to_hir_with_name(&text, &name));
+                return Ok(());
             }
         }
         self.parse_format.push_hir(to_hir(&text));
@@ -233,11 +234,9 @@ impl<'a> ParserBuilder<'a> {
                         continue;
                     }
                     let c = self.set_capture(vb, &keys, format.span)?;
-                    let mut f = format!("(?<{c}>(?s:.*?))");
+                    let regex = regex.filter(|_| keys.is_empty()).unwrap_or("(?s:.*?)");
+                    self.parse_format.push_hir(to_hir_with_name(regex, &c));
                     if keys.is_empty() {
-                        if let Some(regex) = regex {
-                            f = format!("(?<{c}>(?s:{regex}))");
-                        }
                         if let Some(with_expr) = with {
                             match vb {
                                 VarBase::Struct { .. } => {}
@@ -252,7 +251,6 @@ impl<'a> ParserBuilder<'a> {
                             }
                         }
                     }
-                    self.parse_format.push_hir(to_hir(&f));
                 }
             }
         }
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index df75f04..d166281 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,11 +1,19 @@
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
-use regex_syntax::hir::{Hir, HirKind, Literal};
+use regex_syntax::hir::{Capture, Hir, HirKind, Literal};
 use std::collections::HashSet;
 
 pub fn to_hir(s: &str) -> Hir {
     regex_syntax::Parser::new().parse(s).unwrap()
 }
+/// Equivalent to `(?<name>s)`, but `s` can end with a comment.
+pub fn to_hir_with_name(s: &str, name: &str) -> Hir {
+    Hir::capture(Capture {
+        index: 1,
+        name: Some(name.into()),
+        sub: Box::new(to_hir(s)),
+    })
+}
 pub fn to_hir_with_expand(s: &str, name: &str, value: &str) -> Hir {
     let mut ast = to_ast(s);
     expand_capture(&mut ast, |group_name| {
-- 
2.43.0


From 68e3596455a3eb5f596ce7408429bb1975c512ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 28/33] fix: `(Option<T>)` and a macro's `$ty` not being
 recognized as an optional type or a reference

---
 parse-display-derive/src/lib.rs       |  2 +-
 parse-display-derive/src/syn_utils.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index c62e28a..7716075 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1199,7 +1199,7 @@ fn set_span(ts: TokenStream, span: Span) -> TokenStream {
 }
 
 fn unref_ty(ty: &Type) -> Type {
-    if let Type::Reference(ty) = ty {
+    if let Type::Reference(ty) = ungroup_ty(ty) {
         unref_ty(&ty.elem)
     } else {
         ty.clone()
diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index a786de8..8bd7668 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -194,8 +194,16 @@ pub fn dump_if(dump: bool, ts: &TokenStream) {
     }
 }
 
+/// Removes parentheses and the invisible group around a `$ty:ty` of a `macro_rules!` macro.
+pub fn ungroup_ty(ty: &Type) -> &Type {
+    match ty {
+        Type::Group(ty) => ungroup_ty(&ty.elem),
+        Type::Paren(ty) => ungroup_ty(&ty.elem),
+        _ => ty,
+    }
+}
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
-    if let Type::Path(ty) = ty {
+    if let Type::Path(ty) = ungroup_ty(ty) {
         if ty.qself.is_some() {
             return None;
         }
-- 
2.43.0


From 11d6e45450d06c66616d82909c8ae85b57997630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 29/33] fix: names in generated code being looked up where an
 argument of a macro comes from

---
 parse-display-derive/src/lib.rs            | 11 ++++++++++-
 parse-display-derive/src/parser_builder.rs | 11 ++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 7716075..b22ae55 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -745,7 +745,7 @@ impl DisplayFormat {
                         let crate_path = &cx.crate_path;
                         expr = quote!(#crate_path::helpers::fmt_pointer(#expr));
                     }
-                    expr = set_span(expr, self.span);
+                    expr = set_location(expr, self.span);
                     format_args.push(expr);
                 }
             }
@@ -1197,6 +1197,15 @@ fn set_span(ts: TokenStream, span: Span) -> TokenStream {
         })
         .collect()
 }
+/// Sets where errors are reported, but not what names refer to.
+fn set_location(ts: TokenStream, span: Span) -> TokenStream {
+    ts.into_iter()
+        .map(|mut ts| {
+            ts.set_span(ts.span().located_at(span));
+            ts
+        })
+        .collect()
+}
 
 fn unref_ty(ty: &Type) -> Type {
     if let Type::Reference(ty) = ungroup_ty(ty) {
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index cdc066a..ef7319d 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -1,7 +1,7 @@
 use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
-    With, field_map, format_syntax::FormatSpec, get_option_element, join, regex_utils::*, set_span,
-    syn_utils::*,
+    With, field_map, format_syntax::FormatSpec, get_option_element, join, regex_utils::*,
+    set_location, syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
@@ -433,12 +433,13 @@ impl<'a> ParserBuilder<'a> {
             },
         ) in self.with.iter().enumerate()
         {
-            with.push(quote_spanned! {expr.span()=>
+            let span = Span::call_site().located_at(expr.span());
+            with.push(quote_spanned! {span=>
                 (#capture, #helpers::to_ast::<#ty, _>(&#expr))
             });
             let msg =
                 format!("The regex for the field `{key}` varies depending on the type parameter.");
-            debug_asserts.push(quote_spanned! {expr.span()=>
+            debug_asserts.push(quote_spanned! {span=>
                 ::core::debug_assert_eq!(&p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
             });
         }
@@ -734,7 +735,7 @@ fn str_expr_to_parse_capture_expr(
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-        set_span(expr, with.span())
+        set_location(expr, with.span())
     } else {
         quote!(#str_expr.parse())
     }
-- 
2.43.0


From 221dbe23996bfd7c326771534696655a68d64366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 30/33] fix: reject `#[from_str(default)]` on a variant

---
 parse-display-derive/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index b22ae55..d6336fe 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -237,6 +237,12 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .deprecated_default_fields_warning_spans
                 .iter(),
         );
+        if let Some(span) = hattrs_variant.default_self {
+            bail!(
+                span,
+                "`#[from_str(default)]` cannot be specified for variant."
+            );
+        }
         if hattrs_variant.ignore.value() {
             continue;
         }
-- 
2.43.0


From b8f5890b7b7e4cb6c0267329ad6a7e8095bfb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 31/33] fix: fields not being available to `new` if a macro
 gets the expression as an argument

---
 parse-display-derive/src/lib.rs            | 21 ++++++++++++++++++++-
 parse-display-derive/src/parser_builder.rs |  5 +++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index d6336fe..a3f2eba 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -18,7 +18,7 @@ mod parser_builder;
 use crate::{format_syntax::*, syn_utils::*};
 use bound::{Bound, Bounds};
 use parser_builder::{ParseVariantCode, ParserBuilder};
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
 use quote::{ToTokens, format_ident, quote, quote_spanned};
 use regex_syntax::escape;
 use std::{
@@ -1212,6 +1212,25 @@ fn set_location(ts: TokenStream, span: Span) -> TokenStream {
         })
         .collect()
 }
+/// Makes `names` in an expression refer to variables of generated code, even if they are arguments of a macro.
+fn set_resolution(ts: TokenStream, names: &[Ident]) -> TokenStream {
+    ts.into_iter()
+        .map(|tt| match tt {
+            TokenTree::Ident(mut ident) => {
+                if names.iter().any(|name| name.unraw() == ident.unraw()) {
+                    ident.set_span(Span::call_site().located_at(ident.span()));
+                }
+                ident.into()
+            }
+            TokenTree::Group(g) => {
+                let mut group = Group::new(g.delimiter(), set_resolution(g.stream(), names));
+                group.set_span(g.span());
+                group.into()
+            }
+            tt => tt,
+        })
+        .collect()
+}
 
 fn unref_ty(ty: &Type) -> Type {
     if let Type::Reference(ty) = ungroup_ty(ty) {
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index ef7319d..774dc6b 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -1,10 +1,10 @@
 use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
     With, field_map, format_syntax::FormatSpec, get_option_element, join, regex_utils::*,
-    set_location, syn_utils::*,
+    set_location, set_resolution, syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
-use quote::{format_ident, quote, quote_spanned};
+use quote::{ToTokens, format_ident, quote, quote_spanned};
 use regex::{Captures, Regex};
 use regex_syntax::{
     escape,
@@ -376,6 +376,7 @@ impl<'a> ParserBuilder<'a> {
                 vars.push(key.new_arg_var());
             }
             let crate_path = self.crate_path;
+            let new_expr = set_resolution(new_expr.to_token_stream(), &vars);
             // bound all at once, so that no field hides what the other expressions use
             quote! {
                 let (#(#vars,)*) = (#(#exprs,)*);
-- 
2.43.0


From 5dd3cd93c19acacda3aa632613b71b58284150e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:03 +0000
Subject: [PATCH 32/33] fix: regex with captures for `a.b` and `a_b` being
 rejected

---
 parse-display-derive/src/parser_builder.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 774dc6b..a9dea10 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -126,7 +126,7 @@ impl<'a> ParserBuilder<'a> {
             s.len() % 2 == 1
         }
 
-        let regex_number = regex!("^[0-9]");
+        let regex_number = regex!("^[0-9.]");
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[\w.]*)>");
 
         let text = s.value();
@@ -136,12 +136,8 @@ impl<'a> ParserBuilder<'a> {
                 return c[0].to_owned();
             }
             let key = &c[IDX_KEY];
-            let key = if key.is_empty() {
-                "self".into()
-            } else {
-                key.replace('.', "_")
-            };
-            let key = regex_number.replace(&key, "_$0");
+            let key = if key.is_empty() { "self" } else { key };
+            let key = regex_number.replace(key, "_$0");
             format!("{esc}(?<{key}>")
         });
         if let Err(e) = regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
-- 
2.43.0


From a35849f4b7d8d9357fc835a05931b610b9ede8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:02 +0000
Subject: [PATCH 33/33] fix: keep the local variables of generated code apart
 from the user's names

A tuple struct, constant or static called `s`, `f`, `m`, `value`, ... in the same
module made the generated code fail to compile, and expressions given in
attributes saw the generated variables in place of the user's own items.
---
 parse-display-derive/src/lib.rs            | 12 +++---
 parse-display-derive/src/parser_builder.rs | 48 +++++++++++-----------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index a3f2eba..b7d22c6 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -68,7 +68,7 @@ fn derive_display_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<T
     };
     let write = format
         .format_args(&vb, &None, &mut bounds, &cx)?
-        .build_write(quote!(f))?;
+        .build_write(quote!(_formatter))?;
     let trait_path = parse_quote!(::core::fmt::Display);
     let wheres = bounds.build_wheres(&trait_path);
     impl_trait_result(
@@ -76,7 +76,7 @@ fn derive_display_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<T
         &trait_path,
         &wheres,
         quote! {
-            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+            fn fmt(&self, _formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                 #write
             }
         },
@@ -130,7 +130,7 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
                 &mut bounds.child(hattrs_variant.bound_display),
                 cx,
             )?
-            .build_write(quote!(f))?;
+            .build_write(quote!(_formatter))?;
         Ok(quote! {
             & Self::#variant_ident #fields => {
                 #write
@@ -155,7 +155,7 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
         quote!(self)
     };
     let contents = quote! {
-        fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+        fn fmt(&self, _formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
             match #value {
                 #(#arms)*
             }
@@ -192,7 +192,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &::core::primitive::str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(_s: &::core::primitive::str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #body
             }
@@ -268,7 +268,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &::core::primitive::str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(_s: &::core::primitive::str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #(#arms)*
                 #({ #bodys })*
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index a9dea10..2a678a1 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -328,22 +328,22 @@ impl<'a> ParserBuilder<'a> {
     pub fn build_parse_variant_code(&self, constructor: Path) -> Result<ParseVariantCode> {
         match &self.parse_format {
             ParseFormat::Hirs(_) => {
-                let fn_ident: Ident = format_ident!("parse_variant");
+                let fn_ident: Ident = format_ident!("_parse_variant");
                 let crate_path = self.crate_path;
                 let code = self.build_from_str_body(constructor)?;
                 let code = quote! {
-                    let #fn_ident = |s: &::core::primitive::str| -> ::core::result::Result<Self, #crate_path::ParseError> {
+                    let #fn_ident = |_s: &::core::primitive::str| -> ::core::result::Result<Self, #crate_path::ParseError> {
                         #code
                     };
-                    if let ::core::result::Result::Ok(value) = #fn_ident(s) {
-                        return ::core::result::Result::Ok(value);
+                    if let ::core::result::Result::Ok(_value) = #fn_ident(_s) {
+                        return ::core::result::Result::Ok(_value);
                     }
                 };
                 Ok(ParseVariantCode::Statement(code))
             }
             ParseFormat::String(s) => {
                 let code = self.build_construct_code(constructor)?;
-                let code = quote! { if s == #s { #code } };
+                let code = quote! { if _s == #s { #code } };
                 Ok(ParseVariantCode::MatchArm(code))
             }
         }
@@ -376,20 +376,20 @@ impl<'a> ParserBuilder<'a> {
             // bound all at once, so that no field hides what the other expressions use
             quote! {
                 let (#(#vars,)*) = (#(#exprs,)*);
-                if let ::core::result::Result::Ok(value) = #crate_path::IntoResult::into_result(#new_expr) {
-                    return ::core::result::Result::Ok(value);
+                if let ::core::result::Result::Ok(_value) = #crate_path::IntoResult::into_result(#new_expr) {
+                    return ::core::result::Result::Ok(_value);
                 }
             }
         } else if self.use_default {
             let mut setters = Vec::new();
             for (key, field) in &self.fields {
-                let left_expr = quote! { value . #key };
+                let left_expr = quote! { _value . #key };
                 setters.push(field.build_setters(&names, key, left_expr, true)?);
             }
             quote! {
-                let mut value = <Self as ::core::default::Default>::default();
+                let mut _value = <Self as ::core::default::Default>::default();
                 #(#setters)*
-                return ::core::result::Result::Ok(value);
+                return ::core::result::Result::Ok(_value);
             }
         } else {
             let ps = match &self.source {
@@ -437,7 +437,7 @@ impl<'a> ParserBuilder<'a> {
             let msg =
                 format!("The regex for the field `{key}` varies depending on the type parameter.");
             debug_asserts.push(quote_spanned! {span=>
-                ::core::debug_assert_eq!(&p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
+                ::core::debug_assert_eq!(&_p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
             });
         }
         Ok(ParserInit {
@@ -456,22 +456,22 @@ impl<'a> ParserBuilder<'a> {
                 let crate_path = self.crate_path;
                 quote! {
                     #[allow(clippy::trivial_regex)]
-                    let p = {
-                        let init = || #expr;
+                    let _p = {
+                        let _init = || #expr;
                         // not visible to the expressions written by the user
                         {
                             static PARSER: #crate_path::helpers::OnceLock<#crate_path::helpers::Parser> = #crate_path::helpers::OnceLock::new();
-                            PARSER.get_or_init(init)
+                            PARSER.get_or_init(_init)
                         }
                     };
                     #(#debug_asserts)*
-                    if let ::core::option::Option::Some(c) = p.re.captures(&s) {
+                    if let ::core::option::Option::Some(_c) = _p.re.captures(&_s) {
                          #code
                     }
                 }
             }
             ParseFormat::String(s) => quote! {
-                if s == #s {
+                if _s == #s {
                     #code
                 }
             },
@@ -622,13 +622,13 @@ impl<'a> FieldEntry<'a> {
     ) -> Result<TokenStream> {
         if let Some(mut expr) = self.build_expr(names, key)? {
             if !self.deep_captures.is_empty() {
-                let setters = self.build_setters(names, key, quote!(field_value), false)?;
+                let setters = self.build_setters(names, key, quote!(_field_value), false)?;
                 let ty = &self.source.ty;
                 expr = quote! {
                     {
-                        let mut field_value : #ty = #expr;
+                        let mut _field_value : #ty = #expr;
                         #setters
-                        field_value
+                        _field_value
                     }
                 };
             }
@@ -704,22 +704,22 @@ fn build_parse_capture_expr(
     let msg = format!("field `{field_name}` parse failed.");
     let e = if let Some(field) = field {
         if field.hattrs.opt.value() {
-            let e = str_expr_to_parse_capture_expr(quote!(s), field, crate_path);
+            let e = str_expr_to_parse_capture_expr(quote!(_s), field, crate_path);
             quote! {
-                c.get(#capture_index).map(|m| m.as_str()).map(|s| #e).transpose()
+                _c.get(#capture_index).map(|_m| _m.as_str()).map(|_s| #e).transpose()
             }
         } else {
             str_expr_to_parse_capture_expr(
-                quote!(c.get(#capture_index).map_or("", |m| m.as_str())),
+                quote!(_c.get(#capture_index).map_or("", |_m| _m.as_str())),
                 field,
                 crate_path,
             )
         }
     } else {
-        quote!(c.get(#capture_index).map_or("", |m| m.as_str()).parse())
+        quote!(_c.get(#capture_index).map_or("", |_m| _m.as_str()).parse())
     };
     Ok(quote! {
-        #e.map_err(|e| #crate_path::ParseError::with_message(#msg))?
+        #e.map_err(|_e| #crate_path::ParseError::with_message(#msg))?
     })
 }
 fn str_expr_to_parse_capture_expr(
-- 
2.43.0

