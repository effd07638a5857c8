From 363f469c4bdf1f3124a0c2e4b9c038309aeccf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 01/27] fix: report place of the mistake if description ends
 too early

syn uses call_site() location for an error at the end of the parsed code,
so 'unexpected end of input' was always reported at the line 1 of file,
use location of the end of macro/file instead.
---
 macroslib/src/error.rs         | 20 +++++++++++++++++++-
 macroslib/src/lib.rs           | 26 +++++++++++++++++++-------
 macroslib/src/typemap/parse.rs |  5 ++++-
 3 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/macroslib/src/error.rs b/macroslib/src/error.rs
index 3c30019..78412f1 100644
--- a/macroslib/src/error.rs
+++ b/macroslib/src/error.rs
@@ -4,7 +4,7 @@ use crate::{
     source_registry::{SourceId, SourceRegistry},
     SourceCode, WRITE_TO_MEM_FAILED_MSG,
 };
-use proc_macro2::Span;
+use proc_macro2::{Span, TokenStream, TokenTree};
 
 pub(crate) type SourceIdSpan = (SourceId, Span);
 
@@ -45,6 +45,17 @@ impl DiagnosticError {
             data: vec![(SourceId::none(), syn::Error::new(Span::call_site(), err))],
         }
     }
+    /// The end of code has no location of its own, so report error about "unexpected end of input"
+    /// at `end_sp`
+    pub fn with_end_of_input_span(mut self, end_sp: Span) -> Self {
+        for (_, err) in &mut self.data {
+            let sp = err.span();
+            if sp.start() == sp.end() {
+                *err = syn::Error::new(end_sp, err.to_string());
+            }
+        }
+        self
+    }
     pub(crate) fn map_any_err_to_our_err<E: Display>(err: E) -> Self {
         DiagnosticError::new_without_src_info(err)
     }
@@ -61,6 +72,13 @@ impl Display for DiagnosticError {
 
 pub(crate) type Result<T> = std::result::Result<T, DiagnosticError>;
 
+pub(crate) fn last_token_span(code: &str) -> Option<Span> {
+    match code.parse::<TokenStream>().ok()?.into_iter().last()? {
+        TokenTree::Group(group) => Some(group.span_close()),
+        token => Some(token.span()),
+    }
+}
+
 pub(crate) fn panic_on_syn_error(id_of_code: &str, code: String, err: syn::Error) -> ! {
     let mut src_reg = SourceRegistry::default();
     let src_id = src_reg.register(SourceCode {
diff --git a/macroslib/src/lib.rs b/macroslib/src/lib.rs
index 998e62a..059a02d 100644
--- a/macroslib/src/lib.rs
+++ b/macroslib/src/lib.rs
@@ -60,7 +60,7 @@ use strum::EnumIter;
 use syn::spanned::Spanned;
 
 use crate::{
-    error::{panic_on_parse_error, DiagnosticError, Result},
+    error::{last_token_span, panic_on_parse_error, DiagnosticError, Result},
     source_registry::{SourceId, SourceRegistry},
     typemap::{ast::DisplayToTokens, TypeMap},
     types::ItemToExpand,
@@ -608,8 +608,14 @@ impl Generator {
         let mut items_to_expand = Vec::with_capacity(1000);
 
         for src_id in src_ids {
-            let syn_file = syn::parse_file(self.src_reg.src(*src_id))
-                .map_err(|err| DiagnosticError::from_syn_err(*src_id, err))?;
+            let src_code = self.src_reg.src(*src_id);
+            let syn_file = syn::parse_file(src_code).map_err(|err| {
+                let err = DiagnosticError::from_syn_err(*src_id, err);
+                match last_token_span(src_code) {
+                    Some(end_sp) => err.with_end_of_input_span(end_sp),
+                    None => err,
+                }
+            })?;
 
             for item in syn_file.items {
                 if let syn::Item::Macro(mut item_macro) = item {
@@ -639,6 +645,7 @@ impl Generator {
                             ),
                         ));
                     }
+                    let end_sp = item_macro.mac.delimiter.span().close();
                     let mut tts = TokenStream::new();
                     mem::swap(&mut tts, &mut item_macro.mac.tokens);
                     if item_macro.mac.path.is_ident(FOREIGNER_CLASS_DEPRECATED)
@@ -650,12 +657,14 @@ impl Generator {
                                 FOREIGNER_CLASS_DEPRECATED, FOREIGN_CLASS
                             );
                         }
-                        let fclass = code_parse::parse_foreigner_class(*src_id, &self.config, tts)?;
+                        let fclass = code_parse::parse_foreigner_class(*src_id, &self.config, tts)
+                            .map_err(|err| err.with_end_of_input_span(end_sp))?;
                         debug!("expand_foreigner_class: self_desc {:?}", fclass.self_desc);
                         self.conv_map.register_foreigner_class(&fclass);
                         items_to_expand.push(ItemToExpand::Class(Box::new(fclass)));
                     } else if item_macro.mac.path.is_ident(FOREIGN_ENUM) {
-                        let fenum = code_parse::parse_foreign_enum(*src_id, tts)?;
+                        let fenum = code_parse::parse_foreign_enum(*src_id, tts)
+                            .map_err(|err| err.with_end_of_input_span(end_sp))?;
                         items_to_expand.push(ItemToExpand::Enum(fenum));
                     } else if item_macro.mac.path.is_ident(FOREIGN_INTERFACE_DEPRECATED)
                         || item_macro.mac.path.is_ident(FOREIGN_CALLBACK)
@@ -666,10 +675,13 @@ impl Generator {
                                 FOREIGN_INTERFACE_DEPRECATED, FOREIGN_CALLBACK
                             );
                         }
-                        let finterface = code_parse::parse_foreign_interface(*src_id, tts)?;
+                        let finterface = code_parse::parse_foreign_interface(*src_id, tts)
+                            .map_err(|err| err.with_end_of_input_span(end_sp))?;
                         items_to_expand.push(ItemToExpand::Interface(finterface));
                     } else if item_macro.mac.path.is_ident(FOREIGN_TYPEMAP) {
-                        self.conv_map.parse_foreign_typemap_macro(*src_id, tts)?;
+                        self.conv_map
+                            .parse_foreign_typemap_macro(*src_id, tts)
+                            .map_err(|err| err.with_end_of_input_span(end_sp))?;
                     } else {
                         unreachable!();
                     }
diff --git a/macroslib/src/typemap/parse.rs b/macroslib/src/typemap/parse.rs
index 2c973c7..4f3f114 100644
--- a/macroslib/src/typemap/parse.rs
+++ b/macroslib/src/typemap/parse.rs
@@ -138,8 +138,11 @@ pub(in crate::typemap) fn parse(
             }
             Item::Macro(mut item_macro) => {
                 if item_macro.mac.path.is_ident(FOREIGN_TYPEMAP) {
+                    let end_sp = item_macro.mac.delimiter.span().close();
                     let tmap_conv_rule: TypeMapConvRuleInfo = syn::parse2(item_macro.mac.tokens)
-                        .map_err(|err| DiagnosticError::from_syn_err(name, err))?;
+                        .map_err(|err| {
+                            DiagnosticError::from_syn_err(name, err).with_end_of_input_span(end_sp)
+                        })?;
 
                     ret.may_be_merge_conv_rule(name, tmap_conv_rule)?;
                 } else {
-- 
2.43.0


From 49dac363fb93bbb039c8fa825ff83e94da63726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 02/27] fix: report place of method that takes self by value

instead of panic without any information about the source
---
 macroslib/src/cpp/fclass.rs      |  3 ++-
 macroslib/src/java_jni/fclass.rs |  3 ++-
 macroslib/src/typemap/utils.rs   | 23 ++++++++++++++---------
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/macroslib/src/cpp/fclass.rs b/macroslib/src/cpp/fclass.rs
index e7bcea8..586d080 100644
--- a/macroslib/src/cpp/fclass.rs
+++ b/macroslib/src/cpp/fclass.rs
@@ -875,8 +875,9 @@ fn generate_method(
     let (from_ty, to_ty): (Type, Type) = create_suitable_types_for_constructor_and_self(
         self_variant,
         class,
+        mc.method,
         &this_type_for_method.ty,
-    );
+    )?;
 
     let from_ty = conv_map.find_or_alloc_rust_type(&from_ty, class.src_id);
     let to_ty = conv_map.find_or_alloc_rust_type(&to_ty, class.src_id);
diff --git a/macroslib/src/java_jni/fclass.rs b/macroslib/src/java_jni/fclass.rs
index 533524f..38ba75c 100644
--- a/macroslib/src/java_jni/fclass.rs
+++ b/macroslib/src/java_jni/fclass.rs
@@ -982,8 +982,9 @@ fn generate_method(
     let (from_ty, to_ty): (Type, Type) = create_suitable_types_for_constructor_and_self(
         self_variant,
         mc.class,
+        mc.method,
         &this_type_for_method.ty,
-    );
+    )?;
     let from_ty = ctx
         .conv_map
         .find_or_alloc_rust_type(&from_ty, mc.class.src_id);
diff --git a/macroslib/src/typemap/utils.rs b/macroslib/src/typemap/utils.rs
index a724a5e..4951dbf 100644
--- a/macroslib/src/typemap/utils.rs
+++ b/macroslib/src/typemap/utils.rs
@@ -112,21 +112,26 @@ pub(crate) fn foreign_to_rust_convert_method_inputs<
 pub(crate) fn create_suitable_types_for_constructor_and_self(
     self_variant: SelfTypeVariant,
     class: &ForeignClassInfo,
+    method: &ForeignMethod,
     constructor_real_type: &Type,
-) -> (Type, Type) {
+) -> Result<(Type, Type)> {
     match self_variant {
-        SelfTypeVariant::Default => {
-            unimplemented!("self not supported, use &self or &mut self");
-        }
-        SelfTypeVariant::Mut => {
-            unimplemented!("'mut self' not supported, use &self or &mut self");
-        }
+        SelfTypeVariant::Default => Err(DiagnosticError::new(
+            class.src_id,
+            method.span(),
+            "self not supported, use &self or &mut self",
+        )),
+        SelfTypeVariant::Mut => Err(DiagnosticError::new(
+            class.src_id,
+            method.span(),
+            "'mut self' not supported, use &self or &mut self",
+        )),
         SelfTypeVariant::Rptr | SelfTypeVariant::RptrMut => {
             let c_sp = constructor_real_type.span();
             let self_type = class.self_type_as_ty();
             let s_sp = self_type.span();
 
-            if self_variant == SelfTypeVariant::Rptr {
+            Ok(if self_variant == SelfTypeVariant::Rptr {
                 (
                     parse_type_spanned_checked!(c_sp, & #constructor_real_type),
                     parse_type_spanned_checked!(s_sp, & #self_type),
@@ -136,7 +141,7 @@ pub(crate) fn create_suitable_types_for_constructor_and_self(
                     parse_type_spanned_checked!(c_sp, &mut #constructor_real_type),
                     parse_type_spanned_checked!(s_sp, &mut #self_type),
                 )
-            }
+            })
         }
     }
 }
-- 
2.43.0


From 47a8858bb3f374851dce5e9f82724dce6318f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 03/27] fix: java: call attribute callbacks for enums

register_enum_attribute_callback promises to call callback for enum with
#[derive(attr_name)], but Java back-end ignored derives of enums.
---
 macroslib/src/java_jni/fenum.rs | 14 ++++++++++----
 macroslib/src/java_jni/mod.rs   |  4 +++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/macroslib/src/java_jni/fenum.rs b/macroslib/src/java_jni/fenum.rs
index 9a2d00b..c0da5b6 100644
--- a/macroslib/src/java_jni/fenum.rs
+++ b/macroslib/src/java_jni/fenum.rs
@@ -10,6 +10,7 @@ use super::{
 };
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
+    extension::extend_foreign_enum,
     file_cache::FileWriteCache,
     typemap::{
         ast::{parse_ty_with_given_span, ForeignTypeName},
@@ -43,8 +44,7 @@ pub(in crate::java_jni) fn generate_enum(
         fenum.src_id,
     );
 
-    generate_java_code_for_enum(ctx, fenum)
-        .map_err(|err| DiagnosticError::new(fenum.src_id, fenum.span(), err))?;
+    generate_java_code_for_enum(ctx, fenum)?;
     generate_rust_code_for_enum(ctx, fenum)?;
 
     let jint_rty = ctx.conv_map.ty_to_rust_type(&parse_type! { jint });
@@ -99,7 +99,7 @@ pub(in crate::java_jni) fn generate_enum(
 fn generate_java_code_for_enum(
     ctx: &mut JavaContext,
     fenum: &ForeignEnumInfo,
-) -> std::result::Result<(), String> {
+) -> Result<()> {
     let path = ctx.cfg.output_dir.join(format!("{}.java", fenum.name));
     let mut file = FileWriteCache::new(&path, ctx.generated_foreign_files);
     let enum_doc_comments = doc_comments_to_java_comments(&fenum.doc_comments, true);
@@ -171,7 +171,13 @@ public enum {enum_name} {{"#,
     )
     .expect(WRITE_TO_MEM_FAILED_MSG);
 
-    file.update_file_if_necessary().map_err(map_write_err)?;
+    let mut cnt = file.take_content();
+    extend_foreign_enum(fenum, &mut cnt, ctx.enum_ext_handlers)?;
+    file.replace_content(cnt);
+
+    file.update_file_if_necessary()
+        .map_err(map_write_err)
+        .map_err(|err| DiagnosticError::new(fenum.src_id, fenum.span(), err))?;
     Ok(())
 }
 
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index b557fc0..5ce8a3b 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -17,7 +17,7 @@ use syn::{spanned::Spanned, Type};
 
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
-    extension::{ClassExtHandlers, ExtHandlers, MethodExtHandlers},
+    extension::{ClassExtHandlers, EnumExtHandlers, ExtHandlers, MethodExtHandlers},
     file_cache::FileWriteCache,
     typemap::{
         ast::{
@@ -50,6 +50,7 @@ struct JavaContext<'a> {
     java_type_to_jni_sig_map: FxHashMap<SmolStr, SmolStr>,
     class_ext_handlers: &'a ClassExtHandlers,
     method_ext_handlers: &'a MethodExtHandlers,
+    enum_ext_handlers: &'a EnumExtHandlers,
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -190,6 +191,7 @@ impl LanguageGenerator for JavaConfig {
             java_type_to_jni_sig_map: rust_code::predefined_java_type_to_jni_sig(),
             class_ext_handlers: ext_handlers.class_ext_handlers,
             method_ext_handlers: ext_handlers.method_ext_handlers,
+            enum_ext_handlers: ext_handlers.enum_ext_handlers,
         };
         init(&mut ctx, code)?;
         for item in &items {
-- 
2.43.0


From c33f741bf320e073a4a0923bab49a3e3ebb8e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 04/27] fix: python: refuse enum if callback for enum
 attributes is registered

the same as for classes, instead of silently never call it
---
 macroslib/src/python/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 56eced2..159a5b0 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -1,7 +1,7 @@
 use crate::typemap::ty::RustType;
 use crate::{
     error::Result,
-    extension::{ClassExtHandlers, MethodExtHandlers},
+    extension::{ClassExtHandlers, EnumExtHandlers, MethodExtHandlers},
     source_registry::SourceId,
     typemap::{
         ast::{ForeignTypeName, GenericTypeConv},
@@ -50,7 +50,9 @@ impl LanguageGenerator for PythonConfig {
                     ext_handlers.class_ext_handlers,
                     ext_handlers.method_ext_handlers,
                 )?,
-                ItemToExpand::Enum(fenum) => self.generate_enum(conv_map, &fenum)?,
+                ItemToExpand::Enum(fenum) => {
+                    self.generate_enum(conv_map, &fenum, ext_handlers.enum_ext_handlers)?
+                }
                 ItemToExpand::Interface(finterface) => {
                     self.generate_interface(conv_map, &finterface)?
                 }
@@ -141,7 +143,19 @@ impl PythonConfig {
         &self,
         conv_map: &mut TypeMap,
         enum_info: &ForeignEnumInfo,
+        enum_ext_handlers: &EnumExtHandlers,
     ) -> Result<(TokenStream, TokenStream)> {
+        if !enum_ext_handlers.is_empty() {
+            return Err(DiagnosticError::new(
+                enum_info.src_id,
+                enum_info.span(),
+                format!(
+                    "enum {}: has attributes, this is not supported for python",
+                    enum_info.name
+                ),
+            ));
+        }
+
         let enum_name = &enum_info.name;
         let wrapper_mod_name = parse::<Ident>(
             &py_wrapper_mod_name(&enum_name.to_string()),
-- 
2.43.0


From d899c2008c82e35dc279f051926a5ff099356589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 05/27] fix: keep dyn in types substituted into generated Rust
 code

swig_subst_type! wrote the normalized type name, which has no dyn, so
Vec<Box<Box<dyn Trait>>> of foreign class did not compile in edition 2021.
---
 macroslib/src/typemap/ast.rs           | 10 +++++++++-
 macroslib/src/typemap/typemap_macro.rs |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/typemap/ast.rs b/macroslib/src/typemap/ast.rs
index a976d8e..4a552d5 100644
--- a/macroslib/src/typemap/ast.rs
+++ b/macroslib/src/typemap/ast.rs
@@ -294,6 +294,14 @@ pub(crate) fn strip_lifetimes(ty: &mut syn::Type) {
     strip_lifetime.visit_type_mut(ty);
 }
 
+/// Text of type without lifetimes, that suitable for usage inside Rust code,
+/// unlike `normalize_type` keep all that important for compiler, like `dyn`
+pub(crate) fn type_for_rust_code(ty: &syn::Type) -> String {
+    let mut ty = ty.clone();
+    strip_lifetimes(&mut ty);
+    ty.into_token_stream().to_string()
+}
+
 pub(crate) fn normalize_type(ty: &syn::Type) -> &'static str {
     if let Some(cached_str) = with_normalize_type_cache(|cache| cache.get(ty)) {
         return cached_str;
@@ -500,7 +508,7 @@ impl GenericTypeConv {
                         ));
                     };
                     if let Some(Some(ty)) = subst_map.get(type_name) {
-                        out.push_str(normalize_type(ty));
+                        out.push_str(&type_for_rust_code(ty));
                     } else {
                         out.push_str(type_name);
                     }
diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index ac3c5db..828edaa 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -20,7 +20,7 @@ use crate::{
     typemap::{
         ast::{
             get_trait_bounds, is_second_subst_of_first, normalize_type, parse_ty_with_given_span,
-            DisplayToTokens, GenericTypeConv, SpannedSmolStr, TyParamsSubstMap,
+            type_for_rust_code, DisplayToTokens, GenericTypeConv, SpannedSmolStr, TyParamsSubstMap,
         },
         ty::TraitNamesSet,
         TypeConvCode, UniqueName,
@@ -1206,7 +1206,7 @@ fn expand_rust_code(
                         ));
                     };
                     let ty = find_type_param(param_map, type_name, ctx_span)?;
-                    write!(out, "{}", normalize_type(ty.as_ref())).expect(WRITE_TO_MEM_FAILED_MSG);
+                    out.push_str(&type_for_rust_code(ty.as_ref()));
                 }
                 _ => {
                     if let Some(alias_idx) = generic_aliases.iter().position(|a| a.name == id) {
-- 
2.43.0


From c5bc8e1271eece592bba31738a8498f97ca56389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 06/27] fix: copy of default constructed or moved from
 RustString

crust_string_clone was called with null data, String::from_raw_parts does not accept it.
---
 macroslib/src/cpp/cpp-include.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index b7306a4..8a20ff2 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -458,14 +458,14 @@ public:
     }
     RustString() noexcept { reset(*this); }
     RustString(const RustString &o) noexcept
-        : RustString(crust_string_clone(o))
+        : RustString(clone(o))
     {
     }
     RustString &operator=(const RustString &o) noexcept
     {
         if (this != &o) {
             free_mem();
-            auto copy = crust_string_clone(o);
+            auto copy = clone(o);
             data = copy.data;
             len = copy.len;
             capacity = copy.capacity;
@@ -515,6 +515,11 @@ private:
             reset(*this);
         }
     }
+    static CRustString clone(const RustString &o) noexcept
+    {
+        // default constructed and moved from strings own nothing on Rust side
+        return o.data != nullptr ? crust_string_clone(o) : CRustString{ nullptr, 0, 0 };
+    }
     static void reset(RustString &o) noexcept
     {
         o.data = nullptr;
-- 
2.43.0


From 33fb837470e63d519d016ab9c4b4779d65786ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 07/27] fix: empty C++ slices passed to Rust

Moved from or default constructed slices hold null data, that Rust slices do not
accept even if they are empty; and &mut [T] of foreign class was returned via *const.
---
 macroslib/src/cpp/cpp-include.rs              | 14 +++++++++++---
 macroslib/src/cpp/rust_foreign_slice_impl.hpp |  6 +++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 8a20ff2..7b1c97c 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -818,7 +818,7 @@ foreign_typemap!(
 foreign_typemap!(
     ($p:r_type) <T: SwigForeignClass> &mut [T] => CRustObjectMutSlice {
         $out = CRustObjectMutSlice {
-            data: $p.as_ptr() as *const ::std::os::raw::c_void,
+            data: $p.as_mut_ptr() as *mut ::std::os::raw::c_void,
             len: $p.len(),
             step: ::std::mem::size_of::<swig_subst_type!(T)>(),
         };
@@ -857,7 +857,11 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &[T] <= CRustSlice!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts($p.data, $p.len) };
+        $out = if $p.len == 0 {
+            &[]
+        } else {
+            unsafe { ::std::slice::from_raw_parts($p.data, $p.len) }
+        };
     };
     ($p:f_type, req_modules = ["\"CRustSlice!().h\""]) => "RustSlice<const swig_f_type!(T)>"
         "RustSlice<const swig_f_type!(T)>{$p.data, $p.len}";
@@ -890,7 +894,11 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &mut [T] <= CRustSliceMut!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) };
+        $out = if $p.len == 0 {
+            &mut []
+        } else {
+            unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) }
+        };
     };
     ($p:f_type, req_modules = ["\"CRustSliceMut!().h\""]) => "RustSlice<swig_f_type!(T)>"
         "RustSlice<swig_f_type!(T)>{$p.data, $p.len}";
diff --git a/macroslib/src/cpp/rust_foreign_slice_impl.hpp b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
index 4c07b84..d7083d3 100644
--- a/macroslib/src/cpp/rust_foreign_slice_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cstddef>
+#include <type_traits>
+
 #include "rust_foreign_slice_iter.hpp"
 
 namespace RUST_SWIG_USER_NAMESPACE {
@@ -70,7 +73,8 @@ private:
     {
         this->step = 0;
         this->len = 0;
-        this->data = nullptr;
+        // Rust slices (even empty) can not have null pointer to data
+        this->data = reinterpret_cast<void *>(std::alignment_of<std::max_align_t>::value);
     }
 };
 
-- 
2.43.0


From 309cf07aefec77c36c2d1c5c72aedffe52ff9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 08/27] fix: distance between and indexing of C++ iterators
 over Rust slices

Negative distance was divided by unsigned step, operator[] did not compile.
---
 macroslib/src/cpp/rust_foreign_slice_iter.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_iter.hpp b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
index a1e33cf..d2c07e7 100644
--- a/macroslib/src/cpp/rust_foreign_slice_iter.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
@@ -58,32 +58,32 @@ public:
     /*@{*/
     T operator[](ptrdiff_t n) const noexcept
     {
-        auto p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) + n * signed_step();
         auto elem_ptr = static_cast<const CForeignType *>(p);
         return T{ elem_ptr };
     }
 
     RustForeignSliceIterator &operator+=(ptrdiff_t n) noexcept
     {
-        this->ptr = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        this->ptr = static_cast<const uint8_t *>(this->ptr) + n * signed_step();
         return *this;
     }
 
     RustForeignSliceIterator operator+(ptrdiff_t n) const noexcept
     {
-        const void *p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) + n * signed_step();
         return RustForeignSliceIterator(p, this->step);
     }
 
     RustForeignSliceIterator &operator-=(ptrdiff_t n) noexcept
     {
-        this->ptr = static_cast<const uint8_t *>(this->ptr) - n * this->step;
+        this->ptr = static_cast<const uint8_t *>(this->ptr) - n * signed_step();
         return *this;
     }
 
     RustForeignSliceIterator operator-(ptrdiff_t n) const noexcept
     {
-        const void *p = static_cast<const uint8_t *>(this->ptr) - n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) - n * signed_step();
         return RustForeignSliceIterator(p, this->step);
     }
 
@@ -94,7 +94,7 @@ public:
             = static_cast<const uint8_t *>(this->ptr) - static_cast<const uint8_t *>(o.ptr);
         // if container empty step may be 0, to prevent div by 0
         if (diff != 0) {
-            return diff / this->step;
+            return diff / signed_step();
         }
         else {
             return 0;
@@ -126,6 +126,9 @@ public:
     bool operator!=(const RustForeignSliceIterator<T> &o) const noexcept { return !operator==(o); }
 
 private:
+    // offsets may be negative, so mix with unsigned step gives wrong result
+    ptrdiff_t signed_step() const noexcept { return static_cast<ptrdiff_t>(this->step); }
+
     const void *ptr;
     uintptr_t step;
 };
-- 
2.43.0


From a5e75ea0369b565833172da21b9e9495f7e60c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 09/27] fix: RustForeignVec::as_slice_mut does not compile

---
 macroslib/src/cpp/rust_foreign_vec_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/rust_foreign_vec_impl.hpp b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
index c96e5ad..7bd4360 100644
--- a/macroslib/src/cpp/rust_foreign_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
@@ -94,7 +94,7 @@ public:
     RustForeignSlice<ForeignClassRef, CRustObjectMutSlice> as_slice_mut() noexcept
     {
         return RustForeignSlice<ForeignClassRef, CRustObjectMutSlice>{ CRustObjectMutSlice{
-            this->data, this->len, ELEM_SIZE } };
+            const_cast<void *>(this->data), this->len, ELEM_SIZE } };
     }
 
     void clear() noexcept { free_mem(); }
-- 
2.43.0


From 91701392b0b5bd79eedc90aa6d17b0bf61ed7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 10/27] fix: default constructed RustForeignVec of over-aligned
 Rust type

alignment of C++ wrapper was used instead of alignment of Rust type.
---
 macroslib/src/cpp/rust_foreign_vec_impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_vec_impl.hpp b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
index 7bd4360..dbf0ad9 100644
--- a/macroslib/src/cpp/rust_foreign_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
@@ -114,8 +114,9 @@ private:
     }
     static void reset(RustForeignVec &o) noexcept
     {
-        // Rust Vec::new uses NonNull::danling with similar value
-        o.data = reinterpret_cast<value_type *>(std::alignment_of<value_type>::value);
+        // Rust Vec::new uses NonNull::danling with similar value,
+        // size of element is always multiple of its alignment on the Rust side
+        o.data = reinterpret_cast<void *>(ELEM_SIZE != 0 ? ELEM_SIZE : uintptr_t(1));
         o.len = 0;
         o.capacity = 0;
     }
-- 
2.43.0


From 406f3a90bf19d73a9a97e277add9e15f1d1d83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 11/27] fix: view of empty RustString can be passed back to
 Rust

---
 macroslib/src/cpp/cpp-include.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 7b1c97c..1c5d30e 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -498,12 +498,12 @@ public:
     foreign_code!(module = "rust_str.h";
                     option = "CppStrView::Std17";
                     r##"
-    std::string_view to_string_view() const { return std::string_view(data, len); }
+    std::string_view to_string_view() const { return std::string_view(data != nullptr ? data : "", len); }
 "##);
     foreign_code!(module = "rust_str.h";
                     option = "CppStrView::Boost";
                     r#"
-    boost::string_view to_boost_string_view() const { return boost::string_view{ data, len }; }
+    boost::string_view to_boost_string_view() const { return boost::string_view{ data != nullptr ? data : "", len }; }
 "#);
     foreign_code!(module = "rust_str.h";
                     r##"
-- 
2.43.0


From 963c272da377681998693705bea125327037de99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 12/27] fix: begin and end of non const RustVec do not compile

---
 macroslib/src/cpp/rust_vec_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_vec_impl.hpp b/macroslib/src/cpp/rust_vec_impl.hpp
index 2a4f667..323dee4 100644
--- a/macroslib/src/cpp/rust_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_vec_impl.hpp
@@ -48,9 +48,9 @@ public:
     size_t size() const noexcept { return this->len; }
     bool empty() const noexcept { return this->len == 0; }
     const value_type &operator[](size_t i) const noexcept { return this->data[i]; }
-    iterator begin() noexcept { return this->data; }
+    iterator begin() noexcept { return const_cast<iterator>(this->data); }
     const_iterator begin() const noexcept { return this->data; }
-    iterator end() noexcept { return this->data + this->len; }
+    iterator end() noexcept { return const_cast<iterator>(this->data + this->len); }
     const_iterator end() const noexcept { return this->data + this->len; }
     void clear() noexcept { free_mem(); }
     CContainerType release() noexcept
-- 
2.43.0


From 6d1a1379223bd6a9152bd8e366b6099cab5e7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 13/27] fix: empty C++ slice of over-aligned Rust type passed
 to Rust

---
 macroslib/src/cpp/rust_foreign_slice_impl.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_impl.hpp b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
index d7083d3..ae9dfd7 100644
--- a/macroslib/src/cpp/rust_foreign_slice_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
@@ -1,7 +1,7 @@
 #pragma once
 
 #include <cstddef>
-#include <type_traits>
+#include <cstdint>
 
 #include "rust_foreign_slice_iter.hpp"
 
@@ -73,8 +73,9 @@ private:
     {
         this->step = 0;
         this->len = 0;
-        // Rust slices (even empty) can not have null pointer to data
-        this->data = reinterpret_cast<void *>(std::alignment_of<std::max_align_t>::value);
+        // Rust slices (even empty) can not have null or not aligned pointer to data
+        constexpr uintptr_t MAX_ALIGN = 4096;
+        this->data = reinterpret_cast<void *>(MAX_ALIGN);
     }
 };
 
-- 
2.43.0


From d7f81f91ebbecf299ab12a24545e67d2b0dd4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 14/27] fix: C++ callback method returning reference should not
 return pointer to a copy

---
 macroslib/src/cpp/finterface.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/finterface.rs b/macroslib/src/cpp/finterface.rs
index fefd8bc..33aa0bb 100644
--- a/macroslib/src/cpp/finterface.rs
+++ b/macroslib/src/cpp/finterface.rs
@@ -510,9 +510,15 @@ struct C_{interface_name} {{
             writeln!(
                 &mut cpp_static_reroute_methods,
                 r#"
-        auto {ret} = {p}->{method_name}({input_args});
+        auto {ref_mark}{ret} = {p}->{method_name}({input_args});
         return {cpp_out_conv};
     }}"#,
+                // "auto" alone would copy the object the reference points to
+                ref_mark = if cpp_ret_type.display().trim_end().ends_with('&') {
+                    "&"
+                } else {
+                    ""
+                },
                 ret = ret_name,
                 method_name = method.name,
                 input_args = call_input_args,
-- 
2.43.0


From 6c50ef69c85f3acd9942c7d45159a2cd464df7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 15/27] fix: variables of nested tuple conversion should not
 shadow each other

---
 macroslib/src/typemap/typemap_macro.rs | 39 ++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index 828edaa..3e5ce63 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -9,6 +9,7 @@ use rustc_hash::FxHashSet;
 use smol_str::SmolStr;
 use std::{cell::RefCell, convert::TryInto, fmt::Write, rc::Rc};
 use syn::{
+    parse::Parser,
     spanned::Spanned,
     visit_mut::{visit_type_mut, VisitMut},
     LitStr, Type,
@@ -1147,6 +1148,22 @@ fn expand_module_name(
     .map(|x| x.into())
 }
 
+fn declares_other_variables(code: &str, var_name: &str) -> bool {
+    match syn::Block::parse_within.parse_str(code) {
+        Ok(stmts) => stmts.iter().any(|stmt| match stmt {
+            syn::Stmt::Local(local) => {
+                let pat = match &local.pat {
+                    syn::Pat::Type(pat_type) => &pat_type.pat,
+                    pat => pat,
+                };
+                !matches!(pat, syn::Pat::Ident(pat_ident) if pat_ident.ident == var_name)
+            }
+            _ => false,
+        }),
+        Err(_) => false,
+    }
+}
+
 fn expand_rust_code(
     code: &str,
     param_map: &TyParamsSubstMap,
@@ -1168,13 +1185,23 @@ fn expand_rust_code(
                         ));
                     };
                     let ty = find_type_param(param_map, type_name, ctx_span)?;
-                    let tt: String = if id == SWIG_FROM_RUST_TO_I_TYPE {
-                        expander.swig_from_rust_to_i_type(ty.as_ref(), in_var_name, out_var_name)?
-                    } else if id == SWIG_FROM_I_TYPE_TO_RUST {
-                        expander.swig_from_i_type_to_rust(ty.as_ref(), in_var_name, out_var_name)?
-                    } else {
-                        unreachable!()
+                    let mut convert = |var_name: &str| -> Result<String> {
+                        if id == SWIG_FROM_RUST_TO_I_TYPE {
+                            expander.swig_from_rust_to_i_type(ty.as_ref(), in_var_name, var_name)
+                        } else {
+                            expander.swig_from_i_type_to_rust(ty.as_ref(), in_var_name, var_name)
+                        }
                     };
+                    let mut tt = convert(out_var_name)?;
+                    if declares_other_variables(&tt, out_var_name) {
+                        // variables of nested conversion should not shadow
+                        // variables used around this macro
+                        let inner_var = format!("{out_var_name}_");
+                        let conv_code = convert(&inner_var)?;
+                        tt = format!(
+                            "let mut {out_var_name} = {{\n{conv_code}\n        {inner_var}\n    }};"
+                        );
+                    }
                     write!(out, "{}", tt).expect(WRITE_TO_MEM_FAILED_MSG);
                 }
                 _ if id == SWIG_I_TYPE => {
-- 
2.43.0


From c19c3d26d7a67d5e6e733a821c8fa7a377447ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 16/27] fix: accept three elements tuple as argument in C++

---
 macroslib/src/cpp/cpp-include.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 1c5d30e..810dc8b 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -357,9 +357,9 @@ foreign_typemap!(
                            swig_foreign_from_i_type!(T3, $p.third))"#;
    ($p:f_type, req_modules = ["\"CRustTuple3Module!().h\"", "<tuple>"]) <= "std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)>"
        r#"swig_f_type!(CRustTuple3!()) {
-               swig_foreign_to_i_type!(T1, $p.first),
-               swig_foreign_to_i_type!(T2, $p.second),
-               swig_foreign_to_i_type!(T3, $p.third),
+               swig_foreign_to_i_type!(T1, std::get<0>($p)),
+               swig_foreign_to_i_type!(T2, std::get<1>($p)),
+               swig_foreign_to_i_type!(T3, std::get<2>($p)),
         }"#;
 );
 
-- 
2.43.0


From 7f35fd4e798b1fa177196ababf5f98adb2c5714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 17/27] fix: comma inside of argument of assert for Result type
 in C++

---
 macroslib/src/cpp/cpp-include.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 810dc8b..80718bf 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -1262,7 +1262,7 @@ foreign_typemap!(
                 out.data.ok = swig_foreign_to_i_type!(T1, tmp);
                 out.is_ok = 1;
             } else {
-                assert(boost::get<swig_f_type!(T2)>(&p) != nullptr);
+                assert((boost::get<swig_f_type!(T2)>(&p) != nullptr));
                 swig_f_type!(T2) tmp = boost::get<swig_f_type!(T2)>(std::move(p));
                 out.data.err = swig_foreign_to_i_type!(T2, tmp);
                 out.is_ok = 0;
@@ -1280,7 +1280,7 @@ foreign_typemap!(
                 out.data.ok = swig_foreign_to_i_type!(T1, tmp);
                 out.is_ok = 1;
             } else {
-                assert(std::get_if<swig_f_type!(T2)>(&p) != nullptr);
+                assert((std::get_if<swig_f_type!(T2)>(&p) != nullptr));
                 swig_f_type!(T2) tmp = std::get<swig_f_type!(T2)>(std::move(p));
                 out.data.err = swig_foreign_to_i_type!(T2, tmp);
                 out.is_ok = 0;
-- 
2.43.0


From 699dce5cd2865a8e68e60e1d03c5f8544e763e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 18/27] fix: C++ mutable slice of objects inside of Option,
 Result and tuple

---
 macroslib/src/cpp/cpp-include.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 80718bf..c5da2e7 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -691,6 +691,7 @@ using RustForeignSliceConst = RustForeignSlice<T, CRustObjectSlice>;
 
 #[allow(dead_code)]
 #[repr(C)]
+#[derive(Clone, Copy)]
 pub struct CRustObjectMutSlice {
     data: *mut ::std::os::raw::c_void,
     len: usize,
-- 
2.43.0


From 4706d631649074146cbe8d7cfa88cef2db931ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 19/27] fix: place of mistake in return type of callback method
 for Java

---
 macroslib/src/java_jni/finterface.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/java_jni/finterface.rs b/macroslib/src/java_jni/finterface.rs
index 30d67ef..4b2753c 100644
--- a/macroslib/src/java_jni/finterface.rs
+++ b/macroslib/src/java_jni/finterface.rs
@@ -114,11 +114,11 @@ It is impossible to use this Java code:{}\nfor callback types conversion",
                     ctx,
                     &rust_ret_ty,
                     Direction::Incoming,
-                    rust_ret_ty.src_id_span(),
+                    (interace.src_id, ret_ty.span()),
                 )?;
                 if let Some(conv) = f_ret_type.java_converter {
                     return Err(DiagnosticError::new2(
-                        rust_ret_ty.src_id_span(),
+                        (interace.src_id, ret_ty.span()),
                         format!("Java code:\n```{}\n```\n required to convert Rust output type to Java type.
 It is impossible to use for callback function.", conv.converter),
                     ));
@@ -326,7 +326,7 @@ impl SwigFrom<jobject> for Box<dyn {trait_name}> {{
                     "jfloat" => quote!{ CallFloatMethod },
                     "jdouble" => quote!{ CallDoubleMethod },
                     "jobject" => quote!{ CallObjectMethod },
-                    _ => return Err(DiagnosticError::new2(jni_ret_type.src_id_span(),
+                    _ => return Err(DiagnosticError::new2((interface.src_id, ret_ty.span()),
                                                           format!("Have not idea how to handle this type `{}` as return of callback function", jni_ret_type))),
                 };
                 let jni_ret_type = &jni_ret_type.ty;
-- 
2.43.0


From 224d1ee03bcb4f7a0e868d210a3cf30c74b95232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:44 +0000
Subject: [PATCH 20/27] fix: Java: exception text must be modified UTF-8 (NUL
 aborted, non-BMP text arrived garbled)

---
 macroslib/src/java_jni/jni-include.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 9a7730c..1038b35 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -305,8 +305,30 @@ impl Drop for JavaCallback {
 
 #[allow(dead_code)]
 fn jni_throw(env: *mut JNIEnv, ex_class: jclass, message: &str) {
-    let c_message = ::std::ffi::CString::new(message).unwrap();
-    let res = unsafe { (**env).ThrowNew.unwrap()(env, ex_class, c_message.as_ptr()) };
+    // JNI expects "modified UTF-8": zero takes two bytes, surrogates are encoded one by one
+    let mut c_message = Vec::<u8>::with_capacity(message.len() + 1);
+    for unit in message.encode_utf16() {
+        match unit {
+            0x01..=0x7f => c_message.push(unit as u8),
+            0 | 0x80..=0x7ff => {
+                c_message.push(0xc0 | (unit >> 6) as u8);
+                c_message.push(0x80 | (unit & 0x3f) as u8);
+            }
+            _ => {
+                c_message.push(0xe0 | (unit >> 12) as u8);
+                c_message.push(0x80 | ((unit >> 6) & 0x3f) as u8);
+                c_message.push(0x80 | (unit & 0x3f) as u8);
+            }
+        }
+    }
+    c_message.push(0);
+    let res = unsafe {
+        (**env).ThrowNew.unwrap()(
+            env,
+            ex_class,
+            c_message.as_ptr() as *const ::std::os::raw::c_char,
+        )
+    };
     if res != 0 {
         log::error!(
             "JNI ThrowNew({}) failed for class {:?} failed",
-- 
2.43.0


From a11a020b95395afd1cc95b26a2fb55555aec2e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:44 +0000
Subject: [PATCH 21/27] fix: Java: null instead of an array of objects, or as
 an element of it, crashed in the JVM

---
 macroslib/src/java_jni/jni-include.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 1038b35..6850a85 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -379,6 +379,7 @@ fn jobject_array_to_vec_of_objects<T: SwigForeignClass + Clone>(
 ) -> Vec<T> {
     let field_id = <T>::jni_class_pointer_field();
     assert!(!field_id.is_null());
+    assert!(!arr.inner.is_null(), "null instead of array of objects");
     let length = unsafe { (**env).GetArrayLength.unwrap()(env, arr.inner) };
     let len = <usize as ::std::convert::TryFrom<jsize>>::try_from(length)
         .expect("invalid jsize, in jsize => usize conversion");
@@ -389,6 +390,7 @@ fn jobject_array_to_vec_of_objects<T: SwigForeignClass + Clone>(
             if (**env).ExceptionCheck.unwrap()(env) != 0 {
                 panic!("Failed to retrieve element {} from this `jobjectArray'", i);
             }
+            assert!(!obj.is_null(), "element {} of array is null", i);
             let ptr = (**env).GetLongField.unwrap()(env, obj, field_id);
             let native = (jlong_to_pointer(ptr) as *mut T).as_mut().unwrap();
             (**env).DeleteLocalRef.unwrap()(env, obj);
-- 
2.43.0


From 756e1b88c1a6a6333a3d026f95097fc2bf6b0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 22/27] fix: Java: names of overloaded native functions with
 boxed arguments (UnsatisfiedLinkError)

---
 macroslib/src/java_jni/rust_code.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 838864a..9d34fb1 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -19,12 +19,12 @@ use crate::{
 pub(in crate::java_jni) fn predefined_java_type_to_jni_sig() -> FxHashMap<SmolStr, SmolStr> {
     let mut m = FxHashMap::default();
     m.insert("String".into(), "Ljava.lang.String;".into());
-    m.insert("Byte".into(), "Ljava.lang.Byte".into());
-    m.insert("Short".into(), "Ljava.lang.Short".into());
-    m.insert("Integer".into(), "Ljava.lang.Integer".into());
-    m.insert("Long".into(), "Ljava.lang.Long".into());
-    m.insert("Float".into(), "Ljava.lang.Float".into());
-    m.insert("Double".into(), "Ljava.lang.Double".into());
+    m.insert("Byte".into(), "Ljava.lang.Byte;".into());
+    m.insert("Short".into(), "Ljava.lang.Short;".into());
+    m.insert("Integer".into(), "Ljava.lang.Integer;".into());
+    m.insert("Long".into(), "Ljava.lang.Long;".into());
+    m.insert("Float".into(), "Ljava.lang.Float;".into());
+    m.insert("Double".into(), "Ljava.lang.Double;".into());
     m.insert("boolean".into(), "Z".into());
     m.insert("byte".into(), "B".into());
     m.insert("char".into(), "C".into());
-- 
2.43.0


From ce6813fd46f893c987a875e23f38f9966a886568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:44 +0000
Subject: [PATCH 23/27] fix: Java: items of an enumeration whose names differ
 only in case shared one field id (does not compile)

---
 macroslib/src/java_jni/fenum.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/java_jni/fenum.rs b/macroslib/src/java_jni/fenum.rs
index c0da5b6..354827e 100644
--- a/macroslib/src/java_jni/fenum.rs
+++ b/macroslib/src/java_jni/fenum.rs
@@ -229,12 +229,17 @@ fn add_conversion_from_enum_to_jobject_for_callbacks(
     );
 
     let mut arms_match_fields_names = Vec::with_capacity(fenum.items.len());
-    for item in &fenum.items {
+    for (i, item) in fenum.items.iter().enumerate() {
         let rust_name = &item.rust_name;
         let java_item = item.name.to_string();
         let enum_sig = format!("L{};", enum_class_name);
+        // names of items may differ only in case
         let enum_filed_global_var = Ident::new(
-            &format!("{}_{}", enum_id_upper, java_item.to_uppercase()),
+            &format!(
+                "FOREIGN_ITEM{}_OF_ENUM_{}",
+                i,
+                fenum.name.to_string().to_uppercase()
+            ),
             Span::call_site(),
         );
 
-- 
2.43.0


From a3eab83479bc0c9bd9060f18be3c4d712b315da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:45 +0000
Subject: [PATCH 24/27] fix: Python: discriminants of enumerations were cut to
 32 bits (distinct items got the same value)

---
 macroslib/src/python/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 159a5b0..a002777 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -175,11 +175,11 @@ impl PythonConfig {
             mod #wrapper_mod_name {
                 cpython::py_class!(pub class #enum_name |py| {
                     static __doc__  = #docstring;
-                    #( static #foreign_variants = super::#rust_variants_ref_1 as u32; )*
+                    #( static #foreign_variants = super::#rust_variants_ref_1 as i64; )*
                 });
 
-                pub fn from_u32(py: cpython::Python, value: u32) -> cpython::PyResult<super::#enum_name> {
-                    #( if value == super::#rust_variants_ref_1 as u32 { return Ok(super::#rust_variants_ref_2); } )*
+                pub fn from_i64(py: cpython::Python, value: i64) -> cpython::PyResult<super::#enum_name> {
+                    #( if value == super::#rust_variants_ref_1 as i64 { return Ok(super::#rust_variants_ref_2); } )*
                     Err(cpython::PyErr::new::<cpython::exc::ValueError, _>(
                         py, format!("{} is not valid value for enum {}", value, #enum_name_str)
                     ))
@@ -479,9 +479,9 @@ fn generate_conversion_for_argument(
     {
         let enum_py_mod: Ident = parse(&py_wrapper_mod_name(&rust_type.normalized_name), src_id)?;
         Ok((
-            parse_type!(u32),
+            parse_type!(i64),
             quote! {
-                super::#enum_py_mod::from_u32(py, #arg_name_ident)?
+                super::#enum_py_mod::from_i64(py, #arg_name_ident)?
             },
         ))
     } else if let Some(inner) = ast::if_option_return_some_type(rust_type) {
@@ -592,9 +592,9 @@ fn generate_conversion_for_return(
         .contains_path(&parse(ENUM_TRAIT_NAME, src_id)?)
     {
         Ok((
-            parse_type!(u32),
+            parse_type!(i64),
             quote! {
-                #rust_call as u32
+                #rust_call as i64
             },
         ))
     } else if let Some(inner) = ast::if_option_return_some_type(rust_type) {
-- 
2.43.0


From 556b50270b120e761798c506c74c1e5809a7ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:33 +0000
Subject: [PATCH 25/27] fix: Java: enumeration items named value or x clashed
 with the generated code (does not compile)

---
 macroslib/src/java_jni/fenum.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/java_jni/fenum.rs b/macroslib/src/java_jni/fenum.rs
index 354827e..f4027f6 100644
--- a/macroslib/src/java_jni/fenum.rs
+++ b/macroslib/src/java_jni/fenum.rs
@@ -138,11 +138,11 @@ public enum {enum_name} {{"#,
     write!(
         file,
         r#"
-    private final int value;
+    private final int mEnumValue;
     {enum_name}(int value) {{
-        this.value = value;
+        this.mEnumValue = value;
     }}
-    public final int getValue() {{ return value; }}
+    public final int getValue() {{ return this.mEnumValue; }}
     /*package*/ static {enum_name} fromInt(int x) {{
         switch (x) {{"#,
         enum_name = fenum.name
@@ -153,8 +153,9 @@ public enum {enum_name} {{"#,
         write!(
             file,
             r#"
-            case {index}: return {item_name};"#,
+            case {index}: return {enum_name}.{item_name};"#,
             index = i,
+            enum_name = fenum.name,
             item_name = item.name
         )
         .expect(WRITE_TO_MEM_FAILED_MSG);
-- 
2.43.0


From 85677b574d1c22dc1d84c5e398e86de3b36abbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:01 +0000
Subject: [PATCH 26/27] fix: Python: a class stored as Arc<T> could not be
 passed by value

---
 macroslib/src/python/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index a002777..aea3677 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -1166,7 +1166,7 @@ fn generate_deref_for_arc(
     match arg_smart_pointer {
         PointerType::None => match arg_reference {
             Reference::Ref => Ok(quote!{(&*#rust_instance_code)}),
-            Reference::None => append_clone_if_supported(class, quote!{*#rust_instance_code}, method_span),
+            Reference::None => append_clone_if_supported(class, quote!{**#rust_instance_code}, method_span),
             Reference::MutRef => Err(DiagnosticError::new(
                 src_id,
                 method_span,
-- 
2.43.0


From f5d44ae51ae5bd8b1613b1e295cb9149882eb244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:01 +0000
Subject: [PATCH 27/27] fix: Python: returning &str generated code that does
 not compile

---
 macroslib/src/python/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index aea3677..d3fdc94 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -577,6 +577,14 @@ fn generate_conversion_for_return(
                 {#rust_call; py.None()}
             },
         ))
+    } else if rust_type.normalized_name == "& str" {
+        // the wrapper function has no lifetime to return a borrowed string with
+        Ok((
+            parse_type!(String),
+            quote! {
+                (#rust_call).to_string()
+            },
+        ))
     } else if is_cpython_supported_type(rust_type) {
         Ok((rust_type.ty.clone(), rust_call))
     } else if let Some((ty, conversion)) = if_exported_class_generate_return_conversion(
-- 
2.43.0

