From dcc55c70ae95ff4168234cf2e0dcc574da2acdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 01/27] fix: report errors found while expanding macros inside
 a type

expand_type() remembered the error of expand_macro_in_type() in
ReplaceTypes::err, but never looked at it, so the unexpanded type was
returned as success.
---
 macroslib/src/typemap/typemap_macro.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index ac3c5db..fb53025 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -824,7 +824,10 @@ fn expand_type(
     };
     let mut new_ty = in_ty.clone();
     rt.visit_type_mut(&mut new_ty);
-    Ok(new_ty)
+    match rt.err {
+        Some(err) => Err(err),
+        None => Ok(new_ty),
+    }
 }
 
 fn expand_macro_in_type(
-- 
2.43.0


From ff6b7cc9da0a624244bc2c8769f3002c0072f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 02/27] fix: report errors of a type map rule with the id of
 the type map it is in

---
 macroslib/src/typemap/typemap_macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index fb53025..3a45202 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -760,7 +760,7 @@ fn expand_rtype_rule(
                 generic_aliases,
                 (src_id, x.span()),
             )?;
-            Some(TypeConvCode::new(code, (SourceId::none(), x.span())))
+            Some(TypeConvCode::new(code, (src_id, x.span())))
         }
         None => None,
     };
-- 
2.43.0


From b11fe8073f2aba23e01b5f4c29109eda99a0d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 03/27] fix: report errors at positions of the source they
 belong to

---
 macroslib/src/cpp/cpp_code.rs | 6 +++---
 macroslib/src/cpp/mod.rs      | 4 ++--
 macroslib/src/java_jni/mod.rs | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/cpp/cpp_code.rs b/macroslib/src/cpp/cpp_code.rs
index fdbdbf2..48f3d5e 100644
--- a/macroslib/src/cpp/cpp_code.rs
+++ b/macroslib/src/cpp/cpp_code.rs
@@ -433,7 +433,7 @@ extern "C" {
     }
 
     let rty = ctx.conv_map.find_or_alloc_rust_type(&static_.ty, src_id);
-    let fti = map_repr_c_type(ctx, &rty, (src_id, rty.ty.span()))?;
+    let fti = map_repr_c_type(ctx, &rty, (src_id, static_.ty.span()))?;
 
     let common_files = &mut ctx.common_files;
     let out: &mut FileWriteCache = file_for_module!(ctx, common_files, c_type_header_name);
@@ -488,7 +488,7 @@ extern "C" {
         }
         syn::ReturnType::Type(_, ref ty) => {
             let rty = ctx.conv_map.find_or_alloc_rust_type(ty, src_id);
-            let fti = map_repr_c_type(ctx, &rty, (src_id, rty.ty.span()))?;
+            let fti = map_repr_c_type(ctx, &rty, (src_id, ty.span()))?;
             for inc in &fti.provided_by_module {
                 includes.insert(inc.clone());
             }
@@ -513,7 +513,7 @@ extern "C" {
             }
             FnArg::Default(named_arg) => {
                 let rty = ctx.conv_map.find_or_alloc_rust_type(&named_arg.ty, src_id);
-                let fti = map_repr_c_type(ctx, &rty, (src_id, rty.ty.span()))?;
+                let fti = map_repr_c_type(ctx, &rty, (src_id, named_arg.ty.span()))?;
                 for inc in &fti.provided_by_module {
                     includes.insert(inc.clone());
                 }
diff --git a/macroslib/src/cpp/mod.rs b/macroslib/src/cpp/mod.rs
index 636dc24..7e24306 100644
--- a/macroslib/src/cpp/mod.rs
+++ b/macroslib/src/cpp/mod.rs
@@ -267,7 +267,7 @@ impl CppConfig {
                 {
                     return Err(DiagnosticError::new(
                         class.src_id,
-                        this_type.ty.span(),
+                        this_type_for_method.span(),
                         format!(
                             "class {} marked as {}, but type '{}' is not Arc<> or Rc<>",
                             class.name, SMART_PTR_COPY_TRAIT, this_type
@@ -284,7 +284,7 @@ impl CppConfig {
                 if has_clone {
                     return Err(DiagnosticError::new(
                         class.src_id,
-                        this_type.ty.span(),
+                        this_type_for_method.span(),
                         format!(
                             "class {} marked as {}, but has clone method. Error: can not generate clone method.",
                             class.name, SMART_PTR_COPY_TRAIT,
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index b557fc0..aa713ba 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -150,7 +150,7 @@ impl JavaConfig {
                 {
                     return Err(DiagnosticError::new(
                         class.src_id,
-                        this_type.ty.span(),
+                        this_type_for_method.span(),
                         format!(
                             "class {} marked as {}, but type '{}' is not Arc<> or Rc<>",
                             class.name, SMART_PTR_COPY_TRAIT, this_type
-- 
2.43.0


From 8f19420af611ddae008d2206760ef0333952ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 04/27] fix: call enum attribute callbacks and refuse unknown
 derives of enums for Java

---
 macroslib/src/java_jni/fenum.rs | 13 +++++++++----
 macroslib/src/java_jni/mod.rs   |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/macroslib/src/java_jni/fenum.rs b/macroslib/src/java_jni/fenum.rs
index 9a2d00b..aca1cee 100644
--- a/macroslib/src/java_jni/fenum.rs
+++ b/macroslib/src/java_jni/fenum.rs
@@ -10,6 +10,7 @@ use super::{
 };
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
+    extension::extend_foreign_enum,
     file_cache::FileWriteCache,
     typemap::{
         ast::{parse_ty_with_given_span, ForeignTypeName},
@@ -43,8 +44,7 @@ pub(in crate::java_jni) fn generate_enum(
         fenum.src_id,
     );
 
-    generate_java_code_for_enum(ctx, fenum)
-        .map_err(|err| DiagnosticError::new(fenum.src_id, fenum.span(), err))?;
+    generate_java_code_for_enum(ctx, fenum)?;
     generate_rust_code_for_enum(ctx, fenum)?;
 
     let jint_rty = ctx.conv_map.ty_to_rust_type(&parse_type! { jint });
@@ -99,7 +99,7 @@ pub(in crate::java_jni) fn generate_enum(
 fn generate_java_code_for_enum(
     ctx: &mut JavaContext,
     fenum: &ForeignEnumInfo,
-) -> std::result::Result<(), String> {
+) -> Result<()> {
     let path = ctx.cfg.output_dir.join(format!("{}.java", fenum.name));
     let mut file = FileWriteCache::new(&path, ctx.generated_foreign_files);
     let enum_doc_comments = doc_comments_to_java_comments(&fenum.doc_comments, true);
@@ -171,7 +171,12 @@ public enum {enum_name} {{"#,
     )
     .expect(WRITE_TO_MEM_FAILED_MSG);
 
-    file.update_file_if_necessary().map_err(map_write_err)?;
+    let mut cnt = file.take_content();
+    extend_foreign_enum(fenum, &mut cnt, ctx.enum_ext_handlers)?;
+    file.replace_content(cnt);
+
+    file.update_file_if_necessary()
+        .map_err(|err| DiagnosticError::new(fenum.src_id, fenum.span(), map_write_err(err)))?;
     Ok(())
 }
 
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index aa713ba..b1c2f20 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -17,7 +17,7 @@ use syn::{spanned::Spanned, Type};
 
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
-    extension::{ClassExtHandlers, ExtHandlers, MethodExtHandlers},
+    extension::{ClassExtHandlers, EnumExtHandlers, ExtHandlers, MethodExtHandlers},
     file_cache::FileWriteCache,
     typemap::{
         ast::{
@@ -50,6 +50,7 @@ struct JavaContext<'a> {
     java_type_to_jni_sig_map: FxHashMap<SmolStr, SmolStr>,
     class_ext_handlers: &'a ClassExtHandlers,
     method_ext_handlers: &'a MethodExtHandlers,
+    enum_ext_handlers: &'a EnumExtHandlers,
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -190,6 +191,7 @@ impl LanguageGenerator for JavaConfig {
             java_type_to_jni_sig_map: rust_code::predefined_java_type_to_jni_sig(),
             class_ext_handlers: ext_handlers.class_ext_handlers,
             method_ext_handlers: ext_handlers.method_ext_handlers,
+            enum_ext_handlers: ext_handlers.enum_ext_handlers,
         };
         init(&mut ctx, code)?;
         for item in &items {
-- 
2.43.0


From 98c7db453dd04bdf3c4d753399f3ff2b42f5d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 05/27] fix: refuse bodies, foreign_code, attributes and enum
 derives that the Python backend ignored

---
 macroslib/src/python/mod.rs | 46 +++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 56eced2..ecb13b7 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -90,6 +90,42 @@ impl PythonConfig {
             ));
         }
 
+        if !class.foreign_code.is_empty() {
+            return Err(DiagnosticError::new(
+                class.src_id,
+                class.span(),
+                format!(
+                    "class {}: has foreign_code, this is not supported for python",
+                    class.name
+                ),
+            ));
+        }
+        for method in &class.methods {
+            if let Some(attr) = method.unknown_attrs.first() {
+                return Err(DiagnosticError::new(
+                    class.src_id,
+                    method.span(),
+                    format!(
+                        "class {}, method {}: has unknown attribute {}",
+                        class.name,
+                        method.short_name(),
+                        attr
+                    ),
+                ));
+            }
+            if method.inline_block.is_some() {
+                return Err(DiagnosticError::new(
+                    class.src_id,
+                    method.span(),
+                    format!(
+                        "class {}, method {}: has body, this is not supported for python",
+                        class.name,
+                        method.short_name()
+                    ),
+                ));
+            }
+        }
+
         let class_name = &class.name;
         let wrapper_mod_name =
             parse::<Ident>(&py_wrapper_mod_name(&class_name.to_string()), class.src_id)?;
@@ -142,6 +178,16 @@ impl PythonConfig {
         conv_map: &mut TypeMap,
         enum_info: &ForeignEnumInfo,
     ) -> Result<(TokenStream, TokenStream)> {
+        if let Some(derive) = enum_info.derive_list.first() {
+            return Err(DiagnosticError::new(
+                enum_info.src_id,
+                enum_info.span(),
+                format!(
+                    "enum {}: has derive attribute {}, this is not supported for python",
+                    enum_info.name, derive
+                ),
+            ));
+        }
         let enum_name = &enum_info.name;
         let wrapper_mod_name = parse::<Ident>(
             &py_wrapper_mod_name(&enum_name.to_string()),
-- 
2.43.0


From eeceef78b0884a8a630be041fcf08259a8c4109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 06/27] fix: distance and indexing of the C++ iterators over
 Rust slices

---
 macroslib/src/cpp/rust_foreign_slice_iter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_iter.hpp b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
index a1e33cf..724b3f1 100644
--- a/macroslib/src/cpp/rust_foreign_slice_iter.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
@@ -59,7 +59,7 @@ public:
     T operator[](ptrdiff_t n) const noexcept
     {
         auto p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
-        auto elem_ptr = static_cast<const CForeignType *>(p);
+        auto elem_ptr = static_cast<const CForeignType *>(static_cast<const void *>(p));
         return T{ elem_ptr };
     }
 
@@ -94,7 +94,7 @@ public:
             = static_cast<const uint8_t *>(this->ptr) - static_cast<const uint8_t *>(o.ptr);
         // if container empty step may be 0, to prevent div by 0
         if (diff != 0) {
-            return diff / this->step;
+            return diff / static_cast<ptrdiff_t>(this->step);
         }
         else {
             return 0;
-- 
2.43.0


From b1bf188fa6076133797ad84559af99a2dac6126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 07/27] fix: let begin() and end() of a non-const RustVec
 compile

---
 macroslib/src/cpp/rust_vec_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_vec_impl.hpp b/macroslib/src/cpp/rust_vec_impl.hpp
index 2a4f667..cacf4f2 100644
--- a/macroslib/src/cpp/rust_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_vec_impl.hpp
@@ -48,9 +48,9 @@ public:
     size_t size() const noexcept { return this->len; }
     bool empty() const noexcept { return this->len == 0; }
     const value_type &operator[](size_t i) const noexcept { return this->data[i]; }
-    iterator begin() noexcept { return this->data; }
+    iterator begin() noexcept { return const_cast<iterator>(this->data); }
     const_iterator begin() const noexcept { return this->data; }
-    iterator end() noexcept { return this->data + this->len; }
+    iterator end() noexcept { return const_cast<iterator>(this->data) + this->len; }
     const_iterator end() const noexcept { return this->data + this->len; }
     void clear() noexcept { free_mem(); }
     CContainerType release() noexcept
-- 
2.43.0


From f66a4f357644816757c2eb05a6a5c5c7bbbab22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 08/27] fix: as_mut_ptr for mutable slices of foreign classes

---
 macroslib/src/cpp/cpp-include.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index b7306a4..635f563 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -813,7 +813,7 @@ foreign_typemap!(
 foreign_typemap!(
     ($p:r_type) <T: SwigForeignClass> &mut [T] => CRustObjectMutSlice {
         $out = CRustObjectMutSlice {
-            data: $p.as_ptr() as *const ::std::os::raw::c_void,
+            data: $p.as_mut_ptr() as *mut ::std::os::raw::c_void,
             len: $p.len(),
             step: ::std::mem::size_of::<swig_subst_type!(T)>(),
         };
-- 
2.43.0


From dc37b580b8cb9b9252f2e96e2247d33fa1f19db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 09/27] fix: do not build Rust strings and slices from null
 pointers of empty C++ objects

---
 macroslib/src/cpp/cpp-include.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 635f563..c652602 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -422,6 +422,10 @@ foreign_typemap!(
 
         #[no_mangle]
         pub extern "C" fn crust_string_clone(x: CRustString) -> CRustString {
+            if x.data.is_null() {
+                // empty RustString of C++, owns nothing
+                return x;
+            }
             let s = unsafe { String::from_raw_parts(x.data as *mut u8, x.len, x.capacity) };
             let ret = CRustString::from_string(s.clone());
             ::std::mem::forget(s);
@@ -788,9 +792,15 @@ impl CRustVecAccess {
         }
     }
     pub fn to_slice<'a, T>(cs: Self) -> &'a [T] {
+        if cs.len == 0 {
+            return &[];
+        }
         unsafe { ::std::slice::from_raw_parts(cs.data as *const T, cs.len) }
     }
     pub fn to_vec<T>(cs: Self) -> Vec<T> {
+        if cs.data.is_null() {
+            return Vec::new();
+        }
         unsafe { Vec::from_raw_parts(cs.data as *mut T, cs.len, cs.capacity) }
     }
 }
@@ -852,7 +862,7 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &[T] <= CRustSlice!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts($p.data, $p.len) };
+        $out = if $p.len == 0 { &[] } else { unsafe { ::std::slice::from_raw_parts($p.data, $p.len) } };
     };
     ($p:f_type, req_modules = ["\"CRustSlice!().h\""]) => "RustSlice<const swig_f_type!(T)>"
         "RustSlice<const swig_f_type!(T)>{$p.data, $p.len}";
@@ -885,7 +895,7 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &mut [T] <= CRustSliceMut!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) };
+        $out = if $p.len == 0 { &mut [] } else { unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) } };
     };
     ($p:f_type, req_modules = ["\"CRustSliceMut!().h\""]) => "RustSlice<swig_f_type!(T)>"
         "RustSlice<swig_f_type!(T)>{$p.data, $p.len}";
-- 
2.43.0


From 2d7605344c426ceb53efa6bf6444e71fd0ef498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 10/27] fix: pass a C++ tuple of three values to Rust

---
 macroslib/src/cpp/cpp-include.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index c652602..5fa1383 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -357,9 +357,9 @@ foreign_typemap!(
                            swig_foreign_from_i_type!(T3, $p.third))"#;
    ($p:f_type, req_modules = ["\"CRustTuple3Module!().h\"", "<tuple>"]) <= "std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)>"
        r#"swig_f_type!(CRustTuple3!()) {
-               swig_foreign_to_i_type!(T1, $p.first),
-               swig_foreign_to_i_type!(T2, $p.second),
-               swig_foreign_to_i_type!(T3, $p.third),
+               swig_foreign_to_i_type!(T1, std::get<0>($p)),
+               swig_foreign_to_i_type!(T2, std::get<1>($p)),
+               swig_foreign_to_i_type!(T3, std::get<2>($p)),
         }"#;
 );
 
-- 
2.43.0


From 50799d30f7802e959b4cde4edf24c734a97308c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:23 +0000
Subject: [PATCH 11/27] fix: smart_ptr_copy Java classes with plain self type

---
 macroslib/src/java_jni/map_class_self_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/java_jni/map_class_self_type.rs b/macroslib/src/java_jni/map_class_self_type.rs
index cbaf305..4f13e7c 100644
--- a/macroslib/src/java_jni/map_class_self_type.rs
+++ b/macroslib/src/java_jni/map_class_self_type.rs
@@ -201,7 +201,9 @@ fn register_main_foreign_types(
         let (this_type_for_method, _code_box_this) =
             convert_to_heap_pointer(ctx.conv_map, &this_type2, "this");
 
-        if class.smart_ptr_copy_derived() {
+        let this_is_smart_ptr = this_type_for_method.to_idx() != this_type;
+
+        if class.smart_ptr_copy_derived() && this_is_smart_ptr {
             let unpack_code = unpack_from_heap_pointer(&this_type2, TO_VAR_TEMPLATE, true);
             ctx.conv_map.add_conversion_rule(
                 jlong_in_val_rty.to_idx(),
@@ -227,7 +229,7 @@ fn register_main_foreign_types(
                 )
                 .into(),
             );
-        } else if class.copy_derived() {
+        } else if class.copy_derived() || class.smart_ptr_copy_derived() {
             ctx.conv_map.add_conversion_rule(
                 jlong_in_val_rty.to_idx(),
                 this_type,
-- 
2.43.0


From 80d10ff027e1ca9e54bba87d19d6433472a522e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 12/27] fix: read Java arrays of objects only for classes which
 store the object itself

---
 macroslib/src/java_jni/jni-include.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 9a7730c..dd71ec9 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -351,7 +351,7 @@ foreign_typemap!(
 );
 
 #[allow(dead_code)]
-fn jobject_array_to_vec_of_objects<T: SwigForeignClass + Clone>(
+fn jobject_array_to_vec_of_objects<T: SwigForeignClass<PointedType = T> + Clone>(
     env: *mut JNIEnv,
     arr: internal_aliases::JForeignObjectsArray<T>,
 ) -> Vec<T> {
-- 
2.43.0


From 8845a9d0169e02a7c93aa9462f980336285cd6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 13/27] fix: null array or null element passed as array of
 objects from Java

---
 macroslib/src/java_jni/jni-include.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index dd71ec9..5b6a4ed 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -357,6 +357,7 @@ fn jobject_array_to_vec_of_objects<T: SwigForeignClass<PointedType = T> + Clone>
 ) -> Vec<T> {
     let field_id = <T>::jni_class_pointer_field();
     assert!(!field_id.is_null());
+    assert!(!arr.inner.is_null());
     let length = unsafe { (**env).GetArrayLength.unwrap()(env, arr.inner) };
     let len = <usize as ::std::convert::TryFrom<jsize>>::try_from(length)
         .expect("invalid jsize, in jsize => usize conversion");
@@ -367,6 +368,7 @@ fn jobject_array_to_vec_of_objects<T: SwigForeignClass<PointedType = T> + Clone>
             if (**env).ExceptionCheck.unwrap()(env) != 0 {
                 panic!("Failed to retrieve element {} from this `jobjectArray'", i);
             }
+            assert!(!obj.is_null(), "element {} of array is null", i);
             let ptr = (**env).GetLongField.unwrap()(env, obj, field_id);
             let native = (jlong_to_pointer(ptr) as *mut T).as_mut().unwrap();
             (**env).DeleteLocalRef.unwrap()(env, obj);
-- 
2.43.0


From 66754dad3407e0d4956d57c4f6f70c67d863591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 14/27] fix: push of moved-from object to RustForeignVec

---
 macroslib/src/cpp/cpp-include.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 5fa1383..5b4f52b 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -988,6 +988,7 @@ fn push_foreign_class_to_vec<T: SwigForeignClass>(
     elem: *mut ::std::os::raw::c_void,
 ) {
     assert!(!vec.is_null());
+    assert!(!elem.is_null());
     let vec: &mut CRustForeignVec = unsafe { &mut *vec };
     let mut v = unsafe { Vec::from_raw_parts(vec.data as *mut T, vec.len, vec.capacity) };
     v.push(T::unbox_object(elem));
-- 
2.43.0


From 00f36972c93ec6520c4ebea71e7fd89ae79a2e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 15/27] fix: failed GetStringChars and Get*ArrayElements calls
 in Java code

---
 macroslib/src/java_jni/jni-include.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 5b6a4ed..2522908 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -672,6 +672,7 @@ impl JavaUTF16Slice {
     pub fn new(env: *mut JNIEnv, js: jstring) -> JavaUTF16Slice {
         let len = unsafe { (**env).GetStringLength.unwrap()(env, js) };
         let chars = unsafe { (**env).GetStringChars.unwrap()(env, js, ::std::ptr::null_mut()) };
+        assert!(!chars.is_null(), "GetStringChars failed");
         JavaUTF16Slice {
             string: js,
             chars,
@@ -783,6 +784,7 @@ macro_rules! define_array_handling_code {
                     let data =
                         unsafe { (**env).$jni_get_array_elements.unwrap()(env, array,
                                                                           ::std::ptr::null_mut()) };
+                    assert!(!data.is_null());
                     $rust_arr_wrapper { array, data, env }
                 }
                 fn to_slice(&self) -> &[$rust_elem_type] {
-- 
2.43.0


From eb4f13b04bd5b80f961dc18f2d52b5caea4d12fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:30 +0000
Subject: [PATCH 16/27] fix: compare only the class when the same
 swig_jni_find_class id is seen again

The second swig_jni_find_class! of an identifier was compared together with
the members collected so far, so it was reported as use of the same id for
different classes, and it replaced the entry, so members were lost.
---
 macroslib/src/java_jni/find_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/java_jni/find_cache.rs b/macroslib/src/java_jni/find_cache.rs
index e3ecdd7..c522b50 100644
--- a/macroslib/src/java_jni/find_cache.rs
+++ b/macroslib/src/java_jni/find_cache.rs
@@ -152,7 +152,7 @@ impl<'ast> Visit<'ast> for JniCacheMacroCallsVisitor<'ast> {
                 syn::parse2(mac.tokens.clone()).expect("Can not parse swig_jni_find_class call");
             let id = find_class.id.to_string();
             if let Some(call) = self.inner.calls.get(&id) {
-                if *call != find_class {
+                if call.path != find_class.path {
                     println!(
                         "waring=You use the same id '{}' for different classes '{}' vs '{}'",
                         id,
@@ -171,7 +171,7 @@ impl<'ast> Visit<'ast> for JniCacheMacroCallsVisitor<'ast> {
                     return;
                 }
             }
-            self.inner.calls.insert(id, find_class);
+            self.inner.calls.entry(id).or_insert(find_class);
         } else if mac.path.is_ident(SWIG_JNI_GET_METHOD_ID) {
             let calls = &mut self.inner.calls;
             add_jni_method_id!(mac, calls, methods, SWIG_JNI_GET_METHOD_ID);
-- 
2.43.0


From 59ff06b5fe93135d56b6350181afe240ec3fca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:30 +0000
Subject: [PATCH 17/27] fix: JNI signatures of the boxed types end with a
 semicolon

Without it the name of the native function of an overloaded method with
such an argument is not the one the JVM looks for.
---
 macroslib/src/java_jni/rust_code.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 838864a..9d34fb1 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -19,12 +19,12 @@ use crate::{
 pub(in crate::java_jni) fn predefined_java_type_to_jni_sig() -> FxHashMap<SmolStr, SmolStr> {
     let mut m = FxHashMap::default();
     m.insert("String".into(), "Ljava.lang.String;".into());
-    m.insert("Byte".into(), "Ljava.lang.Byte".into());
-    m.insert("Short".into(), "Ljava.lang.Short".into());
-    m.insert("Integer".into(), "Ljava.lang.Integer".into());
-    m.insert("Long".into(), "Ljava.lang.Long".into());
-    m.insert("Float".into(), "Ljava.lang.Float".into());
-    m.insert("Double".into(), "Ljava.lang.Double".into());
+    m.insert("Byte".into(), "Ljava.lang.Byte;".into());
+    m.insert("Short".into(), "Ljava.lang.Short;".into());
+    m.insert("Integer".into(), "Ljava.lang.Integer;".into());
+    m.insert("Long".into(), "Ljava.lang.Long;".into());
+    m.insert("Float".into(), "Ljava.lang.Float;".into());
+    m.insert("Double".into(), "Ljava.lang.Double;".into());
     m.insert("boolean".into(), "Z".into());
     m.insert("byte".into(), "B".into());
     m.insert("char".into(), "C".into());
-- 
2.43.0


From 1773c7f8f141ac065b000de25ddf7ea36f926f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:30 +0000
Subject: [PATCH 18/27] fix: class names in the return type of a callback's JNI
 signature use slashes

---
 macroslib/src/java_jni/rust_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 9d34fb1..1351752 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -143,7 +143,7 @@ pub(in crate::java_jni) fn jni_method_signature(
                 method.output.base.name
             )
         });
-    ret.push_str(sig);
+    ret.push_str(&sig.replace('.', "/"));
     ret
 }
 
-- 
2.43.0


From 15be54b7f97e48a36524f84e7735cb598bb6c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:10 +0000
Subject: [PATCH 19/27] fix: a string too long for Java is not cut silently

---
 macroslib/src/java_jni/jni-include.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 2522908..c7adabb 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -711,7 +711,9 @@ fn from_jstring_std_string(js: jstring, env: *mut JNIEnv) -> String {
 #[allow(dead_code)]
 fn from_std_str_jstring(x: &str, env: *mut JNIEnv) -> jstring {
     let x: Vec<::std::os::raw::c_ushort> = x.encode_utf16().collect();
-    unsafe { (**env).NewString.unwrap()(env, x.as_ptr(), x.len() as i32) }
+    let len = <jsize as ::std::convert::TryFrom<usize>>::try_from(x.len())
+        .expect("invalid usize, in usize => to jsize conversion");
+    unsafe { (**env).NewString.unwrap()(env, x.as_ptr(), len) }
 }
 
 foreign_typemap!(
-- 
2.43.0


From a6b91b07f2335e515b387102ea5ecbf1bd66e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:10 +0000
Subject: [PATCH 20/27] fix: the length of Vec<String> is not cut silently on
 the way to Java

---
 macroslib/src/java_jni/jni-include.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index c7adabb..754673a 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -736,8 +736,10 @@ foreign_typemap!(
 fn vec_string_to_jobject_array(mut arr: Vec<String>, env: *mut JNIEnv) -> jobjectArray {
     let jcls: jclass = swig_jni_find_class!(JAVA_LANG_STRING, "java/lang/String");
     assert!(!jcls.is_null());
+    let arr_len = <jsize as ::std::convert::TryFrom<usize>>::try_from(arr.len())
+        .expect("invalid usize, in usize => to jsize conversion");
     let obj_arr: jobjectArray = unsafe {
-        (**env).NewObjectArray.unwrap()(env, arr.len() as jsize, jcls, ::std::ptr::null_mut())
+        (**env).NewObjectArray.unwrap()(env, arr_len, jcls, ::std::ptr::null_mut())
     };
     assert!(!obj_arr.is_null());
     for (i, r_str) in arr.drain(..).enumerate() {
-- 
2.43.0


From b90a240e02608669374b512234636bd339627b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:02 +0000
Subject: [PATCH 21/27] fix: python: clone the object and not the Arc for a
 by-value argument of a class stored as Arc

---
 macroslib/src/python/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index ecb13b7..69ae293 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -1198,7 +1198,7 @@ fn generate_deref_for_arc(
     match arg_smart_pointer {
         PointerType::None => match arg_reference {
             Reference::Ref => Ok(quote!{(&*#rust_instance_code)}),
-            Reference::None => append_clone_if_supported(class, quote!{*#rust_instance_code}, method_span),
+            Reference::None => append_clone_if_supported(class, quote!{**#rust_instance_code}, method_span),
             Reference::MutRef => Err(DiagnosticError::new(
                 src_id,
                 method_span,
-- 
2.43.0


From 4c883287b75e10a9b6fb1c1d21fba0818a0344fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:41 +0000
Subject: [PATCH 22/27] fix: python: refuse unknown derives of a class

---
 macroslib/src/python/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 69ae293..7817b89 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -12,7 +12,8 @@ use crate::{
         ForeignClassInfo, ForeignEnumInfo, ForeignInterface, ForeignMethod, ItemToExpand,
         MethodVariant, SelfTypeVariant,
     },
-    DiagnosticError, LanguageGenerator, PythonConfig, SourceCode, TypeMap,
+    DiagnosticError, LanguageGenerator, PythonConfig, SourceCode, TypeMap, CLONE_TRAIT, COPY_TRAIT,
+    SMART_PTR_COPY_TRAIT,
 };
 use crate::{extension::ExtHandlers, typemap::ast};
 use heck::ToSnakeCase;
@@ -100,6 +101,20 @@ impl PythonConfig {
                 ),
             ));
         }
+        if let Some(derive) = class
+            .derive_list
+            .iter()
+            .find(|x| ![CLONE_TRAIT, COPY_TRAIT, SMART_PTR_COPY_TRAIT].contains(&x.as_str()))
+        {
+            return Err(DiagnosticError::new(
+                class.src_id,
+                class.span(),
+                format!(
+                    "class {}: has unknown derive attribute {}",
+                    class.name, derive
+                ),
+            ));
+        }
         for method in &class.methods {
             if let Some(attr) = method.unknown_attrs.first() {
                 return Err(DiagnosticError::new(
-- 
2.43.0


From c11436f0233d78cd859d4f6b39ebbf33c91828e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:41 +0000
Subject: [PATCH 23/27] fix: cpp: SmartPtrCopy beside a clone method is refused
 whatever the path of the method

---
 macroslib/src/cpp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/mod.rs b/macroslib/src/cpp/mod.rs
index 7e24306..ebf2b12 100644
--- a/macroslib/src/cpp/mod.rs
+++ b/macroslib/src/cpp/mod.rs
@@ -277,7 +277,7 @@ impl CppConfig {
 
                 let has_clone = class.methods.iter().any(|x| match x.variant {
                     MethodVariant::Method(_) | MethodVariant::StaticMethod => {
-                        x.rust_id.is_ident("clone")
+                        x.short_name() == "clone"
                     }
                     MethodVariant::Constructor => false,
                 });
-- 
2.43.0


From 096ea6d5aec1b834feda7aeb2f9b55a13583162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:50 +0000
Subject: [PATCH 24/27] fix: private and protected together are refused

---
 macroslib/src/code_parse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/code_parse.rs b/macroslib/src/code_parse.rs
index 2ed59c2..79df9c4 100644
--- a/macroslib/src/code_parse.rs
+++ b/macroslib/src/code_parse.rs
@@ -225,18 +225,19 @@ fn do_parse_foreigner_class(_lang: Language, input: ParseStream) -> syn::Result<
             unknown_attrs: method_unknown_attrs,
         } = parse_attrs(&content, ParseAttrsFlags::UNKNOWN | ParseAttrsFlags::DOC)?;
         assert!(method_derive_list.is_empty());
-        let mut access = if content.peek(kw::private) {
+        let access = if content.peek(kw::private) {
             content.parse::<kw::private>()?;
+            if content.peek(kw::protected) {
+                return Err(content.error("'private' and 'protected' can not be used together"));
+            }
             MethodAccess::Private
+        } else if content.peek(kw::protected) {
+            content.parse::<kw::protected>()?;
+            MethodAccess::Protected
         } else {
             MethodAccess::Public
         };
 
-        if content.peek(kw::protected) {
-            content.parse::<kw::protected>()?;
-            access = MethodAccess::Protected;
-        }
-
         let (func_type_name, func_type_name_span): (String, Span) = if content.peek(Token![fn]) {
             let token = content.parse::<Token![fn]>()?;
             (FN.into(), token.span())
-- 
2.43.0


From 60444f073959d03068eb0aa8e5a42810a6e166d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:50 +0000
Subject: [PATCH 25/27] fix: a second self_type, and access levels or
 attributes of what is not a function, are refused

---
 macroslib/src/code_parse.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/macroslib/src/code_parse.rs b/macroslib/src/code_parse.rs
index 79df9c4..1051748 100644
--- a/macroslib/src/code_parse.rs
+++ b/macroslib/src/code_parse.rs
@@ -246,7 +246,30 @@ fn do_parse_foreigner_class(_lang: Language, input: ParseStream) -> syn::Result<
             (id.to_string(), id.span())
         };
         debug!("may be func_type_name {:?}", func_type_name);
+        if func_type_name == "self_type"
+            || func_type_name == FOREIGNER_CODE_DEPRECATED
+            || func_type_name == FOREIGN_CODE
+        {
+            if access != MethodAccess::Public {
+                return Err(syn::Error::new(
+                    func_type_name_span,
+                    format!("access modifier is not supported for '{func_type_name}'"),
+                ));
+            }
+            if let Some(attr) = method_unknown_attrs.first() {
+                return Err(syn::Error::new(
+                    func_type_name_span,
+                    format!("unknown attribute '{attr}' for '{func_type_name}'"),
+                ));
+            }
+        }
         if func_type_name == "self_type" {
+            if rust_self_type.is_some() {
+                return Err(syn::Error::new(
+                    func_type_name_span,
+                    "self_type should be defined only once",
+                ));
+            }
             rust_self_type = Some(content.parse::<Type>()?);
             debug!("self_type: {:?}", rust_self_type);
             content.parse::<Token![;]>()?;
@@ -743,6 +766,12 @@ impl Parse for ForeignInterfaceParser {
             let doc_comments = parse_doc_comments(&item_parser)?;
             let func_name = item_parser.parse::<Ident>()?;
             if func_name == "self_type" {
+                if self_type.is_some() {
+                    return Err(syn::Error::new(
+                        func_name.span(),
+                        "self_type should be defined only once",
+                    ));
+                }
                 let traits: syn::TypeTraitObject = item_parser.parse()?;
                 if traits.bounds.is_empty() {
                     return Err(syn::Error::new(
-- 
2.43.0


From 19927261bd963dd68ecd27b7c245ba6145b37050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:50 +0000
Subject: [PATCH 26/27] fix: an empty constructor after another constructor is
 refused

---
 macroslib/src/code_parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/macroslib/src/code_parse.rs b/macroslib/src/code_parse.rs
index 1051748..06f8f5a 100644
--- a/macroslib/src/code_parse.rs
+++ b/macroslib/src/code_parse.rs
@@ -311,6 +311,15 @@ fn do_parse_foreigner_class(_lang: Language, input: ParseStream) -> syn::Result<
             if access != MethodAccess::Private {
                 return Err(content.error("dummy constructor should be private"));
             }
+            if methods
+                .iter()
+                .any(|m: &ForeignMethod| m.variant == MethodVariant::Constructor)
+            {
+                return Err(syn::Error::new(
+                    func_type_name_span,
+                    "dummy constructor can not be used together with other constructors",
+                ));
+            }
             if constructor_ret_type.is_none() {
                 if let Some(rust_self_type) = rust_self_type.as_ref() {
                     let self_type: Type = (*rust_self_type).clone();
-- 
2.43.0


From 3e8d044952ca096aeafa1bf711e2f6374a027c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:50 +0000
Subject: [PATCH 27/27] fix: a self argument that is not the first is refused

---
 macroslib/src/code_parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/macroslib/src/code_parse.rs b/macroslib/src/code_parse.rs
index 06f8f5a..9434f76 100644
--- a/macroslib/src/code_parse.rs
+++ b/macroslib/src/code_parse.rs
@@ -632,6 +632,12 @@ pub(crate) fn parse_fn_args(
     let mut args_names = FxHashSet::<SmolStr>::default();
     for arg in args {
         use syn::FnArg::*;
+        if let (Receiver(receiver), false) = (&arg, ret.is_empty()) {
+            return Err(syn::Error::new(
+                receiver.span(),
+                "self argument should be the first argument",
+            ));
+        }
         let fn_arg = match arg {
             Receiver(syn::Receiver {
                 self_token,
-- 
2.43.0

