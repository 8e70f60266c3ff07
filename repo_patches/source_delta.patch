From bf4cd81a075ff92b457240b0465fa275bf99c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 01/24] fix: pass three-element tuples from C++ with std::get

The C++ side of a (T1, T2, T3) argument used .first/.second/.third on a
std::tuple, which does not compile.
---
 macroslib/src/cpp/cpp-include.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index b7306a4..2d12d4b 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -357,9 +357,9 @@ foreign_typemap!(
                            swig_foreign_from_i_type!(T3, $p.third))"#;
    ($p:f_type, req_modules = ["\"CRustTuple3Module!().h\"", "<tuple>"]) <= "std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)>"
        r#"swig_f_type!(CRustTuple3!()) {
-               swig_foreign_to_i_type!(T1, $p.first),
-               swig_foreign_to_i_type!(T2, $p.second),
-               swig_foreign_to_i_type!(T3, $p.third),
+               swig_foreign_to_i_type!(T1, std::get<0>($p)),
+               swig_foreign_to_i_type!(T2, std::get<1>($p)),
+               swig_foreign_to_i_type!(T3, std::get<2>($p)),
         }"#;
 );
 
-- 
2.43.0


From 5c476f1d5913026bfc31c17d9ff1d37cf9ad6fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 02/24] fix: copy default constructed and moved-from RustString
 safely

---
 macroslib/src/cpp/cpp-include.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 2d12d4b..d09f173 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -422,6 +422,10 @@ foreign_typemap!(
 
         #[no_mangle]
         pub extern "C" fn crust_string_clone(x: CRustString) -> CRustString {
+            if x.data.is_null() {
+                // default constructed or moved-from `RustString`
+                return x;
+            }
             let s = unsafe { String::from_raw_parts(x.data as *mut u8, x.len, x.capacity) };
             let ret = CRustString::from_string(s.clone());
             ::std::mem::forget(s);
-- 
2.43.0


From ce0854cb554f178125366f2b2a9eb514c6516976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 03/24] fix: signed distance between foreign slice iterators

---
 macroslib/src/cpp/rust_foreign_slice_iter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_iter.hpp b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
index a1e33cf..fd60688 100644
--- a/macroslib/src/cpp/rust_foreign_slice_iter.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
@@ -94,7 +94,7 @@ public:
             = static_cast<const uint8_t *>(this->ptr) - static_cast<const uint8_t *>(o.ptr);
         // if container empty step may be 0, to prevent div by 0
         if (diff != 0) {
-            return diff / this->step;
+            return diff / static_cast<ptrdiff_t>(this->step);
         }
         else {
             return 0;
-- 
2.43.0


From cc0f1ede98528da1d8acec3790428df87bd80361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 04/24] fix: accept empty C++ slices of plain values with a
 null data pointer

---
 macroslib/src/cpp/cpp-include.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index d09f173..eb3dbfa 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -856,7 +856,11 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &[T] <= CRustSlice!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts($p.data, $p.len) };
+        $out = if $p.len == 0 {
+            &[]
+        } else {
+            unsafe { ::std::slice::from_raw_parts($p.data, $p.len) }
+        };
     };
     ($p:f_type, req_modules = ["\"CRustSlice!().h\""]) => "RustSlice<const swig_f_type!(T)>"
         "RustSlice<const swig_f_type!(T)>{$p.data, $p.len}";
@@ -889,7 +893,11 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &mut [T] <= CRustSliceMut!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) };
+        $out = if $p.len == 0 {
+            &mut []
+        } else {
+            unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) }
+        };
     };
     ($p:f_type, req_modules = ["\"CRustSliceMut!().h\""]) => "RustSlice<swig_f_type!(T)>"
         "RustSlice<swig_f_type!(T)>{$p.data, $p.len}";
-- 
2.43.0


From 1c090115c6fb5b9537ab94f56b21defa7a02a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 05/24] fix: pass default constructed and moved-from
 RustForeignSlice as valid empty slice

---
 macroslib/src/cpp/rust_foreign_slice_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_impl.hpp b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
index 4c07b84..c9fb48f 100644
--- a/macroslib/src/cpp/rust_foreign_slice_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cstddef> //max_align_t
+#include <type_traits>
+
 #include "rust_foreign_slice_iter.hpp"
 
 namespace RUST_SWIG_USER_NAMESPACE {
@@ -70,7 +73,8 @@ private:
     {
         this->step = 0;
         this->len = 0;
-        this->data = nullptr;
+        // Rust requires not null and aligned data pointer even for empty slice
+        this->data = reinterpret_cast<void *>(std::alignment_of<std::max_align_t>::value);
     }
 };
 
-- 
2.43.0


From 60217c0d5e5b95ecd28808f3c5ce0bec71a59007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 06/24] fix: iteration over not const RustVec

---
 macroslib/src/cpp/rust_vec_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_vec_impl.hpp b/macroslib/src/cpp/rust_vec_impl.hpp
index 2a4f667..cacf4f2 100644
--- a/macroslib/src/cpp/rust_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_vec_impl.hpp
@@ -48,9 +48,9 @@ public:
     size_t size() const noexcept { return this->len; }
     bool empty() const noexcept { return this->len == 0; }
     const value_type &operator[](size_t i) const noexcept { return this->data[i]; }
-    iterator begin() noexcept { return this->data; }
+    iterator begin() noexcept { return const_cast<iterator>(this->data); }
     const_iterator begin() const noexcept { return this->data; }
-    iterator end() noexcept { return this->data + this->len; }
+    iterator end() noexcept { return const_cast<iterator>(this->data) + this->len; }
     const_iterator end() const noexcept { return this->data + this->len; }
     void clear() noexcept { free_mem(); }
     CContainerType release() noexcept
-- 
2.43.0


From 516ba9ddee238d212d8425a8e523cb8dd0d0986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 07/24] fix: properly aligned data pointer in empty
 RustForeignVec

---
 macroslib/src/cpp/rust_foreign_vec_impl.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_vec_impl.hpp b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
index c96e5ad..ce479d2 100644
--- a/macroslib/src/cpp/rust_foreign_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <cassert>
+#include <cstddef> //max_align_t
+#include <type_traits>
 
 #include "rust_foreign_slice_impl.hpp"
 #include "rust_foreign_slice_iter.hpp"
@@ -114,8 +116,9 @@ private:
     }
     static void reset(RustForeignVec &o) noexcept
     {
-        // Rust Vec::new uses NonNull::danling with similar value
-        o.data = reinterpret_cast<value_type *>(std::alignment_of<value_type>::value);
+        // Rust Vec::new uses NonNull::danling with similar value,
+        // value_type is only handle, so its alignment has nothing to do with alignment of element
+        o.data = reinterpret_cast<void *>(std::alignment_of<std::max_align_t>::value);
         o.len = 0;
         o.capacity = 0;
     }
-- 
2.43.0


From d8e73395b97dd68c58400674f5e6e15e3dbe93a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 08/24] fix: C++ methods returning mutable slices of objects
 compile

---
 macroslib/src/cpp/cpp-include.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index eb3dbfa..5baa70e 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -817,7 +817,7 @@ foreign_typemap!(
 foreign_typemap!(
     ($p:r_type) <T: SwigForeignClass> &mut [T] => CRustObjectMutSlice {
         $out = CRustObjectMutSlice {
-            data: $p.as_ptr() as *const ::std::os::raw::c_void,
+            data: $p.as_mut_ptr() as *mut ::std::os::raw::c_void,
             len: $p.len(),
             step: ::std::mem::size_of::<swig_subst_type!(T)>(),
         };
-- 
2.43.0


From 397a83ebfac62745108bb8d652031d61806ccdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 09/24] fix: operator[] of foreign slice iterator compiles

---
 macroslib/src/cpp/rust_foreign_slice_iter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_iter.hpp b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
index fd60688..a27ac5a 100644
--- a/macroslib/src/cpp/rust_foreign_slice_iter.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
@@ -58,7 +58,7 @@ public:
     /*@{*/
     T operator[](ptrdiff_t n) const noexcept
     {
-        auto p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
         auto elem_ptr = static_cast<const CForeignType *>(p);
         return T{ elem_ptr };
     }
-- 
2.43.0


From e0785257177f7f6998004cdcd7d59a6dfb4480ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 10/24] fix: callback method argument named opaque

---
 macroslib/src/cpp/finterface.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/finterface.rs b/macroslib/src/cpp/finterface.rs
index fefd8bc..fd80177 100644
--- a/macroslib/src/cpp/finterface.rs
+++ b/macroslib/src/cpp/finterface.rs
@@ -433,7 +433,8 @@ struct C_{interface_name} {{
         writeln!(
             file_c,
             r#"{doc_comments}
-    {c_ret_type} (*{method_name})({single_args_with_types}void *opaque);"#,
+    {c_ret_type} (*{method_name})({single_args_with_types}void *{opaque});"#,
+            opaque = opaque_name,
             method_name = method.name,
             doc_comments = cpp_code::doc_comments_to_c_comments(&method.doc_comments, false),
             single_args_with_types = cpp_code::c_generate_args_with_types(
-- 
2.43.0


From c0f817fe9982b06cab695f261c10c4780a27381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 11/24] fix: terminate JNI signatures of boxed types in names
 of overloaded methods

---
 macroslib/src/java_jni/rust_code.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 838864a..9d34fb1 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -19,12 +19,12 @@ use crate::{
 pub(in crate::java_jni) fn predefined_java_type_to_jni_sig() -> FxHashMap<SmolStr, SmolStr> {
     let mut m = FxHashMap::default();
     m.insert("String".into(), "Ljava.lang.String;".into());
-    m.insert("Byte".into(), "Ljava.lang.Byte".into());
-    m.insert("Short".into(), "Ljava.lang.Short".into());
-    m.insert("Integer".into(), "Ljava.lang.Integer".into());
-    m.insert("Long".into(), "Ljava.lang.Long".into());
-    m.insert("Float".into(), "Ljava.lang.Float".into());
-    m.insert("Double".into(), "Ljava.lang.Double".into());
+    m.insert("Byte".into(), "Ljava.lang.Byte;".into());
+    m.insert("Short".into(), "Ljava.lang.Short;".into());
+    m.insert("Integer".into(), "Ljava.lang.Integer;".into());
+    m.insert("Long".into(), "Ljava.lang.Long;".into());
+    m.insert("Float".into(), "Ljava.lang.Float;".into());
+    m.insert("Double".into(), "Ljava.lang.Double;".into());
     m.insert("boolean".into(), "Z".into());
     m.insert("byte".into(), "B".into());
     m.insert("char".into(), "C".into());
-- 
2.43.0


From b64b10cf9c8d3a986038a062be69374f19bacddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 12/24] fix: pass text of error to Java exception as modified
 UTF-8

---
 macroslib/src/java_jni/jni-include.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 9a7730c..8722f91 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -305,8 +305,25 @@ impl Drop for JavaCallback {
 
 #[allow(dead_code)]
 fn jni_throw(env: *mut JNIEnv, ex_class: jclass, message: &str) {
-    let c_message = ::std::ffi::CString::new(message).unwrap();
-    let res = unsafe { (**env).ThrowNew.unwrap()(env, ex_class, c_message.as_ptr()) };
+    // ThrowNew expects zero terminated string in "modified UTF-8" encoding
+    let mut c_message = Vec::<u8>::with_capacity(message.len() + 1);
+    for unit in message.encode_utf16() {
+        match unit {
+            0x0001..=0x007f => c_message.push(unit as u8),
+            0x0000 | 0x0080..=0x07ff => {
+                c_message.push(0xc0 | (unit >> 6) as u8);
+                c_message.push(0x80 | (unit & 0x3f) as u8);
+            }
+            _ => {
+                c_message.push(0xe0 | (unit >> 12) as u8);
+                c_message.push(0x80 | ((unit >> 6) & 0x3f) as u8);
+                c_message.push(0x80 | (unit & 0x3f) as u8);
+            }
+        }
+    }
+    c_message.push(0);
+    let c_message = c_message.as_ptr() as *const ::std::os::raw::c_char;
+    let res = unsafe { (**env).ThrowNew.unwrap()(env, ex_class, c_message) };
     if res != 0 {
         log::error!(
             "JNI ThrowNew({}) failed for class {:?} failed",
-- 
2.43.0


From 19c1d93c795d333c0e5906ea7cc1e800e8b570bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 13/24] fix: escape non-ASCII characters in names of JNI
 functions

---
 macroslib/src/java_jni/rust_code.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 9d34fb1..8aedf89 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -76,7 +76,13 @@ pub(in crate::java_jni) fn generate_jni_func_name(
                 '[' => output.push_str("_3"),
                 '_' => output.push_str("_1"),
                 ';' => output.push_str("_2"),
-                _ => output.push(c),
+                _ if c.is_ascii() => output.push(c),
+                _ => {
+                    let mut utf16_units = [0; 2];
+                    for unit in c.encode_utf16(&mut utf16_units) {
+                        output.push_str(&format!("_0{:04x}", unit));
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From b6ef19252f36285ef29fdf265a115c1a68ddfe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 14/24] fix: free local references made for a callback when it
 returns

A native method that fires a Java callback many times kept every
object argument as a local reference until it returned to Java, which
exceeds the local reference table of the JVM.
---
 macroslib/src/java_jni/jni-include.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 8722f91..d14731e 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -190,11 +190,17 @@ struct JniEnvHolder<'a> {
     env: Option<*mut JNIEnv>,
     callback: &'a JavaCallback,
     need_detach: bool,
+    need_pop_frame: bool,
 }
 
 #[allow(dead_code)]
 impl<'a> Drop for JniEnvHolder<'a> {
     fn drop(&mut self) {
+        if self.need_pop_frame {
+            if let Some(env) = self.env {
+                unsafe { (**env).PopLocalFrame.unwrap()(env, ::std::ptr::null_mut()) };
+            }
+        }
         if self.need_detach {
             let res = unsafe {
                 (**self.callback.java_vm).DetachCurrentThread.unwrap()(self.callback.java_vm)
@@ -233,10 +239,18 @@ impl JavaCallback {
             )
         };
         if res == (JNI_OK as jint) {
+            // The calling native method may be far from its return to Java,
+            // so free local references to arguments as soon as callback returns
+            let res = unsafe { (**env).PushLocalFrame.unwrap()(env, 16) };
+            if res != 0 {
+                log::error!("JavaCallback::get_jni_env: PushLocalFrame failed: {}", res);
+                unsafe { (**env).ExceptionClear.unwrap()(env) };
+            }
             return JniEnvHolder {
                 env: Some(env),
                 callback: self,
                 need_detach: false,
+                need_pop_frame: res == 0,
             };
         }
         if res != (JNI_EDETACHED as jint) {
@@ -278,6 +292,7 @@ impl JavaCallback {
                 env: None,
                 callback: self,
                 need_detach: false,
+                need_pop_frame: false,
             }
         } else {
             assert!(!env.is_null());
@@ -285,6 +300,7 @@ impl JavaCallback {
                 env: Some(env),
                 callback: self,
                 need_detach: true,
+                need_pop_frame: false,
             }
         }
     }
-- 
2.43.0


From 6c827d627716e9d3806b013fd45bc48c63c40421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 15/24] fix: Vec<T> from Java array for classes behind smart
 pointer

For a class with Rc/Arc self type Java object holds pointer to the
pointee, but jobject_array_to_vec_of_objects used it as pointer to Rc/Arc
itself.
---
 macroslib/src/java_jni/fclass.rs      | 12 ++++++++++++
 macroslib/src/java_jni/jni-include.rs | 14 +++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/java_jni/fclass.rs b/macroslib/src/java_jni/fclass.rs
index 533524f..abaf8a3 100644
--- a/macroslib/src/java_jni/fclass.rs
+++ b/macroslib/src/java_jni/fclass.rs
@@ -552,6 +552,17 @@ fn generate_rust_code(
                 ),
                 Span::call_site(),
             );
+            let with_object_code = if this_type_for_method.normalized_name
+                == this_type.normalized_name
+            {
+                quote! {
+                    fn with_object<R, F: FnOnce(&Self) -> R>(x: jlong, f: F) -> R {
+                        f(unsafe { jlong_to_pointer::<Self>(x).as_ref().unwrap() })
+                    }
+                }
+            } else {
+                TokenStream::new()
+            };
             let fclass_impl_code = quote! {
                 impl<#(#lifetimes),*> SwigForeignClass for #class_name {
                     type PointedType = #this_type_for_method_ty_as_is;
@@ -581,6 +592,7 @@ fn generate_rust_code(
                         };
                         ::std::ptr::NonNull::<Self::PointedType>::new(x).unwrap()
                     }
+                    #with_object_code
                 }
             };
             ctx.rust_code.push(fclass_impl_code);
diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index d14731e..3b49496 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -164,6 +164,14 @@ pub trait SwigForeignClass {
     fn box_object(x: Self) -> jlong;
     fn unbox_object(x: jlong) -> Self;
     fn to_pointer(x: jlong) -> ::std::ptr::NonNull<Self::PointedType>;
+    /// Access to object without change of its owner,
+    /// default implementation is for smart pointers: for them `x` is what `into_raw` returned
+    fn with_object<R, F: FnOnce(&Self) -> R>(x: jlong, f: F) -> R
+    where
+        Self: Sized,
+    {
+        f(&::std::mem::ManuallyDrop::new(Self::unbox_object(x)))
+    }
 }
 
 #[allow(dead_code)]
@@ -395,17 +403,17 @@ fn jobject_array_to_vec_of_objects<T: SwigForeignClass + Clone>(
         .expect("invalid jsize, in jsize => usize conversion");
     let mut result = Vec::with_capacity(len);
     for i in 0..length {
-        let native: &mut T = unsafe {
+        let native: T = unsafe {
             let obj = (**env).GetObjectArrayElement.unwrap()(env, arr.inner, i);
             if (**env).ExceptionCheck.unwrap()(env) != 0 {
                 panic!("Failed to retrieve element {} from this `jobjectArray'", i);
             }
             let ptr = (**env).GetLongField.unwrap()(env, obj, field_id);
-            let native = (jlong_to_pointer(ptr) as *mut T).as_mut().unwrap();
+            let native = T::with_object(ptr, |x| x.clone());
             (**env).DeleteLocalRef.unwrap()(env, obj);
             native
         };
-        result.push(native.clone());
+        result.push(native);
     }
 
     result
-- 
2.43.0


From a3ba5296850b31997c225f70aec0822399884820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 16/24] fix: multi-line doc comments and special sequences in
 doc comments broke generated code

---
 macroslib/src/cpp/cpp_code.rs       | 12 ++++++++++--
 macroslib/src/java_jni/java_code.rs | 17 ++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/macroslib/src/cpp/cpp_code.rs b/macroslib/src/cpp/cpp_code.rs
index fdbdbf2..9884d9d 100644
--- a/macroslib/src/cpp/cpp_code.rs
+++ b/macroslib/src/cpp/cpp_code.rs
@@ -26,14 +26,22 @@ pub(in crate::cpp) fn doc_comments_to_c_comments(
     class_comments: bool,
 ) -> String {
     let mut comments = String::new();
-    for (i, comment) in doc_comments.iter().enumerate() {
+    // one doc comment may contain several lines: /** ... */ or #[doc = "..."]
+    let lines = doc_comments.iter().flat_map(|x| x.trim().split('\n'));
+    for (i, line) in lines.enumerate() {
         if i != 0 {
             comments.push('\n');
         }
         if !class_comments {
             comments.push_str("    ");
         }
-        write!(&mut comments, "//{}", comment.trim()).unwrap();
+        let line = line.replace(|c| c == '\r' || c == '\0', " ");
+        let line = line.trim();
+        write!(&mut comments, "//{}", line).unwrap();
+        if line.ends_with('\\') || line.ends_with("??/") {
+            // prevent joining with the next line, that may be not comment
+            comments.push_str(" //");
+        }
     }
     comments
 }
diff --git a/macroslib/src/java_jni/java_code.rs b/macroslib/src/java_jni/java_code.rs
index aa028c3..d31826c 100644
--- a/macroslib/src/java_jni/java_code.rs
+++ b/macroslib/src/java_jni/java_code.rs
@@ -67,7 +67,13 @@ pub(in crate::java_jni) fn doc_comments_to_java_comments(
 ) -> String {
     use std::fmt::Write;
     let mut comments = String::new();
-    for (i, comment) in doc_comments.iter().enumerate() {
+    // one doc comment may contain several lines: /** ... */ or #[doc = "..."]
+    let mut lines = doc_comments
+        .iter()
+        .flat_map(|x| x.trim().split('\n'))
+        .enumerate()
+        .peekable();
+    while let Some((i, line)) = lines.next() {
         if i != 0 {
             comments.push('\n');
         }
@@ -81,9 +87,14 @@ pub(in crate::java_jni) fn doc_comments_to_java_comments(
             }
         }
 
-        write!(&mut comments, " * {}", comment.trim()).unwrap();
+        // end of comment and unicode escapes have special meaning inside Java comment
+        let line = line
+            .trim()
+            .replace("*/", "*&#47;")
+            .replace("\\u", "&#92;u");
+        write!(&mut comments, " * {}", line).unwrap();
 
-        if i == doc_comments.len() - 1 {
+        if lines.peek().is_none() {
             comments.push('\n');
             if !class_comments {
                 comments.push_str("    ");
-- 
2.43.0


From 6b6f8b6be43af57ffe4ae6fd611f86b969aa4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:29 +0000
Subject: [PATCH 17/24] fix: Python: release lock after clone of by value
 argument, passing the same object twice was a deadlock

---
 macroslib/src/python/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 56eced2..ad1ded4 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -1216,7 +1216,12 @@ fn append_clone_if_supported(
     method_span: Span,
 ) -> Result<TokenStream> {
     if class.clone_derived() || class.copy_derived() {
-        Ok(quote!((#rust_instance_code).clone()))
+        // binding instead of plain expression, to release lock (if any)
+        // before evaluation of the rest of arguments and call of function
+        Ok(quote!({
+            let object = (#rust_instance_code).clone();
+            object
+        }))
     } else {
         Err(DiagnosticError::new(
             class.src_id,
-- 
2.43.0


From 56ace48a1d4d013f157efc2a679e102cb3f7b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 18/24] fix: C++: types with 'struct ' or 'union ' as part of
 name (Construct etc.) lost this part

---
 macroslib/src/cpp/cpp_code.rs | 19 +++++++++++++++++++
 macroslib/src/cpp/fclass.rs   |  2 +-
 macroslib/src/cpp/map_type.rs |  7 +++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/cpp/cpp_code.rs b/macroslib/src/cpp/cpp_code.rs
index 9884d9d..0505138 100644
--- a/macroslib/src/cpp/cpp_code.rs
+++ b/macroslib/src/cpp/cpp_code.rs
@@ -248,6 +248,25 @@ pub(in crate::cpp) fn generate_c_type(
     Ok(())
 }
 
+/// Remove keyword (may be followed by space) from text with C/C++ types,
+/// names that only contain `keyword` as part are not touched
+pub(in crate::cpp) fn remove_keyword(typename: &str, keyword: &str) -> String {
+    let is_name_char = |c: char| c.is_ascii_alphanumeric() || c == '_';
+    let mut ret = String::with_capacity(typename.len());
+    let mut last_end = 0;
+    for (start, matched) in typename.match_indices(keyword) {
+        let end = start + matched.len();
+        let in_name = typename[..start].ends_with(is_name_char)
+            || (keyword.ends_with(is_name_char) && typename[end..].starts_with(is_name_char));
+        if !in_name {
+            ret.push_str(&typename[last_end..start]);
+            last_end = end;
+        }
+    }
+    ret.push_str(&typename[last_end..]);
+    ret
+}
+
 trait CItemDescriptor: ToTokens {
     fn c_type_prefix(&self) -> &'static str;
     fn name(&self) -> &syn::Ident;
diff --git a/macroslib/src/cpp/fclass.rs b/macroslib/src/cpp/fclass.rs
index e7bcea8..f3dc949 100644
--- a/macroslib/src/cpp/fclass.rs
+++ b/macroslib/src/cpp/fclass.rs
@@ -346,7 +346,7 @@ May be you need to use `private constructor = empty;` syntax?",
             ),
         };
         //rename types like "struct Foo" to "Foo" to make VC++ compiler happy
-        let cpp_ret_type = cpp_ret_type.display().replace("struct", "");
+        let cpp_ret_type = cpp_code::remove_keyword(cpp_ret_type.display(), "struct");
 
         let input_to_output_ret_code = if let Some((_, ref arg_name)) = input_to_output_arg {
             format!(
diff --git a/macroslib/src/cpp/map_type.rs b/macroslib/src/cpp/map_type.rs
index 8a25329..7311635 100644
--- a/macroslib/src/cpp/map_type.rs
+++ b/macroslib/src/cpp/map_type.rs
@@ -5,7 +5,7 @@ use petgraph::Direction;
 use syn::Type;
 
 use crate::{
-    cpp::{merge_c_types, merge_rule, CppContext, CppForeignTypeInfo, MergeCItemsFlags},
+    cpp::{cpp_code, merge_c_types, merge_rule, CppContext, CppForeignTypeInfo, MergeCItemsFlags},
     error::{DiagnosticError, Result, SourceIdSpan},
     typemap::{
         ast::{DisplayToTokens, TyParamsSubstList, UniqueName},
@@ -231,7 +231,10 @@ impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
         };
         Ok(ExpandedFType {
             name: UniqueName::new(
-                fname.value().replace("struct ", "").replace("union ", ""),
+                cpp_code::remove_keyword(
+                    &cpp_code::remove_keyword(fname.value(), "struct "),
+                    "union ",
+                ),
                 fname.unique_prefix().unwrap_or(""),
             ),
             provided_by_module: f_info.provided_by_module.clone(),
-- 
2.43.0


From e906ef5f63faaba8caf861de21c371592d568ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 19/24] fix: call enum attribute callbacks for Java, report
 error for Python instead of ignoring them

---
 macroslib/src/java_jni/fenum.rs | 11 ++++++++---
 macroslib/src/java_jni/mod.rs   |  4 +++-
 macroslib/src/python/mod.rs     | 18 ++++++++++++++++--
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/java_jni/fenum.rs b/macroslib/src/java_jni/fenum.rs
index 9a2d00b..05e1be0 100644
--- a/macroslib/src/java_jni/fenum.rs
+++ b/macroslib/src/java_jni/fenum.rs
@@ -6,10 +6,11 @@ use syn::{Ident, Type};
 
 use super::{
     java_class_full_name, java_class_name_to_jni, java_code::doc_comments_to_java_comments,
-    map_write_err, JavaContext,
+    JavaContext,
 };
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
+    extension::extend_foreign_enum,
     file_cache::FileWriteCache,
     typemap::{
         ast::{parse_ty_with_given_span, ForeignTypeName},
@@ -99,7 +100,7 @@ pub(in crate::java_jni) fn generate_enum(
 fn generate_java_code_for_enum(
     ctx: &mut JavaContext,
     fenum: &ForeignEnumInfo,
-) -> std::result::Result<(), String> {
+) -> std::result::Result<(), DiagnosticError> {
     let path = ctx.cfg.output_dir.join(format!("{}.java", fenum.name));
     let mut file = FileWriteCache::new(&path, ctx.generated_foreign_files);
     let enum_doc_comments = doc_comments_to_java_comments(&fenum.doc_comments, true);
@@ -171,7 +172,11 @@ public enum {enum_name} {{"#,
     )
     .expect(WRITE_TO_MEM_FAILED_MSG);
 
-    file.update_file_if_necessary().map_err(map_write_err)?;
+    let mut cnt = file.take_content();
+    extend_foreign_enum(fenum, &mut cnt, ctx.enum_ext_handlers)?;
+    file.replace_content(cnt);
+    file.update_file_if_necessary()
+        .map_err(DiagnosticError::map_any_err_to_our_err)?;
     Ok(())
 }
 
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index b557fc0..5ce8a3b 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -17,7 +17,7 @@ use syn::{spanned::Spanned, Type};
 
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
-    extension::{ClassExtHandlers, ExtHandlers, MethodExtHandlers},
+    extension::{ClassExtHandlers, EnumExtHandlers, ExtHandlers, MethodExtHandlers},
     file_cache::FileWriteCache,
     typemap::{
         ast::{
@@ -50,6 +50,7 @@ struct JavaContext<'a> {
     java_type_to_jni_sig_map: FxHashMap<SmolStr, SmolStr>,
     class_ext_handlers: &'a ClassExtHandlers,
     method_ext_handlers: &'a MethodExtHandlers,
+    enum_ext_handlers: &'a EnumExtHandlers,
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -190,6 +191,7 @@ impl LanguageGenerator for JavaConfig {
             java_type_to_jni_sig_map: rust_code::predefined_java_type_to_jni_sig(),
             class_ext_handlers: ext_handlers.class_ext_handlers,
             method_ext_handlers: ext_handlers.method_ext_handlers,
+            enum_ext_handlers: ext_handlers.enum_ext_handlers,
         };
         init(&mut ctx, code)?;
         for item in &items {
diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index ad1ded4..0ea0e39 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -1,7 +1,7 @@
 use crate::typemap::ty::RustType;
 use crate::{
     error::Result,
-    extension::{ClassExtHandlers, MethodExtHandlers},
+    extension::{ClassExtHandlers, EnumExtHandlers, MethodExtHandlers},
     source_registry::SourceId,
     typemap::{
         ast::{ForeignTypeName, GenericTypeConv},
@@ -50,7 +50,9 @@ impl LanguageGenerator for PythonConfig {
                     ext_handlers.class_ext_handlers,
                     ext_handlers.method_ext_handlers,
                 )?,
-                ItemToExpand::Enum(fenum) => self.generate_enum(conv_map, &fenum)?,
+                ItemToExpand::Enum(fenum) => {
+                    self.generate_enum(conv_map, &fenum, ext_handlers.enum_ext_handlers)?
+                }
                 ItemToExpand::Interface(finterface) => {
                     self.generate_interface(conv_map, &finterface)?
                 }
@@ -141,7 +143,19 @@ impl PythonConfig {
         &self,
         conv_map: &mut TypeMap,
         enum_info: &ForeignEnumInfo,
+        enum_ext_handlers: &EnumExtHandlers,
     ) -> Result<(TokenStream, TokenStream)> {
+        if !enum_ext_handlers.is_empty() {
+            return Err(DiagnosticError::new(
+                enum_info.src_id,
+                enum_info.span(),
+                format!(
+                    "enum {}: has attributes, this is not supported for python",
+                    enum_info.name
+                ),
+            ));
+        }
+
         let enum_name = &enum_info.name;
         let wrapper_mod_name = parse::<Ident>(
             &py_wrapper_mod_name(&enum_name.to_string()),
-- 
2.43.0


From ebac1494dd7294bb7ab3661875649180090ac75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:52 +0000
Subject: [PATCH 20/24] fix: merged type map rules keep their required modules

Rule from merged type map that replaces conversion of already known
foreign type lost its req_modules, and rule for one direction cancelled
req_modules of rule for opposite direction, so generated C++ header
had no required #include.
---
 macroslib/src/typemap/merge.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/typemap/merge.rs b/macroslib/src/typemap/merge.rs
index b039c7b..bf9ef84 100644
--- a/macroslib/src/typemap/merge.rs
+++ b/macroslib/src/typemap/merge.rs
@@ -330,8 +330,13 @@ impl TypeMap {
                     &self.conv_graph,
                 )?;
                 res_ftype.into_from_rust = Some(into_from_rust);
-                res_ftype.provided_by_module =
-                    convert_req_module_to_provided_by_module(req_modules);
+                if res_ftype.from_into_rust.is_none() {
+                    res_ftype.provided_by_module.clear();
+                }
+                add_provided_by_module(
+                    res_ftype,
+                    convert_req_module_to_provided_by_module(req_modules),
+                );
                 set_unique_prefix(res_ftype, ft_unique_prefix, src_id)?;
             }
             (None, Some((ft, from_into_rust))) => {
@@ -344,8 +349,13 @@ impl TypeMap {
                     &self.conv_graph,
                 )?;
                 res_ftype.from_into_rust = Some(from_into_rust);
-                res_ftype.provided_by_module =
-                    convert_req_module_to_provided_by_module(req_modules);
+                if res_ftype.into_from_rust.is_none() {
+                    res_ftype.provided_by_module.clear();
+                }
+                add_provided_by_module(
+                    res_ftype,
+                    convert_req_module_to_provided_by_module(req_modules),
+                );
                 set_unique_prefix(res_ftype, ft_unique_prefix, src_id)?;
             }
             (None, None) => {}
@@ -457,6 +467,7 @@ fn ftype_rule_map_rust_type(
 }
 
 fn ftype_merge(our: &mut ForeignTypeS, extrn_ft: ForeignTypeS) {
+    add_provided_by_module(our, extrn_ft.provided_by_module);
     if let Some(rule) = extrn_ft.into_from_rust {
         our.into_from_rust = Some(rule);
     }
@@ -473,6 +484,14 @@ fn convert_req_module_to_provided_by_module(v: Vec<ModuleName>) -> Vec<SmolStr>
     ret
 }
 
+fn add_provided_by_module(ftype: &mut ForeignTypeS, modules: Vec<SmolStr>) {
+    for module in modules {
+        if !ftype.provided_by_module.contains(&module) {
+            ftype.provided_by_module.push(module);
+        }
+    }
+}
+
 fn validate_rule_rewrite(
     prev: Option<&ForeignConversionRule>,
     new: &ForeignConversionRule,
-- 
2.43.0


From 7055d13b8c0e2bb9ea24e1b7baf57dfbf72beb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:32 +0000
Subject: [PATCH 21/24] fix: a type map rule given later replaces an earlier
 one that waits for the language backend

Rules with an option or foreign code are merged when the language backend
starts. A rule without them that came later was merged at once, so the
earlier rule overwrote it.
---
 macroslib/src/typemap/merge.rs | 17 +++++++++++++++--
 macroslib/src/typemap/parse.rs | 23 ++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/typemap/merge.rs b/macroslib/src/typemap/merge.rs
index bf9ef84..df08550 100644
--- a/macroslib/src/typemap/merge.rs
+++ b/macroslib/src/typemap/merge.rs
@@ -31,7 +31,8 @@ impl TypeMap {
         self.invalidate_conv_cache();
         let mut was_traits_usage_code = FxHashMap::default();
         mem::swap(&mut was_traits_usage_code, &mut self.traits_usage_code);
-        let mut new_data = crate::typemap::parse::parse(
+        let mut new_data = crate::typemap::parse::parse_after(
+            !self.not_merged_data.is_empty(),
             id_of_code,
             code,
             target_pointer_width,
@@ -64,6 +65,18 @@ impl TypeMap {
     pub(crate) fn may_be_merge_conv_rule(
         &mut self,
         src_id: SourceId,
+        ri: TypeMapConvRuleInfo,
+    ) -> Result<()> {
+        let have_not_merged = !self.not_merged_data.is_empty();
+        self.may_be_merge_conv_rule_after(have_not_merged, src_id, ri)
+    }
+
+    /// `have_not_merged`: previous rules wait for language backend, so this rule
+    /// should wait too: if they match the last one should win
+    pub(in crate::typemap) fn may_be_merge_conv_rule_after(
+        &mut self,
+        have_not_merged: bool,
+        src_id: SourceId,
         mut ri: TypeMapConvRuleInfo,
     ) -> Result<()> {
         debug!("may_be_merge_conv_rule: {:?}", ri);
@@ -75,7 +88,7 @@ impl TypeMap {
             }
             return Ok(());
         }
-        if ri.contains_data_for_language_backend() {
+        if have_not_merged || ri.contains_data_for_language_backend() {
             self.not_merged_data.push(ri);
             return Ok(());
         }
diff --git a/macroslib/src/typemap/parse.rs b/macroslib/src/typemap/parse.rs
index 2c973c7..a5cae36 100644
--- a/macroslib/src/typemap/parse.rs
+++ b/macroslib/src/typemap/parse.rs
@@ -45,11 +45,28 @@ static SWIG_FROM_TRAIT: &str = "SwigFrom";
 
 type MyAttrs = FxHashMap<String, Vec<(String, Span)>>;
 
+#[cfg(test)]
 pub(in crate::typemap) fn parse(
     name: SourceId,
     code: &str,
     target_pointer_width: usize,
     traits_usage_code: FxHashMap<Ident, String>,
+) -> Result<TypeMap> {
+    parse_after(
+        false,
+        name,
+        code,
+        target_pointer_width,
+        traits_usage_code,
+    )
+}
+
+pub(in crate::typemap) fn parse_after(
+    have_not_merged: bool,
+    name: SourceId,
+    code: &str,
+    target_pointer_width: usize,
+    traits_usage_code: FxHashMap<Ident, String>,
 ) -> Result<TypeMap> {
     let file = syn::parse_str::<syn::File>(code)
         .map_err(|err| DiagnosticError::from_syn_err(name, err))?;
@@ -141,7 +158,11 @@ pub(in crate::typemap) fn parse(
                     let tmap_conv_rule: TypeMapConvRuleInfo = syn::parse2(item_macro.mac.tokens)
                         .map_err(|err| DiagnosticError::from_syn_err(name, err))?;
 
-                    ret.may_be_merge_conv_rule(name, tmap_conv_rule)?;
+                    ret.may_be_merge_conv_rule_after(
+                        have_not_merged || !ret.not_merged_data.is_empty(),
+                        name,
+                        tmap_conv_rule,
+                    )?;
                 } else {
                     let swig_attrs = handle_attrs!(item_macro);
                     if swig_attrs.is_empty() {
-- 
2.43.0


From a2217a334a646857ea075e4262fba4c09f3b5597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:53 +0000
Subject: [PATCH 22/24] fix: literals inside macro calls of generic type map
 rules are kept as written

The parser of macro calls split their arguments at every ',' and counted
brackets inside of literals too, so "a,b" became "a, b", and not ASCII
characters there lead to a wrong slice or panic.
---
 macroslib/src/typemap/typemap_macro.rs | 106 +++++++++++++++++++------
 1 file changed, 80 insertions(+), 26 deletions(-)

diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index ac3c5db..0a0d021 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -687,45 +687,99 @@ where
 fn find_macro(code: &str) -> Option<(&str, Vec<&str>, usize)> {
     let id_end = code.find(|ch: char| !(ch.is_alphanumeric() || ch == '_'))?;
     let mut next_pos = id_end + (code[id_end..]).find(|ch: char| !ch.is_whitespace())?;
-    if &code[next_pos..=next_pos] != "!" {
+    if !code[next_pos..].starts_with('!') {
         return None;
     }
     next_pos += 1;
     next_pos = next_pos + (code[next_pos..]).find(|ch: char| !ch.is_whitespace())?;
-    if &code[next_pos..=next_pos] != "(" {
+    if !code[next_pos..].starts_with('(') {
         return None;
     }
     next_pos += 1;
-    let cnt_start = next_pos;
+    let (params, close_bracket_pos) = split_macro_params(&code[next_pos..])?;
+    let id = &code[0..id_end];
+    Some((id, params, next_pos + close_bracket_pos + 1))
+}
+
+/// Split by ',' everything until bracket that closes macro call,
+/// the content of literals and of nested brackets is never split
+fn split_macro_params(code: &str) -> Option<(Vec<&str>, usize)> {
+    let mut params = vec![];
+    let mut param_start = 0;
     let mut bracket_counter: usize = 1;
-    let mut close_bracket_pos = None;
-    for (idx, ch) in code[next_pos..].chars().enumerate() {
-        if ch == ')' {
-            bracket_counter -= 1;
+    let mut prev_ch = ' ';
+    let mut pos = 0;
+    while let Some(ch) = code[pos..].chars().next() {
+        let is_separator = match ch {
+            '"' | '\'' | 'r' => {
+                let in_ident = (prev_ch.is_alphanumeric() || prev_ch == '_')
+                    && !matches!(prev_ch, 'b' | 'u' | 'U' | 'L');
+                if let Some(len) = literal_len(&code[pos..], in_ident) {
+                    pos += len;
+                    prev_ch = '"';
+                    continue;
+                }
+                false
+            }
+            '(' | '[' | '{' => {
+                bracket_counter += 1;
+                false
+            }
+            ')' | ']' | '}' => {
+                bracket_counter -= 1;
+                bracket_counter == 0
+            }
+            ',' => bracket_counter == 1,
+            _ => false,
+        };
+        if is_separator {
+            let param = code[param_start..pos].trim();
+            if !param.is_empty() {
+                params.push(param);
+            }
             if bracket_counter == 0 {
-                close_bracket_pos = Some(idx);
-                break;
+                return Some((params, pos));
             }
-        } else if ch == '(' {
-            bracket_counter += 1;
+            param_start = pos + 1;
         }
+        prev_ch = ch;
+        pos += ch.len_utf8();
     }
-    next_pos += close_bracket_pos?;
-    let cnt_end = next_pos;
-    let id = &code[0..id_end];
-    let params: Vec<&str> = code[cnt_start..cnt_end]
-        .trim()
-        .split(',')
-        .filter_map(|x| {
-            let s = x.trim();
-            if !s.is_empty() {
-                Some(s)
-            } else {
-                None
+    None
+}
+
+/// Length of string, raw string or character literal at the begin of `code`,
+/// None if there is no literal there (lifetime, identifier and so on)
+fn literal_len(code: &str, in_ident: bool) -> Option<usize> {
+    let mut chars = code.char_indices();
+    match chars.next()?.1 {
+        '"' => loop {
+            match chars.next()? {
+                (_, '\\') => {
+                    chars.next()?;
+                }
+                (pos, '"') => return Some(pos + 1),
+                _ => {}
             }
-        })
-        .collect();
-    Some((id, params, next_pos + 1))
+        },
+        'r' if !in_ident => {
+            let hashes = code[1..].bytes().take_while(|x| *x == b'#').count();
+            let body = code[1 + hashes..].strip_prefix('"')?;
+            let end = format!("\"{}", "#".repeat(hashes));
+            Some(2 + hashes + body.find(&end)? + end.len())
+        }
+        '\'' if !in_ident => match chars.next()?.1 {
+            '\\' => {
+                chars.next()?;
+                chars.find(|x| x.1 == '\'').map(|x| x.0 + 1)
+            }
+            _ => match chars.next()? {
+                (pos, '\'') => Some(pos + 1),
+                _ => None,
+            },
+        },
+        _ => None,
+    }
 }
 
 fn expand_rtype_rule(
-- 
2.43.0


From e1e4389c3765c4f83ad9d42a8c6660a1d9a49dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:01 +0000
Subject: [PATCH 23/24] fix: bodies of inline functions are used in Python
 modules too

---
 macroslib/src/python/mod.rs | 53 ++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 0ea0e39..d550106 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -9,7 +9,7 @@ use crate::{
         TypeConvCode,
     },
     types::{
-        ForeignClassInfo, ForeignEnumInfo, ForeignInterface, ForeignMethod, ItemToExpand,
+        FnArg, ForeignClassInfo, ForeignEnumInfo, ForeignInterface, ForeignMethod, ItemToExpand,
         MethodVariant, SelfTypeVariant,
     },
     DiagnosticError, LanguageGenerator, PythonConfig, SourceCode, TypeMap,
@@ -356,15 +356,27 @@ fn generate_method_code(
     } else {
         TokenStream::new()
     };
+    let rust_call = if let Some(ref inline_block) = method.inline_block {
+        let inline_args = inline_fn_args(class, method)?;
+        let output = &method.fn_decl.output;
+        quote! {
+            {
+                fn swig_inline_fn(#( #inline_args ),*) #output #inline_block
+                swig_inline_fn(#( #args_conversions ),*)
+            }
+        }
+    } else {
+        quote! {
+            #method_rust_path(#( #args_conversions ),*)
+        }
+    };
     let (return_type, rust_call_with_return_conversion) = generate_conversion_for_return(
         &conv_map
             .find_or_alloc_rust_type(&extract_return_type(&method.fn_decl.output), class.src_id),
         method.span(),
         class.src_id,
         conv_map,
-        quote! {
-            #method_rust_path(#( #args_conversions ),*)
-        },
+        rust_call,
     )?;
     let docstring = if !method_name.to_string().starts_with("__") {
         parse::<TokenStream>(
@@ -386,6 +398,39 @@ fn generate_method_code(
     })
 }
 
+fn inline_fn_args(class: &ForeignClassInfo, method: &ForeignMethod) -> Result<Vec<TokenStream>> {
+    let mut args = Vec::with_capacity(method.fn_decl.inputs.len());
+    for arg in &method.fn_decl.inputs {
+        args.push(match arg {
+            FnArg::SelfArg(_, self_variant) => {
+                let self_type =
+                    class
+                        .self_desc
+                        .as_ref()
+                        .map(|x| &x.self_type)
+                        .ok_or_else(|| {
+                            DiagnosticError::new(
+                                class.src_id,
+                                method.span(),
+                                "Class has no self_type",
+                            )
+                        })?;
+                if self_variant.is_read_only() {
+                    quote! { this: &#self_type }
+                } else {
+                    quote! { this: &mut #self_type }
+                }
+            }
+            FnArg::Default(named_arg) => {
+                let name: TokenStream = parse(&named_arg.name, class.src_id)?;
+                let ty = &named_arg.ty;
+                quote! { #name: #ty }
+            }
+        });
+    }
+    Ok(args)
+}
+
 fn standard_method_name(method: &ForeignMethod, src_id: SourceId) -> Result<syn::Ident> {
     Ok(method
         .name_alias
-- 
2.43.0


From 7e13ee3b20892ca1abe939cac4e17e65c40c3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:01 +0000
Subject: [PATCH 24/24] fix: documentation of several lines stays documentation
 in Python modules

---
 macroslib/src/python/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index d550106..eafffc4 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -379,10 +379,13 @@ fn generate_method_code(
         rust_call,
     )?;
     let docstring = if !method_name.to_string().starts_with("__") {
-        parse::<TokenStream>(
-            &("/// ".to_owned() + &method.doc_comments.as_slice().join("\n/// ")),
-            class.src_id,
-        )?
+        // not as "///" lines: the text may consist of several lines
+        let mut doc_lines: Vec<String> =
+            method.doc_comments.iter().map(|x| format!(" {}", x)).collect();
+        if doc_lines.is_empty() {
+            doc_lines.push(" ".into());
+        }
+        quote! { #( #[doc = #doc_lines] )* }
     } else {
         // Python API doesn't support defining docstrings on the special methods (slots)
         quote! {}
-- 
2.43.0

