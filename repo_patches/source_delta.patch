From 5934860f1844a9c9aadaadeb1abe223192b1633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:02 +0000
Subject: [PATCH 01/29] fix: compare rust::Str and rust::String bytes as
 unsigned

char is signed on most targets, so operator< and friends ordered every
non-ASCII string before every ASCII one, unlike Rust's Ord for str and
unlike std::string.
---
 src/cxx.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cxx.cc b/src/cxx.cc
index 45d9aac..1b28093 100644
--- a/src/cxx.cc
+++ b/src/cxx.cc
@@ -357,8 +357,12 @@ bool Str::operator==(const Str &rhs) const noexcept {
 bool Str::operator!=(const Str &rhs) const noexcept { return !(*this == rhs); }
 
 bool Str::operator<(const Str &rhs) const noexcept {
-  return std::lexicographical_compare(this->begin(), this->end(), rhs.begin(),
-                                      rhs.end());
+  // Compare bytes as unsigned, like Rust's Ord for str and like std::string.
+  // `char` itself may be signed.
+  return std::lexicographical_compare(
+      this->begin(), this->end(), rhs.begin(), rhs.end(), [](char l, char r) {
+        return static_cast<unsigned char>(l) < static_cast<unsigned char>(r);
+      });
 }
 
 bool Str::operator<=(const Str &rhs) const noexcept {
@@ -374,7 +378,8 @@ bool Str::operator<=(const Str &rhs) const noexcept {
   } else if (riter == rend) {
     return false; // rhs is a prefix of *this
   } else {
-    return *liter <= *riter;
+    return static_cast<unsigned char>(*liter) <=
+           static_cast<unsigned char>(*riter);
   }
 }
 
-- 
2.43.0


From 730339b66c7ff93416f0d100b5dab8b8e9e6531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:35 +0000
Subject: [PATCH 02/29] fix: keep rust::Vec intact when copy assignment throws

Copy assignment dropped the old contents before copying the new ones, so
an exception from an element's copy constructor left a Vec whose storage
had already been freed, to be freed again by its destructor.
---
 include/cxx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 4e261a3..9ad48f8 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -898,8 +898,8 @@ Vec<T> &Vec<T>::operator=(Vec &&other) & noexcept {
 template <typename T>
 Vec<T> &Vec<T>::operator=(const Vec &other) & {
   if (this != &other) {
-    this->drop();
-    new (this) Vec(other);
+    Vec copy(other); // may throw
+    this->swap(copy);
   }
   return *this;
 }
-- 
2.43.0


From 1973ddc0b10362267b478795f033ed8c47d72a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:35 +0000
Subject: [PATCH 03/29] fix: allow pushing an element of a rust::Vec onto the
 same Vec

push_back and emplace_back grew the buffer before constructing the new
element, so an argument referring to an element of the same Vec dangled.
Construct the element first when the buffer has to grow.
---
 include/cxx.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 9ad48f8..32a0f0f 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -987,10 +987,21 @@ template <typename T>
 template <typename... Args>
 void Vec<T>::emplace_back(Args &&...args) {
   auto size = this->size();
-  this->reserve_total(size + 1);
-  ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
-                               size * size_of<T>()))
-      T(std::forward<Args>(args)...);
+  if (size < this->capacity()) {
+    ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
+                                 size * size_of<T>()))
+        T(std::forward<Args>(args)...);
+  } else {
+    // Construct the new element before growing the buffer, because args may
+    // refer to elements of this Vec. Afterward move the element into the buffer
+    // bitwise, the same way that the other elements are being moved.
+    alignas(T) unsigned char element[sizeof(T)];
+    ::new (static_cast<void *>(element)) T(std::forward<Args>(args)...);
+    this->reserve_total(size + 1);
+    std::copy(element, element + sizeof(T),
+              reinterpret_cast<unsigned char *>(this->data()) +
+                  size * sizeof(T));
+  }
   this->set_len(size + 1);
 }
 
-- 
2.43.0


From 37d2261ab87947179a2c913983738bb0cc32ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:12 +0000
Subject: [PATCH 04/29] fix: let_cxx_string! does not destroy a string it never
 constructed

---
 src/cxx_string.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cxx_string.rs b/src/cxx_string.rs
index c58d8d8..258bb11 100644
--- a/src/cxx_string.rs
+++ b/src/cxx_string.rs
@@ -299,6 +299,9 @@ pub struct StackString {
     // Static assertions in cxx.cc validate that this is large enough and
     // aligned enough.
     space: MaybeUninit<[usize; 8]>,
+    // Whether `space` holds a live std::string. Evaluating the expression given
+    // to let_cxx_string! may leave the scope before there is one.
+    initialized: bool,
 }
 
 #[allow(missing_docs)]
@@ -306,6 +309,7 @@ impl StackString {
     pub fn new() -> Self {
         StackString {
             space: MaybeUninit::uninit(),
+            initialized: false,
         }
     }
 
@@ -314,6 +318,7 @@ impl StackString {
         unsafe {
             let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
             string_init(this, value.as_ptr(), value.len());
+            self.initialized = true;
             Pin::new_unchecked(&mut *this.as_mut_ptr())
         }
     }
@@ -321,9 +326,11 @@ impl StackString {
 
 impl Drop for StackString {
     fn drop(&mut self) {
-        unsafe {
-            let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
-            string_destroy(this);
+        if self.initialized {
+            unsafe {
+                let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
+                string_destroy(this);
+            }
         }
     }
 }
-- 
2.43.0


From d9d0dc1c5c77eedc2c78fcab8ae1dd0493720d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:15 +0000
Subject: [PATCH 05/29] fix: declare std::hash specializations in the generated
 header

---
 gen/src/write.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 8833f74..fb1f45f 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -172,9 +172,16 @@ fn write_functions<'a>(out: &mut OutFile<'a>, apis: &'a [Api]) {
             }
         }
 
-        write_std_specializations(out, apis);
+    } else {
+        for api in apis {
+            if let Api::Struct(strct) = api {
+                write_struct_hash_decl(out, strct);
+            }
+        }
     }
 
+    write_std_specializations(out, apis);
+
     for api in apis {
         match api {
             Api::Struct(strct) => write_struct_operators(out, strct),
@@ -198,7 +205,10 @@ fn write_std_specializations(out: &mut OutFile, apis: &[Api]) {
                 out.next_section();
                 out.include.cstddef = true;
                 out.include.functional = true;
+                let guard = format!("CXXBRIDGE1_HASH_{}", strct.name.to_symbol());
                 let qualified = strct.name.to_fully_qualified();
+                writeln!(out, "#ifndef {}", guard);
+                writeln!(out, "#define {}", guard);
                 writeln!(out, "template <> struct hash<{}> {{", qualified);
                 writeln!(
                     out,
@@ -213,6 +223,7 @@ fn write_std_specializations(out: &mut OutFile, apis: &[Api]) {
                 writeln!(out, "{}(self);", link_name);
                 writeln!(out, "  }}");
                 writeln!(out, "}};");
+                writeln!(out, "#endif // {}", guard);
             }
         }
     }
@@ -589,6 +600,15 @@ fn write_struct_operator_decls<'a>(out: &mut OutFile<'a>, strct: &'a Struct) {
         }
     }
 
+    out.end_block(Block::ExternC);
+
+    write_struct_hash_decl(out, strct);
+}
+
+fn write_struct_hash_decl<'a>(out: &mut OutFile<'a>, strct: &'a Struct) {
+    out.set_namespace(&strct.name.namespace);
+    out.begin_block(Block::ExternC);
+
     if derive::contains(&strct.derives, Trait::Hash) {
         out.include.cstddef = true;
         let link_name = mangle::operator(&strct.name, "hash");
-- 
2.43.0


From 84eabb0ce29180644002e816014d44b4fc1c0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 06/29] fix: strip the raw prefix of identifiers in generated
 C++, symbols and Debug output

A name such as r#type was written verbatim into the generated C++ code and
into linker symbols, producing code which does not compile.
---
 gen/src/write.rs    |  9 +++++----
 macro/src/derive.rs | 11 ++++++-----
 syntax/names.rs     |  2 +-
 syntax/namespace.rs |  3 ++-
 syntax/symbol.rs    |  3 ++-
 5 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index fb1f45f..a6c1db3 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -14,6 +14,7 @@ use crate::syntax::{
     Type, TypeAlias, Types, Var,
 };
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub(super) fn gen(apis: &[Api], types: &Types, opt: &Opt, header: bool) -> Vec<u8> {
     let mut out_file = OutFile::new(header, opt, types);
@@ -803,12 +804,12 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
     write!(out, "  ");
     write_return_type(out, &efn.ret);
     match &efn.receiver {
-        None => write!(out, "(*{}$)(", efn.name.rust),
+        None => write!(out, "(*{}$)(", efn.name.rust.unraw()),
         Some(receiver) => write!(
             out,
             "({}::*{}$)(",
             out.types.resolve(&receiver.ty).name.to_fully_qualified(),
-            efn.name.rust,
+            efn.name.rust.unraw(),
         ),
     }
     for (i, arg) in efn.args.iter().enumerate() {
@@ -866,8 +867,8 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
         _ => {}
     }
     match &efn.receiver {
-        None => write!(out, "{}$(", efn.name.rust),
-        Some(_) => write!(out, "(self.*{}$)(", efn.name.rust),
+        None => write!(out, "{}$(", efn.name.rust.unraw()),
+        Some(_) => write!(out, "(self.*{}$)(", efn.name.rust.unraw()),
     }
     for (i, arg) in efn.args.iter().enumerate() {
         if i > 0 {
diff --git a/macro/src/derive.rs b/macro/src/derive.rs
index c31d2d8..b733628 100644
--- a/macro/src/derive.rs
+++ b/macro/src/derive.rs
@@ -1,6 +1,7 @@
 use crate::syntax::{derive, Enum, Struct};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 pub(crate) use crate::syntax::derive::*;
 
@@ -140,9 +141,9 @@ fn struct_clone(strct: &Struct, span: Span) -> TokenStream {
 fn struct_debug(strct: &Struct, span: Span) -> TokenStream {
     let ident = &strct.name.rust;
     let generics = &strct.generics;
-    let struct_name = ident.to_string();
+    let struct_name = ident.unraw().to_string();
     let fields = strct.fields.iter().map(|field| &field.name.rust);
-    let field_names = fields.clone().map(Ident::to_string);
+    let field_names = fields.clone().map(|field| field.unraw().to_string());
 
     quote_spanned! {span=>
         #[automatically_derived]
@@ -257,12 +258,12 @@ fn enum_debug(enm: &Enum, span: Span) -> TokenStream {
     let ident = &enm.name.rust;
     let variants = enm.variants.iter().map(|variant| {
         let variant = &variant.name.rust;
-        let name = variant.to_string();
+        let name = variant.unraw().to_string();
         quote_spanned! {span=>
             #ident::#variant => formatter.write_str(#name),
         }
     });
-    let fallback = format!("{}({{}})", ident);
+    let fallback = format!("{}({{}})", ident.unraw());
 
     quote_spanned! {span=>
         #[automatically_derived]
diff --git a/syntax/names.rs b/syntax/names.rs
index 7afa5a9..3c6f34b 100644
--- a/syntax/names.rs
+++ b/syntax/names.rs
@@ -40,7 +40,7 @@ impl ForeignName {
         // non-alphanumeric characters (`operator++`).
         match Ident::parse_any.parse_str(text) {
             Ok(ident) => {
-                let text = ident.to_string();
+                let text = ident.unraw().to_string();
                 Ok(ForeignName { text })
             }
             Err(err) => Err(Error::new(span, err)),
diff --git a/syntax/namespace.rs b/syntax/namespace.rs
index 417fb34..3eefb6d 100644
--- a/syntax/namespace.rs
+++ b/syntax/namespace.rs
@@ -2,6 +2,7 @@ use crate::syntax::qualified::QualifiedName;
 use quote::IdentFragment;
 use std::fmt::{self, Display};
 use std::slice::Iter;
+use syn::ext::IdentExt;
 use syn::parse::{Error, Parse, ParseStream, Result};
 use syn::{Expr, Ident, Lit, Meta, Token};
 
@@ -56,7 +57,7 @@ impl Namespace {
                         .path
                         .segments
                         .iter()
-                        .map(|segment| segment.ident.clone())
+                        .map(|segment| segment.ident.unraw())
                         .collect();
                     return Ok(Namespace { segments });
                 }
diff --git a/syntax/symbol.rs b/syntax/symbol.rs
index f9fd32c..24eb85b 100644
--- a/syntax/symbol.rs
+++ b/syntax/symbol.rs
@@ -3,6 +3,7 @@ use crate::syntax::{ForeignName, Pair};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use std::fmt::{self, Display, Write};
+use syn::ext::IdentExt;
 
 // A mangled symbol consisting of segments separated by '$'.
 // For example: cxxbridge1$string$new
@@ -58,7 +59,7 @@ impl Segment for usize {
 
 impl Segment for Ident {
     fn write(&self, symbol: &mut Symbol) {
-        symbol.push(&self);
+        symbol.push(&self.unraw());
     }
 }
 
-- 
2.43.0


From 5615d0d0ed2e4d3393896f4583a8bb81bbcbe4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 07/29] fix: define member functions in the namespace of their
 class

A method declared in a block whose namespace is not that of its receiver type
was defined outside of the namespace of the class, which does not compile.
---
 gen/src/write.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index a6c1db3..d62a3ca 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -5,6 +5,7 @@ use crate::gen::{builtin, include, Opt};
 use crate::syntax::atom::Atom::{self, *};
 use crate::syntax::instantiate::{ImplKey, NamedImplKey};
 use crate::syntax::map::UnorderedMap as Map;
+use crate::syntax::namespace::Namespace;
 use crate::syntax::primitive::{self, PrimitiveKind};
 use crate::syntax::set::UnorderedSet;
 use crate::syntax::symbol::{self, Symbol};
@@ -936,8 +937,17 @@ fn write_function_pointer_trampoline(out: &mut OutFile, efn: &ExternFn, var: &Pa
     write_rust_function_shim_impl(out, &c_trampoline, f, &doc, &r_trampoline, indirect_call);
 }
 
+// C++ requires member functions to be defined in a namespace enclosing the
+// class, which is not necessarily the namespace of the extern function.
+fn rust_function_namespace<'a>(out: &OutFile<'a>, efn: &'a ExternFn) -> &'a Namespace {
+    match &efn.receiver {
+        None => &efn.name.namespace,
+        Some(receiver) => &out.types.resolve(&receiver.ty).name.namespace,
+    }
+}
+
 fn write_rust_function_decl<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
-    out.set_namespace(&efn.name.namespace);
+    out.set_namespace(rust_function_namespace(out, efn));
     out.begin_block(Block::ExternC);
     let link_name = mangle::extern_fn(efn, out.types);
     let indirect_call = false;
@@ -1006,7 +1016,7 @@ fn write_rust_function_decl_impl(
 }
 
 fn write_rust_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
-    out.set_namespace(&efn.name.namespace);
+    out.set_namespace(rust_function_namespace(out, efn));
     let local_name = match &efn.sig.receiver {
         None => efn.name.cxx.to_string(),
         Some(receiver) => format!(
-- 
2.43.0


From 9214ec63f6ea6c53c158bed97bca054f751c5f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:57 +0000
Subject: [PATCH 08/29] fix: include the namespace of the receiver type in
 method symbols

Methods of the same name on types of the same name in different namespaces
were mangled to the same linker symbol.
---
 syntax/mangle.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/syntax/mangle.rs b/syntax/mangle.rs
index 6f01965..88859b1 100644
--- a/syntax/mangle.rs
+++ b/syntax/mangle.rs
@@ -35,11 +35,11 @@
 //          FIXME: conflict with (a) if they collide with one of our one-off symbol names in the global namespace
 //
 //   (e) User-defined extern member function.
-//          pattern:  {NAMESPACE...} $ {CXXBRIDGE} $ {TYPE} $ {NAME}
+//          pattern:  {NAMESPACE...} $ {CXXBRIDGE} $ {TYPE NAMESPACE...} $ {TYPE} $ {NAME}
 //          examples:
-//             - org$cxxbridge1$Struct$get
+//             - org$cxxbridge1$org$Struct$get
 //          defining characteristics:
-//             - cxxbridge is third from end
+//             - cxxbridge is third from end, or followed by the type's namespace
 //          FIXME: conflict with (b) if e.g. user binds a type in global namespace that collides with our builtin type names
 //
 //   (f) Operator overload.
@@ -91,7 +91,7 @@ pub(crate) fn extern_fn(efn: &ExternFn, types: &Types) -> Symbol {
             join!(
                 efn.name.namespace,
                 CXXBRIDGE,
-                receiver_ident.name.cxx,
+                receiver_ident.name.to_symbol(),
                 efn.name.rust,
             )
         }
-- 
2.43.0


From fa8d55af2e546a0d34cdf0f8b8754393d38bd629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:55 +0000
Subject: [PATCH 09/29] fix: treat discriminant -0 as zero

A variant following -0 made the discriminant computation underflow, and -0 was
considered to be outside of the limits of unsigned types.
---
 syntax/discriminant.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index a8400aa..577b46f 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -117,8 +117,8 @@ fn expr_to_discriminant(expr: &Expr) -> Result<(Discriminant, Option<Atom>)> {
             if let UnOp::Neg(_) = unary.op {
                 let (mut discriminant, repr) = expr_to_discriminant(&unary.expr)?;
                 discriminant.sign = match discriminant.sign {
-                    Sign::Positive => Sign::Negative,
-                    Sign::Negative => Sign::Positive,
+                    Sign::Positive if discriminant.magnitude != 0 => Sign::Negative,
+                    Sign::Positive | Sign::Negative => Sign::Positive,
                 };
                 return Ok((discriminant, repr));
             }
-- 
2.43.0


From 6c47e42016ffab25d03e004fb78ed4124f3387cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:55 +0000
Subject: [PATCH 10/29] fix: order structs by the element type of array fields

A struct containing an array of a struct declared later was defined before its
element type in C++, and cyclic structs going through arrays were accepted.
---
 syntax/toposort.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syntax/toposort.rs b/syntax/toposort.rs
index 9c97eb1..2942f0a 100644
--- a/syntax/toposort.rs
+++ b/syntax/toposort.rs
@@ -36,7 +36,11 @@ fn visit<'a>(
     }
     let mut result = Ok(());
     for field in &strct.fields {
-        if let Type::Ident(ident) = &field.ty {
+        let mut ty = &field.ty;
+        while let Type::Array(array) = ty {
+            ty = &array.inner;
+        }
+        if let Type::Ident(ident) = ty {
             if let Some(inner) = types.structs.get(&ident.rust) {
                 if visit(cx, inner, sorted, marks, types).is_err() {
                     cx.error(field, "unsupported cyclic data structure");
-- 
2.43.0


From 6e06d64b7729f7a10976d233e4505a68952c96f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:58 +0000
Subject: [PATCH 11/29] fix: write the discriminant i64::MIN as a valid C++
 expression

Clang rejects -9223372036854775808 as an enumerator of a signed type, because
its absolute value only fits an unsigned type.
---
 gen/src/write.rs       | 24 +++++++++++++++++-------
 syntax/discriminant.rs |  2 +-
 syntax/mod.rs          |  2 +-
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index d62a3ca..ec73036 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -3,6 +3,7 @@ use crate::gen::nested::NamespaceEntries;
 use crate::gen::out::OutFile;
 use crate::gen::{builtin, include, Opt};
 use crate::syntax::atom::Atom::{self, *};
+use crate::syntax::discriminant::Discriminant;
 use crate::syntax::instantiate::{ImplKey, NamedImplKey};
 use crate::syntax::map::UnorderedMap as Map;
 use crate::syntax::namespace::Namespace;
@@ -173,7 +174,6 @@ fn write_functions<'a>(out: &mut OutFile<'a>, apis: &'a [Api]) {
                 _ => {}
             }
         }
-
     } else {
         for api in apis {
             if let Api::Struct(strct) = api {
@@ -451,12 +451,24 @@ fn write_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     writeln!(out, " {{");
     for variant in &enm.variants {
         write_doc(out, "  ", &variant.doc);
-        writeln!(out, "  {} = {},", variant.name.cxx, variant.discriminant);
+        write!(out, "  {} = ", variant.name.cxx);
+        write_discriminant(out, variant.discriminant);
+        writeln!(out, ",");
     }
     writeln!(out, "}};");
     writeln!(out, "#endif // {}", guard);
 }
 
+fn write_discriminant(out: &mut OutFile, discriminant: Discriminant) {
+    if discriminant == Discriminant::neg(i64::MIN) {
+        // There are no negative literals in C++, and the absolute value of this
+        // one does not fit in any signed type.
+        write!(out, "-{} - 1", i64::MAX);
+    } else {
+        write!(out, "{}", discriminant);
+    }
+}
+
 fn check_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     let repr = match &enm.repr {
         #[cfg(feature = "experimental-enum-variants-from-header")]
@@ -476,11 +488,9 @@ fn check_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     for variant in &enm.variants {
         write!(out, "static_assert(static_cast<");
         write_atom(out, repr);
-        writeln!(
-            out,
-            ">({}::{}) == {}, \"disagrees with the value in #[cxx::bridge]\");",
-            enm.name.cxx, variant.name.cxx, variant.discriminant,
-        );
+        write!(out, ">({}::{}) == ", enm.name.cxx, variant.name.cxx);
+        write_discriminant(out, variant.discriminant);
+        writeln!(out, ", \"disagrees with the value in #[cxx::bridge]\");");
     }
 }
 
diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index 577b46f..53a2f4b 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -163,7 +163,7 @@ impl Discriminant {
         }
     }
 
-    const fn neg(i: i64) -> Self {
+    pub(crate) const fn neg(i: i64) -> Self {
         Discriminant {
             sign: if i < 0 {
                 Sign::Negative
diff --git a/syntax/mod.rs b/syntax/mod.rs
index efd6f91..84223e6 100644
--- a/syntax/mod.rs
+++ b/syntax/mod.rs
@@ -5,7 +5,7 @@ pub(crate) mod attrs;
 pub(crate) mod cfg;
 pub(crate) mod check;
 pub(crate) mod derive;
-mod discriminant;
+pub(crate) mod discriminant;
 mod doc;
 pub(crate) mod error;
 pub(crate) mod file;
-- 
2.43.0


From d3356d24494a30f36e5abf89e86e41e7a13b4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:58 +0000
Subject: [PATCH 12/29] fix: reject slices and arrays of references

Neither rust::Slice<T> nor std::array<T> can be instantiated with a reference
type, so these signatures produced C++ code which does not compile.
---
 syntax/check.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 39ee0b0..b6a1652 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -270,6 +270,11 @@ fn check_type_ptr(cx: &mut Check, ty: &Ptr) {
 }
 
 fn check_type_slice_ref(cx: &mut Check, ty: &SliceRef) {
+    if let Type::Ref(_) = ty.inner {
+        cx.error(ty, "C++ does not allow slices of references");
+        return;
+    }
+
     let supported = !is_unsized(cx, &ty.inner)
         || match &ty.inner {
             Type::Ident(ident) => {
@@ -291,6 +296,11 @@ fn check_type_slice_ref(cx: &mut Check, ty: &SliceRef) {
 }
 
 fn check_type_array(cx: &mut Check, ty: &Array) {
+    if let Type::Ref(_) = ty.inner {
+        cx.error(ty, "C++ does not allow arrays of references");
+        return;
+    }
+
     let supported = !is_unsized(cx, &ty.inner);
 
     if !supported {
-- 
2.43.0


From 5dd195d909b0b9f2e4a3c665e9486a7b824e175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:12 +0000
Subject: [PATCH 13/29] fix: keep doc comments within their comment in
 generated C++

A line of documentation ending in a backslash (or its trigraph) continued the
comment over the declaration which follows, and a carriage return ended it.
---
 gen/src/write.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index ec73036..151b9a4 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -266,11 +266,19 @@ fn pick_includes_and_builtins(out: &mut OutFile, apis: &[Api]) {
 
 fn write_doc(out: &mut OutFile, indent: &str, doc: &Doc) {
     let mut lines = 0;
-    for line in doc.to_string().lines() {
+    for line in doc.to_string().lines().flat_map(|line| line.split('\r')) {
+        // A backslash (or its trigraph) at the end of the line would splice the
+        // next line into the comment.
+        let trimmed = line.trim_end();
+        let suffix = if trimmed.ends_with('\\') || trimmed.ends_with("??/") {
+            " //"
+        } else {
+            ""
+        };
         if out.opt.doxygen {
-            writeln!(out, "{}///{}", indent, line);
+            writeln!(out, "{}///{}{}", indent, line, suffix);
         } else {
-            writeln!(out, "{}//{}", indent, line);
+            writeln!(out, "{}//{}{}", indent, line, suffix);
         }
         lines += 1;
     }
-- 
2.43.0


From 1380862b2889414346cdb534af2bc74dd2609243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 14/29] fix: do not tie elided lifetimes of a Rust function's
 result to its return slot

---
 macro/src/expand.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index aa90fd0..7710f43 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1131,7 +1131,9 @@ fn expand_rust_function_shim_impl(
     }
     if sig.throws {
         let out = match sig.ret {
-            Some(_) => quote_spanned!(span=> __return),
+            // The cast keeps the elided lifetimes of the pointee from being tied
+            // to the (independently elided) lifetimes of the returned value.
+            Some(_) => quote_spanned!(span=> __return.cast()),
             None => quote_spanned!(span=> &mut ()),
         };
         requires_closure = true;
@@ -1140,7 +1142,7 @@ fn expand_rust_function_shim_impl(
     } else if indirect_return {
         requires_closure = true;
         requires_unsafe = true;
-        expr = quote_spanned!(span=> ::cxx::core::ptr::write(__return, #expr));
+        expr = quote_spanned!(span=> ::cxx::core::ptr::write(__return.cast(), #expr));
     }
 
     if requires_unsafe {
-- 
2.43.0


From 763ff9c3e2be056939a5deca941a50cf5f07ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:28 +0000
Subject: [PATCH 15/29] fix: keep the unsafe of function pointer types

---
 syntax/tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syntax/tokens.rs b/syntax/tokens.rs
index fea8515..437d5ae 100644
--- a/syntax/tokens.rs
+++ b/syntax/tokens.rs
@@ -255,7 +255,7 @@ impl ToTokens for Signature {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let Signature {
             asyncness: _,
-            unsafety: _,
+            unsafety,
             fn_token,
             generics: _,
             receiver: _,
@@ -265,6 +265,7 @@ impl ToTokens for Signature {
             paren_token,
             throws_tokens,
         } = self;
+        unsafety.to_tokens(tokens);
         fn_token.to_tokens(tokens);
         paren_token.surround(tokens, |tokens| {
             args.to_tokens(tokens);
-- 
2.43.0


From 3ecb0766af4afb28a553ac5cfb26b7d40d7b5e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:25 +0000
Subject: [PATCH 16/29] fix: wrap unsafe Rust functions without arguments in a
 closure

---
 macro/src/expand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 7710f43..b2640aa 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1071,7 +1071,8 @@ fn expand_rust_function_shim_impl(
             quote!(::cxx::core::mem::transmute::<*const (), #sig>(__extern))
         }
     };
-    requires_closure |= !vars.is_empty();
+    // An unsafe fn does not implement FnOnce.
+    requires_closure |= !vars.is_empty() || sig.unsafety.is_some();
     call.extend(quote! { (#(#vars),*) });
 
     let span = body_span;
-- 
2.43.0


From e747be2ed38d8c094ca502426929c5866f60099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:14 +0000
Subject: [PATCH 17/29] fix: keep the symbols of builtin vectors apart from
 those of user types

A type named string in the global namespace, or any type with a C++ name like u8,
in a Vec or CxxVector defined the same symbols as the runtime does for the
builtin element type of that name.
---
 src/cxx.cc              | 59 +++++++++++++++++++++--------------------
 src/cxx_vector.rs       | 20 +++++++-------
 src/symbols/rust_vec.rs | 16 +++++------
 syntax/mangle.rs        |  2 +-
 4 files changed, 49 insertions(+), 48 deletions(-)

diff --git a/src/cxx.cc b/src/cxx.cc
index 1b28093..74e9ca2 100644
--- a/src/cxx.cc
+++ b/src/cxx.cc
@@ -616,103 +616,104 @@ static_assert(sizeof(std::string) <= kMaxExpectedWordsInString * sizeof(void *),
 } // namespace
 
 #define STD_VECTOR_OPS(RUST_TYPE, CXX_TYPE)                                    \
-  std::vector<CXX_TYPE> *cxxbridge1$std$vector$##RUST_TYPE##$new() noexcept {  \
+  std::vector<CXX_TYPE>                                                        \
+      *cxxbridge1$std$cxx_vector$##RUST_TYPE##$new() noexcept {                \
     return new std::vector<CXX_TYPE>();                                        \
   }                                                                            \
-  std::size_t cxxbridge1$std$vector$##RUST_TYPE##$size(                        \
+  std::size_t cxxbridge1$std$cxx_vector$##RUST_TYPE##$size(                    \
       const std::vector<CXX_TYPE> &s) noexcept {                               \
     return s.size();                                                           \
   }                                                                            \
-  CXX_TYPE *cxxbridge1$std$vector$##RUST_TYPE##$get_unchecked(                 \
+  CXX_TYPE *cxxbridge1$std$cxx_vector$##RUST_TYPE##$get_unchecked(             \
       std::vector<CXX_TYPE> *s, std::size_t pos) noexcept {                    \
     return &(*s)[pos];                                                         \
   }                                                                            \
-  void cxxbridge1$unique_ptr$std$vector$##RUST_TYPE##$null(                    \
+  void cxxbridge1$unique_ptr$std$cxx_vector$##RUST_TYPE##$null(                \
       std::unique_ptr<std::vector<CXX_TYPE>> *ptr) noexcept {                  \
     new (ptr) std::unique_ptr<std::vector<CXX_TYPE>>();                        \
   }                                                                            \
-  void cxxbridge1$unique_ptr$std$vector$##RUST_TYPE##$raw(                     \
+  void cxxbridge1$unique_ptr$std$cxx_vector$##RUST_TYPE##$raw(                 \
       std::unique_ptr<std::vector<CXX_TYPE>> *ptr,                             \
       std::vector<CXX_TYPE> *raw) noexcept {                                   \
     new (ptr) std::unique_ptr<std::vector<CXX_TYPE>>(raw);                     \
   }                                                                            \
   const std::vector<CXX_TYPE>                                                  \
-      *cxxbridge1$unique_ptr$std$vector$##RUST_TYPE##$get(                     \
+      *cxxbridge1$unique_ptr$std$cxx_vector$##RUST_TYPE##$get(                 \
           const std::unique_ptr<std::vector<CXX_TYPE>> &ptr) noexcept {        \
     return ptr.get();                                                          \
   }                                                                            \
   std::vector<CXX_TYPE>                                                        \
-      *cxxbridge1$unique_ptr$std$vector$##RUST_TYPE##$release(                 \
+      *cxxbridge1$unique_ptr$std$cxx_vector$##RUST_TYPE##$release(             \
           std::unique_ptr<std::vector<CXX_TYPE>> &ptr) noexcept {              \
     return ptr.release();                                                      \
   }                                                                            \
-  void cxxbridge1$unique_ptr$std$vector$##RUST_TYPE##$drop(                    \
+  void cxxbridge1$unique_ptr$std$cxx_vector$##RUST_TYPE##$drop(                \
       std::unique_ptr<std::vector<CXX_TYPE>> *ptr) noexcept {                  \
     ptr->~unique_ptr();                                                        \
   }
 
 #define STD_VECTOR_TRIVIAL_OPS(RUST_TYPE, CXX_TYPE)                            \
-  void cxxbridge1$std$vector$##RUST_TYPE##$push_back(                          \
+  void cxxbridge1$std$cxx_vector$##RUST_TYPE##$push_back(                      \
       std::vector<CXX_TYPE> *v, CXX_TYPE *value) noexcept {                    \
     v->push_back(std::move(*value));                                           \
     destroy(value);                                                            \
   }                                                                            \
-  void cxxbridge1$std$vector$##RUST_TYPE##$pop_back(std::vector<CXX_TYPE> *v,  \
-                                                    CXX_TYPE *out) noexcept {  \
+  void cxxbridge1$std$cxx_vector$##RUST_TYPE##$pop_back(                       \
+      std::vector<CXX_TYPE> *v, CXX_TYPE *out) noexcept {                      \
     new (out) CXX_TYPE(std::move(v->back()));                                  \
     v->pop_back();                                                             \
   }
 
 #define RUST_VEC_EXTERNS(RUST_TYPE, CXX_TYPE)                                  \
-  void cxxbridge1$rust_vec$##RUST_TYPE##$new(                                  \
+  void cxxbridge1$std$rust_vec$##RUST_TYPE##$new(                              \
       rust::Vec<CXX_TYPE> *ptr) noexcept;                                      \
-  void cxxbridge1$rust_vec$##RUST_TYPE##$drop(                                 \
+  void cxxbridge1$std$rust_vec$##RUST_TYPE##$drop(                             \
       rust::Vec<CXX_TYPE> *ptr) noexcept;                                      \
-  std::size_t cxxbridge1$rust_vec$##RUST_TYPE##$len(                           \
+  std::size_t cxxbridge1$std$rust_vec$##RUST_TYPE##$len(                       \
       const rust::Vec<CXX_TYPE> *ptr) noexcept;                                \
-  std::size_t cxxbridge1$rust_vec$##RUST_TYPE##$capacity(                      \
+  std::size_t cxxbridge1$std$rust_vec$##RUST_TYPE##$capacity(                  \
       const rust::Vec<CXX_TYPE> *ptr) noexcept;                                \
-  const CXX_TYPE *cxxbridge1$rust_vec$##RUST_TYPE##$data(                      \
+  const CXX_TYPE *cxxbridge1$std$rust_vec$##RUST_TYPE##$data(                  \
       const rust::Vec<CXX_TYPE> *ptr) noexcept;                                \
-  void cxxbridge1$rust_vec$##RUST_TYPE##$reserve_total(                        \
+  void cxxbridge1$std$rust_vec$##RUST_TYPE##$reserve_total(                    \
       rust::Vec<CXX_TYPE> *ptr, std::size_t new_cap) noexcept;                 \
-  void cxxbridge1$rust_vec$##RUST_TYPE##$set_len(rust::Vec<CXX_TYPE> *ptr,     \
-                                                 std::size_t len) noexcept;    \
-  void cxxbridge1$rust_vec$##RUST_TYPE##$truncate(rust::Vec<CXX_TYPE> *ptr,    \
-                                                  std::size_t len) noexcept;
+  void cxxbridge1$std$rust_vec$##RUST_TYPE##$set_len(                          \
+      rust::Vec<CXX_TYPE> *ptr, std::size_t len) noexcept;                     \
+  void cxxbridge1$std$rust_vec$##RUST_TYPE##$truncate(                         \
+      rust::Vec<CXX_TYPE> *ptr, std::size_t len) noexcept;
 
 #define RUST_VEC_OPS(RUST_TYPE, CXX_TYPE)                                      \
   template <>                                                                  \
   Vec<CXX_TYPE>::Vec() noexcept {                                              \
-    cxxbridge1$rust_vec$##RUST_TYPE##$new(this);                               \
+    cxxbridge1$std$rust_vec$##RUST_TYPE##$new(this);                           \
   }                                                                            \
   template <>                                                                  \
   void Vec<CXX_TYPE>::drop() noexcept {                                        \
-    return cxxbridge1$rust_vec$##RUST_TYPE##$drop(this);                       \
+    return cxxbridge1$std$rust_vec$##RUST_TYPE##$drop(this);                   \
   }                                                                            \
   template <>                                                                  \
   std::size_t Vec<CXX_TYPE>::size() const noexcept {                           \
-    return cxxbridge1$rust_vec$##RUST_TYPE##$len(this);                        \
+    return cxxbridge1$std$rust_vec$##RUST_TYPE##$len(this);                    \
   }                                                                            \
   template <>                                                                  \
   std::size_t Vec<CXX_TYPE>::capacity() const noexcept {                       \
-    return cxxbridge1$rust_vec$##RUST_TYPE##$capacity(this);                   \
+    return cxxbridge1$std$rust_vec$##RUST_TYPE##$capacity(this);               \
   }                                                                            \
   template <>                                                                  \
   const CXX_TYPE *Vec<CXX_TYPE>::data() const noexcept {                       \
-    return cxxbridge1$rust_vec$##RUST_TYPE##$data(this);                       \
+    return cxxbridge1$std$rust_vec$##RUST_TYPE##$data(this);                   \
   }                                                                            \
   template <>                                                                  \
   void Vec<CXX_TYPE>::reserve_total(std::size_t new_cap) noexcept {            \
-    cxxbridge1$rust_vec$##RUST_TYPE##$reserve_total(this, new_cap);            \
+    cxxbridge1$std$rust_vec$##RUST_TYPE##$reserve_total(this, new_cap);        \
   }                                                                            \
   template <>                                                                  \
   void Vec<CXX_TYPE>::set_len(std::size_t len) noexcept {                      \
-    cxxbridge1$rust_vec$##RUST_TYPE##$set_len(this, len);                      \
+    cxxbridge1$std$rust_vec$##RUST_TYPE##$set_len(this, len);                  \
   }                                                                            \
   template <>                                                                  \
   void Vec<CXX_TYPE>::truncate(std::size_t len) {                              \
-    cxxbridge1$rust_vec$##RUST_TYPE##$truncate(this, len);                     \
+    cxxbridge1$std$rust_vec$##RUST_TYPE##$truncate(this, len);                 \
   }
 
 #define SHARED_PTR_OPS(RUST_TYPE, CXX_TYPE)                                    \
diff --git a/src/cxx_vector.rs b/src/cxx_vector.rs
index 53ae071..9a6edb6 100644
--- a/src/cxx_vector.rs
+++ b/src/cxx_vector.rs
@@ -392,14 +392,14 @@ macro_rules! vector_element_by_value_methods {
     (trivial, $segment:expr, $ty:ty) => {
         unsafe fn __push_back(v: Pin<&mut CxxVector<$ty>>, value: &mut ManuallyDrop<$ty>) {
             extern "C" {
-                #[link_name = concat!("cxxbridge1$std$vector$", $segment, "$push_back")]
+                #[link_name = concat!("cxxbridge1$std$cxx_vector$", $segment, "$push_back")]
                 fn __push_back(_: Pin<&mut CxxVector<$ty>>, _: &mut ManuallyDrop<$ty>);
             }
             unsafe { __push_back(v, value) }
         }
         unsafe fn __pop_back(v: Pin<&mut CxxVector<$ty>>, out: &mut MaybeUninit<$ty>) {
             extern "C" {
-                #[link_name = concat!("cxxbridge1$std$vector$", $segment, "$pop_back")]
+                #[link_name = concat!("cxxbridge1$std$cxx_vector$", $segment, "$pop_back")]
                 fn __pop_back(_: Pin<&mut CxxVector<$ty>>, _: &mut MaybeUninit<$ty>);
             }
             unsafe { __pop_back(v, out) }
@@ -418,21 +418,21 @@ macro_rules! impl_vector_element {
             }
             fn __vector_new() -> *mut CxxVector<Self> {
                 extern "C" {
-                    #[link_name = concat!("cxxbridge1$std$vector$", $segment, "$new")]
+                    #[link_name = concat!("cxxbridge1$std$cxx_vector$", $segment, "$new")]
                     fn __vector_new() -> *mut CxxVector<$ty>;
                 }
                 unsafe { __vector_new() }
             }
             fn __vector_size(v: &CxxVector<$ty>) -> usize {
                 extern "C" {
-                    #[link_name = concat!("cxxbridge1$std$vector$", $segment, "$size")]
+                    #[link_name = concat!("cxxbridge1$std$cxx_vector$", $segment, "$size")]
                     fn __vector_size(_: &CxxVector<$ty>) -> usize;
                 }
                 unsafe { __vector_size(v) }
             }
             unsafe fn __get_unchecked(v: *mut CxxVector<$ty>, pos: usize) -> *mut $ty {
                 extern "C" {
-                    #[link_name = concat!("cxxbridge1$std$vector$", $segment, "$get_unchecked")]
+                    #[link_name = concat!("cxxbridge1$std$cxx_vector$", $segment, "$get_unchecked")]
                     fn __get_unchecked(_: *mut CxxVector<$ty>, _: usize) -> *mut $ty;
                 }
                 unsafe { __get_unchecked(v, pos) }
@@ -440,7 +440,7 @@ macro_rules! impl_vector_element {
             vector_element_by_value_methods!($kind, $segment, $ty);
             fn __unique_ptr_null() -> MaybeUninit<*mut c_void> {
                 extern "C" {
-                    #[link_name = concat!("cxxbridge1$unique_ptr$std$vector$", $segment, "$null")]
+                    #[link_name = concat!("cxxbridge1$unique_ptr$std$cxx_vector$", $segment, "$null")]
                     fn __unique_ptr_null(this: *mut MaybeUninit<*mut c_void>);
                 }
                 let mut repr = MaybeUninit::uninit();
@@ -449,7 +449,7 @@ macro_rules! impl_vector_element {
             }
             unsafe fn __unique_ptr_raw(raw: *mut CxxVector<Self>) -> MaybeUninit<*mut c_void> {
                 extern "C" {
-                    #[link_name = concat!("cxxbridge1$unique_ptr$std$vector$", $segment, "$raw")]
+                    #[link_name = concat!("cxxbridge1$unique_ptr$std$cxx_vector$", $segment, "$raw")]
                     fn __unique_ptr_raw(this: *mut MaybeUninit<*mut c_void>, raw: *mut CxxVector<$ty>);
                 }
                 let mut repr = MaybeUninit::uninit();
@@ -458,21 +458,21 @@ macro_rules! impl_vector_element {
             }
             unsafe fn __unique_ptr_get(repr: MaybeUninit<*mut c_void>) -> *const CxxVector<Self> {
                 extern "C" {
-                    #[link_name = concat!("cxxbridge1$unique_ptr$std$vector$", $segment, "$get")]
+                    #[link_name = concat!("cxxbridge1$unique_ptr$std$cxx_vector$", $segment, "$get")]
                     fn __unique_ptr_get(this: *const MaybeUninit<*mut c_void>) -> *const CxxVector<$ty>;
                 }
                 unsafe { __unique_ptr_get(&repr) }
             }
             unsafe fn __unique_ptr_release(mut repr: MaybeUninit<*mut c_void>) -> *mut CxxVector<Self> {
                 extern "C" {
-                    #[link_name = concat!("cxxbridge1$unique_ptr$std$vector$", $segment, "$release")]
+                    #[link_name = concat!("cxxbridge1$unique_ptr$std$cxx_vector$", $segment, "$release")]
                     fn __unique_ptr_release(this: *mut MaybeUninit<*mut c_void>) -> *mut CxxVector<$ty>;
                 }
                 unsafe { __unique_ptr_release(&mut repr) }
             }
             unsafe fn __unique_ptr_drop(mut repr: MaybeUninit<*mut c_void>) {
                 extern "C" {
-                    #[link_name = concat!("cxxbridge1$unique_ptr$std$vector$", $segment, "$drop")]
+                    #[link_name = concat!("cxxbridge1$unique_ptr$std$cxx_vector$", $segment, "$drop")]
                     fn __unique_ptr_drop(this: *mut MaybeUninit<*mut c_void>);
                 }
                 unsafe { __unique_ptr_drop(&mut repr) }
diff --git a/src/symbols/rust_vec.rs b/src/symbols/rust_vec.rs
index eaf025e..c4be00d 100644
--- a/src/symbols/rust_vec.rs
+++ b/src/symbols/rust_vec.rs
@@ -14,35 +14,35 @@ macro_rules! rust_vec_shims {
         const_assert_eq!(mem::align_of::<Vec<$ty>>(), mem::align_of::<RustVec<$ty>>());
 
         const _: () = {
-            #[export_name = concat!("cxxbridge1$rust_vec$", $segment, "$new")]
+            #[export_name = concat!("cxxbridge1$std$rust_vec$", $segment, "$new")]
             unsafe extern "C" fn __new(this: *mut RustVec<$ty>) {
                 unsafe { ptr::write(this, RustVec::new()) }
             }
-            #[export_name = concat!("cxxbridge1$rust_vec$", $segment, "$drop")]
+            #[export_name = concat!("cxxbridge1$std$rust_vec$", $segment, "$drop")]
             unsafe extern "C" fn __drop(this: *mut RustVec<$ty>) {
                 unsafe { ptr::drop_in_place(this) }
             }
-            #[export_name = concat!("cxxbridge1$rust_vec$", $segment, "$len")]
+            #[export_name = concat!("cxxbridge1$std$rust_vec$", $segment, "$len")]
             unsafe extern "C" fn __len(this: *const RustVec<$ty>) -> usize {
                 unsafe { &*this }.len()
             }
-            #[export_name = concat!("cxxbridge1$rust_vec$", $segment, "$capacity")]
+            #[export_name = concat!("cxxbridge1$std$rust_vec$", $segment, "$capacity")]
             unsafe extern "C" fn __capacity(this: *const RustVec<$ty>) -> usize {
                 unsafe { &*this }.capacity()
             }
-            #[export_name = concat!("cxxbridge1$rust_vec$", $segment, "$data")]
+            #[export_name = concat!("cxxbridge1$std$rust_vec$", $segment, "$data")]
             unsafe extern "C" fn __data(this: *const RustVec<$ty>) -> *const $ty {
                 unsafe { &*this }.as_ptr()
             }
-            #[export_name = concat!("cxxbridge1$rust_vec$", $segment, "$reserve_total")]
+            #[export_name = concat!("cxxbridge1$std$rust_vec$", $segment, "$reserve_total")]
             unsafe extern "C" fn __reserve_total(this: *mut RustVec<$ty>, new_cap: usize) {
                 unsafe { &mut *this }.reserve_total(new_cap);
             }
-            #[export_name = concat!("cxxbridge1$rust_vec$", $segment, "$set_len")]
+            #[export_name = concat!("cxxbridge1$std$rust_vec$", $segment, "$set_len")]
             unsafe extern "C" fn __set_len(this: *mut RustVec<$ty>, len: usize) {
                 unsafe { (*this).set_len(len) }
             }
-            #[export_name = concat!("cxxbridge1$rust_vec$", $segment, "$truncate")]
+            #[export_name = concat!("cxxbridge1$std$rust_vec$", $segment, "$truncate")]
             unsafe extern "C" fn __truncate(this: *mut RustVec<$ty>, len: usize) {
                 unsafe { (*this).truncate(len) }
             }
diff --git a/syntax/mangle.rs b/syntax/mangle.rs
index 88859b1..dbd0c61 100644
--- a/syntax/mangle.rs
+++ b/syntax/mangle.rs
@@ -20,7 +20,7 @@
 //          pattern:  {CXXBRIDGE} $ {TYPE} $ {PARAM...} $ {NAME}
 //          examples:
 //             - cxxbridge1$box$org$rust$Struct$alloc
-//             - cxxbridge1$unique_ptr$std$vector$u8$drop
+//             - cxxbridge1$unique_ptr$std$cxx_vector$u8$drop
 //          defining characteristics:
 //             - 4+ segments
 //             - starts with cxxbridge
-- 
2.43.0


From 3c4cefc297c73a4bcec4531f94730df95e23e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:46 +0000
Subject: [PATCH 18/29] fix: keep the names of generated shims apart from their
 locals

---
 macro/src/expand.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index b2640aa..437981b 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -491,7 +491,7 @@ fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
         outparam = Some(quote!(__return: *mut #ret));
     }
     let link_name = mangle::extern_fn(efn, types);
-    let local_name = format_ident!("__{}", efn.name.rust);
+    let local_name = format_ident!("__cxx_fn_{}", efn.name.rust);
     quote! {
         #[link_name = #link_name]
         fn #local_name #generics(#(#all_args,)* #outparam) #ret;
@@ -623,7 +623,7 @@ fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
             }
         })
         .collect::<TokenStream>();
-    let local_name = format_ident!("__{}", efn.name.rust);
+    let local_name = format_ident!("__cxx_fn_{}", efn.name.rust);
     let span = efn.semi_token.span;
     let call = if indirect_return {
         let ret = expand_extern_type(efn.ret.as_ref().unwrap(), types, true);
@@ -941,8 +941,8 @@ fn expand_forbid(impls: TokenStream) -> TokenStream {
 fn expand_rust_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
     let link_name = mangle::extern_fn(efn, types);
     let local_name = match &efn.receiver {
-        None => format_ident!("__{}", efn.name.rust),
-        Some(receiver) => format_ident!("__{}__{}", receiver.ty.rust, efn.name.rust),
+        None => format_ident!("__rust_fn_{}", efn.name.rust),
+        Some(receiver) => format_ident!("__rust_fn_{}__{}", receiver.ty.rust, efn.name.rust),
     };
     let prevent_unwind_label = match &efn.receiver {
         None => format!("::{}", efn.name.rust),
-- 
2.43.0


From 04d0e9782857e1299194046fe716e082a04ee2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:35 +0000
Subject: [PATCH 19/29] fix: arguments named error in functions returning
 Result

---
 gen/src/write.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 151b9a4..687452a 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -1157,7 +1157,7 @@ fn write_rust_function_shim_impl(
     }
     if sig.throws {
         out.builtin.ptr_len = true;
-        write!(out, "::rust::repr::PtrLen error$ = ");
+        write!(out, "::rust::repr::PtrLen throw$ = ");
     }
     write!(out, "{}(", invoke);
     let mut needs_comma = false;
@@ -1205,8 +1205,8 @@ fn write_rust_function_shim_impl(
     writeln!(out, ";");
     if sig.throws {
         out.builtin.rust_error = true;
-        writeln!(out, "  if (error$.ptr) {{");
-        writeln!(out, "    throw ::rust::impl<::rust::Error>::error(error$);");
+        writeln!(out, "  if (throw$.ptr) {{");
+        writeln!(out, "    throw ::rust::impl<::rust::Error>::error(throw$);");
         writeln!(out, "  }}");
     }
     if indirect_return {
-- 
2.43.0


From 772251c6e158b71e35a5c8622a05827a6458be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:47 +0000
Subject: [PATCH 20/29] fix: reject opaque types by value in function pointer
 signatures

---
 syntax/check.rs   | 12 ++++++++++++
 syntax/trivial.rs |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index b6a1652..4f17656 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -321,6 +321,18 @@ fn check_type_fn(cx: &mut Check, ty: &Signature) {
                     "pointer argument requires that the function pointer be marked unsafe",
                 );
             }
+        } else if is_unsized(cx, &arg.ty) {
+            let desc = describe(cx, &arg.ty);
+            let msg = format!("passing {} by value is not supported", desc);
+            cx.error(arg, msg);
+        }
+    }
+
+    if let Some(ret) = &ty.ret {
+        if is_unsized(cx, ret) {
+            let desc = describe(cx, ret);
+            let msg = format!("returning {} by value is not supported", desc);
+            cx.error(ret, msg);
         }
     }
 }
diff --git a/syntax/trivial.rs b/syntax/trivial.rs
index 9533400..2db9e9f 100644
--- a/syntax/trivial.rs
+++ b/syntax/trivial.rs
@@ -67,6 +67,14 @@ pub(crate) fn required_trivial_reasons<'a>(
                                 }
                             }
                         }
+                        Type::Fn(f) => {
+                            for ty in f.args.iter().map(|arg| &arg.ty).chain(&f.ret) {
+                                if let Type::Ident(ident) = ty {
+                                    let reason = TrivialReason::FunctionArgument(efn);
+                                    insist_extern_types_are_trivial(ident, reason);
+                                }
+                            }
+                        }
                         _ => {}
                     }
                 }
-- 
2.43.0


From 1bfa34d5c8402fdfac6a3824ee395aeca93b0b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:19 +0000
Subject: [PATCH 21/29] fix: report a shared type declared under the name of a
 type alias

---
 syntax/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syntax/types.rs b/syntax/types.rs
index e972ee4..377a1ba 100644
--- a/syntax/types.rs
+++ b/syntax/types.rs
@@ -74,7 +74,8 @@ impl<'a> Types<'a> {
                     if !type_names.insert(ident)
                         && (!cxx.contains(ident)
                             || structs.contains_key(ident)
-                            || enums.contains_key(ident))
+                            || enums.contains_key(ident)
+                            || aliases.contains_key(ident))
                     {
                         // If already declared as a struct or enum, or if
                         // colliding with something other than an extern C++
@@ -99,7 +100,8 @@ impl<'a> Types<'a> {
                     if !type_names.insert(ident)
                         && (!cxx.contains(ident)
                             || structs.contains_key(ident)
-                            || enums.contains_key(ident))
+                            || enums.contains_key(ident)
+                            || aliases.contains_key(ident))
                     {
                         // If already declared as a struct or enum, or if
                         // colliding with something other than an extern C++
-- 
2.43.0


From 5e8e2da13df280c117d7c5826020ba2d3fd66f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:45 +0000
Subject: [PATCH 22/29] fix: count every matching element of
 CFG.exported_header_prefixes as used

---
 gen/build/src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index ec0e514..55a6f28 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -310,16 +310,19 @@ fn make_this_crate(prj: &Project) -> Result<Crate> {
 
         let mut is_prefix_exported = || match &krate.include_prefix {
             None => false,
-            Some(include_prefix) => CFG.exported_header_prefixes.iter().any(|&exported| {
-                let matches = include_prefix.starts_with(exported);
-                if matches {
-                    used_header_prefixes.insert(exported);
-                }
-                matches
-            }),
+            // Not short-circuiting: every matching prefix counts as used.
+            Some(include_prefix) => {
+                (CFG.exported_header_prefixes.iter()).fold(false, |any, &exported| {
+                    let matches = include_prefix.starts_with(exported);
+                    if matches {
+                        used_header_prefixes.insert(exported);
+                    }
+                    any | matches
+                })
+            }
         };
 
-        let exported = is_link_exported() || is_prefix_exported();
+        let exported = is_link_exported() | is_prefix_exported();
 
         for dir in krate.header_dirs {
             // Deduplicate dirs reachable via multiple transitive dependencies.
-- 
2.43.0


From 84ff1b51a95a9f0ea8191108c13f5ebbeb9d80ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:45 +0000
Subject: [PATCH 23/29] fix: recognise features with a hyphen in CARGO_FEATURE
 variables

---
 gen/build/src/cargo.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gen/build/src/cargo.rs b/gen/build/src/cargo.rs
index 0293c5f..d92d036 100644
--- a/gen/build/src/cargo.rs
+++ b/gen/build/src/cargo.rs
@@ -134,9 +134,19 @@ impl PartialEq for Lookup {
 
 struct CaseAgnosticByte(u8);
 
+impl CaseAgnosticByte {
+    // Cargo translates `-` in the name of a feature to `_` in CARGO_FEATURE_*.
+    fn fold(&self) -> u8 {
+        match self.0 {
+            b'-' => b'_',
+            byte => byte.to_ascii_lowercase(),
+        }
+    }
+}
+
 impl Ord for CaseAgnosticByte {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        self.0.to_ascii_lowercase().cmp(&rhs.0.to_ascii_lowercase())
+        self.fold().cmp(&rhs.fold())
     }
 }
 
-- 
2.43.0


From 712bec49236548fcbd1dd1b33e44f1fc5510d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 24/29] fix: write the paths of include! lines as they are,
 without string escapes

---
 gen/src/include.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gen/src/include.rs b/gen/src/include.rs
index 3f1f754..93be79b 100644
--- a/gen/src/include.rs
+++ b/gen/src/include.rs
@@ -74,7 +74,17 @@ pub(super) fn write(out: &mut OutFile) {
     for include in &include.custom {
         match include.kind {
             IncludeKind::Quoted => {
-                writeln!(out, "#include \"{}\"", include.path.escape_default());
+                // A header name is not a string literal: what stands between
+                // the quotation marks is the path itself, with no escapes. Only
+                // the characters that no header name can contain are escaped.
+                write!(out, "#include \"");
+                for ch in include.path.chars() {
+                    match ch {
+                        '"' | '\n' | '\r' => write!(out, "{}", ch.escape_default()),
+                        _ => write!(out, "{}", ch),
+                    }
+                }
+                writeln!(out, "\"");
             }
             IncludeKind::Bracketed => {
                 writeln!(out, "#include <{}>", include.path);
-- 
2.43.0


From 52e65abaeb518a745d162f2fc8fc3fd2d36cb178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 25/29] fix: check the discriminants of enums with repr usize
 or isize

---
 syntax/discriminant.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index 53a2f4b..9b91598 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -291,7 +291,7 @@ impl Limits {
     }
 }
 
-const LIMITS: [Limits; 8] = [
+const LIMITS: [Limits; 10] = [
     Limits {
         repr: U8,
         min: Discriminant::zero(),
@@ -332,4 +332,16 @@ const LIMITS: [Limits; 8] = [
         min: Discriminant::neg(i64::MIN),
         max: Discriminant::pos(i64::MAX as u64),
     },
+    // The widest that these can be on any target. Neither is ever inferred,
+    // because everything that fits in them fits in one of the above.
+    Limits {
+        repr: Usize,
+        min: Discriminant::zero(),
+        max: Discriminant::pos(u64::MAX),
+    },
+    Limits {
+        repr: Isize,
+        min: Discriminant::neg(i64::MIN),
+        max: Discriminant::pos(i64::MAX as u64),
+    },
 ];
-- 
2.43.0


From 5b8e013617fe51af52eab00345bb2b200849b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:46 +0000
Subject: [PATCH 26/29] fix: pass receivers of improper type as pointers, and
 keep the elided lifetimes of results

---
 macro/src/expand.rs | 91 ++++++++++++++++++++++++++++++++++++++++-----
 syntax/improper.rs  | 21 ++++++-----
 syntax/types.rs     |  9 +++++
 3 files changed, 101 insertions(+), 20 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 437981b..fde3ca4 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -12,10 +12,12 @@ use crate::syntax::{
 };
 use crate::type_id::Crate;
 use crate::{derive, generics};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::mem;
-use syn::{parse_quote, punctuated, Generics, Lifetime, Result, Token};
+use syn::{
+    parse_quote, punctuated, GenericParam, Generics, Lifetime, LifetimeParam, Result, Token,
+};
 
 pub(crate) fn bridge(mut ffi: Module) -> Result<TokenStream> {
     let ref mut errors = Errors::new();
@@ -458,10 +460,18 @@ fn expand_cxx_type_assert_pinned(ety: &ExternType, types: &Types) -> TokenStream
 }
 
 fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
-    let generics = &efn.generics;
+    let mut generics = efn.generics.clone();
     let receiver = efn.receiver.iter().map(|receiver| {
-        let receiver_type = receiver.ty();
-        quote!(_: #receiver_type)
+        if types.is_considered_improper_ctype_ident(&receiver.ty.rust) {
+            let star = Token![*](receiver.ampersand.span);
+            match receiver.mutable {
+                false => quote!(_: #star const ::cxx::core::ffi::c_void),
+                true => quote!(_: #star mut ::cxx::core::ffi::c_void),
+            }
+        } else {
+            let receiver_type = receiver.ty();
+            quote!(_: #receiver_type)
+        }
     });
     let args = efn.args.iter().map(|arg| {
         let var = &arg.name.rust;
@@ -483,7 +493,17 @@ fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
     let ret = if efn.throws {
         quote!(-> ::cxx::private::Result)
     } else {
-        expand_extern_return_type(&efn.ret, types, true)
+        // The declaration's arguments do not necessarily have the lifetimes that
+        // the user's signature elides; there it is up to the shim's signature to
+        // tie the return value to them.
+        let elided = Lifetime::new("'__elided", Span::call_site());
+        let ret = expand_extern_return_type(&efn.ret, types, true);
+        let (ret, any_elided) = name_elided_lifetimes(ret, &elided);
+        if any_elided {
+            let param = GenericParam::Lifetime(LifetimeParam::new(elided));
+            generics.params.insert(0, param);
+        }
+        ret
     };
     let mut outparam = None;
     if indirect_return(efn, types) {
@@ -498,6 +518,43 @@ fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
     }
 }
 
+// Replaces every `&T` and `'_` by `&'lifetime T` and `'lifetime`, and returns
+// whether there were any.
+fn name_elided_lifetimes(tokens: TokenStream, lifetime: &Lifetime) -> (TokenStream, bool) {
+    let mut named = TokenStream::new();
+    let mut any_elided = false;
+    let mut iter = tokens.into_iter().peekable();
+    while let Some(token) = iter.next() {
+        match token {
+            TokenTree::Group(group) => {
+                let (inner, inner_elided) = name_elided_lifetimes(group.stream(), lifetime);
+                let mut replaced = Group::new(group.delimiter(), inner);
+                replaced.set_span(group.span());
+                replaced.to_tokens(&mut named);
+                any_elided |= inner_elided;
+            }
+            TokenTree::Punct(punct) if punct.as_char() == '&' => {
+                punct.to_tokens(&mut named);
+                if !matches!(iter.peek(), Some(TokenTree::Punct(next)) if next.as_char() == '\'') {
+                    lifetime.to_tokens(&mut named);
+                    any_elided = true;
+                }
+            }
+            TokenTree::Punct(punct) if punct.as_char() == '\'' => {
+                if matches!(iter.peek(), Some(TokenTree::Ident(next)) if next == "_") {
+                    iter.next();
+                    lifetime.to_tokens(&mut named);
+                    any_elided = true;
+                } else {
+                    punct.to_tokens(&mut named);
+                }
+            }
+            token => token.to_tokens(&mut named),
+        }
+    }
+    (named, any_elided)
+}
+
 fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
     let doc = &efn.doc;
     let attrs = &efn.attrs;
@@ -527,10 +584,24 @@ fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
         expand_return_type(&efn.ret)
     };
     let indirect_return = indirect_return(efn, types);
-    let receiver_var = efn
-        .receiver
-        .iter()
-        .map(|receiver| receiver.var.to_token_stream());
+    let receiver_var = efn.receiver.iter().map(|receiver| {
+        let var = receiver.var;
+        if types.is_considered_improper_ctype_ident(&receiver.ty.rust) {
+            let span = var.span;
+            let var = match receiver.pinned {
+                false => quote!(#var),
+                true => quote_spanned!(span=> ::cxx::core::pin::Pin::into_inner_unchecked(#var)),
+            };
+            match receiver.mutable {
+                false => {
+                    quote_spanned!(span=> #var as *const Self as *const ::cxx::core::ffi::c_void)
+                }
+                true => quote_spanned!(span=> #var as *mut Self as *mut ::cxx::core::ffi::c_void),
+            }
+        } else {
+            var.to_token_stream()
+        }
+    });
     let arg_vars = efn.args.iter().map(|arg| {
         let var = &arg.name.rust;
         let span = var.span();
diff --git a/syntax/improper.rs b/syntax/improper.rs
index a19f5b7..8a72b1d 100644
--- a/syntax/improper.rs
+++ b/syntax/improper.rs
@@ -12,16 +12,7 @@ impl<'a> Types<'a> {
     // yes, no, maybe
     pub(crate) fn determine_improper_ctype(&self, ty: &Type) -> ImproperCtype<'a> {
         match ty {
-            Type::Ident(ident) => {
-                let ident = &ident.rust;
-                if let Some(atom) = Atom::from(ident) {
-                    Definite(atom == RustString)
-                } else if let Some(strct) = self.structs.get(ident) {
-                    Depends(&strct.name.rust) // iterate to fixed-point
-                } else {
-                    Definite(self.rust.contains(ident) || self.aliases.contains_key(ident))
-                }
-            }
+            Type::Ident(ident) => self.determine_improper_ctype_ident(&ident.rust),
             Type::RustBox(_)
             | Type::RustVec(_)
             | Type::Str(_)
@@ -36,4 +27,14 @@ impl<'a> Types<'a> {
             Type::Array(ty) => self.determine_improper_ctype(&ty.inner),
         }
     }
+
+    pub(crate) fn determine_improper_ctype_ident(&self, ident: &Ident) -> ImproperCtype<'a> {
+        if let Some(atom) = Atom::from(ident) {
+            Definite(atom == RustString)
+        } else if let Some(strct) = self.structs.get(ident) {
+            Depends(&strct.name.rust) // iterate to fixed-point
+        } else {
+            Definite(self.rust.contains(ident) || self.aliases.contains_key(ident))
+        }
+    }
 }
diff --git a/syntax/types.rs b/syntax/types.rs
index 377a1ba..fedb975 100644
--- a/syntax/types.rs
+++ b/syntax/types.rs
@@ -270,6 +270,15 @@ impl<'a> Types<'a> {
         }
     }
 
+    // Same for the type of a receiver.
+    #[allow(dead_code)] // only used by cxxbridge-macro, not cxx-build
+    pub(crate) fn is_considered_improper_ctype_ident(&self, ident: &Ident) -> bool {
+        match self.determine_improper_ctype_ident(ident) {
+            ImproperCtype::Definite(improper) => improper,
+            ImproperCtype::Depends(ident) => self.struct_improper_ctypes.contains(ident),
+        }
+    }
+
     // Types which we need to assume could possibly exist by value on the Rust
     // side.
     pub(crate) fn is_maybe_trivial(&self, ty: &Ident) -> bool {
-- 
2.43.0


From 0f469afc5e33b94c6b6d1240a7813a558b75c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:49 +0000
Subject: [PATCH 27/29] fix: find the lifetimes elided in results of Rust
 functions

---
 macro/src/expand.rs | 87 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 15 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index fde3ca4..3091aa6 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -7,8 +7,8 @@ use crate::syntax::qualified::QualifiedName;
 use crate::syntax::report::Errors;
 use crate::syntax::symbol::Symbol;
 use crate::syntax::{
-    self, check, mangle, Api, Doc, Enum, ExternFn, ExternType, Impl, Lifetimes, Pair, Signature,
-    Struct, Trait, Type, TypeAlias, Types,
+    self, check, mangle, Api, Doc, Enum, ExternFn, ExternType, Impl, Lifetimes, Pair, Receiver,
+    Signature, Struct, Trait, Type, TypeAlias, Types,
 };
 use crate::type_id::Crate;
 use crate::{derive, generics};
@@ -1045,14 +1045,23 @@ fn expand_rust_function_shim_impl(
     attrs: &OtherAttrs,
     body_span: Span,
 ) -> TokenStream {
-    let generics = outer_generics.unwrap_or(&sig.generics);
+    let mut generics = outer_generics.unwrap_or(&sig.generics).clone();
+    let indirect_return = indirect_return(sig, types);
+    let ret = if sig.throws {
+        quote!(-> ::cxx::private::Result)
+    } else if indirect_return {
+        TokenStream::new()
+    } else {
+        expand_extern_return_type(&sig.ret, types, false)
+    };
+    let (ret, elided) = resolve_elided_return(sig, ret, &mut generics);
     let receiver_var = sig
         .receiver
         .as_ref()
         .map(|receiver| quote_spanned!(receiver.var.span=> __self));
     let receiver = sig.receiver.as_ref().map(|receiver| {
         let colon = receiver.colon_token;
-        let receiver_type = receiver.ty();
+        let receiver_type = expand_receiver_type(receiver, elided.as_ref());
         quote!(#receiver_var #colon #receiver_type)
     });
     let args = sig.args.iter().map(|arg| {
@@ -1196,7 +1205,6 @@ fn expand_rust_function_shim_impl(
     };
 
     let mut outparam = None;
-    let indirect_return = indirect_return(sig, types);
     if indirect_return {
         let ret = expand_extern_type(sig.ret.as_ref().unwrap(), types, false);
         outparam = Some(quote_spanned!(span=> __return: *mut #ret,));
@@ -1229,12 +1237,6 @@ fn expand_rust_function_shim_impl(
 
     expr = quote_spanned!(span=> ::cxx::private::prevent_unwind(__fn, #closure));
 
-    let ret = if sig.throws {
-        quote!(-> ::cxx::private::Result)
-    } else {
-        expand_extern_return_type(&sig.ret, types, false)
-    };
-
     let pointer = match invoke {
         None => Some(quote_spanned!(span=> __extern: *const ())),
         Some(_) => None,
@@ -1252,6 +1254,55 @@ fn expand_rust_function_shim_impl(
     }
 }
 
+// Names the lifetimes elided in the return type of a function which is expanded
+// into a free function, if the rules for elision would not find what the user's
+// signature ties them to. Returns the lifetime which the receiver must have.
+fn resolve_elided_return(
+    sig: &Signature,
+    ret: TokenStream,
+    generics: &mut Generics,
+) -> (TokenStream, Option<Lifetime>) {
+    match &sig.receiver {
+        Some(receiver) => {
+            if let Some(lifetime) = &receiver.lifetime {
+                let (ret, _) = name_elided_lifetimes(ret, lifetime);
+                return (ret, None);
+            }
+        }
+        None => {
+            // These cross the boundary without their lifetime.
+            if !sig
+                .args
+                .iter()
+                .any(|arg| matches!(arg.ty, Type::Str(_) | Type::SliceRef(_)))
+            {
+                return (ret, None);
+            }
+        }
+    }
+    let elided = Lifetime::new("'__elided", Span::call_site());
+    let (ret, any_elided) = name_elided_lifetimes(ret, &elided);
+    if !any_elided {
+        return (ret, None);
+    }
+    let param = GenericParam::Lifetime(LifetimeParam::new(elided.clone()));
+    generics.params.insert(0, param);
+    (ret, Some(elided))
+}
+
+fn expand_receiver_type(receiver: &Receiver, elided: Option<&Lifetime>) -> TokenStream {
+    let mut expanded = TokenStream::new();
+    let mut elided = elided;
+    for token in receiver.ty().to_token_stream() {
+        let ampersand = matches!(&token, TokenTree::Punct(punct) if punct.as_char() == '&');
+        token.to_tokens(&mut expanded);
+        if ampersand {
+            elided.take().to_tokens(&mut expanded);
+        }
+    }
+    expanded
+}
+
 // A wrapper like `fn f(x: Arg) { super::f(x) }` just to ensure we have the
 // accurate unsafety declaration and no problematic elided lifetimes.
 fn expand_rust_function_shim_super(
@@ -1260,14 +1311,18 @@ fn expand_rust_function_shim_super(
     invoke: &Ident,
 ) -> TokenStream {
     let unsafety = sig.unsafety;
-    let generics = &sig.generics;
+    let mut generics = sig.generics.clone();
+    let (user_ret, elided) = match (&sig.receiver, &sig.ret) {
+        (Some(_), Some(ret)) => resolve_elided_return(sig, quote!(#ret), &mut generics),
+        (_, ret) => (quote!(#ret), None),
+    };
 
     let receiver_var = sig
         .receiver
         .as_ref()
         .map(|receiver| Ident::new("__self", receiver.var.span));
     let receiver = sig.receiver.iter().map(|receiver| {
-        let receiver_type = receiver.ty();
+        let receiver_type = expand_receiver_type(receiver, elided.as_ref());
         quote!(#receiver_var: #receiver_type)
     });
     let args = sig.args.iter().map(|arg| quote!(#arg));
@@ -1275,7 +1330,7 @@ fn expand_rust_function_shim_super(
 
     let ret = if let Some((result, _langle, rangle)) = sig.throws_tokens {
         let ok = match &sig.ret {
-            Some(ret) => quote!(#ret),
+            Some(_) => user_ret,
             None => quote!(()),
         };
         // Set spans that result in the `Result<...>` written by the user being
@@ -1288,8 +1343,10 @@ fn expand_rust_function_shim_super(
             quote_spanned!(rangle.span=> ::cxx::core::fmt::Display>)
         };
         quote!(-> #result_begin #result_end)
+    } else if sig.ret.is_some() {
+        quote!(-> #user_ret)
     } else {
-        expand_return_type(&sig.ret)
+        TokenStream::new()
     };
 
     let arg_vars = sig.args.iter().map(|arg| &arg.name.rust);
-- 
2.43.0


From c5f6786cd1ecc6f394855d4101f2a75821de1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 28/29] fix: do not depend on what concat and module_path name
 around the bridge

---
 macro/src/expand.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 3091aa6..d130d49 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -217,7 +217,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                     #[doc(hidden)]
                     #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                     extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                        let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                        let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                         ::cxx::private::prevent_unwind(__fn, || *lhs == *rhs)
                     }
                 });
@@ -230,7 +230,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                         #[doc(hidden)]
                         #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                         extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                            let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                             ::cxx::private::prevent_unwind(__fn, || *lhs != *rhs)
                         }
                     });
@@ -244,7 +244,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                     #[doc(hidden)]
                     #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                     extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                        let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                        let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                         ::cxx::private::prevent_unwind(__fn, || *lhs < *rhs)
                     }
                 });
@@ -256,7 +256,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                     #[doc(hidden)]
                     #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                     extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                        let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                        let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                         ::cxx::private::prevent_unwind(__fn, || *lhs <= *rhs)
                     }
                 });
@@ -269,7 +269,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                         #[doc(hidden)]
                         #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                         extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                            let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                             ::cxx::private::prevent_unwind(__fn, || *lhs > *rhs)
                         }
                     });
@@ -281,7 +281,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                         #[doc(hidden)]
                         #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                         extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                            let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                             ::cxx::private::prevent_unwind(__fn, || *lhs >= *rhs)
                         }
                     });
@@ -296,7 +296,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                     #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                     #[allow(clippy::cast_possible_truncation)]
                     extern "C" fn #local_name #generics(this: &#ident #generics) -> usize {
-                        let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                        let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                         ::cxx::private::prevent_unwind(__fn, || ::cxx::private::hash(this))
                     }
                 });
@@ -1471,7 +1471,7 @@ fn expand_rust_box(key: NamedImplKey, types: &Types, explicit_impl: Option<&Impl
         #[doc(hidden)]
         #[#UnsafeAttr(#ExportNameAttr = #link_drop)]
         unsafe extern "C" fn #local_drop #impl_generics(this: *mut ::cxx::alloc::boxed::Box<#ident #ty_generics>) {
-            let __fn = concat!("<", module_path!(), #prevent_unwind_drop_label);
+            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_drop_label);
             ::cxx::private::prevent_unwind(__fn, || unsafe { ::cxx::core::ptr::drop_in_place(this) });
         }
     }
@@ -1522,7 +1522,7 @@ fn expand_rust_vec(key: NamedImplKey, types: &Types, explicit_impl: Option<&Impl
         #[doc(hidden)]
         #[#UnsafeAttr(#ExportNameAttr = #link_drop)]
         unsafe extern "C" fn #local_drop #impl_generics(this: *mut ::cxx::private::RustVec<#elem #ty_generics>) {
-            let __fn = concat!("<", module_path!(), #prevent_unwind_drop_label);
+            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_drop_label);
             ::cxx::private::prevent_unwind(
                 __fn,
                 || unsafe { ::cxx::core::ptr::drop_in_place(this) },
@@ -1565,7 +1565,7 @@ fn expand_rust_vec(key: NamedImplKey, types: &Types, explicit_impl: Option<&Impl
         #[doc(hidden)]
         #[#UnsafeAttr(#ExportNameAttr = #link_truncate)]
         unsafe extern "C" fn #local_truncate #impl_generics(this: *mut ::cxx::private::RustVec<#elem #ty_generics>, len: usize) {
-            let __fn = concat!("<", module_path!(), #prevent_unwind_drop_label);
+            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_drop_label);
             ::cxx::private::prevent_unwind(
                 __fn,
                 || unsafe { (*this).truncate(len) },
-- 
2.43.0


From 35193af3613be68b28e2dec0f896601c17eb67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:21 +0000
Subject: [PATCH 29/29] fix: keep elided results of Rust functions tied to
 their input's named lifetime

---
 macro/src/expand.rs | 47 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index d130d49..4a66f30 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1047,14 +1047,23 @@ fn expand_rust_function_shim_impl(
 ) -> TokenStream {
     let mut generics = outer_generics.unwrap_or(&sig.generics).clone();
     let indirect_return = indirect_return(sig, types);
-    let ret = if sig.throws {
+    let ret = if indirect_return {
+        expand_extern_type(sig.ret.as_ref().unwrap(), types, false)
+    } else if sig.throws {
         quote!(-> ::cxx::private::Result)
-    } else if indirect_return {
-        TokenStream::new()
     } else {
         expand_extern_return_type(&sig.ret, types, false)
     };
     let (ret, elided) = resolve_elided_return(sig, ret, &mut generics);
+    let (outparam, ret) = if indirect_return {
+        let throws = sig.throws.then(|| quote!(-> ::cxx::private::Result));
+        (
+            Some(quote_spanned!(body_span=> __return: *mut #ret,)),
+            throws,
+        )
+    } else {
+        (None, Some(ret))
+    };
     let receiver_var = sig
         .receiver
         .as_ref()
@@ -1204,11 +1213,6 @@ fn expand_rust_function_shim_impl(
         }
     };
 
-    let mut outparam = None;
-    if indirect_return {
-        let ret = expand_extern_type(sig.ret.as_ref().unwrap(), types, false);
-        outparam = Some(quote_spanned!(span=> __return: *mut #ret,));
-    }
     if sig.throws {
         let out = match sig.ret {
             // The cast keeps the elided lifetimes of the pointee from being tied
@@ -1262,23 +1266,24 @@ fn resolve_elided_return(
     ret: TokenStream,
     generics: &mut Generics,
 ) -> (TokenStream, Option<Lifetime>) {
-    match &sig.receiver {
-        Some(receiver) => {
-            if let Some(lifetime) = &receiver.lifetime {
-                let (ret, _) = name_elided_lifetimes(ret, lifetime);
-                return (ret, None);
-            }
-        }
+    let lifetime = match &sig.receiver {
+        Some(receiver) => &receiver.lifetime,
         None => {
             // These cross the boundary without their lifetime.
-            if !sig
-                .args
-                .iter()
-                .any(|arg| matches!(arg.ty, Type::Str(_) | Type::SliceRef(_)))
-            {
-                return (ret, None);
+            let fat = sig.args.iter().find_map(|arg| match &arg.ty {
+                Type::Str(ty) => Some(&ty.lifetime),
+                Type::SliceRef(ty) => Some(&ty.lifetime),
+                _ => None,
+            });
+            match fat {
+                Some(lifetime) => lifetime,
+                None => return (ret, None),
             }
         }
+    };
+    if let Some(lifetime) = lifetime {
+        let (ret, _) = name_elided_lifetimes(ret, lifetime);
+        return (ret, None);
     }
     let elided = Lifetime::new("'__elided", Span::call_site());
     let (ret, any_elided) = name_elided_lifetimes(ret, &elided);
-- 
2.43.0

