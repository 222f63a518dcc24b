From 2a0fb82e487a54a6ca3eb82e3858a4bfada9dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 1/5] fix: drop all initialized elements when try-mapping an
 array fails

The drop guard of array::try_map cast the slice of initialized elements to a
pointer to a single element. When the closure failed or panicked, only the
first result was dropped: later ones were leaked, and when the closure failed
for the very first element, uninitialized memory was dropped.
---
 funcmap/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap/src/array.rs b/funcmap/src/array.rs
index 81ad274..f26fffa 100644
--- a/funcmap/src/array.rs
+++ b/funcmap/src/array.rs
@@ -42,7 +42,7 @@ where
             let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };
 
             // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
-            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>]).cast::<T>() };
+            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };
 
             // SAFETY:
             // - `init_slice` is valid for dropping
-- 
2.43.0


From 39075f7762ba90d621436392cee5c8ed6381d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 2/5] fix: generate a tuple when mapping over a one-element
 tuple

Fields of type `(T,)` were mapped to the parenthesized expression `(f(x.0))`
rather than to the tuple `(f(x.0),)`, so the derived code did not compile.
---
 funcmap_derive/src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3ecf092..3b618f9 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -307,7 +307,7 @@ impl<'ast> Mapper<'ast> {
                     })
                     .collect::<Result<Vec<_>, _>>()?;
 
-                Ok(quote!((#(#mapped),*)))
+                Ok(quote!((#(#mapped,)*)))
             }
 
             Type::BareFn(..) => Err(syn::Error::new_spanned(
-- 
2.43.0


From df0305a8762db163c39b3b54162fc9dbaed35ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 3/5] fix: treat raw and plain identifiers alike when reserving
 names

A raw identifier such as `r#A` was remembered together with its prefix, so
the derived code introduced a second parameter `A` and did not compile.
---
 funcmap_derive/src/ident_collector.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cdffcd3..cee3a0f 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 
 use proc_macro2::{Ident, Span};
-use syn::visit::Visit;
+use syn::{ext::IdentExt, visit::Visit};
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -83,7 +83,8 @@ impl VisitingIdentCollector {
 
 impl Visit<'_> for VisitingIdentCollector {
     fn visit_ident(&mut self, ident: &Ident) {
-        self.0.idents.insert(ident.to_string());
+        // `r#A` and `A` are the same identifier
+        self.0.idents.insert(ident.unraw().to_string());
     }
 }
 
-- 
2.43.0


From 55ae9cbf3a60cdafa2b809935001b426623a9c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 4/5] fix: reserve identifiers that occur within macro
 invocations

An item mentioning a type `A` only inside a macro invocation, for instance in
an array length, had it captured by the type parameter of the derived code.
---
 funcmap_derive/src/ident_collector.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cee3a0f..728ca95 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -2,8 +2,12 @@
 
 use std::collections::HashSet;
 
-use proc_macro2::{Ident, Span};
-use syn::{ext::IdentExt, visit::Visit};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
+use syn::{
+    ext::IdentExt,
+    visit::{self, Visit},
+    Macro,
+};
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -79,6 +83,18 @@ impl VisitingIdentCollector {
     pub(crate) fn into_reserved(self) -> IdentCollector {
         self.0
     }
+
+    /// Visits all identifiers among the given tokens, which aren't part of the
+    /// syntax tree
+    fn visit_tokens(&mut self, tokens: TokenStream) {
+        for token in tokens {
+            match token {
+                TokenTree::Group(group) => self.visit_tokens(group.stream()),
+                TokenTree::Ident(ident) => self.visit_ident(&ident),
+                TokenTree::Punct(..) | TokenTree::Literal(..) => {}
+            }
+        }
+    }
 }
 
 impl Visit<'_> for VisitingIdentCollector {
@@ -86,6 +102,11 @@ impl Visit<'_> for VisitingIdentCollector {
         // `r#A` and `A` are the same identifier
         self.0.idents.insert(ident.unraw().to_string());
     }
+
+    fn visit_macro(&mut self, mac: &Macro) {
+        visit::visit_macro(self, mac);
+        self.visit_tokens(mac.tokens.clone());
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 24a589c6848281b52f92b9e87de2cc86f0b6f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 5/5] fix: import Box and Vec for builds with the alloc feature
 only

---
 funcmap/src/impls_alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap/src/impls_alloc.rs b/funcmap/src/impls_alloc.rs
index 233d2cc..5b74c5f 100644
--- a/funcmap/src/impls_alloc.rs
+++ b/funcmap/src/impls_alloc.rs
@@ -72,8 +72,12 @@ mod binary_heap {
 
 /// Implementations for types in [`alloc::boxed`]
 mod boxed {
+    extern crate alloc;
+
     use crate::{FuncMap, TryFuncMap};
 
+    use alloc::boxed::Box;
+
     impl<A, B> FuncMap<A, B> for Box<A> {
         type Output = Box<B>;
 
@@ -354,7 +358,7 @@ mod vec {
 
     use crate::{FuncMap, TryFuncMap};
 
-    use alloc::vec;
+    use alloc::vec::{self, Vec};
 
     impl<A, B> FuncMap<A, B> for Vec<A> {
         type Output = Vec<B>;
-- 
2.43.0

