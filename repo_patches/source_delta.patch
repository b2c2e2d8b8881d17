From 3aeb9333383b73c91971fed4058f421714a15257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 01/33] fix: use mutable accessor's own arguments for get_mut
 of sync and async fields

Visibility, attributes and span of the generated mutable accessor were taken
from the immutable accessor (`get`) arguments.
---
 fieldx_derive/src/codegen/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 5c5ce7e..d6c0c14 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -311,11 +311,11 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_accessor_mut(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         Ok(if fctx.needs_accessor_mut() {
             let ident = fctx.ident_tok();
-            let vis_tok = fctx.vis_tok(FXHelperKind::Accessor);
+            let vis_tok = fctx.vis_tok(FXHelperKind::AccessorMut);
             let accessor_name = self.accessor_mut_name(fctx)?;
             let ty = fctx.ty();
-            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Accessor, FXInlining::Always);
-            let span = self.helper_span(fctx, FXHelperKind::Accessor);
+            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::AccessorMut, FXInlining::Always);
+            let span = self.helper_span(fctx, FXHelperKind::AccessorMut);
             let read_method = self.read_method_name(fctx, true, &span);
 
             if fctx.is_lazy() {
-- 
2.43.0


From 6d0802d72760c11a03503f72308567e6a6f14c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 02/33] fix: honor field-level mode(async)

The field was treated as a plain one, unlike with the r#async keyword or with
the struct-level mode(async).
---
 fieldx_derive/src/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 8cc5a8c..dc0b0e9 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -218,7 +218,7 @@ impl FXFieldReceiver {
         self.mode_sync
             .as_ref()
             .map(|th| th.is_true())
-            .or_else(|| self.mode.as_ref().map(|m| m.is_sync()))
+            .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
             .or_else(|| self.is_plain().map(|b| !b))
-- 
2.43.0


From 50e5be3ace14d7c36076855ba7219b4ea9801b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 03/33] fix: field-level sync overrides struct-level async

---
 fieldx_derive/src/fields.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index dc0b0e9..4be8715 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -208,6 +208,8 @@ impl FXFieldReceiver {
             .as_ref()
             .map(|th| th.is_true())
             .or_else(|| self.mode.as_ref().map(|m| m.is_async()))
+            // Explicit `sync` overrides struct-level `async`.
+            .or_else(|| self.mode_sync.as_ref().filter(|th| th.is_true()).map(|_| false))
     }
 
     pub fn is_plain(&self) -> Option<bool> {
-- 
2.43.0


From de984e62496bdefdb4b3e24247574c1b0f6099fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 04/33] fix: locked fields of async structs: await the lock in
 get(clone), get(copy) and get_mut

The generated methods did not compile.
---
 fieldx_derive/src/codegen/sync.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index d6c0c14..f528d8e 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -261,11 +261,13 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 }
                 else if fctx.needs_lock() {
                     let ty = self.maybe_optional_ty(fctx, ty);
+                    let async_decl = self.implementor(fctx).async_decl();
+                    let await_call = self.implementor(fctx).await_call();
 
                     quote_spanned![span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty {
-                            let rlock = self.#ident.read() #shortcut;
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty {
+                            let rlock = self.#ident.read() #await_call #shortcut;
                             (*rlock)#cmethod
                         }
                     ]
@@ -345,11 +347,13 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     let lock_span = fctx.lock_span();
                     let wrguard = self.implementor(fctx).rwlock_write_guard();
                     let ty_toks = quote_spanned! [lock_span=> #wrguard<#ty_toks>];
+                    let async_decl = self.implementor(fctx).async_decl();
+                    let await_call = self.implementor(fctx).await_call();
 
                     quote_spanned! [span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty_toks {
-                            self.#ident.write()
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty_toks {
+                            self.#ident.write() #await_call
                         }
                     ]
                 }
-- 
2.43.0


From be2f733ba5bf46f3b7f32e7e5191240e477cc3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 05/33] fix: struct-level fallible affects lazy fields only

Sync fields that are not lazy failed to compile with it.
---
 fieldx_derive/src/ctx/field.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 9371eb3..1e1e806 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -193,10 +193,13 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_fallible(&self) -> bool {
-        self.field
-            .is_fallible()
-            .or_else(|| self.codegen_ctx().args().is_fallible())
-            .unwrap_or(false)
+        // Only lazy builders can be fallible. This matters when `fallible` is declared at the struct level.
+        self.is_lazy()
+            && self
+                .field
+                .is_fallible()
+                .or_else(|| self.codegen_ctx().args().is_fallible())
+                .unwrap_or(false)
     }
 
     #[inline]
-- 
2.43.0


From 8729d637ec910bb87eedf5a86233fbf405951807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 06/33] fix: no deadlock when comparing lock-protected fields
 while a writer is waiting

Acquiring the second read lock blocked behind a pending writer when it is the
same lock (x == x) or when two threads compare crosswise.
---
 fieldx/src/async/fxlock.rs | 20 ++++++++++++++++----
 fieldx/src/sync/fxlock.rs  |  4 +++-
 fieldx/src/sync/fxproxy.rs |  4 +++-
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/fieldx/src/async/fxlock.rs b/fieldx/src/async/fxlock.rs
index 1321bba..ba58071 100644
--- a/fieldx/src/async/fxlock.rs
+++ b/fieldx/src/async/fxlock.rs
@@ -35,10 +35,22 @@ where
     T: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        let myguard = self.0.blocking_read();
-        let otherguard = other.0.blocking_read();
-
-        myguard.eq(&otherguard)
+        // Never queue behind a writer waiting for a lock that is already ours, and always lock in the same order.
+        // Otherwise comparison of an object to itself or two opposite comparisons could deadlock.
+        if std::ptr::eq(self, other) {
+            let guard = self.0.blocking_read();
+            guard.eq(&guard)
+        }
+        else if std::ptr::from_ref(self) < std::ptr::from_ref(other) {
+            let myguard = self.0.blocking_read();
+            let otherguard = other.0.blocking_read();
+            myguard.eq(&otherguard)
+        }
+        else {
+            let otherguard = other.0.blocking_read();
+            let myguard = self.0.blocking_read();
+            myguard.eq(&otherguard)
+        }
     }
 }
 
diff --git a/fieldx/src/sync/fxlock.rs b/fieldx/src/sync/fxlock.rs
index d7bf6e5..5af03f9 100644
--- a/fieldx/src/sync/fxlock.rs
+++ b/fieldx/src/sync/fxlock.rs
@@ -26,7 +26,9 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.0.read();
-        let otherguard = other.0.read();
+        // Either lock may be the one we already own, or be owned by a thread that is comparing the other way around. A
+        // pending writer must not block us then.
+        let otherguard = other.0.read_recursive();
 
         myguard.eq(&otherguard)
     }
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index 4764596..5f42396 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -263,7 +263,9 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.value.read();
-        let otherguard = other.value.read();
+        // Either lock may be the one we already own, or be owned by a thread that is comparing the other way around. A
+        // pending writer must not block us then.
+        let otherguard = other.value.read_recursive();
         myguard.eq(&otherguard)
     }
 }
-- 
2.43.0


From da42f432d1d1e47bc6af6731a2336be7c4fd34a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:42 +0000
Subject: [PATCH 07/33] fix: read guards of an initialized async lazy field can
 be shared

Getters were requesting the exclusive lock, so holding one read guard was
blocking any other reader, including the same task.
---
 fieldx/src/async/fxproxy.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index 1206c29..812c56a 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -165,10 +165,18 @@ where
         Ok(guard)
     }
 
+    async fn read_if_set<'a>(&'a self) -> Option<RwLockReadGuard<'a, B::Value>> {
+        RwLockReadGuard::try_map(self.value.read().await, |data: &Option<B::Value>| data.as_ref()).ok()
+    }
+
     /// Lazy-initialize the field if necessary and return lock read guard for the inner value.
     ///
     /// Panics if fallible field builder returns an error.
     pub async fn read<'a>(&'a self, owner: &B::Owner) -> RwLockReadGuard<'a, B::Value> {
+        // Don't request the exclusive lock from an initialized field: other read guards may be alive.
+        if let Some(guard) = self.read_if_set().await {
+            return guard;
+        }
         RwLockReadGuard::map(
             RwLockWriteGuard::downgrade(self.read_or_init(owner).await.unwrap()),
             |data: &Option<B::Value>| data.as_ref().unwrap(),
@@ -189,6 +197,9 @@ where
     ///
     /// Return the same error, as fallible field builder if it errors out.
     pub async fn try_read<'a>(&'a self, owner: &B::Owner) -> Result<RwLockReadGuard<'a, B::Value>, B::Error> {
+        if let Some(guard) = self.read_if_set().await {
+            return Ok(guard);
+        }
         Ok(RwLockReadGuard::map(
             RwLockWriteGuard::downgrade(self.read_or_init(owner).await?),
             |data: &Option<B::Value>| data.as_ref().unwrap(),
-- 
2.43.0


From ac1d82a9dbed6844dc64c52828622625abd7bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 08/33] fix: field with serde(serialize(off)) compiles

The field remains in the shadow struct for the sake of deserialization but was
missing when the shadow is created from the original.
---
 fieldx_derive/src/codegen/serde.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index a95f6b5..8489538 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -403,9 +403,10 @@ impl FXRewriteSerde for super::FXRewriter {
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
                 if let Ok(fctx) = fctx {
-                    if fctx.is_serde() && fctx.needs_serialize() {
+                    // A field which is only excluded from serialization is still a part of the shadow struct.
+                    if fctx.is_serde() {
                         let field_ident = fctx.ident_tok();
-                        let is_lazy = fctx.is_lazy();
+                        let is_lazy = fctx.is_lazy() && fctx.needs_serialize();
 
                         ctx.exec_or_record(|| {
                             let cgen = self.field_codegen(&fctx)?;
-- 
2.43.0


From 49d0d398f434e9ef3002aac08143e72310bde9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 09/33] fix: field-level serde("name") renames the field for
 serialization

As it is documented; the name was ignored.
---
 fieldx_derive/src/codegen/serde.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 8489538..381df44 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -99,7 +99,11 @@ pub trait FXCGenSerde: FXCodeGenContextual {
                 serde_attr_args.push(default_arg);
             }
 
-            if let Some(base_name) = fctx.base_name() {
+            // String literal of the field-level `serde` takes precedence over the `rename` argument.
+            if let Some(serde_name) = fctx.serde().as_ref().and_then(|sh| sh.shadow_name()) {
+                serde_attr_args.push(quote![rename = #serde_name]);
+            }
+            else if let Some(base_name) = fctx.base_name() {
                 let span = base_name.span();
                 let base_name = base_name.to_string();
                 serde_attr_args.push(quote_spanned![span=> rename = #base_name]);
-- 
2.43.0


From c26bef511d197f4447c3fe65ce9a8ff338fd5b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 10/33] fix: struct-level builder(required) doesn't apply to
 fields with builder(off)

Since such a field can't be given a value, build() was always failing.
---
 fieldx_derive/src/codegen/codegen_trait.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 9194a18..8c207b9 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -394,7 +394,8 @@ pub trait FXCodeGenContextual {
     }
 
     fn field_builder_value_required(&self, fctx: &FXFieldCtx) {
-        if fctx.is_builder_required()
+        // There is no way to provide a value for a field without a builder method, even if `required` is the default.
+        if (fctx.is_builder_required() && (fctx.forced_builder() || fctx.needs_builder()))
             || (fctx.needs_builder() && !(fctx.is_lazy() || fctx.is_optional() || fctx.has_default_value()))
         {
             let field_ident = fctx.ident();
-- 
2.43.0


From b22e465df1a8e55923c5925dbee8694f1847919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 11/33] fix: always implement Default, also for structs without
 fields

---
 fieldx_derive/src/codegen.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index f3eada7..b571b28 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -290,19 +290,13 @@ impl FXRewriter {
         let ident = ctx.input().ident();
         let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
 
-        if !defaults.is_empty() {
-            quote! [
-                impl #impl_generics Default for #ident #type_generics #where_clause {
-                    fn default() -> Self {
-                        Self { #defaults }
-                    }
+        quote! [
+            impl #impl_generics Default for #ident #type_generics #where_clause {
+                fn default() -> Self {
+                    Self { #defaults }
                 }
-            ]
-        }
-        else {
-            // It's already empty, what sense in allocating another copy?
-            defaults
-        }
+            }
+        ]
     }
 
     fn builder_struct_visibility(&self) -> TokenStream {
-- 
2.43.0


From 20ecbcaf62b98690460b60d38ce7391186a558ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 12/33] fix: post_build with a custom error type compiles for
 reference-counted structs

---
 fieldx_derive/src/codegen/codegen_trait.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 8c207b9..2eb1ae6 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -253,6 +253,24 @@ pub trait FXCodeGenContextual {
         if args.is_ref_counted() {
             let (rc_type, _) = self.ref_count_types();
             let myself_field = ctx.myself_field();
+            if !post_constuct.is_empty() && ctx.build_has_error_type() {
+                // `?` cannot leave the closure of new_cyclic. Do the post-build first and wrap the outcome.
+                return quote![
+                    {
+                        let mut obj = #self_name {
+                            #myself_field: ::std::default::Default::default(),
+                            #struct_init
+                        }
+                        #post_constuct;
+                        #rc_type::new_cyclic(
+                            |me| {
+                                obj.#myself_field = me.clone();
+                                obj
+                            }
+                        )
+                    }
+                ];
+            }
             quote![
                 #rc_type::new_cyclic(
                     |me| {
-- 
2.43.0


From eb3a438a5b4090e9cc7d97a0680e101b10db0cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 13/33] fix: clearer of an optional sync field without lock
 compiles

---
 fieldx_derive/src/codegen/sync.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index f528d8e..e744aef 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -589,6 +589,16 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     }
                 ]
             }
+            else if !fctx.needs_lock() {
+                // Unprotected optional
+                quote_spanned![span=>
+                    #[inline]
+                    #attributes_fn
+                    #vis_tok fn #clear_name(&mut self) -> ::std::option::Option<#ty> {
+                       self.#ident.take()
+                    }
+                ]
+            }
             else {
                 // If not lazy then it's optional
                 quote_spanned![span=>
-- 
2.43.0


From 78aeb44556e402dca53cfcb62445cb3248f5c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:23 +0000
Subject: [PATCH 14/33] fix: get(as_ref) of an optional sync field without lock
 returns Option of a reference

---
 fieldx_derive/src/codegen/sync.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index e744aef..65bbc71 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -3,7 +3,7 @@ mod impl_sync;
 
 #[cfg(feature = "serde")]
 use crate::codegen::serde::FXCGenSerde;
-use crate::codegen::{FXCodeGenContextual, FXCodeGenCtx, FXFieldCtx, FXHelperKind, FXInlining, FXValueRepr};
+use crate::codegen::{FXAccessorMode, FXCodeGenContextual, FXCodeGenCtx, FXFieldCtx, FXHelperKind, FXInlining, FXValueRepr};
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::rc::Rc;
@@ -294,6 +294,17 @@ impl FXCodeGenContextual for FXCodeGenSync {
             else if is_lazy || fctx.needs_lock() {
                 self.field_reader_method(fctx, FXHelperKind::Accessor)?
             }
+            else if is_optional && matches!(fctx.accessor_mode(), FXAccessorMode::AsRef) {
+                let mode_span = fctx.accessor_mode_span().unwrap_or(span);
+                let ty = self.maybe_optional_ty(fctx, &quote_spanned![mode_span=> &#ty]);
+
+                quote_spanned![span=>
+                    #attributes_fn
+                    #vis_tok fn #accessor_name(&self) -> #ty {
+                        self.#ident.as_ref()
+                    }
+                ]
+            }
             else {
                 let ty = self.fallible_return_type(fctx, &self.maybe_optional_ty(fctx, ty))?;
 
-- 
2.43.0


From 9ff0f23c685199ad9cab0b71a0fdffe5f9af3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 15/33] fix: Self in field defaults of sync structs with a
 builder, and of structs with bounded generics

---
 fieldx_derive/src/codegen/codegen_trait.rs | 2 +-
 fieldx_derive/src/codegen/sync.rs          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 2eb1ae6..b450f70 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -501,7 +501,7 @@ pub trait FXCodeGenContextual {
         let span = tokens.span();
         let mut fixed_tokens = TokenStream::new();
         let struct_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
+        let generics = ctx.struct_generic_params();
 
         for t in tokens.into_iter() {
             match t {
diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 65bbc71..7b421ff 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -410,7 +410,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
         };
 
         Ok(if !fctx.forced_builder() && !fctx.needs_builder() {
-            let default = self.field_value_wrap(fctx, default)?;
+            let default = self.field_default_wrap(fctx)?;
             quote_spanned![span=> #field_ident: #default]
         }
         else if fctx.is_lazy() {
@@ -715,6 +715,6 @@ impl FXCodeGenContextual for FXCodeGenSync {
     }
 
     fn field_default_wrap(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
-        self.field_value_wrap(fctx, self.field_default_value(fctx))
+        self.field_value_wrap(fctx, self.field_default_value(fctx).map(|dv| self.fixup_self_type(dv)))
     }
 }
-- 
2.43.0


From f3691fe92f5d7bf767ed4cfd71abc6123694e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:15 +0000
Subject: [PATCH 16/33] fix: builder of a struct with skipped fields compiles

---
 fieldx_derive/src/codegen.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index b571b28..00f81b3 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -366,6 +366,22 @@ impl FXRewriter {
             }
         }
 
+        // Skipped fields are unknown to the builder, but they must be initialized too.
+        for field in ctx.all_fields().iter().filter(|f| f.is_skipped()) {
+            let Ok(fctx) = ctx.field_ctx(field.clone())
+            else {
+                continue;
+            };
+            let ident = fctx.ident();
+            if ctx.myself_field().map_or(true, |mf| mf != *ident) {
+                let default = ctx.ok_or_empty(
+                    self.field_codegen(&fctx)
+                        .and_then(|fgen| fgen.field_default_wrap(&fctx)),
+                );
+                field_setters.push(quote![ #ident: #default ]);
+            }
+        }
+
         let default_initializer = if use_default && ctx.needs_default() {
             quote![..::std::default::Default::default()]
         }
-- 
2.43.0


From bc8a17096cf8dc9977b1d77d037932934373525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:58 +0000
Subject: [PATCH 17/33] fix: serde support of structs with bounded generic
 parameters

---
 fieldx_derive/src/codegen/serde.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 381df44..20c69a7 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -262,7 +262,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut serde_args: Vec<TokenStream> = vec![];
 
             let serde_helper = args.serde().as_ref().unwrap();
-            let generics = ctx.input().generics();
+            let (_, generics, _) = ctx.input().generics().split_for_impl();
             let shadow_ident = format!("{}{}", ctx.shadow_ident(), generics.to_token_stream());
             let serde_span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
@@ -300,7 +300,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut attrs = vec![];
             let derive_attr = crate::util::derive_toks(&self.serde_derive_traits());
             let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
             let user_attributes = serde_helper.attributes();
 
@@ -313,7 +313,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let default_impl = if ctx.needs_default() {
                 let shadow_defaults = ctx.shadow_defaults();
                 quote_spanned! {span=>
-                    impl #generics ::std::default::Default for #shadow_ident #generics #where_clause {
+                    impl #impl_generics ::std::default::Default for #shadow_ident #ty_generics #where_clause {
                         fn default() -> Self {
                             Self {
                                 #( #shadow_defaults ),*
@@ -348,8 +348,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let struct_ident = ctx.input_ident();
             let shadow_var = ctx.shadow_var_ident();
             let mut fields = vec![];
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, ty_generics, where_clause) = ctx.input().generics().split_for_impl();
             let span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             for field in ctx.all_fields() {
@@ -380,8 +379,8 @@ impl FXRewriteSerde for super::FXRewriter {
             };
 
             ctx.tokens_extend(quote_spanned![span=>
-                impl #generics ::std::convert::From<#shadow_ident #generics> for #struct_ident #generics #where_clause {
-                    fn from(#shadow_var: #shadow_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#shadow_ident #ty_generics> for #struct_ident #ty_generics #where_clause {
+                    fn from(#shadow_var: #shadow_ident #ty_generics) -> Self {
                         Self {
                             #( #fields, )*
                             #init_from_default
@@ -401,8 +400,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut fields = vec![];
             let mut lazy_inits = vec![];
             let me_var = ctx.me_var_ident();
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, ty_generics, where_clause) = ctx.input().generics().split_for_impl();
 
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
@@ -433,8 +431,8 @@ impl FXRewriteSerde for super::FXRewriter {
             }
 
             ctx.tokens_extend(quote![
-                impl #generics ::std::convert::From<#struct_ident #generics> for #shadow_ident #generics #where_clause {
-                    fn from(mut #me_var: #struct_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#struct_ident #ty_generics> for #shadow_ident #ty_generics #where_clause {
+                    fn from(mut #me_var: #struct_ident #ty_generics) -> Self {
                         #( #lazy_inits )*
                         Self {
                             #( #fields, )*
@@ -516,7 +514,7 @@ impl FXRewriteSerde for super::FXRewriter {
                     quote_spanned![default_span=> #default_code]
                 };
 
-                let generics = ctx.input().generics();
+                let (_, generics, _) = ctx.input().generics().split_for_impl();
                 let shadow_ident = ctx.shadow_ident();
                 let fn_ident = ctx.unique_ident_pfx(&format!("{}_default", shadow_ident.to_string()));
                 ctx.add_method_decl(quote_spanned![default_span=>
-- 
2.43.0


From 0b7f0c32f088556f643fe6f08ae1eadac1125423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:58 +0000
Subject: [PATCH 18/33] fix: builder of structs with bounds or defaults on
 generic parameters

---
 fieldx_derive/src/codegen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 00f81b3..bf9216d 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -324,8 +324,7 @@ impl FXRewriter {
         let builder_ident = ctx.builder_ident();
         let builders = ctx.builders_combined();
         let input_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
-        let where_clause = &generics.where_clause;
+        let (impl_generics, _, where_clause) = ctx.input().generics().split_for_impl();
         let generic_params = ctx.struct_generic_params();
         let attributes = ctx.args().builder_impl_attributes();
         let post_build_ident = ctx.builder_post_build_ident();
@@ -418,7 +417,7 @@ impl FXRewriter {
 
         quote![
             #attributes
-            impl #generics #builder_ident #generic_params
+            impl #impl_generics #builder_ident #generic_params
             #where_clause
             {
                 #fn_new
@@ -450,7 +449,8 @@ impl FXRewriter {
                 let (_, weak_type) = cgen.ref_count_types();
                 let mf = ctx.myself_field();
                 let input_ident = ctx.input_ident();
-                quote![#mf: #weak_type<#input_ident #generics>,]
+                let (_, ty_generics, _) = generics.split_for_impl();
+                quote![#mf: #weak_type<#input_ident #ty_generics>,]
             }
             else {
                 quote![]
-- 
2.43.0


From e8a6b62737add97c6763093a4506c48c5439a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:58 +0000
Subject: [PATCH 19/33] fix: serialization of an optional field without lock in
 a sync struct

---
 fieldx_derive/src/codegen/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 7b421ff..86e79d3 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -460,7 +460,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_from_struct(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         let field_ident = fctx.ident_tok();
         let me_var = self.ctx().me_var_ident();
-        Ok(if self.is_serde_optional(fctx) || fctx.needs_lock() {
+        Ok(if fctx.is_lazy() || fctx.needs_lock() {
             quote![ #me_var.#field_ident.into_inner() ]
         }
         else {
-- 
2.43.0


From aa4547199acaa7340d1c7c2c1c84fee7ecdb630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 20/33] fix: skipped fields of sync structs with struct-level
 reader, writer, or lock

---
 fieldx_derive/src/ctx/field.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 1e1e806..fb05f82 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -149,10 +149,12 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn needs_lock(&self) -> bool {
-        self.field
-            .needs_lock()
-            .or_else(|| self.codegen_ctx().args().needs_lock())
-            .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+        !self.is_skipped()
+            && self
+                .field
+                .needs_lock()
+                .or_else(|| self.codegen_ctx().args().needs_lock())
+                .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
     }
 
     #[cfg(feature = "serde")]
-- 
2.43.0


From f5d43fe06bb2cdd99b941c5d1f20302104611aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 21/33] fix: copy(off) and clone(off) must not make plain
 accessors cloning

---
 fieldx_derive/src/ctx/field.rs | 40 ++++++++++++++--------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index fb05f82..22a434d 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -267,30 +267,22 @@ impl FXFieldCtx {
     }
 
     pub fn accessor_mode(&self) -> FXAccessorMode {
-        self.field
-            .accessor_mode()
-            .or_else(|| {
-                self.field.is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
-            .or_else(|| self.codegen_ctx.args().accessor_mode())
-            .or_else(|| {
-                self.codegen_ctx.args().is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
-            .unwrap_or(FXAccessorMode::None)
+        self.field.accessor_mode().unwrap_or_else(|| {
+            // `copy(off)` and `clone(off)` only cancel what is set at the struct level, they don't choose any mode.
+            if self.is_copy() {
+                FXAccessorMode::Copy
+            }
+            else if self.is_clone() {
+                FXAccessorMode::Clone
+            }
+            else {
+                self.codegen_ctx
+                    .args()
+                    .accessor_mode()
+                    .filter(|mode| *mode == FXAccessorMode::AsRef)
+                    .unwrap_or(FXAccessorMode::None)
+            }
+        })
     }
 
     pub fn default_value(&self) -> Option<&NestedMeta> {
-- 
2.43.0


From 081629d07f5e0b21229f646aad83a88f2835021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 22/33] fix: no builder method for fields with builder(off) or
 skip

---
 fieldx_derive/src/ctx/field.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 22a434d..e5afb91 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -7,7 +7,7 @@ use darling::ast::NestedMeta;
 use delegate::delegate;
 #[cfg(feature = "serde")]
 use fieldx_aux::FXSerde;
-use fieldx_aux::{FXAccessorMode, FXAttributes, FXBool, FXBuilder, FXHelperTrait, FXOrig, FXPubMode};
+use fieldx_aux::{FXAccessorMode, FXAttributes, FXBool, FXBuilder, FXHelperTrait, FXOrig, FXPubMode, FXTriggerHelper};
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, ToTokens};
 use std::{
@@ -175,7 +175,11 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn forced_builder(&self) -> bool {
-        self.builder().as_ref().map_or(false, |b| b.name().is_some())
+        !self.is_skipped()
+            && self
+                .builder()
+                .as_ref()
+                .map_or(false, |b| b.is_true() && b.name().is_some())
     }
 
     #[inline]
-- 
2.43.0


From 26fc0444f4382ec4b708fb8925630022fd4cb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 23/33] fix: inner_mut(off) must not make a field sync

---
 fieldx_derive/src/fields.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 4be8715..af22be9 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -223,7 +223,8 @@ impl FXFieldReceiver {
             .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
-            .or_else(|| self.is_plain().map(|b| !b))
+            // `inner_mut(off)` doesn't make the field sync.
+            .or_else(|| self.is_plain().filter(|is_plain| *is_plain).map(|_| false))
             .or_else(|| {
                 // Setting reader or writer to off doesn't mean the field becomes plain. It's better be decided at the
                 // struct level then.
-- 
2.43.0


From 06be07e05afb57734419d506d8704846f6d51fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:23 +0000
Subject: [PATCH 24/33] fix: no Copy requirement for skipped fields of structs
 with get(copy)

---
 fieldx_derive/src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index bf9216d..96c601e 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -187,7 +187,7 @@ impl FXRewriter {
     fn prepare_field(&self, fctx: Ref<FXFieldCtx>) -> darling::Result<()> {
         let ctx = self.ctx();
 
-        if fctx.needs_accessor() && fctx.is_copy() {
+        if !fctx.is_skipped() && fctx.needs_accessor() && fctx.is_copy() {
             ctx.add_for_copy_trait_check(&fctx);
         }
 
-- 
2.43.0


From 82cd6a03d229b725bbad58ea0c5faca9fb9121a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 25/33] fix: skipped fields retain their type in structs with
 inner_mut

---
 fieldx_derive/src/fields.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index af22be9..0523db9 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -301,7 +301,12 @@ impl FXFieldReceiver {
 
     #[inline]
     pub fn is_inner_mut(&self) -> Option<bool> {
-        self.inner_mut.is_true_opt()
+        if self.is_skipped() {
+            Some(false)
+        }
+        else {
+            self.inner_mut.is_true_opt()
+        }
     }
 
     #[inline]
-- 
2.43.0


From 83133d53da4ecaeb442c9a677402da6dc44e5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 26/33] fix: builder of structs with rc(off)

---
 fieldx_derive/src/ctx/codegen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index 8edbd32..d23b5cc 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -423,6 +423,10 @@ impl FXCodeGenCtx {
     }
 
     pub fn myself_names(&self) -> Option<(Ident, Ident)> {
+        if !self.args().is_ref_counted() {
+            return None;
+        }
+
         self.args().rc().as_ref().map(|rc_helper| {
             let myself_name = rc_helper.name().unwrap_or("myself");
             (
-- 
2.43.0


From 5d18bf1acb34796d361f0b32ba2ca741346c5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:02 +0000
Subject: [PATCH 27/33] fix: accessors and builder setters of fields with raw
 identifiers

---
 fieldx_derive/src/codegen/codegen_trait.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index b450f70..18ad0bb 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -135,6 +135,11 @@ pub trait FXCodeGenContextual {
             .unwrap_or("");
         let suffix = helper_kind.default_suffix().unwrap_or("");
 
+        if prefix.is_empty() && suffix.is_empty() {
+            // The name must remain raw (`r#type`) if the field's one is.
+            return Ok(helper_base_name);
+        }
+
         Ok(format_ident!(
             "{}{}{}",
             prefix,
-- 
2.43.0


From 6e14ab3a32c44fcbfa5e7d185ddc73aaeeae81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:57 +0000
Subject: [PATCH 28/33] fix: serde support of fields with raw identifiers

---
 fieldx_derive/src/ctx/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index d23b5cc..c1da39b 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -374,7 +374,8 @@ impl FXCodeGenCtx {
     pub fn unique_ident_pfx(&self, prefix: &str) -> syn::Ident {
         let new_count = *self.unique_id.borrow() + 1;
         let _ = self.unique_id.replace(new_count);
-        format_ident!("{}_{}", prefix, new_count)
+        // The names a prefix is made of may be raw identifiers.
+        format_ident!("{}_{}", prefix.replace("r#", ""), new_count)
     }
 
     #[allow(dead_code)]
-- 
2.43.0


From 8d92d2c4c2e1d375f9a77b50bcc7f1ab1e9b707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:44 +0000
Subject: [PATCH 29/33] fix: attributes*() arguments accept attributes with
 punctuation inside, like paths or name = value

---
 fieldx_aux/src/attributes.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fieldx_aux/src/attributes.rs b/fieldx_aux/src/attributes.rs
index bf7298a..9b618a2 100644
--- a/fieldx_aux/src/attributes.rs
+++ b/fieldx_aux/src/attributes.rs
@@ -28,13 +28,13 @@ impl FromMeta for FXAttributes {
         match input {
             Meta::List(ref ml) => {
                 let ml_chunks: Vec<TokenStream> = vec![TokenStream::new()];
-                // Split the incoming tokenstream into chunks separated by Puncts (i.e. by commas)
+                // Split the incoming tokenstream into chunks separated by commas
                 let mut ml_chunks = ml.tokens.clone().into_iter().fold(ml_chunks, |mut mlc, item| {
-                    if let proc_macro2::TokenTree::Punct(_) = item {
-                        mlc.push(TokenStream::new());
-                    }
-                    else {
-                        mlc.last_mut().unwrap().extend([item]);
+                    match item {
+                        proc_macro2::TokenTree::Punct(ref punct) if punct.as_char() == ',' => {
+                            mlc.push(TokenStream::new());
+                        }
+                        _ => mlc.last_mut().unwrap().extend([item]),
                     }
                     mlc
                 });
-- 
2.43.0


From 6ed60a990795ebcd3ccfb29cd5eeed0d10dc57ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:11 +0000
Subject: [PATCH 30/33] fix: struct-level attributes are the fallback of the
 serde shadow struct, not of its fields

---
 fieldx_derive/src/codegen/serde.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 20c69a7..e5fdae5 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -148,8 +148,7 @@ pub trait FXCGenSerde: FXCodeGenContextual {
         let user_attrs = fctx
             .serde()
             .as_ref()
-            .and_then(|serde_helper| serde_helper.attributes().as_ref())
-            .or_else(|| self.ctx().args().attributes().as_ref());
+            .and_then(|serde_helper| serde_helper.attributes().as_ref());
         let ty = self.serde_shadow_field_type(fctx);
 
         self.ctx().add_shadow_field_decl(quote_spanned! [*fctx.span()=>
@@ -302,7 +301,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let generics = ctx.input().generics();
             let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
-            let user_attributes = serde_helper.attributes();
+            let user_attributes = serde_helper.attributes().as_ref().or_else(|| args.attributes().as_ref());
 
             attrs.push(derive_attr);
 
-- 
2.43.0


From f424e7678e47610287eb432015fea3a044bdc924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:23 +0000
Subject: [PATCH 31/33] fix: struct-level forward_attrs applies to fields with
 a serde argument of their own

---
 fieldx_derive/src/codegen/serde.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index e5fdae5..81a187b 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -21,8 +21,13 @@ pub trait FXCGenSerde: FXCodeGenContextual {
     }
 
     fn filter_shadow_attributes<'a>(&'a self, fctx: &'a FXFieldCtx) -> impl Iterator<Item = &'a syn::Attribute> {
-        // Only use `serde` attribute and those listed in forward_attrs
-        let serde_helper = fctx.serde().as_ref().or_else(|| self.ctx().args().serde().as_ref());
+        // Only use `serde` attribute and those listed in forward_attrs. The struct-level list is in effect for the fields
+        // with no list of their own.
+        let serde_helper = fctx
+            .serde()
+            .as_ref()
+            .filter(|sh| sh.forward_attrs().is_some())
+            .or_else(|| self.ctx().args().serde().as_ref());
         fctx.attrs()
             .iter()
             .filter(move |a| a.path().is_ident("serde") || serde_helper.map_or(false, |sh| sh.accepts_attr(a)))
-- 
2.43.0


From 9cb7c0ee7ab1606cf7bafe0b17b316f0ca8b45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:02 +0000
Subject: [PATCH 32/33] fix: arguments of skipped fields don't affect the
 struct

---
 fieldx_derive/src/ctx/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index c1da39b..c7ed09e 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -260,7 +260,7 @@ impl FXCodeGenCtx {
         *self.needs_builder_struct.borrow_mut().get_or_init(|| {
             self.args.needs_builder().unwrap_or_else(|| {
                 let mut builder_required = false;
-                for field in self.input().fields() {
+                for field in self.input().fields().iter().filter(|f| !f.is_skipped()) {
                     if let Some(needs) = field.needs_builder() {
                         if needs {
                             let _ = self.is_builder_opt_in.borrow_mut().set(true);
@@ -443,7 +443,7 @@ impl FXCodeGenCtx {
         *self.is_rather_sync.borrow_mut().get_or_init(|| {
             self.args.is_sync().map_or_else(
                 || {
-                    for field in self.all_fields() {
+                    for field in self.all_fields().iter().filter(|f| !f.is_skipped()) {
                         if let Some(is_sync) = field.is_sync() {
                             return is_sync;
                         }
-- 
2.43.0


From 01517f3bc647733eac093909d47b01dc4840978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:54 +0000
Subject: [PATCH 33/33] fix: setter of a plain lazy field lost the value when
 the conversion panicked

---
 fieldx_derive/src/codegen/plain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index bc78fc2..6eb7831 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -252,8 +252,10 @@ impl FXCodeGenContextual for FXCodeGenPlain {
                 quote_spanned![span=>
                     #attributes_fn
                     #vis_tok fn #setter_name #gen_params(&mut self, value: #val_type) -> ::std::option::Option<#ty_tok> {
+                        // The conversion may panic, the field must still have its value then.
+                        let value: #ty_tok = value #into_tok;
                         let old = self.#ident.take();
-                        let _ = self.#ident.set(value #into_tok);
+                        let _ = self.#ident.set(value);
                         old
                     }
                 ]
-- 
2.43.0

