From 64d2db968cef4af6e0ef3db4bf08d92bd8b96a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:44 +0000
Subject: [PATCH 01/34] fix: times(..0) is a backwards range

Like times(0..0), it allows no number of calls at all.  It wasn't
rejected, and underflowed at the first call instead.
---
 mockall/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 88b33dc..9a778f4 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1556,6 +1556,7 @@ impl From<RangeInclusive<usize>> for TimesRange {
 
 impl From<RangeTo<usize>> for TimesRange {
     fn from(r: RangeTo<usize>) -> TimesRange {
+        assert!(r.end > 0, "Backwards range");
         TimesRange(0..r.end)
     }
 }
-- 
2.43.0


From ab68b5783ea363b409511f11e1684798cc97bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:44 +0000
Subject: [PATCH 02/34] fix: call counts up to usize::MAX overflowed

times(usize::MAX), times(1..=usize::MAX) and times(..=usize::MAX) added
one to the greatest usize.  Let the range saturate instead: that many
calls can't be made.
---
 mockall/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 9a778f4..56c4ecc 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1524,7 +1524,7 @@ impl Default for TimesRange {
 
 impl From<usize> for TimesRange {
     fn from(n: usize) -> TimesRange {
-        TimesRange(n..(n+1))
+        TimesRange(n..n.saturating_add(1))
     }
 }
 
@@ -1550,7 +1550,7 @@ impl From<RangeFull> for TimesRange {
 impl From<RangeInclusive<usize>> for TimesRange {
     fn from(r: RangeInclusive<usize>) -> TimesRange {
         assert!(r.end() >= r.start(), "Backwards range");
-        TimesRange(*r.start()..*r.end() + 1)
+        TimesRange(*r.start()..r.end().saturating_add(1))
     }
 }
 
@@ -1563,7 +1563,7 @@ impl From<RangeTo<usize>> for TimesRange {
 
 impl From<RangeToInclusive<usize>> for TimesRange {
     fn from(r: RangeToInclusive<usize>) -> TimesRange {
-        TimesRange(0..r.end + 1)
+        TimesRange(0..r.end.saturating_add(1))
     }
 }
 
@@ -1620,7 +1620,7 @@ impl Times {
     /// Is it required that this expectation be called an exact number of times,
     /// or may it be satisfied by a range of call counts?
     pub fn is_exact(&self) -> bool {
-        (self.range.0.end - self.range.0.start) == 1
+        (self.range.0.end - self.range.0.start) <= 1
     }
 
     /// Has this expectation already been called the expected number of times?
@@ -1650,7 +1650,7 @@ impl Times {
     // https://github.com/rust-lang/rust-clippy/issues/3307
     #[allow(clippy::range_plus_one)]
     pub fn n(&mut self, n: usize) {
-        self.range.0 = n..(n+1);
+        self.range.0 = n..n.saturating_add(1);
     }
 
     pub fn never(&mut self) {
-- 
2.43.0


From 126ded99270e78f473642337cb8656801cf5f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:44 +0000
Subject: [PATCH 03/34] fix: times(0) in a Sequence blocked what follows

A handle is only satisfied by a call, so an expectation of exactly zero
calls left the Sequence stuck for ever: no later method could be
called.
---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3a7a484..03f6246 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -972,7 +972,11 @@ impl ToTokens for Common<'_> {
                 {
                     assert!(self.times.is_exact(),
                         "Only Expectations with an exact call count have sequences");
-                    self.seq_handle = Some(__mockall_seq.next_handle());
+                    // An expectation that must never be called is satisfied
+                    // from the start.  It must not hold up the others.
+                    if self.times.maximum() > 0 {
+                        self.seq_handle = Some(__mockall_seq.next_handle());
+                    }
                     self
                 }
 
-- 
2.43.0


From a67b9480ea5f2a7ef1526e38c44821cab8fe9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:02 +0000
Subject: [PATCH 04/34] fix: a return_once_st called from another thread
 aborted

Unwrapping the closure there panics as it should, but the unwinding then
dropped it on that thread, which panics again.
---
 mockall_derive/src/mock_function.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 03f6246..32b44f1 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1974,7 +1974,10 @@ impl ToTokens for StaticRfunc<'_> {
                                 unreachable!()
                             }
                         },
-                        Rfunc::OnceSt(_) => {
+                        Rfunc::OnceSt(__mockall_f) => {
+                            // Panic now if this is the wrong thread.  Dropping
+                            // the closure there would panic again, and abort.
+                            let _ = __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
                                 mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
-- 
2.43.0


From 8488de18ef2412e57182800518b778c23384c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 05/34] fix: mock foreign functions of every non-unwinding ABI
 as unwinding

A foreign block without an ABI name, or with one like "system", declares
functions that cannot unwind.  So any panic in the mock, for example because
of an unmet expectation, aborted the whole process.
---
 mockall_derive/src/mock_item.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index f31f7a5..b798698 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -97,18 +97,21 @@ impl From<MockableModule> for MockItemModule {
                             // for proper function linkage with external code.
                             //
                             // BUT, use C-unwind instead of C, so we can panic
-                            // from the mock function (rust-lang/rust #74990)
-                            let needs_c_unwind = if let Some(n) = &ifm.abi.name
-                            {
-                                n.value() == "C"
-                            } else {
-                                false
-                            };
-                            f.sig.abi = Some(if needs_c_unwind {
+                            // from the mock function (rust-lang/rust #74990).
+                            // "C" is also the default.  And likewise for the
+                            // other ABIs that can't unwind.
+                            let name = ifm.abi.name.as_ref()
+                                .map_or("C".to_owned(), |n| n.value());
+                            let needs_unwind = matches!(&name[..],
+                                "C" | "system" | "cdecl" | "stdcall" |
+                                "fastcall" | "thiscall" | "aapcs" | "win64" |
+                                "sysv64");
+                            f.sig.abi = Some(if needs_unwind {
+                                let span = ifm.abi.name.span();
                                 Abi {
-                                    extern_token:ifm.abi.extern_token,
-                                    name: Some(LitStr::new("C-unwind",
-                                                           ifm.abi.name.span()))
+                                    extern_token: ifm.abi.extern_token,
+                                    name: Some(LitStr::new(
+                                        &format!("{name}-unwind"), span))
                                 }
                             } else {
                                 ifm.abi.clone()
-- 
2.43.0


From eed930f701bd0610197122a2dcdd4bd860931818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 06/34] fix: resolve Self and associated types in function
 types and bounds

Self in a function pointer or Fn() type was left alone and so named one of
the private structs of the expectation module.  Self and associated types in
the bounds of a method's own generic parameters weren't replaced either.  In
each case the generated code didn't compile.
---
 mockall_derive/src/automock.rs        | 41 +++++++++++++++
 mockall_derive/src/lib.rs             | 75 +++++++++++++++++++++++----
 mockall_derive/src/mockable_struct.rs |  3 ++
 3 files changed, 108 insertions(+), 11 deletions(-)

diff --git a/mockall_derive/src/automock.rs b/mockall_derive/src/automock.rs
index f1e633f..5a5f8a5 100644
--- a/mockall_derive/src/automock.rs
+++ b/mockall_derive/src/automock.rs
@@ -48,6 +48,7 @@ impl Attrs {
         for item in item_impl.items.iter_mut() {
             if let ImplItem::Fn(method) = item {
                 let sig = &mut method.sig;
+                self.substitute_generics(&mut sig.generics, &trait_ident);
                 for fn_arg in sig.inputs.iter_mut() {
                     if let FnArg::Typed(arg) = fn_arg {
                         self.substitute_type(&mut arg.ty, &trait_ident);
@@ -60,6 +61,45 @@ impl Attrs {
         }
     }
 
+    /// Substitute types in the bounds of a method's own generic parameters
+    fn substitute_generics(&self, generics: &mut Generics, traitname: &Ident) {
+        for param in generics.params.iter_mut() {
+            if let GenericParam::Type(tp) = param {
+                self.substitute_generic_bounds(&mut tp.bounds, traitname);
+            }
+        }
+        if let Some(wc) = &mut generics.where_clause {
+            for pred in wc.predicates.iter_mut() {
+                if let WherePredicate::Type(pt) = pred {
+                    self.substitute_type(&mut pt.bounded_ty, traitname);
+                    self.substitute_generic_bounds(&mut pt.bounds, traitname);
+                }
+            }
+        }
+    }
+
+    fn substitute_generic_bounds(
+        &self,
+        bounds: &mut Punctuated<TypeParamBound, Token![+]>,
+        traitname: &Ident)
+    {
+        for bound in bounds.iter_mut() {
+            let TypeParamBound::Trait(t) = bound else { continue };
+            for seg in t.path.segments.iter_mut() {
+                if let PathArguments::Parenthesized(p) = &mut seg.arguments {
+                    for ty in p.inputs.iter_mut() {
+                        self.substitute_type(ty, traitname);
+                    }
+                    if let ReturnType::Type(_, ty) = &mut p.output {
+                        self.substitute_type(ty, traitname);
+                    }
+                } else {
+                    self.substitute_path_segment(seg, traitname);
+                }
+            }
+        }
+    }
+
     fn substitute_path_segment(&self, seg: &mut PathSegment, traitname: &Ident)
     {
         match &mut seg.arguments {
@@ -232,6 +272,7 @@ impl Attrs {
                 },
                 TraitItem::Fn(method) => {
                     let sig = &mut method.sig;
+                    self.substitute_generics(&mut sig.generics, &item.ident);
                     for fn_arg in sig.inputs.iter_mut() {
                         if let FnArg::Typed(arg) = fn_arg {
                             self.substitute_type(&mut arg.ty, &item.ident);
diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 77f7cbc..77f1e3a 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -573,15 +573,63 @@ fn deselfify_path(path: &mut Path, actual: &Ident, generics: &Generics) {
                     "Type arguments after Self are unexpected");
             }
         }
-        if let PathArguments::AngleBracketed(abga) = &mut seg.arguments
-        {
-            for arg in abga.args.iter_mut() {
-                match arg {
-                    GenericArgument::Type(ty) =>
-                        deselfify(ty, actual, generics),
-                    GenericArgument::AssocType(at) =>
-                        deselfify(&mut at.ty, actual, generics),
-                    _ => /* Nothing to do */(),
+        match &mut seg.arguments {
+            PathArguments::AngleBracketed(abga) => {
+                for arg in abga.args.iter_mut() {
+                    match arg {
+                        GenericArgument::Type(ty) =>
+                            deselfify(ty, actual, generics),
+                        GenericArgument::AssocType(at) =>
+                            deselfify(&mut at.ty, actual, generics),
+                        _ => /* Nothing to do */(),
+                    }
+                }
+            },
+            PathArguments::Parenthesized(pga) => {
+                for ty in pga.inputs.iter_mut() {
+                    deselfify(ty, actual, generics);
+                }
+                if let ReturnType::Type(_, ty) = &mut pga.output {
+                    deselfify(ty, actual, generics);
+                }
+            },
+            PathArguments::None => /* Nothing to do */(),
+        }
+    }
+}
+
+fn deselfify_bounds(
+    bounds: &mut Punctuated<TypeParamBound, Token![+]>,
+    actual: &Ident,
+    generics: &Generics)
+{
+    for bound in bounds.iter_mut() {
+        if let TypeParamBound::Trait(t) = bound {
+            deselfify_path(&mut t.path, actual, generics);
+        }
+    }
+}
+
+/// Change any `Self` in the bounds of a method's own generic parameters with
+/// `actual`.  But don't touch bounds on `Self` itself.
+/// `generics` is the Generics field of the parent struct.
+fn deselfify_generics(
+    method_generics: &mut Generics,
+    actual: &Ident,
+    generics: &Generics)
+{
+    for param in method_generics.params.iter_mut() {
+        if let GenericParam::Type(tp) = param {
+            deselfify_bounds(&mut tp.bounds, actual, generics);
+        }
+    }
+    if let Some(wc) = &mut method_generics.where_clause {
+        let self_ty: Type = parse2(quote!(Self)).unwrap();
+        for pred in wc.predicates.iter_mut() {
+            if let WherePredicate::Type(pt) = pred {
+                if pt.bounded_ty != self_ty {
+                    deselfify(&mut pt.bounded_ty, actual, generics);
+                    deselfify_bounds(&mut pt.bounds, actual, generics);
                 }
             }
         }
@@ -637,8 +685,13 @@ fn deselfify(literal_type: &mut Type, actual: &Ident, generics: &Generics) {
         Type::ImplTrait(_) => {
             /* Should've already been flagged as a compile_error */
         },
-        Type::BareFn(_) => {
-            /* Bare functions can't have Self arguments.  Nothing to do */
+        Type::BareFn(bfn) => {
+            for arg in bfn.inputs.iter_mut() {
+                deselfify(&mut arg.ty, actual, generics);
+            }
+            if let ReturnType::Type(_, ty) = &mut bfn.output {
+                deselfify(ty, actual, generics);
+            }
         },
         Type::Infer(_) | Type::Never(_) =>
         {
diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 108923c..87e0da7 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -15,6 +15,7 @@ use crate::{
     demutify,
     deselfify,
     deselfify_args,
+    deselfify_generics,
     dewhereselfify,
     find_ident_from_path,
     gen_mock_ident,
@@ -162,6 +163,7 @@ fn mockable_method(meth: &mut ImplItemFn, name: &Ident, generics: &Generics)
     add_lifetime_parameters(&mut meth.sig);
     deimplify(&mut meth.sig.output);
     dewhereselfify(&mut meth.sig.generics);
+    deselfify_generics(&mut meth.sig.generics, name, generics);
     if let ReturnType::Type(_, ty) = &mut meth.sig.output {
         deselfify(ty, name, generics);
         deanonymize(ty);
@@ -180,6 +182,7 @@ fn mockable_trait_method(
     add_lifetime_parameters(&mut meth.sig);
     deimplify(&mut meth.sig.output);
     dewhereselfify(&mut meth.sig.generics);
+    deselfify_generics(&mut meth.sig.generics, name, generics);
     if let ReturnType::Type(_, ty) = &mut meth.sig.output {
         deselfify(ty, name, generics);
         deanonymize(ty);
-- 
2.43.0


From 70a9493ae68a577fd1feaf435b7c89e4cb8fe7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:21 +0000
Subject: [PATCH 07/34] fix: super:: in the bounds and output of an expect_
 method's signature

---
 mockall_derive/src/mock_function.rs | 37 +++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 32b44f1..184cbcf 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -261,7 +261,6 @@ impl<'a> Builder<'a> {
                 (output_ty, boxed)
             }
         };
-        supersuperfy_generics(&mut declosured_generics, self.levels);
         let owned_output = ownify(&output);
         let mut return_ref = false;
         let mut return_refmut = false;
@@ -280,8 +279,30 @@ impl<'a> Builder<'a> {
             compile_error(self.sig.span(),
                 "Mockall cannot mock static methods that return non-'static references.  It's unclear what the return value's lifetime should be.");
         }
-        let struct_generics = self.struct_generics.cloned()
+        let call_levels = self.call_levels.unwrap_or(self.levels);
+        // The expect_ method lives next to the mock function, not in the
+        // private module.
+        let mut expect_generics = declosured_generics.clone();
+        supersuperfy_generics(&mut expect_generics, call_levels);
+        let (expect_generics, _, _) = split_lifetimes(
+            expect_generics,
+            &declosured_inputs,
+            &ReturnType::Type(<Token![->]>::default(),
+                              Box::new(owned_output.clone()))
+        );
+        let expect_owned_output = match self.sig.output {
+            ReturnType::Default => owned_output.clone(),
+            ReturnType::Type(_, ref ty) => {
+                let mut output_ty = supersuperfy(ty, call_levels);
+                destrify(&mut output_ty);
+                dedynify(&mut output_ty);
+                ownify(&output_ty)
+            }
+        };
+        supersuperfy_generics(&mut declosured_generics, self.levels);
+        let mut struct_generics = self.struct_generics.cloned()
             .unwrap_or_default();
+        supersuperfy_generics(&mut struct_generics, self.levels);
         let (type_generics, salifetimes, srlifetimes) = split_lifetimes(
             struct_generics.clone(),
             &declosured_inputs,
@@ -309,7 +330,6 @@ impl<'a> Builder<'a> {
         let fn_params = egenerics.type_params()
             .map(|tp| tp.ident.clone())
             .collect();
-        let call_levels = self.call_levels.unwrap_or(self.levels);
 
         MockFunction {
             alifetimes,
@@ -321,6 +341,8 @@ impl<'a> Builder<'a> {
             call_vis: expectation_visibility(self.vis, call_levels),
             concretize: self.concretize,
             egenerics,
+            expect_generics,
+            expect_owned_output,
             cgenerics,
             fn_params,
             is_static,
@@ -421,6 +443,11 @@ pub(crate) struct MockFunction {
     concretize: bool,
     /// Generics of the Expectation object
     egenerics: Generics,
+    /// Generics of the method that creates the Expectation
+    expect_generics: Generics,
+    /// Like `owned_output`, but as seen from the method that creates the
+    /// Expectation
+    expect_owned_output: Type,
     /// Generics of the Common object
     cgenerics: Generics,
     /// The mock function's generic types as a list of types
@@ -667,12 +694,12 @@ impl MockFunction {
         } else {
             &self.call_generics
         }.split_for_impl();
-        let (ig, _, wc) = self.call_generics.split_for_impl();
+        let (ig, _, wc) = self.expect_generics.split_for_impl();
         let mut wc = wc.cloned();
         if self.is_method_generic() && (self.return_ref || self.return_refmut) {
             // Add Senc + Sync, required for downcast, since Expectation
             // stores an Option<#owned_output>
-            send_syncify(&mut wc, self.owned_output.clone());
+            send_syncify(&mut wc, self.expect_owned_output.clone());
         }
         let tbf = tg.as_turbofish();
         let vis = &self.call_vis;
-- 
2.43.0


From 46399ea7d05dd4cef4fd11c3283abfdf65461dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:26 +0000
Subject: [PATCH 08/34] fix: arguments called no_match_msg or desc collided
 with generated locals

---
 mockall_derive/src/mock_function.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 184cbcf..9b5a374 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -572,7 +572,7 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref {
                         let __mockall_guard = #outer_mod_path::get_expectations()
                             .lock().unwrap();
@@ -584,7 +584,7 @@ impl MockFunction {
                         /* std::panic::catch_unwind(|| */
                         __mockall_guard.#call #tbf(#(#call_exprs,)*)
                         /*)*/
-                    }.expect(&no_match_msg)
+                    }.expect(&__mockall_no_match_msg)
                 }
             )
         } else {
@@ -595,9 +595,9 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref self.#substruct_obj #name.#call #tbf(#(#call_exprs,)*)
-                    .expect(&no_match_msg)
+                    .expect(&__mockall_no_match_msg)
                 }
 
             )
@@ -2129,11 +2129,11 @@ impl ToTokens for RefMutExpectation<'_> {
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(&#desc);
-                    let desc = std::format!(
+                    let __mockall_desc = std::format!(
                         "{}", self.common.matcher.lock().unwrap());
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
-                            panic!("{}: Expectation({}) {}", #funcname, desc,
-                                   m);
+                            panic!("{}: Expectation({}) {}", #funcname,
+                                   __mockall_desc, m);
                     })
                 }
 
-- 
2.43.0


From c9f07c87a7e9f4f93609195251ff29fee78ef44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 09/34] fix: self::super:: in types was resolved in the wrong
 module

---
 mockall_derive/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 77f1e3a..8fe3271 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -950,8 +950,22 @@ fn supersuperfy_path(path: &mut Path, levels: usize) -> usize {
             },
         }
     }
+    let from_self = levels > 0 && path.segments.len() > 1 &&
+        path.leading_colon.is_none() && path.segments[0].ident == "self";
     if let Some(t) = path.segments.first() {
-        if t.ident == "super" {
+        if from_self {
+            // "self" is relative to the same module as the first "super" is.
+            let ident = Ident::new("super", path.segments[0].ident.span());
+            path.segments[0].ident = ident.clone();
+            let ps = PathSegment {
+                ident,
+                arguments: PathArguments::None
+            };
+            for _ in 1..levels {
+                path.segments.insert(0, ps.clone());
+            }
+            levels - 1
+        } else if t.ident == "super" {
             let mut ident = format_ident!("super");
             ident.set_span(path.segments.span());
             let ps = PathSegment {
-- 
2.43.0


From d3d7a8670f58b9b08b46da7591b6817848413a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 10/34] fix: super:: in array lengths and const arguments was
 resolved in the wrong module

---
 mockall_derive/src/lib.rs | 46 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 8fe3271..9e98932 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -933,6 +933,12 @@ fn supersuperfy_path(path: &mut Path, levels: usize) -> usize {
                         GenericArgument::AssocType(ref mut at) => {
                             at.ty = supersuperfy(&at.ty, levels);
                         },
+                        GenericArgument::Const(ref mut expr) => {
+                            supersuperfy_expr(expr, levels);
+                        },
+                        GenericArgument::AssocConst(ref mut ac) => {
+                            supersuperfy_expr(&mut ac.value, levels);
+                        },
                         GenericArgument::Constraint(ref mut constraint) => {
                             supersuperfy_bounds(&mut constraint.bounds, levels);
                         },
@@ -994,6 +1000,7 @@ fn supersuperfy(original: &Type, levels: usize) -> Type {
             },
             Type::Array(a) => {
                 recurse(a.elem.as_mut(), levels);
+                supersuperfy_expr(&mut a.len, levels);
             },
             Type::Ptr(p) => {
                 recurse(p.elem.as_mut(), levels);
@@ -1052,6 +1059,45 @@ fn supersuperfy(original: &Type, levels: usize) -> Type {
     output
 }
 
+/// Like [`supersuperfy`], but for the constant expressions within types, like
+/// array lengths.
+fn supersuperfy_expr(expr: &mut Expr, levels: usize) {
+    match expr {
+        Expr::Path(ep) => {
+            let added = supersuperfy_path(&mut ep.path, levels);
+            if let Some(ref mut qself) = ep.qself {
+                *qself.ty = supersuperfy(&qself.ty, levels);
+                qself.position += added;
+            }
+        },
+        Expr::Binary(eb) => {
+            supersuperfy_expr(eb.left.as_mut(), levels);
+            supersuperfy_expr(eb.right.as_mut(), levels);
+        },
+        Expr::Block(eb) => {
+            for stmt in eb.block.stmts.iter_mut() {
+                if let Stmt::Expr(ref mut e, _) = stmt {
+                    supersuperfy_expr(e, levels);
+                }
+            }
+        },
+        Expr::Call(ec) => {
+            supersuperfy_expr(ec.func.as_mut(), levels);
+            for arg in ec.args.iter_mut() {
+                supersuperfy_expr(arg, levels);
+            }
+        },
+        Expr::Cast(ec) => {
+            supersuperfy_expr(ec.expr.as_mut(), levels);
+            *ec.ty = supersuperfy(&ec.ty, levels);
+        },
+        Expr::Group(eg) => supersuperfy_expr(eg.expr.as_mut(), levels),
+        Expr::Paren(ep) => supersuperfy_expr(ep.expr.as_mut(), levels),
+        Expr::Unary(eu) => supersuperfy_expr(eu.expr.as_mut(), levels),
+        _ => ()
+    }
+}
+
 fn supersuperfy_generics(generics: &mut Generics, levels: usize) {
     for param in generics.params.iter_mut() {
         if let GenericParam::Type(tp) = param {
-- 
2.43.0


From fac7e9eb87e2a626f656c66ed5e33253a2df591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:17 +0000
Subject: [PATCH 11/34] fix: pub(self) and pub(in self::..) functions could not
 be mocked

---
 mockall_derive/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 9e98932..1cb70b1 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -1387,6 +1387,11 @@ fn expectation_visibility(vis: &Visibility, levels: usize)
             } else {
                 let mut out = vr.clone();
                 out.in_token = Some(in_token);
+                let mut levels = levels;
+                if out.path.segments.first().unwrap().ident == "self" {
+                    out.path.segments[0] = super_token.into();
+                    levels -= 1;
+                }
                 for _ in 0..levels {
                     out.path.segments.insert(0, super_token.into());
                 }
-- 
2.43.0


From 32d5f576f141ab2e41e79dfcfbdafd66f85ca156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 12/34] fix: types named like what the generated modules import
 (Mutex, Range, Vec, mem..)

---
 mockall_derive/src/mock_function.rs | 64 ++++++++++++-----------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 9b5a374..2c1c49f 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -617,7 +617,7 @@ impl MockFunction {
                     let __mockall_timeses = #inner_mod_ident::get_expectations().lock()
                         .unwrap()
                         .checkpoint()
-                        .collect::<Vec<_>>();
+                        .collect::<::std::vec::Vec<_>>();
                 }
             )
         } else {
@@ -875,11 +875,6 @@ impl MockFunction {
             Box::new(ConcreteExpectationGuard{f: self})
         };
         let matcher = &Matcher{f: self};
-        let std_mutexguard = if self.is_static {
-            quote!(use ::std::sync::MutexGuard;)
-        } else {
-            quote!()
-        };
         let inner_mod_ident = self.inner_mod_ident();
         let rfunc: Box<dyn ToTokens> = if self.return_ref {
             Box::new(RefRfunc{f: self})
@@ -894,15 +889,8 @@ impl MockFunction {
             #[allow(clippy::too_many_arguments, clippy::indexing_slicing)]
             pub mod #inner_mod_ident {
                 use super::*;
-                use ::mockall::CaseTreeExt;
-                #std_mutexguard
-                use ::std::{
-                    boxed::Box,
-                    mem,
-                    ops::{DerefMut, Range},
-                    sync::Mutex,
-                    vec::Vec,
-                };
+                use ::mockall::CaseTreeExt as _;
+                use ::std::boxed::Box;
                 #rfunc
                 #matcher
                 #common
@@ -954,7 +942,7 @@ impl ToTokens for Common<'_> {
                 fn with<#with_generics>(&mut self, #with_args)
                     {
                         let mut __mockall_guard = self.matcher.lock().unwrap();
-                        *__mockall_guard.deref_mut() =
+                        *__mockall_guard =
                             Matcher::Pred(Box::new((#boxed_withargs)));
                     }
             )
@@ -963,7 +951,7 @@ impl ToTokens for Common<'_> {
         quote!(
             /// Holds the stuff that is independent of the output type
             struct Common #ig #wc {
-                matcher: Mutex<Matcher #tg>,
+                matcher: ::std::sync::Mutex<Matcher #tg>,
                 seq_handle: Option<::mockall::SeqHandle>,
                 times: ::mockall::Times
             }
@@ -972,7 +960,7 @@ impl ToTokens for Common<'_> {
             {
                 fn default() -> Self {
                     Common {
-                        matcher: Mutex::new(Matcher::default()),
+                        matcher: ::std::sync::Mutex::new(Matcher::default()),
                         seq_handle: None,
                         times: ::mockall::Times::default()
                     }
@@ -1043,7 +1031,7 @@ impl ToTokens for Common<'_> {
                                     -> bool + Send + 'static
                 {
                     let mut __mockall_guard = self.matcher.lock().unwrap();
-                    *__mockall_guard.deref_mut() =
+                    *__mockall_guard =
                          Matcher::Func(Box::new(__mockall_f));
                 }
 
@@ -1052,7 +1040,7 @@ impl ToTokens for Common<'_> {
                                     -> bool + 'static
                 {
                     let mut __mockall_guard = self.matcher.lock().unwrap();
-                    *__mockall_guard.deref_mut() =
+                    *__mockall_guard =
                          Matcher::FuncSt(
                              ::mockall::Fragile::new(Box::new(__mockall_f))
                         );
@@ -1233,7 +1221,7 @@ impl ToTokens for CommonExpectationsMethods<'_> {
             /// A collection of [`Expectation`](struct.Expectations.html)
             /// objects.  Users will rarely if ever use this struct directly.
             #[doc(hidden)]
-            #v struct Expectations #ig ( Vec<Expectation #tg>) #wc;
+            #v struct Expectations #ig ( ::std::vec::Vec<Expectation #tg>) #wc;
 
             impl #ig Expectations #tg #wc {
                 /// Verify that all current expectations are satisfied and clear
@@ -1252,7 +1240,7 @@ impl ToTokens for CommonExpectationsMethods<'_> {
                 }
 
                 #v const fn new() -> Self {
-                    Self(Vec::new())
+                    Self(::std::vec::Vec::new())
                 }
             }
             #[allow(single_use_lifetimes)]
@@ -1482,7 +1470,7 @@ impl ToTokens for ConcreteExpectationGuard<'_> {
             // ExpectationGuard is only defined for expectations that return
             // 'static return types.
             #v struct ExpectationGuard #e_ig #e_wc {
-                guard: MutexGuard<'__mockall_lt, Expectations #tg>,
+                guard: ::std::sync::MutexGuard<'__mockall_lt, Expectations #tg>,
                 i: usize
             }
 
@@ -1492,7 +1480,7 @@ impl ToTokens for ConcreteExpectationGuard<'_> {
                 // Should only be called from the mockall_derive generated
                 // code
                 #[doc(hidden)]
-                #v fn new(mut __mockall_guard: MutexGuard<'__mockall_lt, Expectations #tg>)
+                #v fn new(mut __mockall_guard: ::std::sync::MutexGuard<'__mockall_lt, Expectations #tg>)
                     -> Self
                 {
                     __mockall_guard.expect(); // Drop the &Expectation
@@ -1542,7 +1530,7 @@ impl ToTokens for GenericExpectationGuard<'_> {
             /// protected by a Mutex guard.  Useful for mocking static
             /// methods.  Forwards accesses to an `Expectation` object.
             #v struct ExpectationGuard #e_ig #e_wc{
-                guard: MutexGuard<'__mockall_lt, GenericExpectations>,
+                guard: ::std::sync::MutexGuard<'__mockall_lt, GenericExpectations>,
                 i: usize,
                 _phantom: ::std::marker::PhantomData<(#(#fn_params,)*)>,
             }
@@ -1553,7 +1541,7 @@ impl ToTokens for GenericExpectationGuard<'_> {
                 // Should only be called from the mockall_derive generated
                 // code
                 #[doc(hidden)]
-                #v fn new(mut __mockall_guard: MutexGuard<'__mockall_lt, GenericExpectations>)
+                #v fn new(mut __mockall_guard: ::std::sync::MutexGuard<'__mockall_lt, GenericExpectations>)
                     -> Self
                 {
                     let __mockall_ee: &mut Expectations #tg =
@@ -1644,7 +1632,7 @@ impl ToTokens for Context<'_> {
                         .lock()
                         .unwrap()
                         .checkpoint()
-                        .collect::<Vec<_>>();
+                        .collect::<::std::vec::Vec<_>>();
                 }
 
                 /// Create a new expectation for this method.
@@ -1671,7 +1659,7 @@ impl ToTokens for Context<'_> {
                         // double-panic.
                         let _ = get_expectations()
                             .lock()
-                            .map(|mut g| g.checkpoint().collect::<Vec<_>>());
+                            .map(|mut g| g.checkpoint().collect::<::std::vec::Vec<_>>());
                     } else {
                         // Verify expectations are satisfied
                         Self::do_checkpoint();
@@ -1812,7 +1800,7 @@ impl ToTokens for RefRfunc<'_> {
                 // Prevent "unused type parameter" errors Surprisingly,
                 // PhantomData<Fn(generics)> is Send even if generics are not,
                 // unlike PhantomData<generics>
-                _Phantom(Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
+                _Phantom(::std::sync::Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
             }
 
             impl #ig  Rfunc #tg #wc {
@@ -1883,7 +1871,7 @@ impl ToTokens for RefMutRfunc<'_> {
                 // Prevent "unused type parameter" errors Surprisingly,
                 // PhantomData<Fn(generics)> is Send even if generics are not,
                 // unlike PhantomData<generics>
-                _Phantom(Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
+                _Phantom(::std::sync::Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
             }
 
             impl #ig  Rfunc #tg #wc {
@@ -1995,7 +1983,7 @@ impl ToTokens for StaticRfunc<'_> {
                         },
                         Rfunc::Once(_) => {
                             if let Rfunc::Once(mut __mockall_f) =
-                                mem::replace(self, Rfunc::Expired) {
+                                ::std::mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok(__mockall_f( #(#argnames, )* ))
                             } else {
                                 unreachable!()
@@ -2006,7 +1994,7 @@ impl ToTokens for StaticRfunc<'_> {
                             // the closure there would panic again, and abort.
                             let _ = __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
-                                mem::replace(self, Rfunc::Expired) {
+                                ::std::mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
                             } else {
                                 unreachable!()
@@ -2208,7 +2196,7 @@ impl ToTokens for StaticExpectation<'_> {
             /// This is the type returned by the `expect_*` methods.
             #v struct Expectation #ig #wc {
                 common: Common #common_tg,
-                rfunc: Mutex<Rfunc #tg>,
+                rfunc: ::std::sync::Mutex<Rfunc #tg>,
             }
 
             #[allow(clippy::unused_unit)]
@@ -2281,7 +2269,7 @@ impl ToTokens for StaticExpectation<'_> {
                 {
                     {
                         let mut __mockall_guard = self.rfunc.lock().unwrap();
-                        *__mockall_guard.deref_mut() =
+                        *__mockall_guard =
                             Rfunc::Once(Box::new(__mockall_f));
                     }
                     self
@@ -2302,7 +2290,7 @@ impl ToTokens for StaticExpectation<'_> {
                 {
                     {
                         let mut __mockall_guard = self.rfunc.lock().unwrap();
-                        *__mockall_guard.deref_mut() = Rfunc::OnceSt(
+                        *__mockall_guard = Rfunc::OnceSt(
                             ::mockall::Fragile::new(Box::new(__mockall_f)));
                     }
                     self
@@ -2318,7 +2306,7 @@ impl ToTokens for StaticExpectation<'_> {
                 {
                     {
                         let mut __mockall_guard = self.rfunc.lock().unwrap();
-                        *__mockall_guard.deref_mut() =
+                        *__mockall_guard =
                             Rfunc::Mut(Box::new(__mockall_f));
                     }
                     self
@@ -2337,7 +2325,7 @@ impl ToTokens for StaticExpectation<'_> {
                 {
                     {
                         let mut __mockall_guard = self.rfunc.lock().unwrap();
-                        *__mockall_guard.deref_mut() = Rfunc::MutSt(
+                        *__mockall_guard = Rfunc::MutSt(
                             ::mockall::Fragile::new(Box::new(__mockall_f)));
                     }
                     self
@@ -2351,7 +2339,7 @@ impl ToTokens for StaticExpectation<'_> {
                 fn default() -> Self {
                     Expectation {
                         common: Common::default(),
-                        rfunc: Mutex::new(Rfunc::default())
+                        rfunc: ::std::sync::Mutex::new(Rfunc::default())
                     }
                 }
             }
-- 
2.43.0


From 0de3d4af4596dd39e7a607badff459114d2a531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 13/34] fix: attributes that only fit the original item were
 copied to generated code

Attributes such as track_caller, deprecated, rustfmt::skip, no_mangle or
diagnostic::on_unimplemented were copied to expectation modules, fields, or
functions where they are errors or warnings, and those within a cfg_attr were
not filtered at all.
---
 mockall_derive/src/lib.rs | 137 +++++++++++++++++++++++++-------------
 1 file changed, 91 insertions(+), 46 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 1cb70b1..4ad8ac8 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -858,56 +858,101 @@ impl<'a> AttrFormatter<'a> {
 
     // XXX This logic requires that attributes are imported with their
     // standard names.
-    #[allow(clippy::needless_bool)]
-    #[allow(clippy::if_same_then_else)]
     fn format(&mut self) -> Vec<Attribute> {
         self.attrs.iter()
-            .filter(|attr| {
-                let i = attr.path().segments.last().map(|ps| &ps.ident);
-                if is_concretize(attr) {
-                    // Internally used attribute.  Never emit.
-                    false
-                } else if i.is_none() {
-                    false
-                } else if *i.as_ref().unwrap() == "derive" {
-                    // We can't usefully derive any traits.  Ignore them
-                    false
-                } else if *i.as_ref().unwrap() == "doc" {
-                    self.doc
-                } else if *i.as_ref().unwrap() == "async_trait" {
-                    self.async_trait
-                } else if *i.as_ref().unwrap() == "expect" {
-                    // This probably means that there's a lint that needs to be
-                    // surpressed for the real code, but not for the mock code.
-                    // Skip it.
-                    false
-                } else if *i.as_ref().unwrap() == "inline" {
-                    // No need to inline mock functions.
-                    false
-                } else if *i.as_ref().unwrap() == "cold" {
-                    // No need for such hints on mock functions.
-                    false
-                } else if *i.as_ref().unwrap() == "instrument" {
-                    // We can't usefully instrument the mock method, so just
-                    // ignore this attribute.
-                    // https://docs.rs/tracing/0.1.23/tracing/attr.instrument.html
-                    false
-                } else if *i.as_ref().unwrap() == "link_name" {
-                    // This shows up sometimes when mocking ffi functions.  We
-                    // must not emit it on anything that isn't an ffi definition
-                    false
-                } else if *i.as_ref().unwrap() == "must_use" {
-                    self.must_use
-                } else if *i.as_ref().unwrap() == "auto_enum" {
-                    // Ignore auto_enum, because we transform the return value
-                    // into a trait object.
-                    false
-                } else {
-                    true
-                }
-            }).cloned()
+            .filter_map(|attr| self.format_attr(attr))
             .collect()
     }
+
+    fn format_attr(&self, attr: &Attribute) -> Option<Attribute> {
+        if is_concretize(attr) {
+            // Internally used attribute.  Never emit.
+            return None;
+        }
+        if !attr.path().is_ident("cfg_attr") {
+            return self.allowed(attr.path()).then(|| attr.clone());
+        }
+        // Apply the same rules to the attributes within the cfg_attr.
+        let mut metas = match attr.parse_args_with(
+            Punctuated::<Meta, Token![,]>::parse_terminated)
+        {
+            Ok(metas) => metas.into_iter(),
+            Err(_) => return Some(attr.clone())
+        };
+        let predicate = metas.next();
+        let metas = metas.filter_map(|meta| {
+            let attr = Attribute { meta, ..attr.clone() };
+            self.format_attr(&attr).map(|attr| attr.meta)
+        }).collect::<Vec<_>>();
+        if metas.is_empty() {
+            return None;
+        }
+        Some(parse_quote!(#[cfg_attr(#predicate, #(#metas),*)]))
+    }
+
+    /// Should an attribute with this path be emitted?
+    #[allow(clippy::needless_bool)]
+    #[allow(clippy::if_same_then_else)]
+    fn allowed(&self, path: &Path) -> bool {
+        let i = path.segments.last().map(|ps| &ps.ident);
+        if i.is_none() {
+            false
+        } else if path.segments[0].ident == "diagnostic" {
+            // These are only meaningful on the original item.
+            false
+        } else if *i.as_ref().unwrap() == "derive" {
+            // We can't usefully derive any traits.  Ignore them
+            false
+        } else if *i.as_ref().unwrap() == "doc" {
+            self.doc
+        } else if *i.as_ref().unwrap() == "async_trait" {
+            self.async_trait
+        } else if *i.as_ref().unwrap() == "expect" {
+            // This probably means that there's a lint that needs to be
+            // surpressed for the real code, but not for the mock code.
+            // Skip it.
+            false
+        } else if *i.as_ref().unwrap() == "inline" {
+            // No need to inline mock functions.
+            false
+        } else if *i.as_ref().unwrap() == "cold" {
+            // No need for such hints on mock functions.
+            false
+        } else if *i.as_ref().unwrap() == "deprecated" {
+            // Generated code uses the mock, and attributes like these are
+            // forbidden on trait methods' implementations.
+            false
+        } else if *i.as_ref().unwrap() == "instrument" {
+            // We can't usefully instrument the mock method, so just
+            // ignore this attribute.
+            // https://docs.rs/tracing/0.1.23/tracing/attr.instrument.html
+            false
+        } else if *i.as_ref().unwrap() == "link_name" {
+            // This shows up sometimes when mocking ffi functions.  We
+            // must not emit it on anything that isn't an ffi definition
+            false
+        } else if *i.as_ref().unwrap() == "no_mangle"
+            || *i.as_ref().unwrap() == "export_name"
+            || *i.as_ref().unwrap() == "link_section"
+        {
+            // The original function already has that symbol.
+            false
+        } else if *i.as_ref().unwrap() == "must_use" {
+            self.must_use
+        } else if *i.as_ref().unwrap() == "auto_enum" {
+            // Ignore auto_enum, because we transform the return value
+            // into a trait object.
+            false
+        } else if !self.doc {
+            // This isn't the mock item itself, but something that supports it.
+            // Such code should exist and be linted under the same conditions,
+            // but other attributes, like `track_caller`, don't apply to it.
+            ["cfg", "allow", "warn", "deny", "forbid"].iter()
+                .any(|name| path.is_ident(name))
+        } else {
+            true
+        }
+    }
 }
 
 /// Determine if this Pat is any kind of `self` binding
-- 
2.43.0


From b9df4930cead543682dc3d21f157c5383aa04698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 14/34] fix: only foreign functions need unmangled mocks

Two traits with extern "C" methods of the same name could not be mocked in
one crate, because both mock methods exported the same symbol.
---
 mockall_derive/src/mock_function.rs | 18 ++++++++++++++++--
 mockall_derive/src/mock_item.rs     |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 2c1c49f..8b39b39 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -176,6 +176,7 @@ pub(crate) struct Builder<'a> {
     attrs: &'a [Attribute],
     call_levels: Option<usize>,
     concretize: bool,
+    foreign: bool,
     levels: usize,
     parent: Option<&'a Ident>,
     sig: &'a Signature,
@@ -345,6 +346,7 @@ impl<'a> Builder<'a> {
             expect_owned_output,
             cgenerics,
             fn_params,
+            foreign: self.foreign,
             is_static,
             mod_ident: self.parent.unwrap_or(&Ident::new("FIXME", Span::call_site())).clone(),
             output,
@@ -371,6 +373,12 @@ impl<'a> Builder<'a> {
         self
     }
 
+    /// Is this a foreign function, declared in an `extern` block?
+    pub fn foreign(&mut self, foreign: bool) -> &mut Self {
+        self.foreign = foreign;
+        self
+    }
+
     /// How many levels of modules beneath the original function this one's
     /// private module is nested.
     pub fn levels(&mut self, levels: usize) -> &mut Self {
@@ -386,6 +394,7 @@ impl<'a> Builder<'a> {
         Builder {
             attrs: &[],
             concretize: false,
+            foreign: false,
             levels: 0,
             call_levels: None,
             parent: None,
@@ -452,6 +461,8 @@ pub(crate) struct MockFunction {
     cgenerics: Generics,
     /// The mock function's generic types as a list of types
     fn_params: Vec<Ident>,
+    /// Is this a foreign function, declared in an `extern` block?
+    foreign: bool,
     /// Is this for a static method or free function?
     is_static: bool,
     /// name of the function's parent module
@@ -529,8 +540,11 @@ impl MockFunction {
             (&self.call_vis, dead_code)
         };
         // Add #[no_mangle] attribute to preserve the function name
-        // as-is, without mangling, for compatibility with C functions.
-        let no_mangle = if let Some(ref abi) = self.sig.abi {
+        // as-is, without mangling, for compatibility with C functions.  Only
+        // foreign functions need that; others may share their names.
+        let no_mangle = if !self.foreign {
+            quote!()
+        } else if let Some(ref abi) = self.sig.abi {
             if let Some(ref name) = abi.name {
                 if name.value().ne("Rust") {
                     quote!(#[no_mangle])
diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index b798698..b19286e 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -119,6 +119,7 @@ impl From<MockableModule> for MockItemModule {
 
                             let mf = mock_function::Builder::new(&f.sig, &f.vis)
                                 .attrs(&f.attrs)
+                                .foreign(true)
                                 .parent(&mock_ident)
                                 .levels(1)
                                 .call_levels(0)
-- 
2.43.0


From e7d960d364f36e8fa8adc0efebda7f8ebb2e76a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 15/34] fix: honor derive(std::fmt::Debug) in mock!

---
 mockall_derive/src/mockable_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 87e0da7..87872a9 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -353,7 +353,9 @@ impl MockableStruct {
             let mut derive_debug = false;
             if attr.path().is_ident("derive") {
                 attr.parse_nested_meta(|meta| {
-                    if meta.path.is_ident("Debug") {
+                    if meta.path.segments.last()
+                        .is_some_and(|seg| seg.ident == "Debug")
+                    {
                         derive_debug = true;
                     }
                     Ok(())
-- 
2.43.0


From 19039844960c0e450c0c7a764899b0b43df86efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 16/34] fix: a method new that is configured out left the mock
 without one

---
 mockall_derive/src/mock_item_struct.rs | 70 +++++++++++++++-----------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/mockall_derive/src/mock_item_struct.rs b/mockall_derive/src/mock_item_struct.rs
index b0bf615..d94ba47 100644
--- a/mockall_derive/src/mock_item_struct.rs
+++ b/mockall_derive/src/mock_item_struct.rs
@@ -82,6 +82,16 @@ fn unique_trait_iter<'a, I: Iterator<Item = &'a MockTrait>>(i: I)
     })
 }
 
+/// The condition under which a function with these attributes, in an impl block
+/// with these attributes, exists
+fn cfg_condition(impl_attrs: &[Attribute], attrs: &[Attribute]) -> TokenStream {
+    let cfgs = impl_attrs.iter()
+        .chain(attrs)
+        .filter(|attr| attr.path().is_ident("cfg"))
+        .filter_map(|attr| attr.parse_args::<TokenStream>().ok());
+    quote!(all(#(#cfgs),*))
+}
+
 /// A collection of methods defined in one spot
 struct Methods(Vec<MockFunction>);
 
@@ -132,8 +142,8 @@ pub(crate) struct MockItemStruct {
     generics: Generics,
     /// Should Mockall generate a Debug implementation?
     auto_debug: bool,
-    /// Does the original struct have a `new` method?
-    has_new: bool,
+    /// The conditions under which the original struct has a `new` method
+    has_new: Vec<TokenStream>,
     /// Inherent methods of the mock struct
     methods: Methods,
     /// Name of the overall module that holds all of the mock stuff
@@ -165,22 +175,25 @@ impl MockItemStruct {
     }
 
     fn new_method(&self) -> impl ToTokens {
-        if self.has_new {
-            TokenStream::new()
+        let not_new = if self.has_new.is_empty() {
+            quote!()
         } else {
-            quote!(
-                /// Create a new mock object with no expectations.
-                ///
-                /// This method will not be generated if the real struct
-                /// already has a `new` method.  However, it *will* be
-                /// generated if the struct implements a trait with a `new`
-                /// method.  The trait's `new` method can still be called
-                /// like `<MockX as TraitY>::new`
-                pub fn new() -> Self {
-                    Self::default()
-                }
-            )
-        }
+            let conditions = &self.has_new;
+            quote!(#[cfg(not(any(#(#conditions),*)))])
+        };
+        quote!(
+            /// Create a new mock object with no expectations.
+            ///
+            /// This method will not be generated if the real struct
+            /// already has a `new` method.  However, it *will* be
+            /// generated if the struct implements a trait with a `new`
+            /// method.  The trait's `new` method can still be called
+            /// like `<MockX as TraitY>::new`
+            #not_new
+            pub fn new() -> Self {
+                Self::default()
+            }
+        )
     }
 
     fn phantom_default_inits(&self) -> Vec<TokenStream> {
@@ -200,17 +213,18 @@ impl From<MockableStruct> for MockItemStruct {
         let struct_name = &mockable.name;
         let vis = mockable.vis;
         let has_new = mockable.methods.iter()
-            .any(|meth| meth.sig.ident == "new") ||
-            mockable.impls.iter()
-            .any(|impl_|
-                impl_.items.iter()
-                    .any(|ii| if let ImplItem::Fn(iif) = ii {
-                            iif.sig.ident == "new"
-                        } else {
-                            false
-                        }
-                    )
-            );
+            .filter(|meth| meth.sig.ident == "new")
+            .map(|meth| cfg_condition(&[], &meth.attrs))
+            .chain(
+                mockable.impls.iter()
+                .flat_map(|impl_| impl_.items.iter()
+                    .filter_map(move |ii| match ii {
+                        ImplItem::Fn(iif) if iif.sig.ident == "new" =>
+                            Some(cfg_condition(&impl_.attrs, &iif.attrs)),
+                        _ => None
+                    })
+                )
+            ).collect::<Vec<_>>();
         let methods = Methods(mockable.methods.into_iter()
             .map(|meth|
                 mock_function::Builder::new(&meth.sig, &meth.vis)
-- 
2.43.0


From eafcc80a3c7ebeb4be1c62391162518fb187d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 17/34] fix: report automock's unknown and repeated associated
 types

---
 mockall_derive/src/automock.rs      | 12 ++++++++++++
 mockall_derive/src/mockable_item.rs |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/mockall_derive/src/automock.rs b/mockall_derive/src/automock.rs
index 5a5f8a5..aa66bc8 100644
--- a/mockall_derive/src/automock.rs
+++ b/mockall_derive/src/automock.rs
@@ -256,6 +256,14 @@ impl Attrs {
 
     pub(crate) fn substitute_trait(&self, item: &ItemTrait) -> ItemTrait {
         let mut output = item.clone();
+        let unknown = self.attrs.keys()
+            .filter(|ident| !item.items.iter().any(|trait_item|
+                matches!(trait_item, TraitItem::Type(t) if t.ident == **ident)
+            )).min();
+        if let Some(ident) = unknown {
+            compile_error(ident.span(),
+                "automock type attribute does not match any associated type");
+        }
         for trait_item in output.items.iter_mut() {
             match trait_item {
                 TraitItem::Type(tity) => {
@@ -300,6 +308,10 @@ impl Parse for Attrs {
                 Attr::Type(trait_item_type) => {
                     let ident = trait_item_type.ident.clone();
                     if let Some((_, ty)) = trait_item_type.default {
+                        if attrs.contains_key(&ident) {
+                            return Err(syn::Error::new(ident.span(),
+                                "associated type specified more than once"));
+                        }
                         attrs.insert(ident, ty.clone());
                     } else {
                         compile_error(trait_item_type.span(),
diff --git a/mockall_derive/src/mockable_item.rs b/mockall_derive/src/mockable_item.rs
index 6e15a95..da7f823 100644
--- a/mockall_derive/src/mockable_item.rs
+++ b/mockall_derive/src/mockable_item.rs
@@ -28,6 +28,12 @@ pub(crate) enum MockableItem {
 
 impl From<(Attrs, Item)> for MockableItem {
     fn from((attrs, item): (Attrs, Item)) -> MockableItem {
+        if let (Some(ident), false) =
+            (attrs.attrs.keys().min(), matches!(item, Item::Trait(_)))
+        {
+            compile_error(ident.span(),
+                "automock type attributes may only be used with traits");
+        }
         match item {
             Item::Impl(item_impl) =>
                 MockableItem::Struct(MockableStruct::from(item_impl)),
-- 
2.43.0


From c8217d6e2b0d24e2932e3db727de495cf4f0b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 18/34] fix: report function bodies and negative or default
 impls in mock!

---
 mockall_derive/src/mockable_struct.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 87872a9..9857475 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -509,7 +509,17 @@ impl Parse for MockableStruct {
             let item: Item = input.parse()?;
             match item {
                 Item::Impl(mut ii) => {
+                    if ii.defaultness.is_some()
+                        || matches!(ii.trait_, Some((Some(_), _, _)))
+                    {
+                        return Err(syn::Error::new(ii.impl_token.span(),
+                            "Unsupported in this context"));
+                    }
                     for item in ii.items.iter_mut() {
+                        if let ImplItem::Fn(iif) = item {
+                            return Err(syn::Error::new(iif.sig.ident.span(),
+                                "Functions in mock! must not have bodies"));
+                        }
                         // Convert any methods that syn couldn't parse as
                         // ImplItemFn.
                         if let ImplItem::Verbatim(ts) = item {
-- 
2.43.0


From 5e08ceed603feb89e963bd2fb9a0d22a5bd129e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 19/34] fix: report arguments of double

---
 mockall_double/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mockall_double/src/lib.rs b/mockall_double/src/lib.rs
index 464c949..7b763ac 100644
--- a/mockall_double/src/lib.rs
+++ b/mockall_double/src/lib.rs
@@ -36,7 +36,10 @@ cfg_if! {
     }
 }
 
-fn do_double(_attrs: TokenStream, input: TokenStream) -> TokenStream {
+fn do_double(attrs: TokenStream, input: TokenStream) -> TokenStream {
+    if !attrs.is_empty() {
+        compile_error(attrs.span(), "double does not take any arguments");
+    }
     let mut item: Item = match parse2(input.clone()) {
         Ok(u) => u,
         Err(e) => return e.to_compile_error()
-- 
2.43.0


From b2cf523b3f35949c7640561ad365e1468dc68c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:44 +0000
Subject: [PATCH 20/34] fix: concurrent calls were not selected and counted
 atomically

---
 mockall/src/lib.rs                  |  9 +++++-
 mockall_derive/src/mock_function.rs | 46 +++++++++++++++--------------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 56c4ecc..d370d53 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1152,7 +1152,7 @@ use std::{
     ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo,
           RangeToInclusive},
     sync::{
-        Arc,
+        Arc, Mutex, MutexGuard, PoisonError,
         atomic::{AtomicUsize, Ordering}
     },
 };
@@ -1580,6 +1580,8 @@ pub enum ExpectedCalls {
 pub struct Times{
     /// How many times has the expectation already been called?
     count: AtomicUsize,
+    /// Held while a call is being counted
+    lock: Mutex<()>,
     range: TimesRange
 }
 
@@ -1637,6 +1639,11 @@ impl Times {
         }
     }
 
+    /// Exclude other calls from being counted in the meantime
+    pub fn lock(&self) -> MutexGuard<'_, ()> {
+        self.lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
     /// The maximum number of times that this expectation must be called
     pub fn maximum(&self) -> usize {
         self.range.0.end - 1
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 8b39b39..48b567f 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -982,7 +982,18 @@ impl ToTokens for Common<'_> {
             }
 
             impl #ig Common #tg #wc {
-                fn call(&self, desc: &str) {
+                /// Count a call, unless this expectation has already been
+                /// called often enough.
+                ///
+                /// Other threads may not see anything between that decision
+                /// and its effects.
+                fn try_call<MockallF>(&self, force: bool, desc: MockallF) -> bool
+                    where MockallF: FnOnce() -> ::std::string::String
+                {
+                    let __mockall_guard = self.times.lock();
+                    if !force && self.times.is_done() {
+                        return false;
+                    }
                     self.times.call()
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
@@ -990,10 +1001,11 @@ impl ToTokens for Common<'_> {
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                 m);
                         });
-                    self.verify_sequence(desc);
+                    self.verify_sequence(&desc());
                     if ::mockall::ExpectedCalls::TooFew != self.times.is_satisfied() {
                         self.satisfy_sequence()
                     }
+                    true
                 }
 
                 fn in_sequence(&mut self, __mockall_seq: &mut ::mockall::Sequence)
@@ -1009,10 +1021,6 @@ impl ToTokens for Common<'_> {
                     self
                 }
 
-                fn is_done(&self) -> bool {
-                    self.times.is_done()
-                }
-
                 #[allow(clippy::ptr_arg)]
                 #[allow(clippy::ref_option)]
                 fn matches #lg (&self, #( #argnames: &#predty, )*) -> bool {
@@ -1148,10 +1156,6 @@ impl ToTokens for CommonExpectationMethods<'_> {
                 self
             }
 
-            fn is_done(&self) -> bool {
-                self.common.is_done()
-            }
-
             /// Validate this expectation's matcher.
             #[allow(clippy::ptr_arg)]
             #[allow(clippy::ref_option)]
@@ -2040,7 +2044,6 @@ impl ToTokens for RefExpectation<'_> {
         let argnames = &self.f.argnames;
         let argty = &self.f.argty;
         let common_methods = CommonExpectationMethods{f: self.f};
-        let desc = self.f.desc();
         let funcname = self.f.funcname();
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
 
@@ -2061,10 +2064,9 @@ impl ToTokens for RefExpectation<'_> {
             #[allow(clippy::unused_unit)]
             impl #ig Expectation #tg #wc {
                 /// Call this [`Expectation`] as if it were the real method.
+                #[allow(unused_variables)]
                 #v fn call #lg (&self, #(#argnames: #argty, )*) -> #output
                 {
-                    use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
                     self.rfunc.call().unwrap_or_else(|m| {
                         let desc = std::format!(
                             "{}", self.common.matcher.lock().unwrap());
@@ -2107,7 +2109,6 @@ impl ToTokens for RefMutExpectation<'_> {
         let common_methods = CommonExpectationMethods{f: self.f};
         let argnames = &self.f.argnames;
         let argty = &self.f.argty;
-        let desc = self.f.desc();
         let funcname = self.f.funcname();
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
         let (_, common_tg, _) = self.f.cgenerics.split_for_impl();
@@ -2129,8 +2130,6 @@ impl ToTokens for RefMutExpectation<'_> {
                 #v fn call_mut #lg (&mut self, #(#argnames: #argty, )*)
                     -> &mut #owned_output
                 {
-                    use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
                     let __mockall_desc = std::format!(
                         "{}", self.common.matcher.lock().unwrap());
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
@@ -2196,7 +2195,6 @@ impl ToTokens for StaticExpectation<'_> {
         let common_methods = CommonExpectationMethods{f: self.f};
         let argnames = &self.f.argnames;
         let argty = &self.f.argty;
-        let desc = self.f.desc();
         let hrtb = self.f.hrtb();
         let funcname = self.f.funcname();
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
@@ -2219,8 +2217,6 @@ impl ToTokens for StaticExpectation<'_> {
                 #[doc(hidden)]
                 #v fn call #lg (&self, #(#argnames: #argty, )* ) -> #output
                 {
-                    use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
                     self.rfunc.lock().unwrap().call_mut(#(#argnames, )*)
                         .unwrap_or_else(|message| {
                             let desc = std::format!(
@@ -2371,6 +2367,7 @@ impl ToTokens for RefExpectations<'_> {
         let common_methods = CommonExpectationsMethods{f: self.f};
         let argnames = &self.f.argnames;
         let argty = &self.f.argty;
+        let desc = self.f.desc();
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
         let lg = lifetimes_to_generics(&self.f.alifetimes);
         let output = &self.f.output;
@@ -2385,10 +2382,11 @@ impl ToTokens for RefExpectations<'_> {
                 #v fn call #lg (&self, #(#argnames: #argty, )* )
                     -> Option<#output>
                 {
+                    use ::mockall::{ViaDebug, ViaNothing};
                     self.0.iter()
                         .find(|__mockall_e|
                               __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || self.0.len() == 1))
+                              __mockall_e.common.try_call(self.0.len() == 1, || #desc))
                         .map(move |__mockall_e|
                              __mockall_e.call(#(#argnames),*)
                         )
@@ -2409,6 +2407,7 @@ impl ToTokens for RefMutExpectations<'_> {
         let common_methods = CommonExpectationsMethods{f: self.f};
         let argnames = &self.f.argnames;
         let argty = &self.f.argty;
+        let desc = self.f.desc();
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
         let lg = lifetimes_to_generics(&self.f.alifetimes);
         let output = &self.f.output;
@@ -2423,11 +2422,12 @@ impl ToTokens for RefMutExpectations<'_> {
                 #v fn call_mut #lg (&mut self, #(#argnames: #argty, )* )
                     -> Option<#output>
                 {
+                    use ::mockall::{ViaDebug, ViaNothing};
                     let __mockall_n = self.0.len();
                     self.0.iter_mut()
                         .find(|__mockall_e|
                               __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || __mockall_n == 1))
+                              __mockall_e.common.try_call(__mockall_n == 1, || #desc))
                         .map(move |__mockall_e|
                              __mockall_e.call_mut(#(#argnames, )*)
                         )
@@ -2448,6 +2448,7 @@ impl ToTokens for StaticExpectations<'_> {
         let common_methods = CommonExpectationsMethods{f: self.f};
         let argnames = &self.f.argnames;
         let argty = &self.f.argty;
+        let desc = self.f.desc();
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
         let lg = lifetimes_to_generics(&self.f.alifetimes);
         let output = &self.f.output;
@@ -2462,10 +2463,11 @@ impl ToTokens for StaticExpectations<'_> {
                 #v fn call #lg (&self, #(#argnames: #argty, )* )
                     -> Option<#output>
                 {
+                    use ::mockall::{ViaDebug, ViaNothing};
                     self.0.iter()
                         .find(|__mockall_e|
                               __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || self.0.len() == 1))
+                              __mockall_e.common.try_call(self.0.len() == 1, || #desc))
                         .map(move |__mockall_e|
                              __mockall_e.call(#(#argnames, )*)
                         )
-- 
2.43.0


From 8b850d2ac443a74d8aefcc143bf2102d3ab0cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 21/34] Add yield points for verification (cfg mockall_verif)

---
 mockall/src/lib.rs   | 12 +++++-
 mockall/src/verif.rs | 99 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 110 insertions(+), 1 deletion(-)
 create mode 100644 mockall/src/verif.rs

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index d370d53..1633712 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1143,6 +1143,8 @@
 #![cfg_attr(feature = "nightly", feature(doc_cfg))]
 #![cfg_attr(test, deny(warnings))]
 #![warn(missing_docs)]
+// mockall_verif
+#![allow(unexpected_cfgs)]
 
 use downcast::*;
 use std::{
@@ -1153,9 +1155,17 @@ use std::{
           RangeToInclusive},
     sync::{
         Arc, Mutex, MutexGuard, PoisonError,
-        atomic::{AtomicUsize, Ordering}
+        atomic::Ordering
     },
 };
+#[cfg(not(mockall_verif))]
+use std::sync::atomic::AtomicUsize;
+#[cfg(mockall_verif)]
+use verif::AtomicUsize;
+
+#[cfg(mockall_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 #[doc(hidden)]
 pub use downcast::{Any, Downcast};
diff --git a/mockall/src/verif.rs b/mockall/src/verif.rs
new file mode 100644
index 0000000..11a9bd1
--- /dev/null
+++ b/mockall/src/verif.rs
@@ -0,0 +1,99 @@
+// vim: tw=80
+//! Hooks for verification, only compiled with `--cfg mockall_verif`.
+//!
+//! Lets a scheduler decide the order in which several threads access the state
+//! that they share.
+use std::sync::{
+    OnceLock,
+    atomic::{self, Ordering}
+};
+
+static YIELD: OnceLock<fn()> = OnceLock::new();
+
+/// Call `f` before every access to shared state
+pub fn set_yield(f: fn()) {
+    let _ = YIELD.set(f);
+}
+
+fn yield_point() {
+    if let Some(f) = YIELD.get() {
+        f()
+    }
+}
+
+/// Like the standard type, but yields before every access.
+#[derive(Debug, Default)]
+pub struct AtomicUsize(atomic::AtomicUsize);
+
+impl std::ops::Deref for AtomicUsize {
+    type Target = atomic::AtomicUsize;
+    fn deref(&self) -> &Self::Target {
+        yield_point();
+        &self.0
+    }
+}
+
+#[allow(missing_docs)]
+impl AtomicUsize {
+    pub const fn new(v: usize) -> Self {
+        AtomicUsize(atomic::AtomicUsize::new(v))
+    }
+    pub fn load(&self, order: Ordering) -> usize {
+        yield_point();
+        self.0.load(order)
+    }
+    pub fn store(&self, v: usize, order: Ordering) {
+        yield_point();
+        self.0.store(v, order)
+    }
+    pub fn swap(&self, v: usize, order: Ordering) -> usize {
+        yield_point();
+        self.0.swap(v, order)
+    }
+    pub fn fetch_add(&self, v: usize, order: Ordering) -> usize {
+        yield_point();
+        self.0.fetch_add(v, order)
+    }
+    pub fn fetch_sub(&self, v: usize, order: Ordering) -> usize {
+        yield_point();
+        self.0.fetch_sub(v, order)
+    }
+    pub fn fetch_max(&self, v: usize, order: Ordering) -> usize {
+        yield_point();
+        self.0.fetch_max(v, order)
+    }
+    pub fn fetch_min(&self, v: usize, order: Ordering) -> usize {
+        yield_point();
+        self.0.fetch_min(v, order)
+    }
+    pub fn compare_exchange(&self, old: usize, new: usize, success: Ordering,
+        failure: Ordering) -> Result<usize, usize>
+    {
+        yield_point();
+        self.0.compare_exchange(old, new, success, failure)
+    }
+    pub fn compare_exchange_weak(&self, old: usize, new: usize,
+        success: Ordering, failure: Ordering) -> Result<usize, usize>
+    {
+        self.compare_exchange(old, new, success, failure)
+    }
+    pub fn fetch_update<F>(&self, set: Ordering, fetch: Ordering, mut f: F)
+        -> Result<usize, usize>
+        where F: FnMut(usize) -> Option<usize>
+    {
+        let mut old = self.load(fetch);
+        while let Some(new) = f(old) {
+            match self.compare_exchange(old, new, set, fetch) {
+                Ok(old) => return Ok(old),
+                Err(now) => old = now
+            }
+        }
+        Err(old)
+    }
+    pub fn get_mut(&mut self) -> &mut usize {
+        self.0.get_mut()
+    }
+    pub fn into_inner(self) -> usize {
+        self.0.into_inner()
+    }
+}
-- 
2.43.0


From 4ce0da9ab095d7234bfd96ce76e1d106a15e1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:48 +0000
Subject: [PATCH 22/34] fix: lifetime parameters with bounds could not be
 mocked

---
 mockall_derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 4ad8ac8..a1140bb 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -1365,10 +1365,12 @@ fn split_lifetimes(
     let mut rlv = Punctuated::new();
     for p in generics.params.into_iter() {
         match p {
+            // Discard any bounds.  They aren't allowed in higher-ranked trait
+            // bounds, and may name lifetimes from another of the lists.
             GenericParam::Lifetime(ltd) if rlts.contains(&ltd.lifetime) =>
-                rlv.push(ltd),
+                rlv.push(LifetimeParam::new(ltd.lifetime)),
             GenericParam::Lifetime(ltd) if alts.contains(&ltd.lifetime) =>
-                alv.push(ltd),
+                alv.push(LifetimeParam::new(ltd.lifetime)),
             GenericParam::Lifetime(_) => {
                 // Probably a lifetime parameter from the impl block that isn't
                 // used by this particular method
-- 
2.43.0


From 195865c47ce8e74bcbd2deaa4e2dbbc47e84de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:35 +0000
Subject: [PATCH 23/34] fix: '_ nested in a return type was not replaced by
 'static

---
 mockall_derive/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index a1140bb..2c7d4ea 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -256,13 +256,18 @@ fn deanonymize_path(path: &mut Path) {
             PathArguments::None => (),
             PathArguments::AngleBracketed(abga) => {
                 for ga in abga.args.iter_mut() {
-                    if let GenericArgument::Lifetime(lt) = ga {
-                        deanonymize_lifetime(lt)
+                    match ga {
+                        GenericArgument::Lifetime(lt) =>
+                            deanonymize_lifetime(lt),
+                        GenericArgument::Type(ty) => deanonymize(ty),
+                        GenericArgument::AssocType(at) =>
+                            deanonymize(&mut at.ty),
+                        _ => ()
                     }
                 }
             },
-            _ => compile_error(seg.arguments.span(),
-                "Methods returning functions are TODO"),
+            // Any anonymous lifetime here belongs to the function type
+            PathArguments::Parenthesized(_) => (),
         }
     }
 }
-- 
2.43.0


From 7dee28142db515df41c1da6f604a9dd77e322ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:35 +0000
Subject: [PATCH 24/34] fix: argument and return types from macro_rules
 fragments could not be mocked

---
 mockall_derive/src/lib.rs             | 36 +++++++++++++++++++++++++++
 mockall_derive/src/mock_item.rs       |  4 ++-
 mockall_derive/src/mockable_item.rs   |  1 +
 mockall_derive/src/mockable_struct.rs |  4 +++
 4 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 2c7d4ea..4296699 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -500,6 +500,42 @@ fn dewhereselfify(generics: &mut Generics) {
     }
 }
 
+/// Remove the invisible groups that surround a function's argument and return
+/// types if they were interpolated by a `macro_rules!` macro.
+fn ungroup(sig: &mut Signature) {
+    fn ungroup_type(ty: &mut Type) {
+        while let Type::Group(tg) = ty {
+            let elem = (*tg.elem).clone();
+            *ty = elem;
+        }
+        if let Type::Slice(ts) = ty {
+            ungroup_type(ts.elem.as_mut());
+        }
+        if let Type::Reference(tr) = ty {
+            let was_group = matches!(*tr.elem, Type::Group(_));
+            ungroup_type(tr.elem.as_mut());
+            match tr.elem.as_ref() {
+                Type::TraitObject(tto) if was_group && tto.bounds.len() > 1 => {
+                    *tr.elem = Type::Paren(TypeParen {
+                        paren_token: token::Paren::default(),
+                        elem: tr.elem.clone()
+                    });
+                },
+                _ => ()
+            }
+        }
+    }
+
+    for arg in sig.inputs.iter_mut() {
+        if let FnArg::Typed(pt) = arg {
+            ungroup_type(pt.ty.as_mut());
+        }
+    }
+    if let ReturnType::Type(_, ty) = &mut sig.output {
+        ungroup_type(ty.as_mut());
+    }
+}
+
 /// Remove any mutability qualifiers from a method's argument list
 fn demutify(inputs: &mut Punctuated<FnArg, token::Comma>) {
     for arg in inputs.iter_mut() {
diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index b19286e..68dc394 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -10,7 +10,8 @@ use crate::{
     MockItemStruct,
     compile_error,
     mock_function::{self, MockFunction},
-    mockable_item::{MockableItem, MockableModule}
+    mockable_item::{MockableItem, MockableModule},
+    ungroup
 };
 
 /// A Mock item
@@ -88,6 +89,7 @@ impl From<MockableModule> for MockItemModule {
                 Item::ForeignMod(ifm) => {
                     for item in ifm.items {
                         if let ForeignItem::Fn(mut f) = item {
+                            ungroup(&mut f.sig);
                             // Foreign functions are always unsafe.  Mock
                             // foreign functions should be unsafe too, to
                             // prevent "warning: unused unsafe" messages.
diff --git a/mockall_derive/src/mockable_item.rs b/mockall_derive/src/mockable_item.rs
index da7f823..0df9613 100644
--- a/mockall_derive/src/mockable_item.rs
+++ b/mockall_derive/src/mockable_item.rs
@@ -3,6 +3,7 @@ use super::*;
 
 /// Performs transformations on a function to make it mockable
 fn mockable_fn(mut item_fn: ItemFn) -> ItemFn {
+    ungroup(&mut item_fn.sig);
     demutify(&mut item_fn.sig.inputs);
     deimplify(&mut item_fn.sig.output);
     item_fn
diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 9857475..2adc75c 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -19,6 +19,7 @@ use crate::{
     dewhereselfify,
     find_ident_from_path,
     gen_mock_ident,
+    ungroup,
     AttrFormatter,
 };
 
@@ -70,6 +71,7 @@ fn add_lifetime_parameters(sig: &mut Signature) {
         match ty {
             Type::Array(ta) => add_to_type(generics, var, ta.elem.as_mut()),
             Type::BareFn(_) => (),
+            Type::Group(tg) => add_to_type(generics, var, tg.elem.as_mut()),
             Type::ImplTrait(_) => (),
             Type::Path(_) => (),
             Type::Ptr(_) => (),
@@ -158,6 +160,7 @@ fn mockable_item_impl(mut impl_: ItemImpl, name: &Ident, generics: &Generics)
 /// Performs transformations on the method to make it mockable
 fn mockable_method(meth: &mut ImplItemFn, name: &Ident, generics: &Generics)
 {
+    ungroup(&mut meth.sig);
     demutify(&mut meth.sig.inputs);
     deselfify_args(&mut meth.sig.inputs, name, generics);
     add_lifetime_parameters(&mut meth.sig);
@@ -177,6 +180,7 @@ fn mockable_trait_method(
     name: &Ident,
     generics: &Generics)
 {
+    ungroup(&mut meth.sig);
     demutify(&mut meth.sig.inputs);
     deselfify_args(&mut meth.sig.inputs, name, generics);
     add_lifetime_parameters(&mut meth.sig);
-- 
2.43.0


From b03da0a7f3463512bd80b65b5ed8b5e1f77bc475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:54 +0000
Subject: [PATCH 25/34] fix: impl Trait for ::Foo in mock! was accepted as impl
 Trait for Foo

---
 mockall_derive/src/mockable_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 2adc75c..f30f64f 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -129,7 +129,9 @@ fn derive_debug() -> Attribute {
 fn mock_ident_in_type(ty: &mut Type) {
     match ty {
         Type::Path(type_path) => {
-            if type_path.path.segments.len() != 1 {
+            if type_path.path.segments.len() != 1
+                || type_path.path.leading_colon.is_some()
+            {
                 compile_error(type_path.path.span(),
                     "mockall_derive only supports structs defined in the current module");
                 return;
-- 
2.43.0


From 9a230419e9fedf32f11c688b6418740f78edda3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 26/34] fix: any cfg_attr that mentioned "concretize" was taken
 for it

Even a doc string.  And the attributes next to a real one got lost.
---
 mockall_derive/src/lib.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 4296699..f9e6b55 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -63,13 +63,11 @@ fn is_concretize(attr: &Attribute) -> bool {
     if attr.path().segments.last().unwrap().ident == "concretize" {
         true
     } else if attr.path().is_ident("cfg_attr") {
-        match &attr.meta {
-            Meta::List(ml) => {
-                ml.tokens.to_string().contains("concretize")
-            },
-            // cfg_attr should always contain a list
-            _ => false,
-        }
+        // The first one is the predicate
+        attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
+            .map(|metas| metas.into_iter().skip(1).any(|meta| {
+                is_concretize(&Attribute { meta, ..attr.clone() })
+            })).unwrap_or(false)
     } else {
         false
     }
@@ -906,11 +904,11 @@ impl<'a> AttrFormatter<'a> {
     }
 
     fn format_attr(&self, attr: &Attribute) -> Option<Attribute> {
-        if is_concretize(attr) {
-            // Internally used attribute.  Never emit.
-            return None;
-        }
         if !attr.path().is_ident("cfg_attr") {
+            if is_concretize(attr) {
+                // Internally used attribute.  Never emit.
+                return None;
+            }
             return self.allowed(attr.path()).then(|| attr.clone());
         }
         // Apply the same rules to the attributes within the cfg_attr.
-- 
2.43.0


From 4b3d052e0d51c62ddbcf4c98f1f623629214e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 27/34] fix: mocking an extern block ignored the block's cfg
 and allow attributes

---
 mockall_derive/src/mock_item.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index 68dc394..a319efb 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -7,6 +7,7 @@ use syn::{
 };
 
 use crate::{
+    AttrFormatter,
     MockItemStruct,
     compile_error,
     mock_function::{self, MockFunction},
@@ -87,6 +88,9 @@ impl From<MockableModule> for MockItemModule {
                     content.push(MockItemContent::Fn(Box::new(mf)));
                 },
                 Item::ForeignMod(ifm) => {
+                    let block_attrs = AttrFormatter::new(&ifm.attrs)
+                        .doc(false)
+                        .format();
                     for item in ifm.items {
                         if let ForeignItem::Fn(mut f) = item {
                             ungroup(&mut f.sig);
@@ -119,8 +123,12 @@ impl From<MockableModule> for MockItemModule {
                                 ifm.abi.clone()
                             });
 
+                            let attrs = block_attrs.iter()
+                                .chain(&f.attrs)
+                                .cloned()
+                                .collect::<Vec<_>>();
                             let mf = mock_function::Builder::new(&f.sig, &f.vis)
-                                .attrs(&f.attrs)
+                                .attrs(&attrs)
                                 .foreign(true)
                                 .parent(&mock_ident)
                                 .levels(1)
-- 
2.43.0


From 029b68ab600a9df4335575fe4a185389dcb62c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 28/34] fix: automock failed for items and methods with inner
 attributes

---
 mockall_derive/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index f9e6b55..afea58d 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -900,6 +900,8 @@ impl<'a> AttrFormatter<'a> {
     fn format(&mut self) -> Vec<Attribute> {
         self.attrs.iter()
             .filter_map(|attr| self.format_attr(attr))
+            // Inner attributes work just as well on the outside
+            .map(|attr| Attribute { style: AttrStyle::Outer, ..attr })
             .collect()
     }
 
-- 
2.43.0


From 2092baf2d0793f42a4b0ad461e32b713314def04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 29/34] fix: allow attributes on modules, structs and impl
 blocks weren't honored

Nor cfg attributes on a struct in mock!
---
 mockall_derive/src/mock_item_struct.rs | 29 ++++++++++++++++++++++++--
 mockall_derive/src/mockable_item.rs    |  6 +++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/mockall_derive/src/mock_item_struct.rs b/mockall_derive/src/mock_item_struct.rs
index d94ba47..04234f9 100644
--- a/mockall_derive/src/mock_item_struct.rs
+++ b/mockall_derive/src/mock_item_struct.rs
@@ -160,7 +160,12 @@ impl MockItemStruct {
             let (ig, tg, wc) = self.generics.split_for_impl();
             let struct_name = &self.name;
             let struct_name_str = format!("{}", self.name);
+            let attrs = AttrFormatter::new(&self.attrs)
+                .async_trait(false)
+                .doc(false)
+                .format();
             quote!(
+                #(#attrs)*
                 impl #ig ::std::fmt::Debug for #struct_name #tg #wc {
                     fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>)
                         -> ::std::result::Result<(), std::fmt::Error>
@@ -236,9 +241,22 @@ impl From<MockableStruct> for MockItemStruct {
                     .build()
             ).collect::<Vec<_>>());
         let structname = &mockable.name;
+        // The trait impls exist, and get linted, under the same conditions as
+        // the struct.
+        let struct_attrs = AttrFormatter::new(&mockable.attrs)
+            .async_trait(false)
+            .doc(false)
+            .format();
         let traits = mockable.impls.into_iter()
-            .map(|i| MockTrait::new(structname, &generics, i, &vis))
-            .collect();
+            .map(|mut i| {
+                let own_attrs = std::mem::take(&mut i.attrs);
+                i.attrs = struct_attrs.iter()
+                    .filter(|attr| !own_attrs.contains(attr))
+                    .cloned()
+                    .chain(own_attrs.iter().cloned())
+                    .collect();
+                MockTrait::new(structname, &generics, i, &vis)
+            }).collect();
 
         MockItemStruct {
             attrs: mockable.attrs,
@@ -261,6 +279,10 @@ impl ToTokens for MockItemStruct {
             .async_trait(false)
             .must_use(true)
             .format();
+        let support_attrs = AttrFormatter::new(&self.attrs)
+            .async_trait(false)
+            .doc(false)
+            .format();
         let consts = &self.consts;
         let debug_impl = self.debug_impl();
         let struct_name = &self.name;
@@ -338,6 +360,7 @@ impl ToTokens for MockItemStruct {
         quote!(
             #[allow(non_snake_case)]
             #[allow(missing_docs)]
+            #(#support_attrs)*
             pub mod #modname {
                 use super::*;
                 #(#priv_mods)*
@@ -351,6 +374,7 @@ impl ToTokens for MockItemStruct {
                 #(#field_definitions),*
             }
             #debug_impl
+            #(#support_attrs)*
             impl #ig ::std::default::Default for #struct_name #tg #wc {
                 #[allow(clippy::default_trait_access)]
                 fn default() -> Self {
@@ -360,6 +384,7 @@ impl ToTokens for MockItemStruct {
                 }
             }
             #(#substructs)*
+            #(#support_attrs)*
             impl #ig #struct_name #tg #wc {
                 #(#consts)*
                 #(#calls)*
diff --git a/mockall_derive/src/mockable_item.rs b/mockall_derive/src/mockable_item.rs
index 0df9613..b21cb14 100644
--- a/mockall_derive/src/mockable_item.rs
+++ b/mockall_derive/src/mockable_item.rs
@@ -65,6 +65,10 @@ pub(crate) struct MockableModule {
 impl From<ItemMod> for MockableModule {
     fn from(mod_: ItemMod) -> MockableModule {
         let span = mod_.span();
+        let attrs = AttrFormatter::new(&mod_.attrs)
+            .doc(false)
+            .format();
+        let attrs = quote!(#(#attrs)*);
         let vis = mod_.vis;
         let mock_ident = format_ident!("mock_{}", mod_.ident);
         let orig_ident = Some(mod_.ident);
@@ -78,7 +82,7 @@ impl From<ItemMod> for MockableModule {
             Vec::new()
         };
         MockableModule {
-            attrs: TokenStream::new(),
+            attrs,
             vis,
             mock_ident,
             orig_ident,
-- 
2.43.0


From c3e849a78e458ae7c459423b9699abf6115ad2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 30/34] fix: expect, deny and forbid attributes broke the
 generated code

A lint that is expected in the original code may be violated by the mock,
too.  And lints that the original code obeys may be violated by the mock.
---
 mockall_derive/src/lib.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index afea58d..a43abd5 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -911,7 +911,15 @@ impl<'a> AttrFormatter<'a> {
                 // Internally used attribute.  Never emit.
                 return None;
             }
-            return self.allowed(attr.path()).then(|| attr.clone());
+            let mut attr = attr.clone();
+            if let Meta::List(ml) = &mut attr.meta {
+                if ml.path.is_ident("expect") {
+                    // There's a lint that the original code violates.  The
+                    // mock code may or may not violate it, too.
+                    ml.path = parse_quote!(allow);
+                }
+            }
+            return self.allowed(attr.path()).then_some(attr);
         }
         // Apply the same rules to the attributes within the cfg_attr.
         let mut metas = match attr.parse_args_with(
@@ -948,10 +956,11 @@ impl<'a> AttrFormatter<'a> {
             self.doc
         } else if *i.as_ref().unwrap() == "async_trait" {
             self.async_trait
-        } else if *i.as_ref().unwrap() == "expect" {
-            // This probably means that there's a lint that needs to be
-            // surpressed for the real code, but not for the mock code.
-            // Skip it.
+        } else if ["warn", "deny", "forbid"].iter()
+            .any(|name| path.is_ident(name))
+        {
+            // Stricter lints are meant for the original code, and it's the one
+            // that gets linted.  The generated code needn't comply.
             false
         } else if *i.as_ref().unwrap() == "inline" {
             // No need to inline mock functions.
@@ -988,8 +997,7 @@ impl<'a> AttrFormatter<'a> {
             // This isn't the mock item itself, but something that supports it.
             // Such code should exist and be linted under the same conditions,
             // but other attributes, like `track_caller`, don't apply to it.
-            ["cfg", "allow", "warn", "deny", "forbid"].iter()
-                .any(|name| path.is_ident(name))
+            path.is_ident("cfg") || path.is_ident("allow")
         } else {
             true
         }
-- 
2.43.0


From d23ed096fc4a581e347441e7ead384a9f2fb7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 31/34] fix: improper_ctypes on an extern block wasn't honored

For a function definition it's called improper_ctypes_definitions.
---
 mockall_derive/src/mock_function.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 48b567f..62040ba 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -558,6 +558,12 @@ impl MockFunction {
         } else {
             quote!()
         };
+        // The original was already linted, though as a declaration.
+        let ctypes = if self.foreign {
+            quote!(#[allow(improper_ctypes_definitions)])
+        } else {
+            quote!()
+        };
         let substruct_obj: TokenStream = if let Some(trait_) = &self.trait_ {
             let ident = format_ident!("{}_expectations", trait_);
             quote!(#ident.)
@@ -584,6 +590,7 @@ impl MockFunction {
                 #(#attrs)*
                 #dead_code
                 #no_mangle
+                #ctypes
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
                     let __mockall_no_match_msg = #no_match_msg;
-- 
2.43.0


From cc5d9cd30ffab5e6f69a466f132078d69301a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:23 +0000
Subject: [PATCH 32/34] fix: double took types with raw names for modules

---
 mockall_double/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mockall_double/src/lib.rs b/mockall_double/src/lib.rs
index 7b763ac..ba34166 100644
--- a/mockall_double/src/lib.rs
+++ b/mockall_double/src/lib.rs
@@ -16,6 +16,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
 use syn::{
     *,
+    ext::IdentExt,
     spanned::Spanned
 };
 
@@ -183,7 +184,7 @@ fn mock_itemuse(orig: &mut ItemUse) {
 }
 
 fn mock_ident(i: &Ident) -> Ident {
-    let is_type = format!("{i}")
+    let is_type = format!("{}", i.unraw())
         .chars()
         .next()
         .expect("zero-length ident?")
-- 
2.43.0


From 4ff3f6da93fbef9241b43ba1f138d23546429350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:53 +0000
Subject: [PATCH 33/34] fix: names derived from ones with underscores violated
 non_snake_case

---
 mockall_derive/src/lib.rs           | 8 ++++++++
 mockall_derive/src/mock_function.rs | 5 +++++
 mockall_derive/src/mock_item.rs     | 3 +++
 3 files changed, 16 insertions(+)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index a43abd5..374f10d 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -1374,6 +1374,14 @@ fn lifetimes_to_generics(lv: &Punctuated<LifetimeParam, Token![,]>)-> Generics {
     }
 }
 
+/// The name of a function or module made from that of another one may
+/// violate the `non_snake_case` lint, even if that one didn't.
+fn snake_lint(ident: &Ident) -> Option<TokenStream> {
+    ident.to_string()
+        .contains("__")
+        .then(|| quote!(#[allow(non_snake_case)]))
+}
+
 /// Split a generics list into three: one for type generics and where predicates
 /// that relate to the signature, one for lifetimes that relate to the arguments
 /// only, and one for lifetimes that relate to the return type only.
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 62040ba..cc86975 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -21,6 +21,7 @@ use crate::{
     lifetimes_to_generics,
     merge_generics,
     pat_is_self,
+    snake_lint,
     split_lifetimes,
     staticize,
     supersuperfy,
@@ -663,12 +664,14 @@ impl MockFunction {
             self.inner_mod_ident(),
             self.name());
         let context_ident = format_ident!("{}_context", self.name());
+        let snake_lint = snake_lint(&context_ident);
         let (_, tg, _) = self.type_generics.split_for_impl();
         let outer_mod_path = self.outer_mod_path(modname);
         let v = &self.call_vis;
         quote!(
             #(#attrs)*
             #[doc = #context_docstr]
+            #snake_lint
             #v fn #context_ident() -> #outer_mod_path::Context #tg
             {
                 #outer_mod_path::Context::default()
@@ -708,6 +711,7 @@ impl MockFunction {
             .format();
         let name = self.name();
         let expect_ident = format_ident!("expect_{}", name);
+        let snake_lint = snake_lint(&expect_ident);
         let expectation_obj = self.expectation_obj(self_args);
         let funcname = &self.sig.ident;
         let (_, tg, _) = if self.is_method_generic() {
@@ -744,6 +748,7 @@ impl MockFunction {
             #must_use
             #[doc = #docstr]
             #(#attrs)*
+            #snake_lint
             #vis fn #expect_ident #ig(&mut self)
                -> &mut #modname::#expectation_obj
                #wc
diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index a319efb..e658adb 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -12,6 +12,7 @@ use crate::{
     compile_error,
     mock_function::{self, MockFunction},
     mockable_item::{MockableItem, MockableModule},
+    snake_lint,
     ungroup
 };
 
@@ -216,10 +217,12 @@ impl ToTokens for MockItemModule {
                 quote!(#[allow(missing_docs)])
             }
         };
+        let snake_lint = snake_lint(modname);
         quote!(
             #[allow(unused_imports)]
             #attrs
             #docstr
+            #snake_lint
             #vis mod #modname {
                 #body
         }).to_tokens(tokens);
-- 
2.43.0


From ca5f6f8a520ef42dd5496dae6f5b6c90f3376c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:47 +0000
Subject: [PATCH 34/34] fix: defaults of type parameters were ignored

The mock struct dropped the defaults of its type parameters, and mock!
accepted and dropped those of impl blocks, which the language forbids.
---
 mockall_derive/src/mock_item_struct.rs | 34 ++++++++++++++++++++++++--
 mockall_derive/src/mockable_struct.rs  |  6 +++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_item_struct.rs b/mockall_derive/src/mock_item_struct.rs
index 04234f9..e04fde0 100644
--- a/mockall_derive/src/mock_item_struct.rs
+++ b/mockall_derive/src/mock_item_struct.rs
@@ -1,7 +1,7 @@
 // vim: tw=80
 use std::collections::HashSet;
 
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
 use quote::{ToTokens, format_ident, quote};
 use syn::{
     *,
@@ -17,6 +17,15 @@ use crate::{
     mock_trait::MockTrait
 };
 
+/// Does the identifier `Self` appear anywhere in these tokens?
+fn mentions_self(tokens: TokenStream) -> bool {
+    tokens.into_iter().any(|tt| match tt {
+        TokenTree::Ident(ident) => ident == "Self",
+        TokenTree::Group(group) => mentions_self(group.stream()),
+        _ => false
+    })
+}
+
 fn phantom_default_inits(generics: &Generics) -> Vec<TokenStream> {
     generics.params
     .iter()
@@ -201,6 +210,26 @@ impl MockItemStruct {
         )
     }
 
+    /// The generics as they should appear in the struct's definition, which,
+    /// unlike any impl block, may have defaults for type parameters.
+    fn definition_generics(&self) -> Generics {
+        let mut generics = self.generics.clone();
+        // A trait's defaults may involve Self, but a struct's may not.  And all
+        // defaults must be trailing.
+        let mut keep = true;
+        for param in generics.params.iter_mut().rev() {
+            if let GenericParam::Type(tp) = param {
+                keep &= tp.default.as_ref()
+                    .is_some_and(|ty| !mentions_self(quote!(#ty)));
+                if !keep {
+                    tp.eq_token = None;
+                    tp.default = None;
+                }
+            }
+        }
+        generics
+    }
+
     fn phantom_default_inits(&self) -> Vec<TokenStream> {
         phantom_default_inits(&self.generics)
     }
@@ -357,6 +386,7 @@ impl ToTokens for MockItemStruct {
                 trait_.trait_impl(&modname)
             }).collect::<Vec<_>>();
         let vis = &self.vis;
+        let definition_generics = self.definition_generics();
         quote!(
             #[allow(non_snake_case)]
             #[allow(missing_docs)]
@@ -369,7 +399,7 @@ impl ToTokens for MockItemStruct {
             #[allow(non_snake_case)]
             #[allow(missing_docs)]
             #(#attrs)*
-            #vis struct #struct_name #ig #wc
+            #vis struct #struct_name #definition_generics #wc
             {
                 #(#field_definitions),*
             }
diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index f30f64f..105ebf8 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -521,6 +521,12 @@ impl Parse for MockableStruct {
                         return Err(syn::Error::new(ii.impl_token.span(),
                             "Unsupported in this context"));
                     }
+                    if let Some(tp) = ii.generics.type_params()
+                        .find(|tp| tp.default.is_some())
+                    {
+                        return Err(syn::Error::new(tp.span(),
+                            "Type parameters of impl blocks can't have defaults"));
+                    }
                     for item in ii.items.iter_mut() {
                         if let ImplItem::Fn(iif) = item {
                             return Err(syn::Error::new(iif.sig.ident.span(),
-- 
2.43.0

