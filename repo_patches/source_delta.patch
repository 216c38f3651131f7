From 92b91bbed11aa02079e10cd0c038c0a4d0dc7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:41 +0000
Subject: [PATCH 01/10] fix: scalar keys spanning the whole usize range no
 longer overflow

analyze_scalar_keys and DenseScalarLookupMap::new computed max - min + 1, which
overflows when the keys include both the smallest and the largest index
(for example u64 0 and u64::MAX, or i64::MIN and i64::MAX).
---
 frozen-collections-core/src/analyzers/scalar_key_analyzer.rs | 2 +-
 frozen-collections-core/src/maps/dense_scalar_lookup_map.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
index db83611..52bde42 100644
--- a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
@@ -32,7 +32,7 @@ pub fn analyze_scalar_keys(keys: impl Iterator<Item: Scalar>) -> ScalarKeyAnalys
         return ScalarKeyAnalysisResult::General;
     }
 
-    let needed_count = max - min + 1;
+    let needed_count = (max - min).saturating_add(1);
     if needed_count == count {
         ScalarKeyAnalysisResult::DenseRange
     } else if needed_count <= ALWAYS_SPARSE_THRESHOLD || needed_count < count.saturating_mul(MAX_SPARSE_MULTIPLIER) {
diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index a3ced24..6c8628b 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -51,7 +51,7 @@ impl<K, V> DenseScalarLookupMap<K, V> {
         let min = entries[0].0.index();
         let max = entries[entries.len() - 1].0.index();
 
-        if entries.len() == max - min + 1 {
+        if entries.len() - 1 == max - min {
             Ok(Self::from_sorted_and_dedupped(entries))
         } else {
             Err("keys must be in a contiguous range <= usize::MAX in size".to_string())
-- 
2.43.0


From 2a52e091387c203dc78e152d81d79d5278d74143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:41 +0000
Subject: [PATCH 02/10] fix: deserialize string collections from non-borrowed
 strings

FzStringMap and FzStringSet required keys to be borrowed from the input, so
JSON strings with escapes, readers and serde_json::Value were all rejected.
---
 frozen-collections-core/src/fz_maps/fz_string_map.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index c33cdf7..a91dd2f 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(&'de str, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index 6acc3e8..a842ecb 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(&str, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From 3c12bab66ce1b962b360c741151a5369652c5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:41 +0000
Subject: [PATCH 03/10] fix: Union::size_hint lower bound after partial
 consumption

Once the larger set was partly consumed, the lower bound was taken from the
smaller set although all its items may already have been produced.
---
 frozen-collections-core/src/sets/iterators.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/sets/iterators.rs b/frozen-collections-core/src/sets/iterators.rs
index 8e09c62..8ac8bae 100644
--- a/frozen-collections-core/src/sets/iterators.rs
+++ b/frozen-collections-core/src/sets/iterators.rs
@@ -1,5 +1,5 @@
 use crate::traits::{Set, SetIteration, SetOps};
-use core::cmp::{max, min};
+use core::cmp::min;
 use core::fmt::{Debug, Formatter};
 use core::iter::{Chain, FusedIterator};
 
@@ -178,7 +178,10 @@ where
             }
         }
 
-        (max(h1.0, h2.0), max_bound)
+        // the larger set is yielded in full, items of the other one may all be duplicates
+        let min_bound = if self.s1.len() > self.s2.len() { h1.0 } else { h2.0 };
+
+        (min_bound, max_bound)
     }
 }
 
-- 
2.43.0


From 3471701862f9906aa3d7b29cf1365672bdd73bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 04/10] fix: get_disjoint_mut rejects unequal queries that
 denote the same key

The duplicate check used the query type's own equality, which may be finer than
Equivalent/Comparable to the key type; safe code could obtain two mutable
references to one value.
---
 .../src/maps/decl_macros.rs                   | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/frozen-collections-core/src/maps/decl_macros.rs b/frozen-collections-core/src/maps/decl_macros.rs
index cfdaac1..42661b2 100644
--- a/frozen-collections-core/src/maps/decl_macros.rs
+++ b/frozen-collections-core/src/maps/decl_macros.rs
@@ -258,17 +258,32 @@ macro_rules! get_disjoint_mut_funcs {
             panic!("duplicate keys found");
         }
 
-        // SAFETY: We've validated that the caller isn't asking for duplicate keys
-        return unsafe { $self.get_disjoint_unchecked_mut($keys) };
+        let ptrs: [Option<::core::ptr::NonNull<V>>; N] = get_disjoint_mut_funcs!(@ptrs, $self, $keys);
+
+        // Unequal query keys can still be equivalent to the same key in the map.
+        if ::core::mem::size_of::<V>() != 0 {
+            for i in 0..N {
+                for j in 0..i {
+                    if ptrs[i].is_some() && ptrs[i] == ptrs[j] {
+                        crate::utils::cold();
+                        panic!("duplicate keys found");
+                    }
+                }
+            }
+        }
+
+        return ptrs.map(|ptr| ptr.map(|mut ptr|
+            // SAFETY: pointers all safely acquired above, and validated to be disjoint
+            unsafe { ptr.as_mut() }
+        ));
+    };
+
+    (@ptrs, $self:ident, $keys:ident) => {
+        ::core::array::from_fn(|i| $self.get_mut($keys[i]).map(::core::ptr::NonNull::from))
     };
 
     (@unsafe_body, $self:ident, $keys:ident) => {
-        let ptrs: [Option<::core::ptr::NonNull<V>>; N] = ::core::array::from_fn(|i| {
-            $self.get_mut($keys[i]).map(|value| {
-                let v = value as *mut V;
-                ::core::ptr::NonNull::new(v).unwrap()
-            })
-        });
+        let ptrs: [Option<::core::ptr::NonNull<V>>; N] = get_disjoint_mut_funcs!(@ptrs, $self, $keys);
 
         return ptrs.map(|ptr| ptr.map(|mut ptr|
             // SAFETY: pointers all safely acquired above
-- 
2.43.0


From e79bf3a09501e171410651927fe589748e825573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 05/10] fix: do not trust a deserializer's size hint for
 preallocation

A hint taken from untrusted data could make deserialization panic with a
capacity overflow or exhaust memory before the first entry is read.
---
 frozen-collections-core/src/fz_maps/fz_hash_map.rs    | 2 +-
 frozen-collections-core/src/fz_maps/fz_ordered_map.rs | 2 +-
 frozen-collections-core/src/fz_maps/fz_scalar_map.rs  | 2 +-
 frozen-collections-core/src/fz_maps/fz_string_map.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_hash_set.rs    | 2 +-
 frozen-collections-core/src/fz_sets/fz_ordered_set.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_scalar_set.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_hash_map.rs b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
index 847e9a6..52c08d7 100644
--- a/frozen-collections-core/src/fz_maps/fz_hash_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
@@ -401,7 +401,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
index 0574d2a..4ce3c20 100644
--- a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
@@ -338,7 +338,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
index 7ab287f..de5e791 100644
--- a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
@@ -423,7 +423,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index a91dd2f..96cd7e8 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_hash_set.rs b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
index 16a7f87..2eb3bc6 100644
--- a/frozen-collections-core/src/fz_sets/fz_hash_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
@@ -315,7 +315,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
index 54081ef..5e271e4 100644
--- a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
@@ -261,7 +261,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
index f03e289..40bf215 100644
--- a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
@@ -255,7 +255,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index a842ecb..46ff3da 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From af289f89d64977e4e69836139779fc4c8762d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:38 +0000
Subject: [PATCH 06/10] fix: dense scalar lookups stay in bounds when keys
 report inconsistent indices

---
 .../src/maps/dense_scalar_lookup_map.rs                   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index 6c8628b..69c2fb7 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -67,9 +67,13 @@ impl<K, V> DenseScalarLookupMap<K, V> {
     where
         K: Scalar,
     {
+        let min = entries[0].0.index();
+
         Self {
-            min: entries[0].0.index(),
-            max: entries[entries.len() - 1].0.index(),
+            min,
+            // lookups index into the entries without bounds checks, so the range must match the
+            // number of entries even if the keys report inconsistent indices
+            max: min.saturating_add(entries.len() - 1),
             entries: entries.into_boxed_slice(),
         }
     }
-- 
2.43.0


From caadb436c2eff682f025a95d54e2552718f12825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:05 +0000
Subject: [PATCH 07/10] fix: string macros with computed keys accept a declared
 key type

---
 frozen-collections-core/src/emit/generator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/emit/generator.rs b/frozen-collections-core/src/emit/generator.rs
index 22ca7e7..ab32afe 100644
--- a/frozen-collections-core/src/emit/generator.rs
+++ b/frozen-collections-core/src/emit/generator.rs
@@ -84,7 +84,8 @@ impl Generator {
 
     #[cfg(feature = "macros")]
     pub(super) fn gen_fz_string<K>(self, entries: Vec<CollectionEntry<K>>) -> Output {
-        let key_type = &self.key_type;
+        // the run-time string collections own their keys, whatever key type was declared
+        let key_type = quote!(::std::boxed::Box<str>);
         let value_type = &self.value_type;
 
         let mut ty = quote!(::frozen_collections::FzStringMap);
-- 
2.43.0


From 7d18569280cf992b2cf44c19ea29b55986d192e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:30 +0000
Subject: [PATCH 08/10] fix: the emitter rejects names that are not identifiers
 instead of panicking

---
 .../src/emit/collection_emitter.rs                  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/emit/collection_emitter.rs b/frozen-collections-core/src/emit/collection_emitter.rs
index 9337cf1..d9c1d67 100644
--- a/frozen-collections-core/src/emit/collection_emitter.rs
+++ b/frozen-collections-core/src/emit/collection_emitter.rs
@@ -5,9 +5,9 @@ use crate::hashers::{BridgeHasher, LeftRangeHasher, LengthHasher, RightRangeHash
 use crate::traits::{Hasher, Scalar};
 use crate::utils::{DeduppedVec, SortedAndDeduppedVec};
 use foldhash::fast::FixedState;
-use proc_macro2::{Literal, TokenStream};
+use proc_macro2::{Ident, Literal, TokenStream};
 use quote::{ToTokens, format_ident, quote};
-use syn::{Type, Visibility, parse_quote};
+use syn::{Type, Visibility, parse_quote, parse_str};
 
 #[cfg(feature = "macros")]
 use crate::emit::NonLiteralKey;
@@ -465,6 +465,10 @@ impl CollectionEmitter {
             Err("symbol_name is required for mutable collections".to_string())
         } else if self.alias_name.is_some() && self.symbol_name.is_none() {
             Err("alias_name cannot be used without symbol_name".to_string())
+        } else if !self.symbol_name.as_deref().is_none_or(is_ident) {
+            Err("symbol_name must be a valid identifier".to_string())
+        } else if !self.alias_name.as_deref().is_none_or(is_ident) {
+            Err("alias_name must be a valid identifier".to_string())
         } else {
             Ok(Generator::new(&self.key_type, self.value_type.as_ref(), len))
         }
@@ -522,6 +526,11 @@ impl CollectionEmitter {
     }
 }
 
+/// Whether a name can be used as an identifier in the emitted source code.
+fn is_ident(name: &str) -> bool {
+    parse_str::<Ident>(name).is_ok_and(|ident| ident == name)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3ce783639027205f8fdd1d6e51c7bdafb9cbaa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:32 +0000
Subject: [PATCH 09/10] fix: emitted statics name LazyLock by its absolute path

A caller with an item called std in scope got a static that does not compile.
---
 frozen-collections-core/src/emit/collection_emitter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/emit/collection_emitter.rs b/frozen-collections-core/src/emit/collection_emitter.rs
index d9c1d67..b131bf6 100644
--- a/frozen-collections-core/src/emit/collection_emitter.rs
+++ b/frozen-collections-core/src/emit/collection_emitter.rs
@@ -498,11 +498,11 @@ impl CollectionEmitter {
                 let alias_name = format_ident!("{}", alias_name);
                 quote!(
                     #visibility type #alias_name = #type_sig;
-                    #visibility static #symbol_name: std::sync::LazyLock<#alias_name> = std::sync::LazyLock::new(|| { #ctor });
+                    #visibility static #symbol_name: ::std::sync::LazyLock<#alias_name> = ::std::sync::LazyLock::new(|| { #ctor });
                 )
             } else {
                 quote!(
-                   #visibility static #symbol_name: std::sync::LazyLock<#type_sig> = std::sync::LazyLock::new(|| { #ctor });
+                   #visibility static #symbol_name: ::std::sync::LazyLock<#type_sig> = ::std::sync::LazyLock::new(|| { #ctor });
                 )
             }
         } else if let Some(symbol_name) = self.symbol_name.as_ref() {
-- 
2.43.0


From 57d234c24b61322a22ddb896ae53de9832c06936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 10/10] fix: emitted code reaches vec! and Box through the
 library, so that it compiles in no_std crates

---
 frozen-collections-core/src/emit/generator.rs | 12 ++++++------
 frozen-collections/src/lib.rs                 |  8 ++++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/frozen-collections-core/src/emit/generator.rs b/frozen-collections-core/src/emit/generator.rs
index ab32afe..103c56e 100644
--- a/frozen-collections-core/src/emit/generator.rs
+++ b/frozen-collections-core/src/emit/generator.rs
@@ -42,7 +42,7 @@ impl Generator {
         let mut ty = quote!(::frozen_collections::FzHashMap);
         let mut generics = quote!(<#key_type, #value_type>);
         let mut type_sig = quote!(#ty::#generics);
-        let mut ctor = quote!(#type_sig::new(vec![
+        let mut ctor = quote!(#type_sig::new(::frozen_collections::__alloc::vec![
             #(
                 #entries,
             )*
@@ -66,7 +66,7 @@ impl Generator {
         let mut ty = quote!(::frozen_collections::FzScalarMap);
         let mut generics = quote!(<#key_type, #value_type>);
         let mut type_sig = quote!(#ty::#generics);
-        let mut ctor = quote!(#type_sig::new(vec![
+        let mut ctor = quote!(#type_sig::new(::frozen_collections::__alloc::vec![
             #(
                 #entries,
             )*
@@ -85,13 +85,13 @@ impl Generator {
     #[cfg(feature = "macros")]
     pub(super) fn gen_fz_string<K>(self, entries: Vec<CollectionEntry<K>>) -> Output {
         // the run-time string collections own their keys, whatever key type was declared
-        let key_type = quote!(::std::boxed::Box<str>);
+        let key_type = quote!(::frozen_collections::__alloc::Box<str>);
         let value_type = &self.value_type;
 
         let mut ty = quote!(::frozen_collections::FzStringMap);
         let mut generics = quote!(<#key_type, #value_type>);
         let mut type_sig = quote!(#ty::#generics);
-        let mut ctor = quote!(#type_sig::new(vec![
+        let mut ctor = quote!(#type_sig::new(::frozen_collections::__alloc::vec![
             #(
                 #entries,
             )*
@@ -174,7 +174,7 @@ impl Generator {
         let mut ty = quote!(::frozen_collections::inline_maps::InlineEytzingerSearchMap);
         let mut generics = quote!(<#key_type, #value_type, #len>);
         let mut type_sig = quote!(#ty::#generics);
-        let mut ctor = quote!(#type_sig::new(vec![
+        let mut ctor = quote!(#type_sig::new(::frozen_collections::__alloc::vec![
             #(
                 #entries,
             )*
@@ -264,7 +264,7 @@ impl Generator {
         let mut ty = quote!(::frozen_collections::inline_maps::InlineScanMap);
         let mut generics = quote!(<#key_type, #value_type, #len>);
         let mut type_sig = quote!(#ty::#generics);
-        let mut ctor = quote!(#type_sig::new(vec![
+        let mut ctor = quote!(#type_sig::new(::frozen_collections::__alloc::vec![
             #(
                 #entries,
             )*
diff --git a/frozen-collections/src/lib.rs b/frozen-collections/src/lib.rs
index ae54309..7ee53d2 100644
--- a/frozen-collections/src/lib.rs
+++ b/frozen-collections/src/lib.rs
@@ -1127,4 +1127,12 @@ pub mod foldhash {
     pub use foldhash::fast::FixedState;
 }
 
+#[doc(hidden)]
+pub mod __alloc {
+    extern crate alloc;
+
+    pub use alloc::boxed::Box;
+    pub use alloc::vec;
+}
+
 pub use frozen_collections_core::DefaultBuildHasher;
-- 
2.43.0

