From 70c86101d90e8c9854b5cb7939f580e763fcf72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 01/12] fix: skipped fields must not shift the indices of tuple
 struct and variant fields

---
 .../src/derive_reflect/enum_.rs               | 25 +++++++------------
 .../src/derive_reflect/tuple_struct.rs        | 19 ++++++++------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index d0739c3..225daae 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -153,7 +153,7 @@ fn expand_reflect(
                     }
                 }
                 FieldsData::Unnamed(fields) => {
-                    let set_fields = fields.iter().enumerate().filter(filter_out_skipped).map(
+                    let set_fields = fields.iter().filter(filter_out_skipped).enumerate().map(
                         |(index, field)| {
                             let ident = &field.fake_ident;
                             quote! {
@@ -407,6 +407,8 @@ fn expand_from_reflect(
             }
             FieldsData::Unnamed(fields) => {
                 let set_fields = fields.iter().enumerate().map(|(idx, field)| {
+                    // skipped fields don't take up an index
+                    let idx = fields[..idx].iter().filter(filter_out_skipped).count();
                     if field.skip() {
                         quote! {
                             ::core::default::Default::default(),
@@ -630,7 +632,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -649,7 +651,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -694,7 +696,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -713,7 +715,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -870,7 +872,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -889,7 +891,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -1078,15 +1080,6 @@ where
     }
 }
 
-impl<T> Skippable for (usize, T)
-where
-    T: Skippable + ?Sized,
-{
-    fn skip(&self) -> bool {
-        self.1.skip()
-    }
-}
-
 impl Skippable for VariantData<'_> {
     fn skip(&self) -> bool {
         self.attrs.skip
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 07d0893..27ed54a 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -91,6 +91,7 @@ fn expand_reflect(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
+            .enumerate()
             .map(|(idx, _)| {
                 quote! {
                     if let Some(new_value) = tuple_struct.field_at(#idx) {
@@ -200,6 +201,8 @@ fn expand_from_reflect(
                 index: idx as u32,
                 span: field.span(),
             };
+            // skipped fields don't take up an index
+            let reflect_index = (0..idx).filter(|idx| !field_attrs.skip(idx)).count();
             let ty = &field.ty;
             let span = ty.span();
             if field_attrs.skip(&idx) {
@@ -209,21 +212,21 @@ fn expand_from_reflect(
             } else if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_index)?;
                         #from_reflect_with(value)?
                     }
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_index)?;
                         <#ty as FromReflect>::from_reflect(value)?
                     },
                 }
             } else {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_index)?;
                         if let Some(value) = value.downcast_ref::<#ty>() {
                             value.to_owned()
                         } else {
@@ -269,9 +272,10 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(idx, (field_idx, field))| {
                 let field_index = Index {
-                    index: idx as u32,
+                    index: field_idx as u32,
                     span: field.span(),
                 };
                 quote! {
@@ -294,9 +298,10 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(idx, (field_idx, field))| {
                 let field_index = Index {
-                    index: idx as u32,
+                    index: field_idx as u32,
                     span: field.span(),
                 };
                 quote! {
-- 
2.43.0


From 442e99a4857c59bcfa5a0ee6bb99bad2ff5f1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:54 +0000
Subject: [PATCH 02/12] fix: describing a recursive enum or tuple struct must
 not recurse forever

---
 crates/mirror-mirror-macros/src/derive_reflect/enum_.rs        | 2 +-
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 225daae..8c8c5b4 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -112,8 +112,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let variants = &[#(#code_for_variants),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let variants = &[#(#code_for_variants),*];
                     EnumNode::new::<Self>(variants, #meta, #docs)
                 })
             }
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 27ed54a..24079cb 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -70,8 +70,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let fields = &[#(#code_for_fields),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let fields = &[#(#code_for_fields),*];
                     TupleStructNode::new::<Self>(fields, #meta, #docs)
                 })
             }
-- 
2.43.0


From da5109aef6c20af51ed872a597c76945300f10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 03/12] fix: don't hold the descriptor cache lock while
 describing a type

---
 crates/mirror-mirror/src/type_info/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 478c756..4f7e3c0 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -65,13 +65,17 @@ pub trait DescribeType: 'static {
                 return Cow::Borrowed(info);
             }
 
+            // `build` runs user code, such as expressions in `meta` attributes, which might panic or
+            // itself need the descriptor of some type, so the lock cannot be held while calling it
+            let mut graph = TypeGraph::default();
+            let id = Self::build(&mut graph);
+            let info = TypeDescriptor::new(id, graph);
+
+            // another thread might have built it in the meantime, in which case that one is kept
             let mut map = lock.write().unwrap();
-            let info = map.entry(type_id).or_insert_with(|| {
-                let mut graph = TypeGraph::default();
-                let id = Self::build(&mut graph);
-                let info = TypeDescriptor::new(id, graph);
-                Box::leak(Box::new(info))
-            });
+            let info = map
+                .entry(type_id)
+                .or_insert_with(|| Box::leak(Box::new(info)));
             Cow::Borrowed(*info)
         }
 
-- 
2.43.0


From 8f4b840ae2ba2d9537ac40b6b3085392d4cee20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:36 +0000
Subject: [PATCH 04/12] fix: integer keys that don't fit in usize must not
 address list elements

---
 crates/mirror-mirror/src/key_path.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 250cf6f..07f540d 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -570,14 +570,14 @@ pub(crate) fn value_to_usize(value: &Value) -> Option<usize> {
         Value::usize(n) => Some(*n),
         Value::u8(n) => Some(*n as usize),
         Value::u16(n) => Some(*n as usize),
-        Value::u32(n) => Some(*n as usize),
-        Value::u64(n) => Some(*n as usize),
-        Value::u128(n) => Some(*n as usize),
-        Value::i8(n) => Some(*n as usize),
-        Value::i16(n) => Some(*n as usize),
-        Value::i32(n) => Some(*n as usize),
-        Value::i64(n) => Some(*n as usize),
-        Value::i128(n) => Some(*n as usize),
+        Value::u32(n) => usize::try_from(*n).ok(),
+        Value::u64(n) => usize::try_from(*n).ok(),
+        Value::u128(n) => usize::try_from(*n).ok(),
+        Value::i8(n) => usize::try_from(*n).ok(),
+        Value::i16(n) => usize::try_from(*n).ok(),
+        Value::i32(n) => usize::try_from(*n).ok(),
+        Value::i64(n) => usize::try_from(*n).ok(),
+        Value::i128(n) => usize::try_from(*n).ok(),
         Value::bool(_)
         | Value::char(_)
         | Value::f32(_)
-- 
2.43.0


From d505d0ce76d160312092916cede779fe81c515ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 05/12] fix: arrays must accept other arrays and their own
 value form

---
 crates/mirror-mirror/src/foreign_impls/array.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index 5dcec66..1f000a4 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -50,6 +50,13 @@ where
                     value.patch(new_value);
                 }
             }
+        } else if let Some(list) = value.reflect_ref().as_list() {
+            // arrays are lists when converted to `Value`
+            for (idx, new_value) in list.iter().enumerate() {
+                if let Some(value) = self.get_mut(idx) {
+                    value.patch(new_value);
+                }
+            }
         }
     }
 
@@ -108,7 +115,12 @@ where
     T: FromReflect + DescribeType,
 {
     fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
-        Vec::<T>::from_reflect(reflect)?.try_into().ok()
+        let values = if let Some(array) = reflect.reflect_ref().as_array() {
+            array.iter().map(T::from_reflect).collect::<Option<_>>()?
+        } else {
+            Vec::<T>::from_reflect(reflect)?
+        };
+        values.try_into().ok()
     }
 }
 
-- 
2.43.0


From 31b514ab9c5634db91f5d56e72c9b7652a13f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 06/12] fix: numbers that aren't valid durations must be
 rejected, not panic

---
 crates/mirror-mirror/src/foreign_impls/via_scalar.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
index 7364526..7a1ea34 100644
--- a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
+++ b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
@@ -97,7 +97,14 @@ impl_reflect_via_scalar! { NonZeroI32,   i32,   |n: &NonZeroI32| n.get(),   Self
 impl_reflect_via_scalar! { NonZeroI64,   i64,   |n: &NonZeroI64| n.get(),   Self::new }
 impl_reflect_via_scalar! { NonZeroI128,  i128,  |n: &NonZeroI128| n.get(),  Self::new }
 
-impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), Self::from_secs_f32 }
+impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), duration_from_secs_f32 }
+
+/// `Duration::from_secs_f32` panics if the value is negative, not finite, or too large.
+fn duration_from_secs_f32(secs: f32) -> Option<Duration> {
+    (0.0..u64::MAX as f32)
+        .contains(&secs)
+        .then(|| Duration::from_secs_f32(secs))
+}
 
 trait IntoOption<T> {
     fn into_option(self) -> Option<T>;
-- 
2.43.0


From 63ca436311fcc18c6830031bd26f149fd63e79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:45 +0000
Subject: [PATCH 07/12] fix: a variant field called `name` must be reachable by
 name

---
 .../mirror-mirror-macros/src/derive_reflect/enum_.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 8c8c5b4..14d69c5 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -1,5 +1,6 @@
 use alloc::borrow::Cow;
 
+use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::DataEnum;
@@ -527,6 +528,9 @@ fn expand_enum(
         }
     };
 
+    // hygienic, so a field that's also called `name` doesn't shadow the parameter
+    let name = &Ident::new("name", Span::mixed_site());
+
     let fn_field = {
         let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
             let variant_ident = &variant.ident;
@@ -540,7 +544,7 @@ fn expand_enum(
                             let ident = &field.ident;
                             let ident_string = stringify(ident);
                             quote! {
-                                if name == #ident_string {
+                                if #name == #ident_string {
                                     return Some(#ident);
                                 }
                             }
@@ -563,7 +567,7 @@ fn expand_enum(
 
         quote! {
             #[allow(unused_variables, unreachable_code)]
-            fn field(&self, name: &str) -> Option<&dyn Reflect> {
+            fn field(&self, #name: &str) -> Option<&dyn Reflect> {
                 match self {
                     #(#match_arms)*
                     _ => {}
@@ -588,7 +592,7 @@ fn expand_enum(
                             let ident = &field.ident;
                             let ident_string = stringify(ident);
                             quote! {
-                                if name == #ident_string {
+                                if #name == #ident_string {
                                     return Some(#ident);
                                 }
                             }
@@ -611,7 +615,7 @@ fn expand_enum(
 
         quote! {
             #[allow(unused_variables, unreachable_code)]
-            fn field_mut(&mut self, name: &str) -> Option<&mut dyn Reflect> {
+            fn field_mut(&mut self, #name: &str) -> Option<&mut dyn Reflect> {
                 match self {
                     #(#match_arms)*
                     _ => {}
-- 
2.43.0


From e89d8ca40852190c5f605257aa761d897ce7a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:20 +0000
Subject: [PATCH 08/12] fix: visiting the value form of a type with an array
 must not panic

---
 crates/mirror-mirror/src/try_visit.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/mirror-mirror/src/try_visit.rs b/crates/mirror-mirror/src/try_visit.rs
index 6b1badf..d4e497c 100644
--- a/crates/mirror-mirror/src/try_visit.rs
+++ b/crates/mirror-mirror/src/try_visit.rs
@@ -118,11 +118,18 @@ where
             }
         }
         Type::Array(array_ty) => {
-            let array = value.as_array().unwrap();
             let element_ty = array_ty.element_type();
 
-            for element in array.iter() {
-                try_visit(visitor, element, element_ty)?;
+            if let Some(array) = value.as_array() {
+                for element in array.iter() {
+                    try_visit(visitor, element, element_ty)?;
+                }
+            } else {
+                // the value form of an array is a list
+                let list = value.as_list().unwrap();
+                for element in list.iter() {
+                    try_visit(visitor, element, element_ty)?;
+                }
             }
         }
         Type::Map(map_ty) => {
-- 
2.43.0


From 14cea451ae27fa33741cdb68490fa7f29456d3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 09/12] fix: names of variant fields must not clash with
 variables in the derived code

---
 .../src/derive_reflect/enum_.rs               | 53 +++++++++++--------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 14d69c5..ea3701c 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -128,6 +128,12 @@ fn expand_reflect(
     attrs: &ItemAttrs,
     generics: &Generics<'_>,
 ) -> syn::Result<TokenStream> {
+    // hygienic, so fields with these names don't shadow the variables
+    let value = &Ident::new("value", Span::mixed_site());
+    let enum_ = &Ident::new("enum_", Span::mixed_site());
+    let new_value = &Ident::new("new_value", Span::mixed_site());
+    let variant_matches = &Ident::new("variant_matches", Span::mixed_site());
+
     let fn_patch = {
         let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
             let variant_ident = &variant.ident;
@@ -139,15 +145,15 @@ fn expand_reflect(
                         let ident = field.ident;
                         let ident_string = stringify(ident);
                         quote! {
-                            if let Some(new_value) = enum_.field(#ident_string) {
-                                #ident.patch(new_value);
+                            if let Some(#new_value) = #enum_.field(#ident_string) {
+                                #ident.patch(#new_value);
                             }
                         }
                     });
 
                     quote! {
                         Self::#variant_ident { #(#field_names,)* } => {
-                            if variant_matches {
+                            if #variant_matches {
                                 #(#set_fields)*
                             }
                         }
@@ -158,8 +164,8 @@ fn expand_reflect(
                         |(index, field)| {
                             let ident = &field.fake_ident;
                             quote! {
-                                if let Some(new_value) = enum_.field_at(#index) {
-                                    #ident.patch(new_value);
+                                if let Some(#new_value) = #enum_.field_at(#index) {
+                                    #ident.patch(#new_value);
                                 }
                             }
                         },
@@ -167,7 +173,7 @@ fn expand_reflect(
 
                     quote! {
                         Self::#variant_ident(#(#field_names,)*) => {
-                            if variant_matches {
+                            if #variant_matches {
                                 #(#set_fields)*
                             }
                         }
@@ -186,11 +192,11 @@ fn expand_reflect(
         if attrs.clone_opt_out {
             quote! {
                 fn patch(&mut self, value: &dyn Reflect) {
-                    if let Some(enum_) = value.reflect_ref().as_enum() {
+                    if let Some(#enum_) = value.reflect_ref().as_enum() {
                         if let Some(new) = FromReflect::from_reflect(value) {
                             *self = new;
                         } else {
-                            let variant_matches = self.variant_name() == enum_.variant_name();
+                            let #variant_matches = self.variant_name() == #enum_.variant_name();
                             match self {
                                 #(#match_arms)*
                                 _ => {}
@@ -204,11 +210,11 @@ fn expand_reflect(
                 fn patch(&mut self, value: &dyn Reflect) {
                     if let Some(new) = value.downcast_ref::<Self>() {
                         *self = new.clone();
-                    } else if let Some(enum_) = value.reflect_ref().as_enum() {
+                    } else if let Some(#enum_) = value.reflect_ref().as_enum() {
                         if let Some(new) = FromReflect::from_reflect(value) {
                             *self = new;
                         } else {
-                            let variant_matches = self.variant_name() == enum_.variant_name();
+                            let #variant_matches = self.variant_name() == #enum_.variant_name();
                             match self {
                                 #(#match_arms)*
                                 _ => {}
@@ -232,7 +238,7 @@ fn expand_reflect(
                         let ident = &field.ident;
                         let ident_string = stringify(ident);
                         quote! {
-                            value.set_struct_field(#ident_string, #ident.to_value());
+                            #value.set_struct_field(#ident_string, #ident.to_value());
                         }
                     });
 
@@ -240,9 +246,9 @@ fn expand_reflect(
 
                     quote! {
                         Self::#variant_ident { #(#field_names,)* } => {
-                            let mut value = EnumValue::new_struct_variant_with_capacity(#variant_ident_string, #fields_len);
+                            let mut #value = EnumValue::new_struct_variant_with_capacity(#variant_ident_string, #fields_len);
                             #(#set_fields)*
-                            value.finish().into()
+                            #value.finish().into()
                         }
                     }
                 }
@@ -528,8 +534,9 @@ fn expand_enum(
         }
     };
 
-    // hygienic, so a field that's also called `name` doesn't shadow the parameter
+    // hygienic, so fields that are also called `name` or `index` don't shadow the parameters
     let name = &Ident::new("name", Span::mixed_site());
+    let index = &Ident::new("index", Span::mixed_site());
 
     let fn_field = {
         let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
@@ -640,7 +647,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == #index {
                                             return Some(#field_name.as_reflect());
                                         }
                                     }
@@ -659,7 +666,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == #index {
                                             return Some(#field_name.as_reflect());
                                         }
                                     }
@@ -680,7 +687,7 @@ fn expand_enum(
 
         quote! {
             #[allow(unused_variables, unreachable_code)]
-            fn field_at(&self, index: usize) -> Option<&dyn Reflect> {
+            fn field_at(&self, #index: usize) -> Option<&dyn Reflect> {
                 match self {
                     #(#match_arms)*
                     _ => {}
@@ -704,7 +711,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == #index {
                                             return Some(#field_name.as_reflect_mut());
                                         }
                                     }
@@ -723,7 +730,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == #index {
                                             return Some(#field_name.as_reflect_mut());
                                         }
                                     }
@@ -744,7 +751,7 @@ fn expand_enum(
 
         quote! {
             #[allow(unused_variables, unreachable_code)]
-            fn field_at_mut(&mut self, index: usize) -> Option<&mut dyn Reflect> {
+            fn field_at_mut(&mut self, #index: usize) -> Option<&mut dyn Reflect> {
                 match self {
                     #(#match_arms)*
                     _ => {}
@@ -880,7 +887,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == #index {
                                             return Some(::core::stringify!(#field_name));
                                         }
                                     }
@@ -899,7 +906,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == #index {
                                             return Some(::core::stringify!(#field_name));
                                         }
                                     }
@@ -918,7 +925,7 @@ fn expand_enum(
                 }
             });
         quote! {
-            fn name_at(&self, index: usize) -> Option<&str> {
+            fn name_at(&self, #index: usize) -> Option<&str> {
                 match self {
                     #(#match_arms)*
                     _ => {}
-- 
2.43.0


From 28ef11323c195f5bfe5358b38ca8afee60fa2563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 10/12] fix: the length of a partly consumed iterator counts
 only what is left

---
 crates/mirror-mirror/src/array.rs        | 9 +++++----
 crates/mirror-mirror/src/struct_.rs      | 9 +++++----
 crates/mirror-mirror/src/tuple.rs        | 9 +++++----
 crates/mirror-mirror/src/tuple_struct.rs | 9 +++++----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/mirror-mirror/src/array.rs b/crates/mirror-mirror/src/array.rs
index b158686..1b1b911 100644
--- a/crates/mirror-mirror/src/array.rs
+++ b/crates/mirror-mirror/src/array.rs
@@ -45,12 +45,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.array.len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let left = self.array.len().saturating_sub(self.index);
+        (left, Some(left))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index d45c974..57be83e 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -219,12 +219,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some((name, value))
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.struct_.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let left = self.struct_.fields_len().saturating_sub(self.index);
+        (left, Some(left))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index dfc2f24..d94deb5 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -339,12 +339,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.tuple.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let left = self.tuple.fields_len().saturating_sub(self.index);
+        (left, Some(left))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/tuple_struct.rs b/crates/mirror-mirror/src/tuple_struct.rs
index 35956fd..c54d0f6 100644
--- a/crates/mirror-mirror/src/tuple_struct.rs
+++ b/crates/mirror-mirror/src/tuple_struct.rs
@@ -190,12 +190,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.tuple_struct.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let left = self.tuple_struct.fields_len().saturating_sub(self.index);
+        (left, Some(left))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
-- 
2.43.0


From dce5eda29e7b2018881db5ec3f980422e99a1163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 11/12] fix: from_reflect_with on a tuple struct field that is
 not the last must compile

---
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 24079cb..bec0f47 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -214,7 +214,7 @@ fn expand_from_reflect(
                     #field_index: {
                         let value = tuple_struct.field_at(#reflect_index)?;
                         #from_reflect_with(value)?
-                    }
+                    },
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
-- 
2.43.0


From 1f50da2ab37fec1a0e82678b1aa7dbcd6cb7f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 12/12] fix: a type whose default value would contain itself
 has no default value

Asking for it recursed until the stack overflowed. An array type of length
zero has a default value regardless of its element type.
---
 crates/mirror-mirror/src/type_info/graph.rs | 34 +++++++++++++++++++++
 crates/mirror-mirror/src/type_info/mod.rs   | 17 +++++++----
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/graph.rs b/crates/mirror-mirror/src/type_info/graph.rs
index 56721a0..06a0943 100644
--- a/crates/mirror-mirror/src/type_info/graph.rs
+++ b/crates/mirror-mirror/src/type_info/graph.rs
@@ -65,6 +65,40 @@ impl TypeGraph {
         self.map.get(&id).expect(ERROR).as_ref().expect(ERROR)
     }
 
+    /// Whether the type has a default value. A type that is part of its own default value has none.
+    pub(super) fn has_default_value(&self, id: NodeId) -> bool {
+        self.has_default_value_within(id, &mut Vec::new())
+    }
+
+    fn has_default_value_within(&self, id: NodeId, parents: &mut Vec<NodeId>) -> bool {
+        if parents.contains(&id) {
+            return false;
+        }
+
+        parents.push(id);
+        let mut has_default = |id: NodeId| self.has_default_value_within(id, parents);
+        let out = match self.get(id) {
+            TypeNode::Struct(node) => node.fields.values().all(|field| has_default(field.id)),
+            TypeNode::TupleStruct(node) => node.fields.iter().all(|field| has_default(field.id)),
+            TypeNode::Tuple(node) => node.fields.iter().all(|field| has_default(field.id)),
+            TypeNode::Enum(node) => match node.variants.first() {
+                Some(VariantNode::Struct(variant)) => {
+                    variant.fields.values().all(|field| has_default(field.id))
+                }
+                Some(VariantNode::Tuple(variant)) => {
+                    variant.fields.iter().all(|field| has_default(field.id))
+                }
+                Some(VariantNode::Unit(_)) => true,
+                None => false,
+            },
+            TypeNode::Array(node) => node.len == 0 || has_default(node.field_type_id),
+            TypeNode::List(_) | TypeNode::Map(_) | TypeNode::Scalar(_) => true,
+            TypeNode::Opaque(node) => node.default_value.is_some(),
+        };
+        parents.pop();
+        out
+    }
+
     pub fn get_or_build_node_with<T, I>(&mut self, f: impl FnOnce(&mut Self) -> I) -> NodeId
     where
         I: Into<TypeNode>,
diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 4f7e3c0..7cda092 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -307,6 +307,11 @@ impl<'a> Type<'a> {
     }
 
     pub fn default_value(self) -> Option<Value> {
+        // also rules out types whose default value contains itself and thus never ends
+        if !self.has_default_value() {
+            return None;
+        }
+
         match self {
             Type::Struct(inner) => inner.default_value(),
             Type::TupleStruct(inner) => inner.default_value(),
@@ -322,12 +327,12 @@ impl<'a> Type<'a> {
 
     pub fn has_default_value(&self) -> bool {
         match self {
-            Type::Struct(inner) => inner.has_default_value(),
-            Type::TupleStruct(inner) => inner.has_default_value(),
-            Type::Tuple(inner) => inner.has_default_value(),
-            Type::Enum(inner) => inner.has_default_value(),
+            Type::Struct(inner) => inner.graph.has_default_value(inner.node.id),
+            Type::TupleStruct(inner) => inner.graph.has_default_value(inner.node.id),
+            Type::Tuple(inner) => inner.graph.has_default_value(inner.node.id),
+            Type::Enum(inner) => inner.graph.has_default_value(inner.node.id),
             Type::List(inner) => inner.has_default_value(),
-            Type::Array(inner) => inner.has_default_value(),
+            Type::Array(inner) => inner.graph.has_default_value(inner.node.id),
             Type::Map(inner) => inner.has_default_value(),
             Type::Scalar(inner) => inner.has_default_value(),
             Type::Opaque(inner) => inner.has_default_value(),
@@ -1273,7 +1278,7 @@ impl<'a> ArrayType<'a> {
     }
 
     pub fn has_default_value(&self) -> bool {
-        self.element_type().has_default_value()
+        self.len() == 0 || self.element_type().has_default_value()
     }
 }
 
-- 
2.43.0

