From 77ac32228f89e95970fdc447aa0834cc90ed7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 01/11] fix: reject trailing bytes when decoding a derived tag
 enum

---
 ssz_derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c6ca75d..44467a6 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -1015,6 +1015,13 @@ fn ssz_decode_derive_enum_tag(derive_input: &DeriveInput, enum_data: &DataEnum)
                     .copied()
                     .ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
 
+                let len = bytes.len();
+                let expected = <Self as ssz::Decode>::ssz_fixed_len();
+
+                if len != expected {
+                    return Err(ssz::DecodeError::InvalidByteLength { len, expected });
+                }
+
                 match byte {
                     #(
                         #union_selectors => {
-- 
2.43.0


From 3724ea784b1cef5afbb0d3fe8c0b4c5b1da80ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 02/11] fix: reject a non-empty body after the None selector of
 an Option

---
 ssz/src/decode/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index 6c9b7b5..bd08c9e 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -254,7 +254,11 @@ impl<T: Decode> Decode for Option<T> {
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         let (selector, body) = split_union_bytes(bytes)?;
         match selector.into() {
-            0u8 => Ok(None),
+            0u8 if body.is_empty() => Ok(None),
+            0u8 => Err(DecodeError::InvalidByteLength {
+                len: bytes.len(),
+                expected: BYTES_PER_UNION_SELECTOR,
+            }),
             1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
             other => Err(DecodeError::UnionSelectorInvalid(other)),
         }
-- 
2.43.0


From 2a765a6cd69f89a672edbbc75c5a80a98b12ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 03/11] fix: reject bytes after the None selector of a legacy
 four-byte option

---
 ssz/src/legacy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssz/src/legacy.rs b/ssz/src/legacy.rs
index 5cce666..9ee6169 100644
--- a/ssz/src/legacy.rs
+++ b/ssz/src/legacy.rs
@@ -100,6 +100,12 @@ macro_rules! four_byte_option_impl {
 
                     let index = legacy::read_four_byte_union_selector(index_bytes)?;
                     if index == 0 {
+                        if !value_bytes.is_empty() {
+                            return Err(DecodeError::InvalidByteLength {
+                                len: bytes.len(),
+                                expected: BYTES_PER_LENGTH_OFFSET,
+                            });
+                        }
                         Ok(None)
                     } else if index == 1 {
                         Ok(Some(<$type as ssz::Decode>::from_ssz_bytes(value_bytes)?))
-- 
2.43.0


From 95e323815a06ee1654cf57efff8824dade186b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 04/11] fix: return ZeroLengthItem instead of panicking on
 lists of zero-length items

---
 ssz/src/decode/impls.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index bd08c9e..0198b25 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -432,10 +432,12 @@ impl<T: Decode> Decode for Vec<T> {
         if bytes.is_empty() {
             Ok(vec![])
         } else if T::is_ssz_fixed_len() {
-            bytes
-                .chunks(T::ssz_fixed_len())
-                .map(T::from_ssz_bytes)
-                .collect()
+            let item_len = T::ssz_fixed_len();
+            if item_len == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
+            bytes.chunks(item_len).map(T::from_ssz_bytes).collect()
         } else {
             decode_list_of_variable_length_items(bytes, None)
         }
@@ -451,10 +453,12 @@ impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {
         if bytes.is_empty() {
             Ok(SmallVec::new())
         } else if T::is_ssz_fixed_len() {
-            bytes
-                .chunks(T::ssz_fixed_len())
-                .map(T::from_ssz_bytes)
-                .collect()
+            let item_len = T::ssz_fixed_len();
+            if item_len == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
+            bytes.chunks(item_len).map(T::from_ssz_bytes).collect()
         } else {
             decode_list_of_variable_length_items(bytes, None)
         }
@@ -474,8 +478,13 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if <(K, V)>::is_ssz_fixed_len() {
+            let item_len = <(K, V)>::ssz_fixed_len();
+            if item_len == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
             bytes
-                .chunks(<(K, V)>::ssz_fixed_len())
+                .chunks(item_len)
                 .map(<(K, V)>::from_ssz_bytes)
                 .collect()
         } else {
@@ -496,10 +505,12 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if T::is_ssz_fixed_len() {
-            bytes
-                .chunks(T::ssz_fixed_len())
-                .map(T::from_ssz_bytes)
-                .collect()
+            let item_len = T::ssz_fixed_len();
+            if item_len == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
+            bytes.chunks(item_len).map(T::from_ssz_bytes).collect()
         } else {
             decode_list_of_variable_length_items(bytes, None)
         }
-- 
2.43.0


From b7fc0122e49b70fcc860ae590181ae800ea8a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 05/11] fix: do not overflow when registering a huge
 fixed-length item

---
 ssz/src/decode.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode.rs b/ssz/src/decode.rs
index 814aa70..03ec626 100644
--- a/ssz/src/decode.rs
+++ b/ssz/src/decode.rs
@@ -188,7 +188,13 @@ impl<'a> SszDecoderBuilder<'a> {
     ) -> Result<(), DecodeError> {
         if is_ssz_fixed_len {
             let start = self.items_index;
-            self.items_index += ssz_fixed_len;
+            self.items_index =
+                start
+                    .checked_add(ssz_fixed_len)
+                    .ok_or(DecodeError::InvalidByteLength {
+                        len: self.bytes.len(),
+                        expected: usize::MAX,
+                    })?;
 
             let slice =
                 self.bytes
-- 
2.43.0


From 32f21fd1d15f3b48e786039162c63f7a189e8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 06/11] fix: use the byte length of the bitvector in its
 Arbitrary impl

---
 ssz/src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index aa8fc13..24f99e7 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -692,7 +692,7 @@ impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<Fixed<N>> {
 #[cfg(feature = "arbitrary")]
 impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Fixed<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
-        let size = N::to_usize();
+        let size = bytes_for_bit_len(N::to_usize());
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From d939f1b216e07812333c7a81ee56f8228d9df762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 07/11] fix: do not allocate the type-level capacity in the
 BitList Arbitrary impl

---
 ssz/src/bitfield.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index 24f99e7..0687e48 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -702,8 +702,9 @@ impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Fixed<N>> {
 #[cfg(feature = "arbitrary")]
 impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Variable<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
-        let max_size = N::to_usize();
         let rand = usize::arbitrary(u)?;
+        // The buffer never needs to be longer than the input: it would be padded with zeros.
+        let max_size = std::cmp::min(N::to_usize(), u.len());
         let size = std::cmp::min(rand, max_size);
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
-- 
2.43.0


From d34222847810204cd45646c3c39de641fea7bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 08/11] fix: honour skip_serializing when deriving Encode for a
 transparent struct

---
 ssz_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 44467a6..5566966 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -456,7 +456,7 @@ fn ssz_encode_derive_struct_transparent(
     let ssz_fields = parse_ssz_fields(struct_data);
     let num_fields = ssz_fields
         .iter()
-        .filter(|(_, _, field_opts)| !field_opts.skip_deserializing)
+        .filter(|(_, _, field_opts)| !field_opts.skip_serializing)
         .count();
 
     if num_fields != 1 {
@@ -469,7 +469,7 @@ fn ssz_encode_derive_struct_transparent(
     let (index, (ty, ident, _field_opts)) = ssz_fields
         .iter()
         .enumerate()
-        .find(|(_, (_, _, field_opts))| !field_opts.skip_deserializing)
+        .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
         .expect("\"transparent\" struct must have at least one non-skipped field");
 
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
-- 
2.43.0


From 71b58f3e2188d008e9fdd6a50b8a11e0e9d4ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 09/11] fix: keep derived Decode locals from clashing with
 field names

---
 ssz_derive/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 5566966..ba3d524 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -796,29 +796,29 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
 
             is_ssz_fixed_len = quote! { #module::is_ssz_fixed_len() };
             ssz_fixed_len = quote! { #module::ssz_fixed_len() };
-            from_ssz_bytes = quote! { #module::from_ssz_bytes(slice) };
+            from_ssz_bytes = quote! { #module::from_ssz_bytes(__ssz_slice) };
 
             register_types.push(quote! {
                 builder.register_type_parameterized(#is_ssz_fixed_len, #ssz_fixed_len)?;
             });
             decodes.push(quote! {
-                let #ident = decoder.decode_next_with(|slice| #module::from_ssz_bytes(slice))?;
+                let #ident = __ssz_decoder.decode_next_with(|slice| #module::from_ssz_bytes(slice))?;
             });
         } else {
             is_ssz_fixed_len = quote! { <#ty as ssz::Decode>::is_ssz_fixed_len() };
             ssz_fixed_len = quote! { <#ty as ssz::Decode>::ssz_fixed_len() };
-            from_ssz_bytes = quote! { <#ty as ssz::Decode>::from_ssz_bytes(slice) };
+            from_ssz_bytes = quote! { <#ty as ssz::Decode>::from_ssz_bytes(__ssz_slice) };
 
             register_types.push(quote! {
                 builder.register_type::<#ty>()?;
             });
             decodes.push(quote! {
-                let #ident = decoder.decode_next()?;
+                let #ident = __ssz_decoder.decode_next()?;
             });
         }
 
         fixed_decodes.push(quote! {
-            let (slice, bytes) = bytes.split_at(#ssz_fixed_len);
+            let (__ssz_slice, __ssz_bytes) = __ssz_bytes.split_at(#ssz_fixed_len);
             let #ident = #from_ssz_bytes?;
         });
         is_fixed_lens.push(is_ssz_fixed_len);
@@ -857,6 +857,8 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
                         });
                     }
 
+                    let __ssz_bytes = bytes;
+
                     #(
                         #fixed_decodes
                     )*
@@ -873,7 +875,7 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
                         #register_types
                     )*
 
-                    let mut decoder = builder.build()?;
+                    let mut __ssz_decoder = builder.build()?;
 
                     #(
                         #decodes
-- 
2.43.0


From 0944c187983a378f945ea7e45ae01b4af9a0320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 10/11] fix: use the field codec of a transparent struct's live
 field

---
 ssz_derive/src/lib.rs | 92 ++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 41 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index ba3d524..cc3c900 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -466,7 +466,7 @@ fn ssz_encode_derive_struct_transparent(
         );
     }
 
-    let (index, (ty, ident, _field_opts)) = ssz_fields
+    let (index, (ty, ident, field_opts)) = ssz_fields
         .iter()
         .enumerate()
         .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
@@ -475,44 +475,42 @@ fn ssz_encode_derive_struct_transparent(
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
     let index = Index::from(index);
 
-    let output = if let Some(field_name) = ident {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
-
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
+    let field = if let Some(field_name) = ident {
+        quote! { self.#field_name }
+    } else {
+        quote! { self.#index }
+    };
 
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#field_name.ssz_bytes_len()
-                }
+    let (codec, ssz_bytes_len, ssz_append) = if let Some(module) = &field_opts.with {
+        (
+            quote! { #module::encode },
+            quote! { #module::encode::ssz_bytes_len(&#field) },
+            quote! { #module::encode::ssz_append(&#field, buf) },
+        )
+    } else {
+        (
+            quote! { <#ty as ssz::Encode> },
+            quote! { #field.ssz_bytes_len() },
+            quote! { #field.ssz_append(buf) },
+        )
+    };
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#field_name.ssz_append(buf)
-                }
+    let output = quote! {
+        impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
+            fn is_ssz_fixed_len() -> bool {
+                #codec::is_ssz_fixed_len()
             }
-        }
-    } else {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
 
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
+            fn ssz_fixed_len() -> usize {
+                #codec::ssz_fixed_len()
+            }
 
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#index.ssz_bytes_len()
-                }
+            fn ssz_bytes_len(&self) -> usize {
+                #ssz_bytes_len
+            }
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#index.ssz_append(buf)
-                }
+            fn ssz_append(&self, buf: &mut Vec<u8>) {
+                #ssz_append
             }
         }
     };
@@ -924,9 +922,21 @@ fn ssz_decode_derive_struct_transparent(
     }
 
     let mut fields = vec![];
-    let mut wrapped_type = None;
+    let mut codec = None;
 
     for (i, (ty, ident, field_opts)) in ssz_fields.into_iter().enumerate() {
+        let (field_codec, from_ssz_bytes) = if let Some(module) = field_opts.with {
+            (
+                quote! { #module::decode },
+                quote! { #module::decode::from_ssz_bytes },
+            )
+        } else {
+            (
+                quote! { <#ty as ssz::Decode> },
+                quote! { <_>::from_ssz_bytes },
+            )
+        };
+
         if let Some(name) = ident {
             if field_opts.skip_deserializing {
                 fields.push(quote! {
@@ -934,9 +944,9 @@ fn ssz_decode_derive_struct_transparent(
                 });
             } else {
                 fields.push(quote! {
-                    #name: <_>::from_ssz_bytes(bytes)?,
+                    #name: #from_ssz_bytes(bytes)?,
                 });
-                wrapped_type = Some(ty);
+                codec = Some(field_codec);
             }
         } else {
             let index = syn::Index::from(i);
@@ -946,23 +956,23 @@ fn ssz_decode_derive_struct_transparent(
                 });
             } else {
                 fields.push(quote! {
-                    #index:<_>::from_ssz_bytes(bytes)?,
+                    #index:#from_ssz_bytes(bytes)?,
                 });
-                wrapped_type = Some(ty);
+                codec = Some(field_codec);
             }
         }
     }
 
-    let ty = wrapped_type.unwrap();
+    let codec = codec.unwrap();
 
     let output = quote! {
         impl #impl_generics ssz::Decode for #name #ty_generics #where_clause {
             fn is_ssz_fixed_len() -> bool {
-                <#ty as ssz::Decode>::is_ssz_fixed_len()
+                #codec::is_ssz_fixed_len()
             }
 
             fn ssz_fixed_len() -> usize {
-                <#ty as ssz::Decode>::ssz_fixed_len()
+                #codec::ssz_fixed_len()
             }
 
             fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
-- 
2.43.0


From f679b0fc5231b10def0c00ec49826cc36e32bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 11/11] fix: do not overflow when rejecting a huge dynamic
 bitvector length

---
 ssz/src/bitfield/bitvector_dynamic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield/bitvector_dynamic.rs b/ssz/src/bitfield/bitvector_dynamic.rs
index 530d9f4..db08cdb 100644
--- a/ssz/src/bitfield/bitvector_dynamic.rs
+++ b/ssz/src/bitfield/bitvector_dynamic.rs
@@ -32,7 +32,7 @@ impl Bitfield<Dynamic> {
         if len % 8 != 0 {
             return Err(Error::InvalidByteCount {
                 given: len,
-                expected: (len / 8 + 1) * 8,
+                expected: (len / 8 + 1).saturating_mul(8),
             });
         }
         Ok(Self {
-- 
2.43.0

