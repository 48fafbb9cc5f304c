From 5f98a90438644f9cefbb2cd2b31c5e6f598a6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 01/19] fix: decoding a Duration no longer panics when the
 nanoseconds overflow the seconds

---
 src/error.rs         | 1 -
 src/readable_impl.rs | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 480f3ba..531ceba 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -199,7 +199,6 @@ pub fn error_zero_non_zero< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::ZeroNonZero ) )
 }
 
-#[cfg(feature = "std")]
 #[cold]
 pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidSystemTime ) )
diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 032b114..99866de 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -562,7 +562,9 @@ impl< 'a, C > Readable< 'a, C > for core::time::Duration where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let secs = reader.read_u64()?;
         let nanos = reader.read_u32()?;
-        Ok( core::time::Duration::new( secs, nanos ) )
+        // `Duration::new` panics when carrying the excess nanoseconds overflows the seconds.
+        let secs = secs.checked_add( u64::from( nanos / 1_000_000_000 ) ).ok_or_else( crate::error::error_invalid_system_time )?;
+        Ok( core::time::Duration::new( secs, nanos % 1_000_000_000 ) )
     }
 
     #[inline]
-- 
2.43.0


From 78401da0d3737c3fc0b89c0136547c76909df66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 02/19] fix: decoding a chrono DateTime rejects out-of-range
 timestamps instead of panicking

---
 src/ext_chrono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext_chrono.rs b/src/ext_chrono.rs
index 5397a71..8cfde2a 100644
--- a/src/ext_chrono.rs
+++ b/src/ext_chrono.rs
@@ -20,7 +20,7 @@ impl< 'a, C > Readable< 'a, C > for DateTime< Utc >
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let seconds = reader.read_i64()?;
         let subsec_nanos = reader.read_u32()?;
-        Ok( Utc.timestamp( seconds, subsec_nanos ) )
+        Utc.timestamp_opt( seconds, subsec_nanos ).single().ok_or_else( crate::error::error_invalid_system_time )
     }
 
     #[inline]
-- 
2.43.0


From b1569bfb914bdb1b1dec91dc016e1cc5373893a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 03/19] fix: write_to_file reports errors which occur when the
 buffered data is flushed

---
 src/writable.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/writable.rs b/src/writable.rs
index 716fce8..f158ad4 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -236,8 +236,14 @@ pub trait Writable< C: Context > {
             let error = Error::from_io_error( error );
             <C::Error as From< Error >>::from( error )
         })?;
-        let stream = io::BufWriter::new( stream );
-        self.write_to_stream_with_ctx( context, stream )
+        let mut stream = io::BufWriter::new( stream );
+        self.write_to_stream_with_ctx( context, &mut stream )?;
+
+        // Dropping a `BufWriter` silently ignores any errors, so this has to be done manually.
+        stream.flush().map_err( |error| {
+            let error = Error::from_io_error( error );
+            <C::Error as From< Error >>::from( error )
+        })
     }
 
     #[inline]
-- 
2.43.0


From dd119f035cef32d60462dbce3aae8550e9fe14f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 04/19] fix: reading a Vec of a zero-sized type reads the
 encoding of every element

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index eb5febd..50f64c1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -546,12 +546,12 @@ pub trait Reader< 'a, C: Context >: Sized {
             }
 
             let mut p = vec.as_mut_ptr();
-            let e = unsafe { p.add( length ) };
 
             // We deliberately have a separate counter instead
-            // of subtracting pointers as this optimizes better.
+            // of comparing pointers; those never advance for types
+            // whose size is zero (but whose encoding might not be empty).
             let mut count = 0;
-            while p < e {
+            while count < length {
                 let value = match self.read_value() {
                     Ok( value ) => value,
                     Err( error ) => {
-- 
2.43.0


From dc44fabb7db1e8197e8e367520442b6ebfc66d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 05/19] fix: peeking a multi-byte varint no longer reads its
 remaining bytes from the wrong position

---
 src/varint.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index 93e7b3c..3634e41 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -164,7 +164,19 @@ impl VarInt64 {
         where C: Context,
               R: Reader< 'a, C >
     {
-        impl_read!( reader, peek_u8, peek_bytes )
+        let first_byte = reader.peek_u8()?;
+        let length = (!first_byte).leading_zeros();
+
+        let upper_mask = 0b11111111_u64 >> length;
+        let upper_bits = (upper_mask & (first_byte as u64)).wrapping_shl( length * 8 );
+
+        // Peeking doesn't advance the reader, so the first byte has to be peeked again.
+        let mut bytes = [0_u8; 9];
+        reader.peek_bytes( &mut bytes[ ..length as usize + 1 ] )?;
+
+        let mut value = [0_u8; 8];
+        value.copy_from_slice( &bytes[ 1.. ] );
+        Ok( VarInt64( upper_bits | u64::from_le_bytes( value ) ) )
     }
 }
 
-- 
2.43.0


From e0e0a07d77f391d3a57f20d79a0dc236180d31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 06/19] fix: primitive structs containing a transparent wrapper
 can be read in a non-native byte order

---
 speedy-derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6dd2f61..a736789 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2177,6 +2177,13 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                         core::slice::from_raw_parts( slice.as_ptr() as *const Self, slice.len() )
                     }
 
+                    #[inline(always)]
+                    unsafe fn speedy_flip_endianness( itself: *mut Self ) {
+                        unsafe {
+                            <#field_ty as speedy::Readable< 'a_, C_ >>::speedy_flip_endianness( itself as *mut #field_ty )
+                        }
+                    }
+
                     #[inline(always)]
                     fn speedy_convert_slice_endianness( endianness: speedy::Endianness, slice: &mut [Self] ) {
                         unsafe {
-- 
2.43.0


From 6efd09642b0a2ff93ae5dbedd48b5c3c0987e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 07/19] fix: collections of empty structs can be read without
 panicking

---
 speedy-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index a736789..075a597 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2055,7 +2055,8 @@ fn min< I >( values: I ) -> TokenStream where I: IntoIterator< Item = TokenStrea
 
 fn generate_is_primitive( fields: &[Field], is_writable: bool, check_order: bool, is_forced: bool ) -> TokenStream {
     if fields.is_empty() || is_forced {
-        return quote! { true };
+        // Zero-sized types have no bytes which could be borrowed or copied.
+        return quote! { core::mem::size_of::< Self >() != 0 };
     }
 
     let mut is_primitive = Vec::new();
-- 
2.43.0


From 0c0adba118fd5be51d2d1b97541e86e4fc010dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 08/19] fix: structs with encoded field attributes can no
 longer be borrowed as raw bytes

---
 speedy-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 075a597..5b28b03 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2138,7 +2138,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
         is_ty_transparent,
         is_ty_potentially_primitive: can_be_primitive && (is_forced || is_ty_transparent || is_ty_packed || is_ty_c || is_ty_simple || (!uses_generics( &input ) && structure.fields.len() <= 4)),
         check_order,
-        impl_zerocopyable: is_ty_packed || is_ty_transparent || is_forced,
+        impl_zerocopyable: can_be_primitive && (is_ty_packed || is_ty_transparent || is_forced),
         is_forced
     }
 }
-- 
2.43.0


From 2e79ca7bf6fa8c9e67d22d03eeac577e88cc2320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 09/19] fix: borrowed slices are only made from sufficiently
 aligned input and of types which can be borrowed

---
 speedy-derive/src/lib.rs     | 33 ++++++++++++++++++++++++++-------
 src/error.rs                 |  7 +++++++
 src/private.rs               | 25 +++++++++++++++++++++++++
 src/readable_unsized_impl.rs | 16 +++-------------
 src/utils.rs                 | 15 +++++++++++++++
 5 files changed, 76 insertions(+), 20 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 5b28b03..eaf78bd 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -346,6 +346,22 @@ fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], trait_variant: Tr
     (impl_params, ty_params, where_clause)
 }
 
+// Slices which are borrowed directly from the input require elements for which every bit pattern is valid.
+fn with_zero_copyable_bounds( ast: &syn::DeriveInput, slice_types: &[syn::Type], where_clause: TokenStream ) -> TokenStream {
+    let generics: Vec< _ > = ast.generics.type_params().map( |ty| &ty.ident ).collect();
+    let bounds = slice_types.iter().filter( |ty| possibly_uses_generic_ty( &generics, ty ) ).map( |ty| quote! {
+        #ty: speedy::private::ZeroCopyable< speedy::private::NativeContext, #ty >
+    }).collect_vec();
+
+    if bounds.is_empty() {
+        where_clause
+    } else if where_clause.is_empty() {
+        quote! { where #(#bounds),* }
+    } else {
+        quote! { #where_clause, #(#bounds),* }
+    }
+}
+
 #[derive(Copy, Clone)]
 enum BasicType {
     U7,
@@ -1580,15 +1596,13 @@ fn read_field_body( field: &Field ) -> TokenStream {
                             .ok_or_else( speedy::private::error_unsized )
                             .and_then( |error| error )
                     })
-                    .map( |slice| unsafe { core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, _length_ ) } )
+                    .and_then( |slice| speedy::private::cast_slice::< #inner_ty, _ >( slice, _length_ ) )
             }}
         } else {
             inner = quote! {{
                 _reader_.read_bytes_borrowed_until_eof()
                     .ok_or_else( speedy::private::error_unsized )
-                    .map( |slice| unsafe {
-                        core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, slice.len() / core::mem::size_of::< #inner_ty >() )
-                    })
+                    .and_then( |slice| speedy::private::cast_whole_slice::< #inner_ty, _ >( slice ) )
             }}
         }
 
@@ -1677,7 +1691,7 @@ fn read_field_body( field: &Field ) -> TokenStream {
     }
 }
 
-fn readable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
+fn readable_body< 'a >( types: &mut Vec< syn::Type >, slice_types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
     let mut field_names = Vec::new();
     let mut field_readers = Vec::new();
     let mut minimum_bytes_needed = Vec::new();
@@ -1688,6 +1702,9 @@ fn readable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (To
         field_readers.push( quote! { let #name: #raw_ty = #read_value; } );
         field_names.push( name );
         types.extend( field.bound_types() );
+        if let Ty::RefSlice( _, inner_ty ) = field.ty.inner() {
+            slice_types.push( inner_ty.clone() );
+        }
 
         if let Some( minimum_bytes ) = get_minimum_bytes( &field ) {
             minimum_bytes_needed.push( minimum_bytes );
@@ -2146,6 +2163,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
 fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error > {
     let name = &input.ident;
     let mut types = Vec::new();
+    let mut slice_types = Vec::new();
 
     let (reader_body, minimum_bytes_needed_body, impl_primitive, impl_zerocopyable) = match &input.data {
         syn::Data::Struct( syn::DataStruct { ref fields, .. } ) => {
@@ -2153,7 +2171,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let attrs = collect_toplevel_struct_attributes( attrs )?;
             let structure = Struct::new( fields, &attrs )?;
             let is_primitive = check_is_primitive( &input, &structure, &attrs );
-            let (body, initializer, minimum_bytes) = readable_body( &mut types, &structure );
+            let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut slice_types, &structure );
             let reader_body = quote! {
                 #body
                 Ok( #name #initializer )
@@ -2263,7 +2281,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
                 let variant_path = quote! { #name::#unqualified_ident };
-                let (body, initializer, minimum_bytes) = readable_body( &mut types, &variant.structure );
+                let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut slice_types, &variant.structure );
                 variant_matches.push( quote! {
                     #tag => {
                         #body
@@ -2327,6 +2345,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
     };
 
     let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, Trait::Readable );
+    let where_clause = with_zero_copyable_bounds( &input, &slice_types, where_clause );
     let output = quote! {
         impl< 'a_, #impl_params C_: speedy::Context > speedy::Readable< 'a_, C_ > for #name #ty_params #where_clause {
             #[inline]
diff --git a/src/error.rs b/src/error.rs
index 531ceba..b4340cd 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -32,6 +32,7 @@ pub enum ErrorKind {
 
     Unsized,
     EndiannessMismatch,
+    MisalignedInput,
 
     #[cfg(feature = "std")]
     IoError( std::io::Error )
@@ -103,6 +104,7 @@ impl core::fmt::Display for Error {
             ErrorKind::ExpectedConstant { constant } => write!( fmt, "expected a predefined {} bytes(s) long constant", constant.len() ),
             ErrorKind::Unsized => write!( fmt, "type is unsized hence requires zero-copy deserialization; use `read_from_buffer` or similar to deserialize it" ),
             ErrorKind::EndiannessMismatch => write!( fmt, "endianness mismatch" ),
+            ErrorKind::MisalignedInput => write!( fmt, "the input is not sufficiently aligned for zero-copy deserialization" ),
 
             #[cfg(feature = "std")]
             ErrorKind::IoError( ref error ) => write!( fmt, "{}", error ),
@@ -219,3 +221,8 @@ pub fn error_unsized< T >() -> T where T: From< Error > {
 pub fn error_endianness_mismatch< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::EndiannessMismatch ) )
 }
+
+#[cold]
+pub fn error_misaligned_input< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::MisalignedInput ) )
+}
diff --git a/src/private.rs b/src/private.rs
index 40076e6..1004198 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -27,10 +27,35 @@ pub use crate::error::{
 
     get_error_kind,
 };
+pub use crate::context::NativeContext;
 pub use crate::utils::ZeroCopyable;
 
 pub use memoffset::offset_of;
 
+/// Reinterprets the bytes as a slice of `length` elements.
+#[inline]
+pub fn cast_slice< T, E >( bytes: &[u8], length: usize ) -> Result< &[T], E >
+    where T: ZeroCopyable< NativeContext, T >,
+          E: From< crate::Error >
+{
+    if length.checked_mul( core::mem::size_of::< T >() ) != Some( bytes.len() ) {
+        return Err( error_out_of_range_length() );
+    }
+
+    unsafe { crate::utils::cast_slice( bytes, length ) }
+}
+
+/// Reinterprets the bytes as a slice of as many elements as they make up.
+#[inline]
+pub fn cast_whole_slice< T, E >( bytes: &[u8] ) -> Result< &[T], E >
+    where T: ZeroCopyable< NativeContext, T >,
+          E: From< crate::Error >
+{
+    let size = core::mem::size_of::< T >();
+    let length = bytes.len().checked_div( size ).unwrap_or( 0 );
+    cast_slice( &bytes[ ..length * size ], length )
+}
+
 #[cfg(feature = "alloc")]
 #[inline]
 pub fn vec_to_string< E >( bytes: Vec< u8 > ) -> Result< String, E > where E: From< Error > {
diff --git a/src/readable_unsized_impl.rs b/src/readable_unsized_impl.rs
index 1285686..3236b4e 100644
--- a/src/readable_unsized_impl.rs
+++ b/src/readable_unsized_impl.rs
@@ -42,10 +42,7 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
         let length = crate::private::read_length( reader )?;
         let bytelength = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;
         let bytes = reader.read_bytes_borrowed( bytelength ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe {
-            core::slice::from_raw_parts( bytes.as_ptr() as *const T, length )
-        };
-        Ok( slice )
+        unsafe { crate::utils::cast_slice( bytes, length ) }
     }
 
     #[inline]
@@ -54,13 +51,6 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
     }
 }
 
-#[inline(always)]
-unsafe fn cast_slice< T, const N: usize >( slice: &[u8] ) -> &[T; N] {
-    unsafe {
-        &*(slice.as_ptr() as *const [T; N])
-    }
-}
-
 impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where T: crate::utils::ZeroCopyable< C, T > {
     #[inline]
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
@@ -69,8 +59,8 @@ impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where
         }
 
         let bytes = reader.read_bytes_borrowed( core::mem::size_of::< T >() * N ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe { cast_slice( bytes ) };
-        Ok( slice )
+        let slice: &'a [T] = unsafe { crate::utils::cast_slice( bytes, N )? };
+        Ok( unsafe { &*(slice.as_ptr() as *const [T; N]) } )
     }
 
     #[inline]
diff --git a/src/utils.rs b/src/utils.rs
index 79ecc48..0bbed7f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,6 +32,21 @@ unsafe impl< T > ZeroCopyable< crate::context::NativeContext, T > for u128 {}
 unsafe impl< T > ZeroCopyable< crate::context::NativeContext, T > for f32 {}
 unsafe impl< T > ZeroCopyable< crate::context::NativeContext, T > for f64 {}
 
+/// Reinterprets the bytes as a slice of `length` elements; the bytes must be `length * size_of::< T >()` long.
+#[inline]
+pub unsafe fn cast_slice< T, E >( bytes: &[u8], length: usize ) -> Result< &[T], E > where E: From< crate::Error > {
+    debug_assert_eq!( bytes.len(), length * core::mem::size_of::< T >() );
+    if length == 0 {
+        return Ok( &[] );
+    }
+
+    if bytes.as_ptr() as usize % core::mem::align_of::< T >() != 0 {
+        return Err( crate::error::error_misaligned_input() );
+    }
+
+    Ok( unsafe { core::slice::from_raw_parts( bytes.as_ptr() as *const T, length ) } )
+}
+
 pub trait SwapBytes {
     fn swap_bytes( self ) -> Self;
 }
-- 
2.43.0


From d338e6cdd85983b51c8d9dd8abebd059ca200b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 10/19] fix: fields of enum variants can be skipped

---
 speedy-derive/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index eaf78bd..931ee54 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1836,18 +1836,23 @@ fn writable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (To
     let mut field_writers = Vec::new();
     for field in &st.fields {
         if field.skip {
+            field_names.push( match field.name {
+                Some( name ) => quote! { #name: _ },
+                None => quote! { _ }
+            });
             continue;
         }
 
         let write_value = write_field_body( &field );
         types.extend( field.bound_types() );
 
-        field_names.push( field.var_name().clone() );
+        let name = field.var_name();
+        field_names.push( quote! { ref #name } );
         field_writers.push( write_value );
     }
 
     let body = quote! { #(#field_writers)* };
-    let initializer = quote! { #(ref #field_names),* };
+    let initializer = quote! { #(#field_names),* };
     let initializer = match st.kind {
         StructKind::Unit => initializer,
         StructKind::Unnamed => quote! { ( #initializer ) },
-- 
2.43.0


From a1aacf534d06c2fce9e5898a061d19370994fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 11/19] fix: transparent structs with encoded field attributes
 are no longer treated as plain memory

---
 speedy-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 931ee54..28e481a 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2141,7 +2141,7 @@ struct IsPrimitiveResult {
 
 fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &ToplevelStructAttributes ) -> IsPrimitiveResult {
     let is_ty_packed = is_packed( &input.attrs );
-    let is_ty_transparent = structure.fields.len() == 1 && is_transparent( &input.attrs );
+    let is_ty_transparent = structure.fields.len() == 1 && structure.fields[ 0 ].can_be_primitive() && is_transparent( &input.attrs );
     let is_ty_c = is_c( &input.attrs );
     let is_ty_simple = structure.fields.iter().all( |field| field.is_simple() );
     let check_order = !is_ty_transparent && !is_ty_packed && !is_ty_c;
-- 
2.43.0


From edbc19f23100d3d8656bba64c014e481ae9a7ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 12/19] fix: reading a Cow with an overflowing length in bytes
 returns an error

---
 src/reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 50f64c1..432a56d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -6,7 +6,7 @@ use crate::readable::Readable;
 use crate::context::Context;
 use crate::varint::VarInt64;
 
-use crate::error::error_end_of_input;
+use crate::error::{error_end_of_input, error_out_of_range_length};
 use crate::error::IsEof;
 use crate::utils::SwapBytes;
 
@@ -599,9 +599,10 @@ pub trait Reader< 'a, C: Context >: Sized {
               [T]: ToOwned< Owned = Vec< T > >
     {
         if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
+            let bytelength = length.checked_mul( mem::size_of::< T >() ).ok_or_else( error_out_of_range_length::< C::Error > )?;
+            if let Some( bytes ) = self.read_bytes_borrowed( bytelength ) {
                 let bytes = bytes?;
-                assert_eq!( bytes.len(), length * mem::size_of::< T >() );
+                assert_eq!( bytes.len(), bytelength );
 
                 if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % mem::align_of::< T >() == 0 {
                     let slice = unsafe { T::speedy_slice_from_bytes( bytes ) };
-- 
2.43.0


From 7e9e0d300ea2a4f44ca59465f0a3b604a90f3cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 13/19] fix: reading a Vec which cannot fit in memory returns
 an error

---
 src/reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 432a56d..501445a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -526,10 +526,15 @@ pub trait Reader< 'a, C: Context >: Sized {
             return Err( error_end_of_input() );
         }
 
-        let mut vec = Vec::with_capacity( length );
+        // The length comes from the input, so it might be bigger than what could ever fit in memory.
+        let mut vec = Vec::new();
+        if vec.try_reserve_exact( length ).is_err() {
+            return Err( error_end_of_input() );
+        }
+
         if T::speedy_is_primitive() {
             unsafe {
-                self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, vec.capacity() * core::mem::size_of::< T >() )?;
+                self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, length * core::mem::size_of::< T >() )?;
                 vec.set_len( length );
             }
 
-- 
2.43.0


From 468115c27d73c256c2d31a35187dfa14d3b51f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 14/19] fix: optional fields with default_on_eof are None when
 the input ends in their length

---
 speedy-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 28e481a..434faed 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1439,7 +1439,8 @@ fn read_field_body( field: &Field ) -> TokenStream {
                 speedy::private::#read_length_fn( _reader_ )
             };
 
-            if field.default_on_eof {
+            // The length of an optional field is read inside of a closure, so there `?` only leaves that closure.
+            if field.default_on_eof && !matches!( field.ty, Opt::Option( .. ) ) {
                 Some( default_on_eof_body( body ) )
             } else {
                 Some( quote! { #body? } )
-- 
2.43.0


From 459e113ec8bd96fc0c6334760008c80fb7ebf768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 15/19] fix: enums with a peeked tag do not need their tag in
 addition to what follows them

---
 speedy-derive/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 434faed..8bb2d23 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2334,12 +2334,15 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                     _ => Err( speedy::private::error_invalid_enum_variant() )
                 }
             };
-            let minimum_bytes_needed_body = min( variant_minimum_sizes.into_iter() );
             let minimum_bytes_needed_body =
                 if !enumeration.peek_tag {
+                    let minimum_bytes_needed_body = min( variant_minimum_sizes.into_iter() );
                     quote! { (#minimum_bytes_needed_body) + #tag_size }
+                } else if variant_minimum_sizes.len() == variants.len() {
+                    // The tag itself is not consumed, so it might be a part of whatever comes after this enum.
+                    quote! { [#(#variant_minimum_sizes),*].iter().copied().min().unwrap_or( 0_usize ) }
                 } else {
-                    quote! { core::cmp::max( #minimum_bytes_needed_body, #tag_size ) }
+                    quote! { 0 }
                 };
 
             (reader_body, minimum_bytes_needed_body, quote! {}, quote! {})
-- 
2.43.0


From 53852e14f85b42fb82a96de478135323427e131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 16/19] fix: buffered streams and peeks retry reads which were
 interrupted

---
 src/readable.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/readable.rs b/src/readable.rs
index d6d130a..5b7bae1 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -296,6 +296,16 @@ struct StreamReader< C: Context, S: Read > {
     is_buffering: bool
 }
 
+#[cfg(feature = "std")]
+fn read_retrying_on_interrupt< S: Read >( reader: &mut S, output: &mut [u8] ) -> Result< usize, std::io::Error > {
+    loop {
+        match reader.read( output ) {
+            Err( error ) if error.kind() == std::io::ErrorKind::Interrupted => {},
+            result => return result
+        }
+    }
+}
+
 #[cfg(feature = "std")]
 impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
     #[inline(never)]
@@ -304,7 +314,7 @@ impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
             let reader = &mut self.reader;
             while self.buffer.len() < self.buffer.capacity() {
                 let bytes_written = self.buffer.try_append_with( self.buffer.capacity() - self.buffer.len(), |chunk| {
-                    reader.read( chunk )
+                    read_retrying_on_interrupt( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
@@ -363,7 +373,7 @@ impl< 'a, C: Context, S: Read > Reader< 'a, C > for StreamReader< C, S > {
                 }
 
                 let bytes_written = self.buffer.try_append_with( chunk_size, |chunk| {
-                    reader.read( chunk )
+                    read_retrying_on_interrupt( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
-- 
2.43.0


From 7f0d981700e168734c5710ed1d779d4e46871836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 17/19] fix: the stream buffer is initialized before it is
 handed to a Read implementation

---
 src/circular_buffer.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/circular_buffer.rs b/src/circular_buffer.rs
index 8321eb5..ce2f35c 100644
--- a/src/circular_buffer.rs
+++ b/src/circular_buffer.rs
@@ -215,13 +215,8 @@ impl CircularBuffer {
     }
 
     pub fn with_capacity( capacity: usize ) -> Self {
-        let mut buffer = Vec::with_capacity( capacity );
-        unsafe {
-            buffer.set_len( capacity );
-            if cfg!( debug_assertions ) {
-                std::ptr::write_bytes( buffer.as_mut_ptr(), 0xFF, buffer.len() );
-            }
-        }
+        // This is handed out to the `Read` implementations, so it must be initialized.
+        let buffer = vec![ if cfg!( debug_assertions ) { 0xFF } else { 0 }; capacity ];
 
         CircularBuffer {
             buffer: buffer.into_boxed_slice(),
@@ -271,9 +266,7 @@ impl CircularBuffer {
         }
 
         new_capacity = new_buffer.capacity();
-        unsafe {
-            new_buffer.set_len( new_capacity );
-        }
+        new_buffer.resize( new_capacity, 0 );
 
         let (a, b) = occupied( self.position, self.length, self.buffer.len() );
         new_buffer[ 0..a.len() ].copy_from_slice( &self.buffer[ a.clone() ] );
-- 
2.43.0


From 610a20c41b5402471a1a52a9b21e2eede0c13a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 18/19] fix: memory is initialized before readers get it as a
 byte slice

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 501445a..b746c30 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -62,6 +62,7 @@ pub trait Reader< 'a, C: Context >: Sized {
     #[inline(always)]
     unsafe fn read_bytes_into_ptr( &mut self, output: *mut u8, length: usize ) -> Result< (), C::Error > {
         unsafe {
+            core::ptr::write_bytes( output, 0, length );
             self.read_bytes( core::slice::from_raw_parts_mut( output, length ) )
         }
     }
@@ -69,6 +70,7 @@ pub trait Reader< 'a, C: Context >: Sized {
     #[inline(always)]
     unsafe fn peek_bytes_into_ptr( &mut self, output: *mut u8, length: usize ) -> Result< (), C::Error > {
         unsafe {
+            core::ptr::write_bytes( output, 0, length );
             self.peek_bytes( core::slice::from_raw_parts_mut( output, length ) )
         }
     }
-- 
2.43.0


From f62859be0013cb70a7b68da12cbfa12a1fa352d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 19/19] fix: can_write_at_least does not overflow on sizes past
 the address space

---
 src/writable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writable.rs b/src/writable.rs
index f158ad4..18fdc2b 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -52,7 +52,7 @@ impl< 'a, C: Context > Writer< C > for BufferCollector< 'a, C > {
 
     #[inline(always)]
     fn can_write_at_least( &self, size: usize ) -> Option< bool > {
-        Some( self.buffer.get( self.position..self.position + size ).is_some() )
+        Some( size <= self.buffer.len() - self.position )
     }
 }
 
-- 
2.43.0

