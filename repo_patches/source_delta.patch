From c3b132f925c51af7e9b501cb143fedf31fd6bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:22 +0000
Subject: [PATCH 01/31] fix: init_capacity must stop at the end of the
 allocation

OwnedSlice::init_capacity(len) started at offset len but wrote capacity
elements, running len elements past the allocation.
---
 src/util/ownedslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ownedslice.rs b/src/util/ownedslice.rs
index 8139cc8..4174c83 100644
--- a/src/util/ownedslice.rs
+++ b/src/util/ownedslice.rs
@@ -87,7 +87,7 @@ impl<T: Default + Copy> OwnedSlice<T> {
     /// Sets all uninitialized values of buffer to the default value.
     pub fn init_capacity(&mut self, len: usize) {
         let mut cur = unsafe { self.0.as_ptr().add(len) };
-        let end = unsafe { cur.add(self.1) };
+        let end = unsafe { self.0.as_ptr().add(self.1) };
         let default = T::default();
         while cur < end {
             unsafe {
-- 
2.43.0


From 43349bfec212895b093623255d5a99171ffc9447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:22 +0000
Subject: [PATCH 02/31] fix: acquire other holders' accesses before releasing a
 ThinArc

Dropping the last reference and try_unwrap only used Release/Relaxed
accesses, so the release of the buffer was not ordered after the last
accesses of other threads.
---
 src/util/thinarc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/thinarc.rs b/src/util/thinarc.rs
index 8077a09..919bb14 100644
--- a/src/util/thinarc.rs
+++ b/src/util/thinarc.rs
@@ -32,7 +32,7 @@ impl<T> ThinArc<T> {
     }
     pub fn try_unwrap(mut self) -> Result<T, Self> {
         unsafe {
-            if self.ret_rc().load(Ordering::Relaxed) == 1 {
+            if self.ret_rc().load(Ordering::Acquire) == 1 {
                 let retval = Ok(self.offsets().1.cast::<T>().read());
                 self.dealloc();
                 std::mem::forget(self);
@@ -109,6 +109,8 @@ impl<T: DynSized + ?Sized> Drop for ThinArc<T> {
     fn drop(&mut self) {
         unsafe {
             if self.ret_rc().fetch_sub(1, Ordering::Release) == 1 {
+                // Order all other holders' accesses before the destruction of the value.
+                std::sync::atomic::fence(Ordering::Acquire);
                 let (ptr_meta, ptr_value) = self.offsets();
                 T::drop_in_place(
                     NonNull::new_unchecked(ptr_value),
-- 
2.43.0


From 137e84dfd2f18121092fcdc1892e90580e946543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:22 +0000
Subject: [PATCH 03/31] fix: deallocate a ThinArc with the layout it was
 allocated with

The allocation used the padded layout of the inner struct but the
deallocation layout lacked the trailing padding.
---
 src/util/thinarc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/thinarc.rs b/src/util/thinarc.rs
index 919bb14..a8bce07 100644
--- a/src/util/thinarc.rs
+++ b/src/util/thinarc.rs
@@ -77,7 +77,7 @@ impl<T: DynSized + ?Sized> ThinArc<T> {
         let mut layout = Layout::new::<AtomicUsize>();
         layout = layout.extend(Layout::new::<T::Metadata>()).unwrap().0;
         layout = layout.extend(T::layout(self.ref_meta())).unwrap().0;
-        std::alloc::dealloc(self.0.as_ptr(), layout);
+        std::alloc::dealloc(self.0.as_ptr(), layout.pad_to_align());
     }
 }
 
-- 
2.43.0


From e34e167fdea9ed531372df4fbc813e08c7f4761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:41 +0000
Subject: [PATCH 04/31] fix: make the FlatMap edit guard see its unsorted tail

Lookups returned None for keys in the unsorted tail when they sorted
before the last sorted key (duplicate keys), element access and removal
indexed past the truncated Vec, removal dropped the tail from the
sorted/real length bookkeeping, push returned a pointer one past the new
element, clear leaked the tail, and len reported the sorted prefix only.
---
 src/util/flatmap.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index da32864..7dd0772 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -138,7 +138,6 @@ fn get_impl<E, X: KeyExtractor<E>>(
     let (sorted, unsorted) = pairs.split_at(sorted_until);
     match sorted.binary_search_by(|v| X::extract_key(v).borrow().cmp(key)) {
         Ok(key) => Some(key),
-        Err(v) if v < sorted_until => None,
         Err(_) => unsorted
             .iter()
             .position(|v| X::extract_key(v).borrow() == key)
@@ -184,13 +183,25 @@ impl<E, X: KeyExtractor<E>> FlatMap<E, X> {
 }
 
 impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
-    collection_methods!(src);
+    #[doc = "Returns the number of elements in `self`."]
+    pub fn len(&self) -> usize {
+        self.real_len
+    }
+    #[doc = "Returns true if `self` contains no elements."]
+    pub fn is_empty(&self) -> bool {
+        self.real_len == 0
+    }
 
     /// Return a slice of all the elements in the `Vec`, sorted and otherwise.
     pub fn as_slice(&self) -> &[E] {
         let ptr = self.src.as_ptr();
         unsafe { std::slice::from_raw_parts(ptr, self.real_len) }
     }
+    /// Return a mutable slice of all the elements in the `Vec`, sorted and otherwise.
+    fn as_slice_mut(&mut self) -> &mut [E] {
+        let ptr = self.src.as_mut_ptr();
+        unsafe { std::slice::from_raw_parts_mut(ptr, self.real_len) }
+    }
     /// Return the index of a given element in the full `Vec`.
     fn get_idx(&self, key: &X::KeyBorrowed) -> Option<usize> {
         let sorted_until = self.src.len();
@@ -198,11 +209,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
     }
     pub fn get<'a>(&'a self, key: &X::KeyBorrowed) -> Option<&'a E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked(idx) })
+        Some(unsafe { self.as_slice().get_unchecked(idx) })
     }
     pub fn get_mut<'a>(&'a mut self, key: &X::KeyBorrowed) -> Option<&'a mut E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked_mut(idx) })
+        Some(unsafe { self.as_slice_mut().get_unchecked_mut(idx) })
     }
     fn push(&mut self, elem: E) -> &mut E {
         let key = X::extract_key(&elem);
@@ -228,7 +239,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         unsafe { self.src.set_len(sorted_until) };
         let mut ptr = self.src.as_mut_ptr();
         unsafe {
-            ptr = ptr.add(self.real_len);
+            ptr = ptr.add(self.real_len - 1);
             ptr.as_mut().unwrap_unchecked()
         }
     }
@@ -236,7 +247,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            let old_elem = unsafe { &mut self.src.get_unchecked_mut(idx) };
+            let old_elem = unsafe { self.as_slice_mut().get_unchecked_mut(idx) };
             Some(std::mem::replace(old_elem, elem))
         } else {
             self.push(elem);
@@ -258,7 +269,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            (unsafe { self.src.get_unchecked_mut(idx) }, Some(elem))
+            (unsafe { self.as_slice_mut().get_unchecked_mut(idx) }, Some(elem))
         } else {
             (self.push(elem), None)
         }
@@ -268,15 +279,18 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         // That said, removal should be infrequent, so it's probably
         // not worth adding some sort of tombstoning to the edit guard.
         let idx = self.get_idx(key)?;
+        let sorted_until = std::cmp::min(self.src.len(), idx);
+        unsafe { self.src.set_len(self.real_len) };
         let retval = self.src.swap_remove(idx);
         self.real_len -= 1;
-        unsafe { self.src.set_len(idx) };
+        unsafe { self.src.set_len(sorted_until) };
         Some(retval)
     }
     /// Removes all key-value pairs.
     pub fn clear(&mut self) {
-        self.src.clear();
+        unsafe { self.src.set_len(self.real_len) };
         self.real_len = 0;
+        self.src.clear();
     }
 }
 
-- 
2.43.0


From 771aa1563921c2cd3b6243a4072d4221103a65f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:00 +0000
Subject: [PATCH 05/31] fix: make_owning keeps a string secret

Bytes::make_owning (and so every MakeOwning impl built on it) dropped the
secret mark of a borrowing secret string.
---
 src/string/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 1612ba1..76fccb6 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -46,7 +46,7 @@ unsafe impl<'a> crate::owning::MakeOwning for crate::string::Bytes<'a> {
 
     fn make_owning(&mut self) {
         if !self.is_owning() {
-            self.owning_force(false);
+            self.owning_force(self.secret);
         }
     }
 }
-- 
2.43.0


From 04d993a2fd55205a2002cd2c7e8242621ecfe14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:06 +0000
Subject: [PATCH 06/31] fix: keep the secret mark in lossy, base64 and emptying
 conversions

into_utf8_lossy of a secret non-UTF-8 string, to_base64_plus of an empty
secret string and transforms of a secret string to an empty one returned
non-secret strings.
---
 src/string/bytes.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 76fccb6..6c3ae71 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -164,7 +164,14 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
-            Cow::Owned(o) => o.into(),
+            Cow::Owned(o) => {
+                let retval = Bytes::from(o);
+                if self.secret {
+                    retval.secret()
+                } else {
+                    retval
+                }
+            }
         }
     }
     #[cfg(feature = "base64")]
@@ -192,7 +199,11 @@ impl<'a> Bytes<'a> {
     #[cfg(feature = "base64")]
     pub fn to_base64_plus(&self) -> super::Arg<'static> {
         if self.is_empty() {
-            crate::names::PLUS
+            if self.secret {
+                crate::names::PLUS.secret()
+            } else {
+                crate::names::PLUS
+            }
         } else {
             unsafe { super::Arg::from_unchecked(self.to_base64_impl()) }
         }
@@ -246,7 +257,7 @@ impl<'a> Bytes<'a> {
     pub fn transform<T: Transform>(&mut self, tf: T) -> T::Value {
         let tfed = tf.transform(self);
         if tfed.transformed.as_ref().is_empty() {
-            *self = Bytes::empty();
+            *self = Bytes { secret: self.secret, ..Bytes::empty() };
             return tfed.value;
         }
         match tfed.transformed {
-- 
2.43.0


From fef6c4ef48842d764efab6fcdb9658093fcef2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:13 +0000
Subject: [PATCH 07/31] fix: zero secret owning strings' buffers when they are
 released

Bytes::secret documents that owning secret strings' buffers are zeroed out
when the last reference to them is lost, but they were freed as they were.
Also let SecretBuf::as_bytes borrow instead of leaving an unzeroed copy.
---
 src/string/bytes.rs     | 65 ++++++++++++++++++++++++-----------------
 src/string/secretbuf.rs |  2 +-
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 6c3ae71..18b70c0 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -66,7 +66,7 @@ impl<'a> Bytes<'a> {
     }
     /// Cheaply conversts a secret value into a `Bytes`.
     pub fn from_secret(value: Vec<u8>) -> Self {
-        let (ownership, value) = unsafe { OwnedBytes::from_vec(value) };
+        let (ownership, value) = unsafe { OwnedBytes::from_vec(value, true) };
         Bytes { value, ownership, utf8: AtomicI8::new(0), secret: true }
     }
     /// Returns `true` if `self` is not borrowing its data.
@@ -106,7 +106,7 @@ impl<'a> Bytes<'a> {
     }
     fn owning_force(&mut self, secret: bool) {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec());
+            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec(), secret);
             *self = Bytes { value, ownership, utf8: self.utf8.load(Relaxed).into(), secret }
         }
     }
@@ -165,12 +165,9 @@ impl<'a> Bytes<'a> {
                 secret: self.secret,
             },
             Cow::Owned(o) => {
-                let retval = Bytes::from(o);
-                if self.secret {
-                    retval.secret()
-                } else {
-                    retval
-                }
+                let (ownership, value) =
+                    unsafe { OwnedBytes::from_vec(o.into_bytes(), self.secret) };
+                Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
             }
         }
     }
@@ -179,7 +176,7 @@ impl<'a> Bytes<'a> {
         use base64::engine::{general_purpose::STANDARD as ENGINE, Engine};
         let encoded = ENGINE.encode(self.value);
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes(), self.secret);
             Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
         }
     }
@@ -276,7 +273,7 @@ impl<'a> Bytes<'a> {
             Cow::Owned(o) => {
                 let utf8 = self.utf8_for_policy(tfed.utf8);
                 unsafe {
-                    let (ownership, value) = OwnedBytes::from_vec(o);
+                    let (ownership, value) = OwnedBytes::from_vec(o, self.secret);
                     *self = Bytes { value, ownership, utf8: utf8.into(), secret: self.secret };
                 }
             }
@@ -288,7 +285,7 @@ impl<'a> Bytes<'a> {
     /// This operation copies data unless `self` has sole ownership of its data.
     pub fn into_vec(self) -> Vec<u8> {
         if let Some(owner) = self.ownership {
-            unsafe { owner.into_vec(self.value, self.secret) }
+            unsafe { owner.into_vec(self.value) }
         } else {
             self.value.to_vec()
         }
@@ -320,7 +317,7 @@ impl std::borrow::Borrow<[u8]> for Bytes<'_> {
 impl<'a> From<Vec<u8>> for Bytes<'a> {
     fn from(value: Vec<u8>) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value);
+            let (ownership, value) = OwnedBytes::from_vec(value, false);
             Bytes { value, ownership, utf8: 0i8.into(), secret: false }
         }
     }
@@ -329,7 +326,7 @@ impl<'a> From<Vec<u8>> for Bytes<'a> {
 impl<'a> From<String> for Bytes<'a> {
     fn from(value: String) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes(), false);
             Bytes { value, ownership, utf8: 1i8.into(), secret: false }
         }
     }
@@ -374,7 +371,7 @@ impl<'a> From<Bytes<'a>> for Vec<u8> {
 impl<'a> From<Bytes<'a>> for Cow<'a, [u8]> {
     fn from(value: Bytes<'a>) -> Self {
         match value.ownership {
-            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value, value.secret) }),
+            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value) }),
             None => Cow::Borrowed(value.value),
         }
     }
@@ -488,7 +485,21 @@ impl std::fmt::Debug for Bytes<'_> {
 /// There is also only a strong reference count, which is kept seperate.
 #[repr(transparent)]
 #[derive(Clone)]
-struct OwnedBytes(crate::util::ThinArc<crate::util::OwnedSlice<u8>>);
+struct OwnedBytes(crate::util::ThinArc<OwnedBuf>);
+
+/// The buffer of an [`OwnedBytes`], which gets zeroed out on drop if it is secret.
+struct OwnedBuf {
+    data: Option<crate::util::OwnedSlice<u8>>,
+    secret: bool,
+}
+
+impl Drop for OwnedBuf {
+    fn drop(&mut self) {
+        if let (Some(data), true) = (&mut self.data, self.secret) {
+            data.reinit_all();
+        }
+    }
+}
 
 impl OwnedBytes {
     /// Converts a Vec into Self (which owns the data)
@@ -500,26 +511,26 @@ impl OwnedBytes {
     /// This returns a reference with an unbound lifetime.
     /// Make sure this lifetime doesn't leak anywhere that might outlive
     /// the `Self`.
-    pub unsafe fn from_vec<'a>(value: Vec<u8>) -> (Option<Self>, &'a [u8]) {
-        if value.is_empty() {
-            return (None, &[]);
-        }
+    pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
         let (os, len) = crate::util::OwnedSlice::from_vec(value);
         let slice = unsafe { os.as_slice(len) };
-        (Some(OwnedBytes(crate::util::ThinArc::new(os))), slice)
+        let buf = OwnedBuf { data: Some(os), secret };
+        if len == 0 {
+            return (None, &[]);
+        }
+        (Some(OwnedBytes(crate::util::ThinArc::new(buf))), slice)
     }
     /// Attempts to re-use the buffer for constructing a `Vec` from `slice`.
     ///
     /// # Safety
     /// `slice` is assumed to be a slice of the data owned by self.
-    pub unsafe fn into_vec(self, slice: &[u8], secret: bool) -> Vec<u8> {
-        if let Ok(os) = self.0.try_unwrap() {
+    pub unsafe fn into_vec(self, slice: &[u8]) -> Vec<u8> {
+        if let Ok(mut buf) = self.0.try_unwrap() {
+            // `data` is only ever taken here.
+            let os = buf.data.take().unwrap_unchecked();
             let (retval, destroy) = os.into_vec_with_slice(slice);
-            if secret {
-                if let Some(mut destroy) = destroy {
-                    destroy.reinit_all();
-                }
-            }
+            // Zeroed out by `buf`'s destructor if secret.
+            buf.data = destroy;
             retval
         } else {
             slice.to_vec()
diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index d7e43a6..8d041b0 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -22,7 +22,7 @@ impl SecretBuf {
     }
     /// Allows read-only access to the contents of this buffer through a [`Bytes`].
     pub fn as_bytes(&self) -> Bytes<'_> {
-        Bytes::from(self.as_ref()).secret()
+        Bytes::from_bytes(self.as_ref()).secret()
     }
     /// Effeciently converts `self` into a secret [`Bytes`].
     pub fn into_bytes<'a>(mut self) -> Bytes<'a> {
-- 
2.43.0


From f5eed5c79d6c87dea6d669ade54c98a40055b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:43 +0000
Subject: [PATCH 08/31] fix: unescape the first escape sequence of a tag value

The backslash of the first escape was copied to the output and the byte
after it left as it was, so a\sb unescaped to itself.
---
 src/string/tf/escape.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index b13f02a..ccdb4ef 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -61,11 +61,8 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
     };
     let (mut new_bytes, rest) = unsafe {
         let (no_escape, rest) = tag_value.as_bytes_unsafe().split_at(first_idx);
-        // rest contains at least one byte because first_idx is a valid index.
-        let (first, rest) = rest.split_first().unwrap_unchecked();
         let mut new_bytes = Vec::with_capacity(tag_value.len() - 1);
         new_bytes.extend_from_slice(no_escape);
-        new_bytes.push(unescape_byte(first));
         (new_bytes, rest)
     };
     let mut esc = false;
-- 
2.43.0


From 400a5fa56e72cb81c4fa916b31b57666f26e3172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:08 +0000
Subject: [PATCH 09/31] fix: keep the secret mark when escaping, unescaping and
 concatenating

Escaping or unescaping a secret tag value and building a string from
secret parts returned non-secret strings, and a builder holding secret
text printed it with Debug.
---
 src/string/builder.rs   | 23 ++++++++++++++++++++---
 src/string/tf/escape.rs | 14 +++++++++++---
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/string/builder.rs b/src/string/builder.rs
index 7ded1fc..7e8fda2 100644
--- a/src/string/builder.rs
+++ b/src/string/builder.rs
@@ -5,10 +5,11 @@ use crate::error::InvalidString;
 ///
 /// This type contains a `Vec` of bytes that upholds the string type's invariant.
 /// It also tracks UTF-8 validity.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub struct Builder<T> {
     bytes: Vec<u8>,
     utf8: bool,
+    secret: bool,
     marker: std::marker::PhantomData<T>,
 }
 
@@ -30,8 +31,9 @@ impl<'a, T: BytesNewtype<'a>> Builder<T> {
         T::This<'b>: BytesNewtype<'b>,
     {
         let utf8 = init.is_utf8_lazy();
+        let secret = init.is_secret();
         let bytes = T::into_vec(init);
-        Self { bytes, utf8, marker: std::marker::PhantomData }
+        Self { bytes, utf8, secret, marker: std::marker::PhantomData }
     }
     /// Shrinks the capacity of this builder as much as possible.
     pub fn shrink_to_fit(&mut self) {
@@ -62,7 +64,9 @@ impl<'a, T: BytesNewtype<'a>> Builder<T> {
     /// Consumes `self` to build an owning byte string.
     pub fn build(self) -> T {
         unsafe {
-            let bytes: Bytes = if self.utf8 {
+            let bytes: Bytes = if self.secret {
+                Bytes::from_secret(self.bytes)
+            } else if self.utf8 {
                 let string = String::from_utf8_unchecked(self.bytes);
                 string.into()
             } else {
@@ -96,6 +100,7 @@ impl<'a, T: BytesNewtype<'a>> Builder<T> {
         unsafe {
             let bytes = string.as_bytes_unsafe();
             self.append_unchecked(bytes, string.is_utf8_lazy());
+            self.secret |= string.is_secret();
         }
     }
 
@@ -141,6 +146,18 @@ impl<'a, T: BytesNewtype<'a>> Builder<T> {
     }
 }
 
+impl<T> std::fmt::Debug for Builder<T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let mut f = f.debug_struct("Builder");
+        if self.secret {
+            f.field("bytes", &super::DISPLAY_PLACEHOLDER);
+        } else {
+            f.field("bytes", &self.bytes);
+        }
+        f.field("utf8", &self.utf8).finish()
+    }
+}
+
 impl<T> std::ops::Deref for Builder<T> {
     type Target = [u8];
     fn deref(&self) -> &[u8] {
diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index ccdb4ef..a313fc8 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -1,4 +1,4 @@
-use crate::string::{NoNul, Word};
+use crate::string::{Bytes, NoNul, Word};
 use std::num::NonZeroU8;
 
 /// Returns the unescaped value for an tag value escape code.
@@ -25,6 +25,14 @@ pub fn escape_byte(byte: &u8) -> Option<NonZeroU8> {
     }
 }
 
+fn new_value<'a>(bytes: Vec<u8>, secret: bool) -> Bytes<'a> {
+    if secret {
+        Bytes::from_secret(bytes)
+    } else {
+        bytes.into()
+    }
+}
+
 /// Returns an escaped form of the provided tag value.
 pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
     let tag_value = tag_value.into();
@@ -50,7 +58,7 @@ pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { Word::from_unchecked(new_bytes.into()) }
+    unsafe { Word::from_unchecked(new_value(new_bytes, tag_value.is_secret())) }
 }
 
 /// Returns an unescaped form of the provided tag value.
@@ -76,5 +84,5 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { NoNul::from_unchecked(new_bytes.into()) }
+    unsafe { NoNul::from_unchecked(new_value(new_bytes, tag_value.is_secret())) }
 }
-- 
2.43.0


From e2962262327abf7bc30388cc9c94f3c0bb057a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:14 +0000
Subject: [PATCH 10/31] fix: do not keep a narrower range's encoding when
 restoring a split position

Restoring only the start or end of a splitter kept the encoding that had
been established for the narrowed range, so non-UTF-8 text could be
marked as UTF-8.
---
 src/string/splitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/string/splitter.rs b/src/string/splitter.rs
index ee73db0..d2e9b97 100644
--- a/src/string/splitter.rs
+++ b/src/string/splitter.rs
@@ -77,6 +77,9 @@ impl Range {
         }
         if start && end {
             self.encoding = saved.encoding;
+        } else if start || end {
+            // What is known of the current range may not hold for the widened one.
+            self.encoding = std::cmp::min(self.encoding, saved.encoding);
         }
     }
     pub fn constrain<'a, T>(&self, slice: &'a [T]) -> &'a [T] {
@@ -115,7 +118,8 @@ impl<T> Splitter<T> {
 
 impl<T: AsRef<[u8]>> Splitter<T> {
     fn check_encoding_inner(&mut self, accept: Encoding) -> Result<(), std::str::Utf8Error> {
-        if self.range.encoding < accept {
+        // An empty range says nothing about whether its bounds are on character boundaries.
+        if self.range.encoding < accept && self.range.len() > 0 {
             let slice = self.range.constrain(self.as_ref());
             let idx = slice.iter().position(|c| !c.is_ascii());
             self.range.encoding = if let Some(idx) = idx {
-- 
2.43.0


From e04c9caded23069110e5202b20a2e03d53f34656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:44 +0000
Subject: [PATCH 11/31] fix: Cmd::from_word rejects the empty word

Cmd and the types it converts to are documented to be non-empty, and
Key::is_client_tag relies on that without checking.
---
 src/string/subtypes/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string/subtypes/impls.rs b/src/string/subtypes/impls.rs
index 93f31b1..4cfa293 100644
--- a/src/string/subtypes/impls.rs
+++ b/src/string/subtypes/impls.rs
@@ -75,6 +75,9 @@ impl<'a> Cmd<'a> {
     /// Tries to convert `word` into an instance of this type, uppercasing where necessary.
     pub fn from_word(word: impl Into<Word<'a>>) -> Result<Self, InvalidString> {
         let mut word = word.into();
+        if word.is_empty() {
+            return Err(InvalidString::Empty);
+        }
         if let Some(inval) = word.iter().find(|b| !b.is_ascii_alphabetic()) {
             return Err(InvalidString::Byte(*inval));
         };
-- 
2.43.0


From 556d5232dc7a7bbb13a34592b2a70c870bd278f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:50 +0000
Subject: [PATCH 12/31] fix: SecretBuf::read_from reads no more than the
 expected bytes

With spare capacity from an earlier reservation it could take more bytes
from the reader than asked for.
---
 src/string/secretbuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index 8d041b0..a1fb7b9 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -82,7 +82,7 @@ impl SecretBuf {
         self.reserve(expect);
         // Safety: This data gets initialized on creation of the SecretBuf,
         // or above.
-        let mut write_to = unsafe { self.data.as_write_slice(self.len) };
+        let mut write_to = unsafe { &mut self.data.as_write_slice(self.len)[..expect] };
         let mut bytes_read = 0usize;
         while bytes_read < expect {
             let last_read = read.read(write_to)?;
-- 
2.43.0


From f79644f167ef018355e28a7258a2ab82ab24438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:45 +0000
Subject: [PATCH 13/31] fix: deserialise Numeric from the integer it serialises
 as

The derived Deserialize accepted any three non-zero bytes, including
non-digits, and did not accept what Serialize produces.
---
 src/ircmsg/numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/numeric.rs b/src/ircmsg/numeric.rs
index 8be4785..de1ff49 100644
--- a/src/ircmsg/numeric.rs
+++ b/src/ircmsg/numeric.rs
@@ -5,7 +5,7 @@ use std::{io::Write, num::NonZeroU8};
 /// A three-digit numeric reply code.
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(serde_derive::Serialize, serde_derive::Deserialize))]
-#[cfg_attr(feature = "serde", serde(into = "u16"))]
+#[cfg_attr(feature = "serde", serde(into = "u16", try_from = "u16"))]
 pub struct Numeric([NonZeroU8; 3]);
 
 impl AsRef<str> for Numeric {
-- 
2.43.0


From cc80ac334bb86a0fffcac2949ac89f64a64655a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:51 +0000
Subject: [PATCH 14/31] fix: only skip spaces between parsed arguments

Other ASCII whitespace is part of an argument, but was stripped from the
start of each one, so written arguments did not parse back.
---
 src/ircmsg/args.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index a5792d6..d437959 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     error::InvalidString,
-    string::{Arg, Line, Splitter},
+    string::{Arg, Line, Splitter, Word},
 };
 use std::borrow::Cow;
 
@@ -141,7 +141,8 @@ impl<'a> Args<'a> {
         let mut words = Vec::with_capacity(2);
         let mut long = None;
         loop {
-            line.consume_whitespace();
+            // Arguments are separated by spaces only, the sole byte of a line invalid for a word.
+            line.consume_invalid::<Word>();
             match line.string::<Arg>(false) {
                 Ok(arg) => words.push(arg),
                 Err(InvalidString::Colon) => {
-- 
2.43.0


From 42d7ca7fd5b757dad41d834efb314390d053c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:57 +0000
Subject: [PATCH 15/31] fix: do not loop forever on a tag key with a leading
 colon

A leading colon makes a key invalid without being an invalid byte, so
nothing was consumed: parsing "@:foo CMD" never returned.
---
 src/ircmsg/tags.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/tags.rs b/src/ircmsg/tags.rs
index 8b15297..37e2fa1 100644
--- a/src/ircmsg/tags.rs
+++ b/src/ircmsg/tags.rs
@@ -87,7 +87,8 @@ impl<'a> Tags<'a> {
         // TODO: Tag bytes available.
         while !splitter.is_empty() {
             let Ok(key) = splitter.string::<Key>(false) else {
-                splitter.consume_invalid::<Key>();
+                // The next byte is either invalid for a key or a leading colon.
+                splitter.next_byte();
                 continue;
             };
             let value = if matches!(splitter.next_byte(), Some(b'=')) {
-- 
2.43.0


From 6ee13e4efcb4ed1503642ca8e328d86a3a38eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:03 +0000
Subject: [PATCH 16/31] fix: strip the line terminator in the tokio codec
 decoders

Decoding passed the line including its CRLF to Line, which rejects it, so
every message failed to decode; a line cut off at the length limit was
parsed as if it had ended.
---
 src/ircmsg/codec.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 2d93c2f..d0df6c3 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -422,6 +422,7 @@ impl ServerCodec {
 pub(super) mod tokio_codec {
     use super::{ClientCodec, ServerCodec};
     use crate::{
+        error::{InvalidString, ParseError},
         ircmsg::{ClientMsg, ServerMsg},
         string::Line,
     };
@@ -472,6 +473,21 @@ pub(super) mod tokio_codec {
         None
     }
 
+    /// Removes the newline from the end of a raw line.
+    fn strip_newline(raw: &[u8]) -> Result<&[u8], ParseError> {
+        let Some(mut line) = raw.strip_suffix(b"\n") else {
+            // This line was cut short by either an invalid byte or the length limit.
+            return Err(match raw {
+                [.., b'\0'] => ParseError::InvalidLine(InvalidString::Byte(b'\0')),
+                _ => ParseError::TooLong,
+            });
+        };
+        while let Some(rest) = line.strip_suffix(b"\r") {
+            line = rest;
+        }
+        Ok(line)
+    }
+
     impl Decoder for ClientCodec {
         type Item = ServerMsg<'static>;
         type Error = std::io::Error;
@@ -482,7 +498,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(strip_newline(&line_raw)?)?;
             Ok(Some(ServerMsg::parse(line.owning())?))
         }
     }
@@ -496,7 +512,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(strip_newline(&line_raw)?)?;
             Ok(Some(ClientMsg::parse(line.owning())?))
         }
     }
-- 
2.43.0


From 73dbddd38c572098ea529afd1443043aaab32420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 17/31] fix: find all overlaps between mode types

ModeTypes::from_sets missed modes listed as both type A and type C or D.
---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index b420d1f..62769b1 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -330,8 +330,9 @@ impl ModeTypes {
     /// and returned as a separate set. Use [`insert_set()`][Self::insert_set] to add them back.
     pub fn from_sets(a: ModeSet, b: ModeSet, c: ModeSet, d: ModeSet) -> (Self, ModeSet) {
         let mut overlap = a.intersection(b);
+        overlap = overlap.union(a.intersection(c));
+        overlap = overlap.union(a.intersection(d));
         overlap = overlap.union(b.intersection(c));
-        overlap = overlap.union(c.intersection(d));
         overlap = overlap.union(b.intersection(d));
         overlap = overlap.union(c.intersection(d));
         (
-- 
2.43.0


From d6c787e36a4a7b8db3c88be2ea8612945315511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:57 +0000
Subject: [PATCH 18/31] fix: enforce required authentication

The handler only kept the requirement when there were no authenticators to
satisfy it with, so a server could skip SASL unnoticed.
---
 src/client/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/register.rs b/src/client/register.rs
index 6691694..999b3ce 100644
--- a/src/client/register.rs
+++ b/src/client/register.rs
@@ -109,7 +109,7 @@ impl<O> Register<O> {
         let nicks = self.register_msgs(opts, sink);
         let caps = (self.caps)(opts);
         let (auths, mut needs_auth) = (self.auth)(opts);
-        needs_auth &= auths.is_empty();
+        needs_auth &= !auths.is_empty();
         Handler::new(nicks, caps, needs_auth, auths)
     }
 }
-- 
2.43.0


From 69f37979f5f6e5e732936bf3fc8063294cd12689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:02 +0000
Subject: [PATCH 19/31] fix: only share oneshot senders between threads for
 Send values

A Sender can be cloned through a shared reference, and the clone used to
send a value from the other thread.
---
 src/client/handler/channel/oneshot.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/handler/channel/oneshot.rs b/src/client/handler/channel/oneshot.rs
index 806b6de..ded265b 100644
--- a/src/client/handler/channel/oneshot.rs
+++ b/src/client/handler/channel/oneshot.rs
@@ -47,7 +47,8 @@ unsafe impl<T: Send> Send for Sender<T> {}
 // You can use a `Receiver` to get a `&T`, but only with one method that requires `T: Sync`.
 unsafe impl<T> Sync for Receiver<T> {}
 // You cannot use a `Sender` to get a `&T`.
-unsafe impl<T> Sync for Sender<T> {}
+// It can however be cloned through a reference, and the clone can be used to send a `T`.
+unsafe impl<T: Send> Sync for Sender<T> {}
 
 impl<T> Clone for Sender<T> {
     fn clone(&self) -> Self {
-- 
2.43.0


From f87b3508d0546e521271623cb79695627e58d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:07 +0000
Subject: [PATCH 20/31] fix: free a oneshot channel exactly once

The receiver and the last sender each decided whether to free the shared
allocation from the other's flag, so concurrent drops could both free it,
neither, or one could read it after it was freed.
---
 src/client/handler/channel/oneshot.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/client/handler/channel/oneshot.rs b/src/client/handler/channel/oneshot.rs
index ded265b..a6d67e0 100644
--- a/src/client/handler/channel/oneshot.rs
+++ b/src/client/handler/channel/oneshot.rs
@@ -27,7 +27,8 @@ use std::{
 // The senders have no access to the sent value.
 
 struct Inner<T> {
-    sender_count: AtomicUsize,
+    /// The number of senders plus one for the receiver.
+    ref_count: AtomicUsize,
     recver: AtomicBool,
     lock: Once,
     // Manually implement OnceLock so that we can deinit the value but keep the lock.
@@ -52,7 +53,7 @@ unsafe impl<T: Send> Sync for Sender<T> {}
 
 impl<T> Clone for Sender<T> {
     fn clone(&self) -> Self {
-        unsafe { self.0.as_ref().sender_count.fetch_add(1, Ordering::Relaxed) };
+        unsafe { self.0.as_ref().ref_count.fetch_add(1, Ordering::Relaxed) };
         Self(self.0)
     }
 }
@@ -71,7 +72,7 @@ impl<T> Drop for Receiver<T> {
         if has_value {
             unsafe { inner_ref.value.get().as_mut().unwrap_unchecked().assume_init_drop() };
         }
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
+        if inner_ref.ref_count.fetch_sub(1, Ordering::AcqRel) == 1 {
             #[allow(dropping_references)]
             std::mem::drop(inner_ref);
             std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
@@ -82,13 +83,10 @@ impl<T> Drop for Receiver<T> {
 impl<T> Drop for Sender<T> {
     fn drop(&mut self) {
         let inner_ref = unsafe { self.0.as_ref() };
-        if inner_ref.sender_count.fetch_sub(1, Ordering::Release) == 1 {
-            #[allow(clippy::collapsible_if)]
-            if !inner_ref.recver.load(Ordering::Acquire) {
-                #[allow(dropping_references)]
-                std::mem::drop(inner_ref);
-                std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-            }
+        if inner_ref.ref_count.fetch_sub(1, Ordering::AcqRel) == 1 {
+            #[allow(dropping_references)]
+            std::mem::drop(inner_ref);
+            std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
         }
     }
 }
@@ -96,7 +94,7 @@ impl<T> Drop for Sender<T> {
 /// Creates a new oneshot channel for sending single values.
 pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
     let inner = Box::new(Inner {
-        sender_count: AtomicUsize::new(1),
+        ref_count: AtomicUsize::new(2),
         recver: AtomicBool::new(true),
         lock: Once::new(),
         value: UnsafeCell::new(MaybeUninit::uninit()),
@@ -136,7 +134,7 @@ impl<T> Receiver<T> {
         let retval = has_value.then(|| unsafe {
             inner_ref.value.get().as_ref().unwrap_unchecked().assume_init_read()
         });
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
+        if inner_ref.ref_count.fetch_sub(1, Ordering::AcqRel) == 1 {
             #[allow(dropping_references)]
             std::mem::drop(inner_ref);
             std::mem::drop(unsafe { Box::from_raw(ptr.as_ptr()) });
-- 
2.43.0


From 4db127326a2b971b178a835d88e3023eee8319bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:00 +0000
Subject: [PATCH 21/31] fix: parkers neither return early nor leave dangling
 thread handles

park() published a pointer to its stack frame and trusted the first wakeup,
but thread::park may return spuriously or for an unrelated unpark token. It
then returned early (losing a value sent later) with the pointer possibly
still held by an unparker.
---
 src/client/handler/channel/parker.rs | 104 +++++++++++++--------------
 1 file changed, 48 insertions(+), 56 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index f4f6053..d02bba5 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -3,44 +3,58 @@
 //! These can be used to turn non-blocking channels into blocking ones in synchronous code.
 //! They are designed for mpsc usecases, allowing multiple threads to unpark one thread.
 
-use std::mem::ManuallyDrop;
-use std::sync::{
-    atomic::{AtomicPtr, Ordering},
-    Arc, Weak,
-};
-use std::thread::Thread;
+use std::sync::{Arc, Condvar, Mutex, MutexGuard, PoisonError};
 
-/// Global location whose address we can use to indicate that a [`Parker`] should skip parking.
-static mut SKIP_PARKING: std::mem::MaybeUninit<Thread> = std::mem::MaybeUninit::uninit();
+#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
+enum State {
+    /// Nothing has happened since the last parking operation.
+    #[default]
+    Idle,
+    /// The current or next parking operation should end.
+    Unparked,
+    /// There are no unparkers left.
+    Closed,
+}
+
+#[derive(Debug, Default)]
+struct Shared {
+    state: Mutex<State>,
+    cond: Condvar,
+}
+
+impl Shared {
+    fn lock(&self) -> MutexGuard<'_, State> {
+        self.state.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+    fn set(&self, state: State) {
+        *self.lock() = state;
+        self.cond.notify_all();
+    }
+}
+
+/// Shared by all [`Unparker`]s, dropped with the last of them.
+#[derive(Debug, Default)]
+struct Handle(Arc<Shared>);
+
+impl Drop for Handle {
+    fn drop(&mut self) {
+        self.0.set(State::Closed);
+    }
+}
 
 /// A wrapped [`Sender`][super::Sender] that can unpark a thread blocked by a [`Parker`].
 #[derive(Clone, Debug, Default)]
-pub struct Unparker<S>(S, ManuallyDrop<Arc<AtomicPtr<Thread>>>);
+pub struct Unparker<S>(S, Arc<Handle>);
 /// A synchronization primitive for parking the thread indefinitely pending activity
 /// on a thread with an [`Unparker`].
 #[derive(Debug)]
-pub struct Parker(Weak<AtomicPtr<Thread>>);
+pub struct Parker(Arc<Shared>);
 
 /// Creates a new [`Unparker`] from the provided sender,
 /// also returning a [`Parker`] for that unparker.
 pub fn new<S>(sender: S) -> (Unparker<S>, Parker) {
-    let arc = Arc::new(AtomicPtr::new(std::ptr::null_mut()));
-    let weak = Arc::downgrade(&arc);
-    (Unparker(sender, ManuallyDrop::new(arc)), Parker(weak))
-}
-
-impl<S> Drop for Unparker<S> {
-    fn drop(&mut self) {
-        let Some(arc) = Arc::into_inner(unsafe { ManuallyDrop::take(&mut self.1) }) else {
-            return;
-        };
-        let ptr = arc.into_inner();
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
-        }
-    }
+    let shared = Arc::new(Shared::default());
+    (Unparker(sender, Arc::new(Handle(shared.clone()))), Parker(shared))
 }
 
 impl<S> Unparker<S> {
@@ -49,12 +63,7 @@ impl<S> Unparker<S> {
     ///
     /// This generally doesn't need to be called manually unless `S` is not a sender.
     pub fn unpark(&self) {
-        let ptr = self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel);
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
-        }
+        self.1 .0.set(State::Unparked);
     }
 }
 
@@ -78,29 +87,12 @@ impl Parker {
     /// Block this thread until either all [`Unparker`]s are dropped or
     /// until one of them unparks this thread.
     pub fn park(&self) {
-        let Some(strong) = self.0.upgrade() else {
-            return;
-        };
-        let mut th = std::thread::current();
-        if strong
-            .compare_exchange(
-                std::ptr::null_mut(),
-                &mut th as *mut Thread,
-                Ordering::AcqRel,
-                Ordering::Acquire,
-            )
-            .is_ok()
-        {
-            if Arc::into_inner(strong).is_none() {
-                std::thread::park();
-            } else {
-                // No unparkers left!
-                return;
-            }
+        let mut state = self.0.lock();
+        while *state == State::Idle {
+            state = self.0.cond.wait(state).unwrap_or_else(PoisonError::into_inner);
+        }
+        if *state == State::Unparked {
+            *state = State::Idle;
         }
-        let Some(strong) = self.0.upgrade() else {
-            return;
-        };
-        strong.store(std::ptr::null_mut(), Ordering::Release);
     }
 }
-- 
2.43.0


From 574f1c7d91553a4d49e0385452e2f02960392eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 22/31] fix: clear the read timeout of an earlier read

A read without a time limit kept the timeout set on the connection for an
earlier, limited read.
---
 src/client/conn/time.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 5bc6e37..fc971ec 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -163,6 +163,9 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
                     "collective read time limit elapsed",
                 ));
             }
+        } else {
+            // The connection may still have the timeout of an earlier read.
+            self.conn.set_read_timeout(None)?;
         }
         Ok(())
     }
-- 
2.43.0


From fdb1955f1785b3449090b3bfe391d57c7ece3081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:38 +0000
Subject: [PATCH 23/31] fix: let the async write time limit elapse

Each poll of a pending write made a new timer and dropped it again, so
the limit never took effect.
---
 src/client/conn/time.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index fc971ec..75da56a 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -211,21 +211,25 @@ impl<'a, C: super::Connection> std::io::BufRead for TimeLimitedSync<'a, C> {
 pub(super) struct TimeLimitedTokio<'a, C> {
     conn: &'a mut C,
     write: Option<Duration>,
+    /// The timer of the write in progress, if any.
+    sleep: Option<std::pin::Pin<Box<tokio::time::Sleep>>>,
 }
 
 #[cfg(feature = "tokio")]
 impl<'a, C: super::ConnectionTokio> TimeLimitedTokio<'a, C> {
     pub fn new(conn: &'a mut C, timeouts: &TimeLimits) -> Self {
-        TimeLimitedTokio { conn, write: timeouts.write }
+        TimeLimitedTokio { conn, write: timeouts.write, sleep: None }
     }
     fn poll_write_timeout(
-        self: std::pin::Pin<&mut Self>,
+        mut self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<std::io::Error> {
         if let Some(timeout) = self.write {
             use std::future::Future;
-            let sleeper = std::pin::pin!(tokio::time::sleep(timeout));
-            if sleeper.poll(cx).is_ready() {
+            let sleep =
+                self.sleep.get_or_insert_with(|| Box::pin(tokio::time::sleep(timeout)));
+            if sleep.as_mut().poll(cx).is_ready() {
+                self.sleep = None;
                 return std::task::Poll::Ready(std::io::Error::new(
                     std::io::ErrorKind::TimedOut,
                     "async write time limit elapsed",
@@ -270,6 +274,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<usize, std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_write(cx, buf) {
+            self.sleep = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
@@ -281,6 +286,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<(), std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_flush(cx) {
+            self.sleep = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
-- 
2.43.0


From eceffa431a74e24f061a19f0fed74d6c23aa1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:19 +0000
Subject: [PATCH 24/31] fix: only answer CTCP queries sent as PRIVMSG

---
 src/client/handlers/autoreply.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/handlers/autoreply.rs b/src/client/handlers/autoreply.rs
index 71fc218..194b3c1 100644
--- a/src/client/handlers/autoreply.rs
+++ b/src/client/handlers/autoreply.rs
@@ -42,6 +42,9 @@ impl Handler for CtcpVersion {
         _: crate::client::channel::SenderRef<'_, Self::Value>,
     ) -> std::ops::ControlFlow<()> {
         // TODO: Should probably consider length limits.
+        if msg.kind != PRIVMSG {
+            return std::ops::ControlFlow::Continue(());
+        }
         let Ok(msg) = msg.parse_as(PRIVMSG) else {
             return std::ops::ControlFlow::Continue(());
         };
-- 
2.43.0


From 2ededda9c5bc8d7bb4faa9ef9aa4fed7dec08fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:23 +0000
Subject: [PATCH 25/31] fix: verify TLS 1.3 signatures as TLS 1.3 signatures

---
 src/client/tls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/tls.rs b/src/client/tls.rs
index d39e719..fe7e1f5 100644
--- a/src/client/tls.rs
+++ b/src/client/tls.rs
@@ -73,7 +73,7 @@ impl rustls::client::danger::ServerCertVerifier for NoVerifier {
         cert: &CertificateDer<'_>,
         dss: &rustls::DigitallySignedStruct,
     ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
-        rustls::crypto::verify_tls12_signature(
+        rustls::crypto::verify_tls13_signature(
             message,
             cert,
             dss,
-- 
2.43.0


From 44bf49b0261c3c4d8d328fa576ac0eb70f8009d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:28 +0000
Subject: [PATCH 26/31] fix: hexadecimal nick suffixes are hexadecimal digits

---
 src/client/nick/suffix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 6ed8285..4600178 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -37,15 +37,15 @@ impl SuffixType {
             SuffixType::Base8 => nick.try_push(b'0' + (num & 7)),
             SuffixType::Base10 => nick.try_push(b'0' + num % 10),
             SuffixType::Base16(uc) => nick.try_push(match num & 15 {
-                num if *uc && num > 9 => b'A' + num,
-                num if !uc && num > 9 => b'a' + num,
+                num if *uc && num > 9 => b'A' + (num - 10),
+                num if !uc && num > 9 => b'a' + (num - 10),
                 num => b'0' + num,
             }),
             SuffixType::NonZeroBase8 => nick.try_push(b'1' + (num % 7)),
             SuffixType::NonZeroBase10 => nick.try_push(b'1' + num % 9),
             SuffixType::NonZeroBase16(uc) => nick.try_push(match num % 15 {
-                num if *uc && num > 8 => b'A' + num,
-                num if !uc && num > 8 => b'a' + num,
+                num if *uc && num > 8 => b'A' + (num - 9),
+                num if !uc && num > 8 => b'a' + (num - 9),
                 num => b'1' + num,
             }),
             SuffixType::Choice(opts) if !opts.is_empty() => {
-- 
2.43.0


From cb472de897067bec6f6543ce4f13930bc6d72b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:34 +0000
Subject: [PATCH 27/31] fix: do not underflow the nick limit when no suffix
 varies

---
 src/client/nick/suffix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 4600178..284c614 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -200,7 +200,7 @@ impl NickGen for SuffixGen {
     fn next_nick(mut self: Box<Self>) -> (Nick<'static>, Option<Box<dyn NickGen>>) {
         let (nick, state) = self.calc_next();
         self.state = state;
-        self.limit -= 1;
+        self.limit = self.limit.saturating_sub(1);
         let not_done = self.limit != 0;
         (nick, not_done.then_some(self))
     }
-- 
2.43.0


From 9e4a6c6e876d90fa635cf024c8301fd8803cfc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:39 +0000
Subject: [PATCH 28/31] fix: forget the assumed source length on reset

---
 src/client/logic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/logic.rs b/src/client/logic.rs
index dd64cc2..c0e65cb 100644
--- a/src/client/logic.rs
+++ b/src/client/logic.rs
@@ -222,6 +222,7 @@ impl ClientState {
     /// Clears all state.
     pub(super) fn clear(&mut self) {
         self.state.clear();
+        self.source_len = DEFAULT_SOURCE_LEN;
     }
     /// Returns the length that clients should assume for the length of their `source` fields.
     pub fn source_len(&self) -> NonZeroUsize {
-- 
2.43.0


From 9c5210b045dacd4efe6a09a85629a2f093f2725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:14 +0000
Subject: [PATCH 29/31] fix: apply the write timeout before the first flush

---
 src/client/conn/sync.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index 7cff4ac..3a285f7 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -345,6 +345,8 @@ impl<C: Connection, S> crate::client::Client<C, S> {
         if self.logic.queue.is_empty() {
             return Ok(None);
         }
+        let (mut conn, _) =
+            TimeLimitedSync::new(&mut self.conn.conn, &mut self.logic.timeout, None)?;
         let mut timeout = None;
         while let Some(popped) = self.logic.queue.pop(|new_timeout| timeout = new_timeout) {
             #[cfg(feature = "tracing")]
@@ -352,10 +354,10 @@ impl<C: Connection, S> crate::client::Client<C, S> {
             let _ = ClientCodec::write_to(&popped, &mut self.conn.buf_o);
             self.conn.buf_o.extend_from_slice(b"\r\n");
         }
-        let result = self.conn.conn.as_write().write_all(&self.conn.buf_o);
+        let result = conn.write_all(&self.conn.buf_o);
         self.conn.buf_o.clear();
         result?;
-        self.conn.conn.as_write().flush()?;
+        conn.flush()?;
         Ok(timeout)
     }
 }
-- 
2.43.0


From cda5a526e88714f2b1ceff69a5f24473cbb7c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 30/31] fix: read byte strings back in the forms they are
 serialized in

---
 src/string/serde.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/string/serde.rs b/src/string/serde.rs
index 786b822..34629d0 100644
--- a/src/string/serde.rs
+++ b/src/string/serde.rs
@@ -21,7 +21,13 @@ impl<'a, 'de> serde::Deserialize<'de> for Bytes<'a> {
     where
         D: serde::Deserializer<'de>,
     {
-        de.deserialize_string(Visitor::<'a>(std::marker::PhantomData))
+        let visitor = Visitor::<'a>(std::marker::PhantomData);
+        // Both `serialize_str` and `serialize_bytes` may have been used.
+        if de.is_human_readable() {
+            de.deserialize_any(visitor)
+        } else {
+            de.deserialize_byte_buf(visitor)
+        }
     }
 }
 
@@ -71,6 +77,18 @@ impl<'a, 'de> serde::de::Visitor<'de> for Visitor<'a> {
         Ok(v.into())
     }
 
+    // Human-readable formats often represent byte strings as sequences of integers.
+    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+    where
+        A: serde::de::SeqAccess<'de>,
+    {
+        let mut bytes = Vec::new();
+        while let Some(byte) = seq.next_element::<u8>()? {
+            bytes.push(byte);
+        }
+        Ok(bytes.into())
+    }
+
     fn visit_unit<E>(self) -> Result<Self::Value, E>
     where
         E: serde::de::Error,
-- 
2.43.0


From 865a594095c4fb735887256f92c597ccdf0272b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 31/31] fix: do not let SecretBuf's capacity computation wrap
 around

In builds without overflow checks, pushing onto a full buffer with an
`extra` of usize::MAX reserved nothing and then wrote past the end.
---
 src/string/secretbuf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index a1fb7b9..47f4185 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -35,7 +35,8 @@ impl SecretBuf {
     pub fn reserve(&mut self, len: usize) {
         if self.data.write_capacity(self.len) < len {
             let mut resized = std::mem::ManuallyDrop::new(unsafe {
-                let mut vec = Vec::with_capacity(self.len + len);
+                // Saturate so that an unreasonable `len` panics here instead of wrapping around.
+                let mut vec = Vec::with_capacity(self.len.saturating_add(len));
                 vec.extend_from_slice(self.data.as_slice(self.len));
                 OwnedSlice::from_vec(vec).0
             });
@@ -49,7 +50,7 @@ impl SecretBuf {
     /// If this buffer needs to reallocate, allocates `extra` additional bytes.
     pub fn push(&mut self, byte: u8, extra: usize) {
         if self.len == self.data.capacity() {
-            self.reserve(1 + extra);
+            self.reserve(extra.saturating_add(1));
         }
         let wref = unsafe { self.data.as_write_slice(self.len).first_mut().unwrap_unchecked() };
         *wref = byte;
-- 
2.43.0

