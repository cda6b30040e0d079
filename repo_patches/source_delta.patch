From 878fa065cdd2a9c337e88b3148bc435705d565ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:01 +0000
Subject: [PATCH 1/5] fix: keep the matrix coherent when T::default panics in
 resize

resize assigned the new shape before the new elements existed, so a panic
in T::default left a shape larger than the element store and later checked
accesses read out of bounds.
---
 src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d4ce65..1589a88 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,8 +491,19 @@ impl<T> Matrix<T> {
     {
         let shape = shape.into().try_to_axis_shape(self.order)?;
         let size = Self::check_size(shape.size())?;
-        self.shape = shape;
-        self.data.resize_with(size, T::default);
+        let len = self.data.len();
+        if size <= len {
+            self.shape = shape;
+            self.data.truncate(size);
+        } else {
+            // `T::default` could panic, so `self` must stay untouched
+            // until all new elements are ready
+            let additional = size - len;
+            let mut tail = Vec::with_capacity(additional);
+            tail.resize_with(additional, T::default);
+            self.data.append(&mut tail);
+            self.shape = shape;
+        }
         Ok(self)
     }
 
-- 
2.43.0


From b31c408b5c707f6052cb78b5723db0a7149bdd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 2/5] fix: make swapping a row or column with itself a no-op

swap_rows(m, m) on a row-major matrix (swap_cols on a column-major one)
passed identical ranges to ptr::swap_nonoverlapping, which is undefined
behaviour and aborts under debug precondition checks.
---
 src/swap.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/swap.rs b/src/swap.rs
index 8ff529e..c982fd9 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -97,6 +97,9 @@ impl<T> Matrix<T> {
         if m >= self.major() || n >= self.major() {
             return Err(Error::IndexOutOfBounds);
         }
+        if m == n {
+            return Ok(self);
+        }
         let base = self.data.as_mut_ptr();
         let index = m * self.major_stride();
         let jndex = n * self.major_stride();
-- 
2.43.0


From 61736aeb2c9086d708c198d934850f422383f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:27 +0000
Subject: [PATCH 3/5] fix: do not panic when formatting elements wider than
 u16::MAX

Runtime width arguments of format strings panic above u16::MAX, so Display
and Debug panicked on any matrix with such a wide element.
---
 src/fmt.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index be14246..382483f 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -72,7 +72,7 @@ where
             }
             write_index!(f, "{col:>index_width$}")?;
             write!(f, "{SPACE:INNER_GAP$}")?;
-            write!(f, "{SPACE:element_width$}")?;
+            write_padded(f, SPACE, element_width)?;
         }
         writeln!(f)?;
 
@@ -92,8 +92,8 @@ where
                 write_index!(f, "{index:>index_width$}")?;
                 write!(f, "{SPACE:INNER_GAP$}")?;
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -112,8 +112,8 @@ where
                     write!(f, "{SPACE:index_width$}")?;
                     write!(f, "{SPACE:INNER_GAP$}")?;
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -164,8 +164,8 @@ where
                 }
                 let index = Index::new(row, col).to_flattened(self.order, self.shape);
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -180,8 +180,8 @@ where
                     }
                     let index = Index::new(row, col).to_flattened(self.order, self.shape);
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -192,6 +192,18 @@ where
     }
 }
 
+/// Writes `text` followed by enough spaces to fill `width` characters.
+///
+/// This is used in place of a runtime width argument, which panics if
+/// it exceeds [`u16::MAX`].
+fn write_padded(f: &mut fmt::Formatter<'_>, text: &str, width: usize) -> fmt::Result {
+    f.write_str(text)?;
+    for _ in text.chars().count()..width {
+        f.write_str(SPACE)?;
+    }
+    Ok(())
+}
+
 struct Lines(VecDeque<String>);
 
 impl Lines {
-- 
2.43.0


From 961cd693d518d607405d5bd33f17f86ca253f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 4/5] fix: do not overflow counting vectors of zero-sized
 elements

IterVectorsMut counts zero-sized elements with addresses starting at the
dangling pointer of the buffer, which equals the alignment of T. With
alignment 8 and close to usize::MAX elements the sum overflowed.
---
 src/iter/iter_mut.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 1c3bf0f..48230f3 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -124,7 +124,14 @@ impl<'a, T> IterVectorsMut<'a, T> {
         vector_stride: NonZero<usize>,
         vector_length: NonZero<usize>,
     ) -> Self {
-        let lower = buffer;
+        let lower = if size_of::<T>() == 0 {
+            // for zero-sized types, addresses only serve as counters and
+            // must start from `1` regardless of alignment, or they could
+            // overflow
+            NonNull::<u8>::dangling().cast()
+        } else {
+            buffer
+        };
         let offset = axis_stride.get() * (axis_length.get() - 1);
         let upper = if size_of::<T>() == 0 {
             let addr = lower.addr().get() + offset;
-- 
2.43.0


From 34e4a9a956b04cdeacdccb83eba882164bbc6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 5/5] fix: yield empty vectors from iter_rows_mut/iter_cols_mut
 of degenerate matrices

---
 src/iter/iter_mut.rs | 69 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 13 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 48230f3..fa73b45 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -28,7 +28,20 @@ pub(crate) struct IterVectorsMut<'a, T> {
 struct Layout {
     axis_stride: NonZero<usize>,
     vector_stride: NonZero<usize>,
-    vector_length: NonZero<usize>,
+    /// `None` if the vectors are empty. In this case, `lower` and `upper`
+    /// only serve as counters.
+    vector_length: Option<NonZero<usize>>,
+}
+
+impl Layout {
+    /// Size of the unit in which `lower` and `upper` are offset, or `0`
+    /// if they only serve as counters.
+    fn elem_size<T>(&self) -> usize {
+        match self.vector_length {
+            None => 0,
+            Some(_) => size_of::<T>(),
+        }
+    }
 }
 
 unsafe impl<T: Send> Send for IterVectorsMut<'_, T> {}
@@ -37,7 +50,7 @@ unsafe impl<T: Sync> Sync for IterVectorsMut<'_, T> {}
 impl<'a, T> IterVectorsMut<'a, T> {
     pub(crate) fn over_major_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.major());
         }
 
         unsafe {
@@ -59,7 +72,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
 
     pub(crate) fn over_minor_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.minor());
         }
 
         unsafe {
@@ -92,6 +105,30 @@ impl<'a, T> IterVectorsMut<'a, T> {
         }
     }
 
+    /// Iterates over `axis_length` vectors without elements, as in a matrix
+    /// with exactly one axis of length zero.
+    ///
+    /// # Safety
+    ///
+    /// This returns a detached iterator whose lifetime is not bound to
+    /// any matrix. However, it is safe.
+    fn over_empty_vectors(axis_length: usize) -> Self {
+        let Some(axis_length) = NonZero::new(axis_length) else {
+            return Self::empty();
+        };
+
+        Self {
+            lower: NonNull::without_provenance(NonZero::<usize>::MIN),
+            upper: NonNull::without_provenance(axis_length),
+            layout: Some(Layout {
+                axis_stride: NonZero::<usize>::MIN,
+                vector_stride: NonZero::<usize>::MIN,
+                vector_length: None,
+            }),
+            marker: PhantomData,
+        }
+    }
+
     /// This is a helper function that abstracts some repetitive code,
     /// while exposing certain `unsafe` operations that were perviously
     /// well-encapsulated.
@@ -143,7 +180,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
         let layout = Some(Layout {
             axis_stride,
             vector_stride,
-            vector_length,
+            vector_length: Some(vector_length),
         });
 
         Self {
@@ -161,15 +198,18 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
     fn next(&mut self) -> Option<Self::Item> {
         let layout = self.layout?;
 
-        let result = unsafe {
-            IterNthVectorMut::assemble(self.lower, layout.vector_stride, layout.vector_length)
+        let result = match layout.vector_length {
+            None => IterNthVectorMut::empty(),
+            Some(vector_length) => unsafe {
+                IterNthVectorMut::assemble(self.lower, layout.vector_stride, vector_length)
+            },
         };
 
         if self.lower == self.upper {
             self.layout = None;
         } else {
             let stride = layout.axis_stride.get();
-            self.lower = if size_of::<T>() == 0 {
+            self.lower = if layout.elem_size::<T>() == 0 {
                 let addr = self.lower.addr().get() + stride;
                 let ptr = without_provenance_mut(addr);
                 unsafe { NonNull::new_unchecked(ptr) }
@@ -184,9 +224,9 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         let len = match self.layout {
             None => 0,
-            Some(strides) => {
-                let stride = strides.axis_stride.get();
-                let elem_size = size_of::<T>();
+            Some(layout) => {
+                let stride = layout.axis_stride.get();
+                let elem_size = layout.elem_size::<T>();
                 1 + (self.upper.addr().get() - self.lower.addr().get())
                     / (stride * if elem_size == 0 { 1 } else { elem_size })
             }
@@ -205,15 +245,18 @@ impl<T> DoubleEndedIterator for IterVectorsMut<'_, T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let layout = self.layout?;
 
-        let result = unsafe {
-            IterNthVectorMut::assemble(self.upper, layout.vector_stride, layout.vector_length)
+        let result = match layout.vector_length {
+            None => IterNthVectorMut::empty(),
+            Some(vector_length) => unsafe {
+                IterNthVectorMut::assemble(self.upper, layout.vector_stride, vector_length)
+            },
         };
 
         if self.lower == self.upper {
             self.layout = None;
         } else {
             let stride = layout.axis_stride.get();
-            self.upper = if size_of::<T>() == 0 {
+            self.upper = if layout.elem_size::<T>() == 0 {
                 let addr = self.upper.addr().get() - stride;
                 let ptr = without_provenance_mut(addr);
                 unsafe { NonNull::new_unchecked(ptr) }
-- 
2.43.0

