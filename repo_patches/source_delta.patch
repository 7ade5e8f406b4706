From 396405d9ab7880c16f8874859a27721296265d1a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 1/8] fix: keep shape and data consistent when resize panics

---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d4ce65..8d9ae0e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,8 +491,18 @@ impl<T> Matrix<T> {
     {
         let shape = shape.into().try_to_axis_shape(self.order)?;
         let size = Self::check_size(shape.size())?;
-        self.shape = shape;
-        self.data.resize_with(size, T::default);
+        // Both `T::default` and `T::drop` may panic. Never let the shape
+        // and the length of the data disagree while they are running.
+        if size > self.data.len() {
+            let count = size - self.data.len();
+            let mut extra = Vec::with_capacity(count);
+            extra.resize_with(count, T::default);
+            self.data.append(&mut extra);
+            self.shape = shape;
+        } else {
+            self.shape = shape;
+            self.data.truncate(size);
+        }
         Ok(self)
     }
 
-- 
2.43.0


From cfba41c45a82e807ec797ddc048515137a27cde9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 2/8] fix: make swapping a row or column with itself a no-op

---
 src/swap.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/swap.rs b/src/swap.rs
index 8ff529e..e9c880e 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -97,6 +97,10 @@ impl<T> Matrix<T> {
         if m >= self.major() || n >= self.major() {
             return Err(Error::IndexOutOfBounds);
         }
+        // `ptr::swap_nonoverlapping` requires disjoint regions
+        if m == n {
+            return Ok(self);
+        }
         let base = self.data.as_mut_ptr();
         let index = m * self.major_stride();
         let jndex = n * self.major_stride();
-- 
2.43.0


From 0fdea55f1955b134f4c6217d2bf70b0960e9dad5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 3/8] fix: avoid address overflow in mutable row/column
 iterators over zero-sized elements

---
 src/iter/iter_mut.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 1c3bf0f..627dbc0 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -124,7 +124,13 @@ impl<'a, T> IterVectorsMut<'a, T> {
         vector_stride: NonZero<usize>,
         vector_length: NonZero<usize>,
     ) -> Self {
-        let lower = buffer;
+        let lower = if size_of::<T>() == 0 {
+            // The addresses only serve as counters here. Start from the
+            // lowest one so that they never overflow.
+            NonNull::without_provenance(NonZero::<usize>::MIN)
+        } else {
+            buffer
+        };
         let offset = axis_stride.get() * (axis_length.get() - 1);
         let upper = if size_of::<T>() == 0 {
             let addr = lower.addr().get() + offset;
-- 
2.43.0


From 165c88d5213be21dcde52530d2e8ed7eadd50122 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 4/8] fix: yield the empty vectors of an empty matrix from
 iter_rows_mut and iter_cols_mut

---
 src/iter/iter_mut.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 627dbc0..731017d 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -16,11 +16,16 @@ use std::ptr::{NonNull, without_provenance_mut};
 /// can be stored in either `lower`, `upper`, or `layout` as an
 /// `Option` discriminant to avoid spatial overhead. Here `layout`
 /// is chosen for simplicity.
+///
+/// A matrix without elements may still have vectors, all of which
+/// are empty. They are merely counted by `empty_vectors`, which is
+/// zero whenever `layout` is (or used to be) present.
 #[derive(Debug)]
 pub(crate) struct IterVectorsMut<'a, T> {
     lower: NonNull<T>,
     upper: NonNull<T>,
     layout: Option<Layout>,
+    empty_vectors: usize,
     marker: PhantomData<&'a mut T>,
 }
 
@@ -37,7 +42,7 @@ unsafe impl<T: Sync> Sync for IterVectorsMut<'_, T> {}
 impl<'a, T> IterVectorsMut<'a, T> {
     pub(crate) fn over_major_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::empty(matrix.major());
         }
 
         unsafe {
@@ -59,7 +64,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
 
     pub(crate) fn over_minor_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::empty(matrix.minor());
         }
 
         unsafe {
@@ -83,11 +88,12 @@ impl<'a, T> IterVectorsMut<'a, T> {
     ///
     /// This returns a detached iterator whose lifetime is not bound to
     /// any matrix. However, it is safe.
-    fn empty() -> Self {
+    fn empty(axis_length: usize) -> Self {
         Self {
             lower: NonNull::dangling(),
             upper: NonNull::dangling(),
             layout: None,
+            empty_vectors: axis_length,
             marker: PhantomData,
         }
     }
@@ -149,16 +155,26 @@ impl<'a, T> IterVectorsMut<'a, T> {
             lower,
             upper,
             layout,
+            empty_vectors: 0,
             marker: PhantomData,
         }
     }
 }
 
+impl<'a, T> IterVectorsMut<'a, T> {
+    fn next_empty(&mut self) -> Option<IterNthVectorMut<'a, T>> {
+        self.empty_vectors = self.empty_vectors.checked_sub(1)?;
+        Some(IterNthVectorMut::empty())
+    }
+}
+
 impl<'a, T> Iterator for IterVectorsMut<'a, T> {
     type Item = IterNthVectorMut<'a, T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let layout = self.layout?;
+        let Some(layout) = self.layout else {
+            return self.next_empty();
+        };
 
         let result = unsafe {
             IterNthVectorMut::assemble(self.lower, layout.vector_stride, layout.vector_length)
@@ -182,7 +198,7 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let len = match self.layout {
-            None => 0,
+            None => self.empty_vectors,
             Some(strides) => {
                 let stride = strides.axis_stride.get();
                 let elem_size = size_of::<T>();
@@ -202,7 +218,9 @@ impl<T> ExactSizeIterator for IterVectorsMut<'_, T> {
 
 impl<T> DoubleEndedIterator for IterVectorsMut<'_, T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let layout = self.layout?;
+        let Some(layout) = self.layout else {
+            return self.next_empty();
+        };
 
         let result = unsafe {
             IterNthVectorMut::assemble(self.upper, layout.vector_stride, layout.vector_length)
-- 
2.43.0


From 305fca08e8e7a139a27a6d70b68fbd565a758930 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 5/8] fix: format elements whose rendering is longer than
 u16::MAX characters

---
 src/fmt.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index be14246..f3789d6 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -72,7 +72,7 @@ where
             }
             write_index!(f, "{col:>index_width$}")?;
             write!(f, "{SPACE:INNER_GAP$}")?;
-            write!(f, "{SPACE:element_width$}")?;
+            write_padded(f, SPACE, element_width)?;
         }
         writeln!(f)?;
 
@@ -92,8 +92,8 @@ where
                 write_index!(f, "{index:>index_width$}")?;
                 write!(f, "{SPACE:INNER_GAP$}")?;
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -112,8 +112,8 @@ where
                     write!(f, "{SPACE:index_width$}")?;
                     write!(f, "{SPACE:INNER_GAP$}")?;
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -164,8 +164,8 @@ where
                 }
                 let index = Index::new(row, col).to_flattened(self.order, self.shape);
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -180,8 +180,8 @@ where
                     }
                     let index = Index::new(row, col).to_flattened(self.order, self.shape);
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -192,6 +192,18 @@ where
     }
 }
 
+/// Writes `text` left-aligned in a field of `width` characters.
+///
+/// Unlike the width of a formatting argument, `width` is not limited
+/// to [`u16::MAX`].
+fn write_padded(f: &mut fmt::Formatter<'_>, text: &str, width: usize) -> fmt::Result {
+    f.write_str(text)?;
+    for _ in text.chars().count()..width {
+        f.write_str(SPACE)?;
+    }
+    Ok(())
+}
+
 struct Lines(VecDeque<String>);
 
 impl Lines {
-- 
2.43.0


From 20fa357e799ba399fe427a1e6123941816d80c95 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 6/8] fix: reject ragged rows before allocating for them

---
 src/convert.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 0758e3d..3a7d20b 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -152,11 +152,11 @@ impl<T, const C: usize> TryFrom<[Vec<T>; C]> for Matrix<T> {
         let ncols = value.first().map_or(0, |row| row.len());
         let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
         let size = Self::check_size(shape.size())?;
+        if value.iter().any(|row| row.len() != ncols) {
+            return Err(Error::LengthInconsistent);
+        }
         let mut data = Vec::with_capacity(size);
         for row in value {
-            if row.len() != ncols {
-                return Err(Error::LengthInconsistent);
-            }
             data.extend(row);
         }
         Ok(Self { order, shape, data })
@@ -194,11 +194,11 @@ impl<T> TryFrom<Vec<Vec<T>>> for Matrix<T> {
         let ncols = value.first().map_or(0, |row| row.len());
         let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
         let size = Self::check_size(shape.size())?;
+        if value.iter().any(|row| row.len() != ncols) {
+            return Err(Error::LengthInconsistent);
+        }
         let mut data = Vec::with_capacity(size);
         for row in value {
-            if row.len() != ncols {
-                return Err(Error::LengthInconsistent);
-            }
             data.extend(row);
         }
         Ok(Self { order, shape, data })
@@ -236,11 +236,11 @@ impl<T: Clone> TryFrom<&[Vec<T>]> for Matrix<T> {
         let ncols = value.first().map_or(0, |row| row.len());
         let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
         let size = Self::check_size(shape.size())?;
+        if value.iter().any(|row| row.len() != ncols) {
+            return Err(Error::LengthInconsistent);
+        }
         let mut data = Vec::with_capacity(size);
         for row in value {
-            if row.len() != ncols {
-                return Err(Error::LengthInconsistent);
-            }
             data.extend_from_slice(row);
         }
         Ok(Self { order, shape, data })
-- 
2.43.0


From 04d805a70d3e396715211eedc03d5048c8892ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 7/8] fix: avoid index overflow when swapping vectors of
 zero-sized elements

---
 src/swap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/swap.rs b/src/swap.rs
index e9c880e..571b8d1 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -126,8 +126,9 @@ impl<T> Matrix<T> {
                 let y = base.add(jndex);
                 ptr::swap(x, y);
             }
-            index += self.major_stride();
-            jndex += self.major_stride();
+            // the step past the last pair may exceed `usize::MAX` if `T` is zero-sized
+            index = index.wrapping_add(self.major_stride());
+            jndex = jndex.wrapping_add(self.major_stride());
         }
         Ok(self)
     }
-- 
2.43.0


From ebc7fc232d0d8ac6671d0301f961a81d73fdc42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:53 +0000
Subject: [PATCH 8/8] fix: report ragged rows as LengthInconsistent before
 sizing the matrix

---
 src/convert.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 3a7d20b..9584862 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -150,11 +150,11 @@ impl<T, const C: usize> TryFrom<[Vec<T>; C]> for Matrix<T> {
         let order = Order::RowMajor;
         let nrows = C;
         let ncols = value.first().map_or(0, |row| row.len());
-        let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
-        let size = Self::check_size(shape.size())?;
         if value.iter().any(|row| row.len() != ncols) {
             return Err(Error::LengthInconsistent);
         }
+        let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
+        let size = Self::check_size(shape.size())?;
         let mut data = Vec::with_capacity(size);
         for row in value {
             data.extend(row);
@@ -192,11 +192,11 @@ impl<T> TryFrom<Vec<Vec<T>>> for Matrix<T> {
         let order = Order::RowMajor;
         let nrows = value.len();
         let ncols = value.first().map_or(0, |row| row.len());
-        let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
-        let size = Self::check_size(shape.size())?;
         if value.iter().any(|row| row.len() != ncols) {
             return Err(Error::LengthInconsistent);
         }
+        let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
+        let size = Self::check_size(shape.size())?;
         let mut data = Vec::with_capacity(size);
         for row in value {
             data.extend(row);
@@ -234,11 +234,11 @@ impl<T: Clone> TryFrom<&[Vec<T>]> for Matrix<T> {
         let order = Order::RowMajor;
         let nrows = value.len();
         let ncols = value.first().map_or(0, |row| row.len());
-        let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
-        let size = Self::check_size(shape.size())?;
         if value.iter().any(|row| row.len() != ncols) {
             return Err(Error::LengthInconsistent);
         }
+        let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
+        let size = Self::check_size(shape.size())?;
         let mut data = Vec::with_capacity(size);
         for row in value {
             data.extend_from_slice(row);
-- 
2.43.0

