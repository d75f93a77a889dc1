From 0873f194c26e564d41a8f7e99de6dccd1e7eab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 1/3] fix: reject += and -= of dynamic vectors and matrices of
 different shapes

As for + and -, operands must have the same shape. Before, a larger right
hand side was silently cut off, a smaller one panicked after part of the
left operand had been updated, and a DMatrix with fewer columns was read
across its rows.
---
 src/linalg/dmatrix.rs | 4 ++++
 src/linalg/dvector.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index ac88116..c4b5780 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -713,6 +713,8 @@ where
     Rhs: MatrixExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
@@ -756,6 +758,8 @@ where
     Rhs: MatrixExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index b597c57..f580816 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -597,6 +597,7 @@ where
     Rhs: VectorExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] += rhs.entry(index);
         }
@@ -635,6 +636,7 @@ where
     Rhs: VectorExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] -= rhs.entry(index);
         }
-- 
2.43.0


From 44fae10d696abd11e3cddb90e687cee100ead8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 2/3] fix: reject the dot product of dynamic vectors of
 different lengths

Before, the longer vector was silently truncated.
---
 src/linalg/dvector.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index f580816..cc10641 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -676,6 +676,7 @@ where
     type Output = T;
 
     fn mul(self, rhs: Self) -> T {
+        assert_eq!(self.0.len(), rhs.0.len());
         self.0
             .iter()
             .zip(rhs.0.iter())
-- 
2.43.0


From 8df881aeae3f5b32a7b8581d1ee658c5c5a13339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 3/3] fix: bounds check both indices of DMatrix entries

Before, a column index beyond the number of columns read or overwrote an
entry of a following row instead of panicking.
---
 src/linalg/dmatrix.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index c4b5780..8f1f257 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -520,6 +520,19 @@ pub struct DMatrix<T> {
     num_cols: usize,
 }
 
+impl<T> DMatrix<T> {
+    /// Returns the position of an entry in `data`.
+    ///
+    /// Panics, if the row or the column is out of bounds.
+    fn offset(&self, row: usize, col: usize) -> usize {
+        assert!(
+            row < self.num_rows && col < self.num_cols,
+            "matrix index out of bounds"
+        );
+        row * self.num_cols + col
+    }
+}
+
 impl<T> MatrixExpr for DMatrix<T>
 where
     T: Clone,
@@ -527,7 +540,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        self.data[row * self.num_cols + col].clone()
+        self.data[self.offset(row, col)].clone()
     }
 
     fn num_rows(&self) -> usize {
@@ -550,7 +563,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        self.data[row * self.num_cols + col].clone()
+        self.data[self.offset(row, col)].clone()
     }
 
     fn num_rows(&self) -> usize {
@@ -653,7 +666,7 @@ impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
-        &self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
+        &self.data[self.offset(row_and_col[0], row_and_col[1])]
     }
 }
 
@@ -668,7 +681,8 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
-        &mut self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
+        let offset = self.offset(row_and_col[0], row_and_col[1]);
+        &mut self.data[offset]
     }
 }
 
-- 
2.43.0

