From c8641651fc837a0adb3dfd64966f846e925a4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:20 +0000
Subject: [PATCH 01/52] fix: guard eigen.hpp against repeated inclusion

---
 include/malg/eigen.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 9ab168e..098e314 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -9,6 +9,8 @@
 ///     https://www.math.kth.se/na/SF2524/matber15/qrmethod.pdf
 ///     https://www.ams.org/journals/mcom/2002-71-240/S0025-5718-01-01387-4/S0025-5718-01-01387-4.pdf
 
+#pragma once
+
 #include "malg/utility.hpp"
 #include "malg/linalg.hpp"
 #include "malg/math.hpp"
-- 
2.43.0


From 8db4cb9c17823bda0a9957d6b76c6c847be8daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:22 +0000
Subject: [PATCH 02/52] fix: share one comparison tolerance between translation
 units

---
 include/malg/feq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index 70f25f4..e5b87e0 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -12,7 +12,7 @@
 namespace malg::feq
 {
 
-static inline auto &tolerance()
+inline auto &tolerance()
 {
     static double tol = 1e-06;
     return tol;
-- 
2.43.0


From 7ea32f6baf3acc01cb13b4abb8503e4ee237ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 03/52] fix: base emptiness on the actual dimensions so views
 are not always empty

---
 include/malg/matrix_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/matrix_base.hpp b/include/malg/matrix_base.hpp
index dbbb732..9198668 100644
--- a/include/malg/matrix_base.hpp
+++ b/include/malg/matrix_base.hpp
@@ -76,7 +76,7 @@ public:
     /// @returns false otherwise.
     inline virtual bool empty() const
     {
-        return (_rows == 0) || (_cols == 0);
+        return (this->rows() == 0) || (this->cols() == 0);
     }
 
     /// @brief Returns a pointer to the internal data.
-- 
2.43.0


From f63ce93b9ce52a473e8948e3d0f70abc55b74a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 04/52] fix: linear access of a cofactor view of a rectangular
 matrix

---
 include/malg/view.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 659181e..2d3a1cd 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -336,9 +336,9 @@ public:
     inline T &operator[](std::size_t pos) override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
@@ -348,9 +348,9 @@ public:
     inline const T &operator[](std::size_t pos) const override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
-- 
2.43.0


From 58afebf47bc86655d056a8a942cfd4361e272b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 05/52] fix: element-wise functions store the function results

---
 include/malg/math.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e5a9812..22014d2 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -993,9 +993,11 @@ inline auto element_wise_function(const malg::Vector<T> &a, Function fun)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, decltype(fun(std::declval<T>()))>>;
     // Create the resulting vector.
-    malg::Vector<data_type_t> result(a);
+    malg::Vector<data_type_t> result(a.size());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < a.size(); ++i) {
+        result[i] = fun(a[i]);
+    }
     // Return the vector.
     return result;
 }
@@ -1012,7 +1014,9 @@ inline auto element_wise_function(const malg::MatrixBase<T> &A, Function fun)
     // Create the resulting matrix.
     malg::Matrix<data_type_t> result(A.rows(), A.cols());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < A.size(); ++i) {
+        result[i] = fun(A[i]);
+    }
     // Return the matrix.
     return result;
 }
-- 
2.43.0


From 45a20c8ab8d197afba97057de652de3f2ef31962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 06/52] fix: element_wise_product and linear_combination take
 the right element with its own type

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 22014d2..bfa7c1d 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1187,7 +1187,7 @@ inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_s
 template <typename T1, typename T2>
 auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * rhs; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T2 rhs) { return lhs * rhs; });
 }
 
 /// @brief Computes the linear combination of matrices.
@@ -1199,7 +1199,7 @@ auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<
 template <typename T1, typename T2, typename T3, typename T4>
 auto linear_combination(const malg::MatrixBase<T1> &A, const T2 &a, const malg::MatrixBase<T3> &B, const T4 &b)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * a + rhs * b; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T3 rhs) { return lhs * a + rhs * b; });
 }
 
 /// @brief Sums the element of the vector.
-- 
2.43.0


From 7273850880ee5ae265132f06ddd03ede61729f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 07/52] fix: scalar compound assignments work on and return
 their left operand

---
 include/malg/math.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index bfa7c1d..bdd8c0b 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -717,7 +717,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -793,7 +793,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -869,7 +869,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator*=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -905,7 +905,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator/=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From dafc670707464820bd67d898605e5ee6710ad964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 08/52] fix: size the result of scalar times vector from the
 vector

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index bdd8c0b..d6962d5 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -856,9 +856,9 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output vector.
-    malg::Vector<data_type_t> result(a.size());
+    malg::Vector<data_type_t> result(b.size());
     // Perform the operation.
-    for (std::size_t i = 0; i < a.size(); ++i) {
+    for (std::size_t i = 0; i < b.size(); ++i) {
         result[i] = a * b[i];
     }
     return result;
-- 
2.43.0


From d40fccc34800272186e130982770ecf75867f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 09/52] fix: reject matrix-vector products with a vector of the
 wrong size

---
 include/malg/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index d6962d5..340a98a 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -925,6 +925,10 @@ inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
 template <typename T1, typename T2>
 inline auto operator*(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The number of columns of the matrix must be equal to the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
@@ -970,6 +974,10 @@ inline auto dot(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 template <typename T1, typename T2>
 inline auto dot(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The number of columns of the matrix must be equal to the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
-- 
2.43.0


From 74ccaed0dc9247bb7b5ff48bbf8bf7de2ed14dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 10/52] fix: reject in-place products that would change the
 shape of the left operand

---
 include/malg/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 340a98a..f9ce2c7 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -236,6 +236,9 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
         throw std::invalid_argument("For matrix multiplication, the number of columns in the first"
                                     "matrix must be equal to the number of rows in the second matrix.");
     }
+    if (A.cols() != B.cols()) {
+        throw std::invalid_argument("For in-place matrix multiplication, the second matrix must be square.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output matrix.
-- 
2.43.0


From 171d58a38eefd38698557ccb98b6d22f1fc085c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 11/52] fix: reject element lists that do not match the matrix
 or view shape

---
 include/malg/matrix.hpp | 18 ++++++++++++++++++
 include/malg/view.hpp   |  7 +++++++
 2 files changed, 25 insertions(+)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index f960506..cafcce0 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -66,6 +66,9 @@ public:
         : MatrixBase<T>(rows, cols),
           _data(rows * cols)
     {
+        if (data.size() != (rows * cols)) {
+            throw std::invalid_argument("The number of values is different from the number of elements.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
@@ -82,6 +85,9 @@ public:
         : MatrixBase<T>(rows, cols),
           _data(rows * cols)
     {
+        if (data.size() != (rows * cols)) {
+            throw std::invalid_argument("The number of values is different from the number of elements.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
@@ -104,6 +110,12 @@ public:
         if (data.begin()->size() <= 0) {
             throw std::invalid_argument("The input list has no columns.");
         }
+        // Check that all the rows have the same number of columns.
+        for (const auto &row : data) {
+            if (row.size() != data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different sizes.");
+            }
+        }
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
@@ -377,6 +389,12 @@ public:
         if (data.begin()->size() <= 0) {
             return *this;
         }
+        // Check that all the rows have the same number of columns.
+        for (const auto &row : data) {
+            if (row.size() != data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different sizes.");
+            }
+        }
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 2d3a1cd..11cbe2e 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -154,6 +154,13 @@ public:
             std::cerr << "View: second dimension of initializer list is incompatible (" << this->cols() << " vs " << data.begin()->size() << ").\n";
             return *this;
         }
+        // Check that all the rows have the same number of columns.
+        for (const auto &row : data) {
+            if (row.size() != this->cols()) {
+                std::cerr << "View: the rows of the initializer list have different sizes.\n";
+                return *this;
+            }
+        }
         // Get an interator for the data.
         auto r_it = data.begin();
         decltype(r_it->begin()) c_it;
-- 
2.43.0


From 1d0cf89849d5623211f47908a03d64dab5198c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 12/52] fix: assigning an empty matrix or a view of the
 destination takes its value

---
 include/malg/matrix.hpp | 77 +++++++++++------------------------------
 1 file changed, 21 insertions(+), 56 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index cafcce0..f9f903c 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -185,7 +185,9 @@ public:
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
           _data(std::move(rhs._data))
     {
-        // Nothing to do.
+        // The moved-from matrix is empty.
+        rhs._rows = 0;
+        rhs._cols = 0;
     }
 
     /// @brief Construct a new Matrix object.
@@ -273,17 +275,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -297,19 +297,8 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
-            }
-        }
+        // Copy before releasing the data, rhs might be a view of this matrix.
+        *this = Matrix<T>(rhs);
         return *this;
     }
 
@@ -319,19 +308,8 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
-            }
-        }
+        // Copy before releasing the data, rhs might be a view of this matrix.
+        *this = Matrix<T>(rhs);
         return *this;
     }
 
@@ -341,23 +319,7 @@ public:
     template <typename T2>
     Matrix<T> &operator=(const Matrix<T2> &rhs)
     {
-        if (&rhs != this) {
-            if (!std::is_same_v<T, T2>) {
-                if (rhs.size() > 0) {
-                    // Initialize the new vector of data.
-                    _data = Vector<T>(rhs.rows() * rhs.cols());
-                    // Set the new rows and columns.
-                    this->_rows = rhs.rows();
-                    this->_cols = rhs.cols();
-                    // Copy the content.
-                    for (std::size_t r = 0; r < _rows; ++r) {
-                        for (std::size_t c = 0; c < _cols; ++c) {
-                            this->at(r, c) = rhs(r, c);
-                        }
-                    }
-                }
-            }
-        }
+        *this = Matrix<T>(rhs);
         return *this;
     }
 
@@ -366,12 +328,15 @@ public:
     /// @returns a reference to this matrix.
     auto &operator=(Matrix<T> &&rhs)
     {
-        if ((&rhs != this) && (rhs.size() > 0)) {
+        if (&rhs != this) {
             // Copy the content.
             _data = std::move(rhs._data);
             // Set the new rows and columns.
             this->_rows = rhs.rows();
             this->_cols = rhs.cols();
+            // The moved-from matrix is empty.
+            rhs._rows = 0;
+            rhs._cols = 0;
         }
         return *this;
     }
-- 
2.43.0


From f686f8026b1f169f7d54cc5110a90d382d1dc163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 13/52] fix: converting construction of vectors and matrices
 from temporaries

---
 include/malg/matrix.hpp |  7 +++++--
 include/malg/vector.hpp | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index f9f903c..26eb5f2 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -196,9 +196,12 @@ public:
     template <typename T2>
     explicit Matrix(Matrix<T2> &&rhs)
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
-          _data(std::move(rhs._data))
+          _data(rhs.rows() * rhs.cols())
     {
-        // Nothing to do.
+        // The elements have another type, they need to be converted.
+        for (std::size_t i = 0; i < (_rows * _cols); ++i) {
+            _data[i] = rhs[i];
+        }
     }
 
     /// @brief Destroy the Matrix object.
diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 451769f..39704ee 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -136,10 +136,11 @@ public:
         : _data(),
           _size()
     {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
+        // The elements have another type, they need to be converted.
+        if (this->allocate(other.size())) {
+            for (std::size_t i = 0; i < _size; ++i) {
+                _data[i] = other[i];
+            }
         }
     }
 
@@ -260,10 +261,11 @@ public:
     template <typename T2>
     inline auto &operator=(Vector<T2> &&other)
     {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
+        // The elements have another type, they need to be converted.
+        if (this->allocate(other.size())) {
+            for (std::size_t i = 0; i < _size; ++i) {
+                _data[i] = other[i];
+            }
         }
         return *this;
     }
-- 
2.43.0


From 0a8e7193b9ad583d727fc77fed076b09c0b68fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:51 +0000
Subject: [PATCH 14/52] fix: assigning to a view from an overlapping view
 copies the original values

---
 include/malg/view.hpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 11cbe2e..4d1cef4 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -98,9 +98,11 @@ public:
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
-        for (std::size_t r = 0; r < rhs.rows(); ++r)
-            for (std::size_t c = 0; c < rhs.cols(); ++c)
-                this->at(r, c) = rhs(r, c);
+        // Copy first, the two might overlap.
+        const Matrix<std::remove_const_t<T2>> values(rhs);
+        for (std::size_t r = 0; r < values.rows(); ++r)
+            for (std::size_t c = 0; c < values.cols(); ++c)
+                this->at(r, c) = values(r, c);
         return *this;
     }
 
@@ -111,9 +113,11 @@ public:
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
-        for (std::size_t r = 0; r < rhs.rows(); ++r)
-            for (std::size_t c = 0; c < rhs.cols(); ++c)
-                this->at(r, c) = rhs(r, c);
+        // Copy first, the two might overlap.
+        const Matrix<std::remove_const_t<T>> values(rhs);
+        for (std::size_t r = 0; r < values.rows(); ++r)
+            for (std::size_t c = 0; c < values.cols(); ++c)
+                this->at(r, c) = values(r, c);
         return *this;
     }
 
@@ -125,9 +129,11 @@ public:
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
-        for (std::size_t r = 0; r < rhs.rows(); ++r)
-            for (std::size_t c = 0; c < rhs.cols(); ++c)
-                this->at(r, c) = rhs(r, c);
+        // Copy first, the two might overlap.
+        const Matrix<std::remove_const_t<typename View<T2>::T>> values(rhs);
+        for (std::size_t r = 0; r < values.rows(); ++r)
+            for (std::size_t c = 0; c < values.cols(); ++c)
+                this->at(r, c) = values(r, c);
         return *this;
     }
 
@@ -317,12 +323,22 @@ public:
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
-        for (std::size_t r = 0; r < rhs.rows(); ++r)
-            for (std::size_t c = 0; c < rhs.cols(); ++c)
-                this->at(r, c) = rhs(r, c);
+        // Copy first, the two might overlap.
+        const Matrix<std::remove_const_t<T2>> values(rhs);
+        for (std::size_t r = 0; r < values.rows(); ++r)
+            for (std::size_t c = 0; c < values.cols(); ++c)
+                this->at(r, c) = values(r, c);
         return *this;
     }
 
+    /// @brief Assign operator.
+    /// @param rhs the other view.
+    /// @returns a reference to this matrix.
+    inline auto &operator=(const CofactorView<MatrixType> &rhs)
+    {
+        return *this = static_cast<const MatrixBase<T> &>(rhs);
+    }
+
     /// @brief Returns a pointer to the content.
     /// @returns the pointer.
     inline T *data() override
-- 
2.43.0


From 9d6f21b5e5868a321675148424b5599e61dbe48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 15/52] fix: forbid copying only the dimensions through a base
 reference

---
 include/malg/matrix_base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/malg/matrix_base.hpp b/include/malg/matrix_base.hpp
index 9198668..dddcfaa 100644
--- a/include/malg/matrix_base.hpp
+++ b/include/malg/matrix_base.hpp
@@ -22,6 +22,11 @@ protected:
     /// Columns of the matrix.
     std::size_t _cols;
 
+    /// @brief Only the derived classes know how to copy the elements.
+    MatrixBase(const MatrixBase &) = default;
+    /// @brief Only the derived classes know how to copy the elements.
+    MatrixBase &operator=(const MatrixBase &) = default;
+
 public:
     /// The data types of the element of the matrix.
     using value_type = T;
-- 
2.43.0


From e4aab23e13f122ebdc9d1ec547bf255d528f8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:35 +0000
Subject: [PATCH 16/52] fix: hermitian_transpose returns a complex matrix

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index fb45a9a..cd4c768 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -59,7 +59,7 @@ inline auto powm(const MatrixBase<T> &A, std::size_t N)
 template <typename T>
 inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::complex<std::remove_const_t<T>>> result(A.cols(), A.rows(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
             result(c, r) = std::conj(A(r, c));
-- 
2.43.0


From 3fd3acd3c8484defe9c858e206980a812c1f5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 17/52] fix: element-wise exponential keeps the orientation of
 its input

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index cd4c768..17fbaaa 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -386,10 +386,10 @@ inline auto div(const MatrixBase<T1> &A, const MatrixBase<T2> &B)
 template <typename T>
 inline auto exp(const MatrixBase<T> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::remove_const_t<T>> result(A.rows(), A.cols(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
-            result(c, r) = std::exp(A(r, c));
+            result(r, c) = std::exp(A(r, c));
         }
     }
     return result;
-- 
2.43.0


From cb9965b6b9575c58d172e5e5db5a690cd1aa74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 18/52] fix: determinant of a large singular matrix is zero

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 17fbaaa..a1faafd 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -173,7 +173,7 @@ inline auto determinant(const MatrixBase<CT> &matrix)
             }
             // If we did not find a non-zero value, we have a singular matrix.
             if (k == A.rows()) {
-                break;
+                return static_cast<T>(0.);
             }
             // Swap the rows.
             utility::swap_rows(A, c, k);
-- 
2.43.0


From 926806cbb454b8b04d1840518af564edba588992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 19/52] fix: compare reports a difference in the first element

---
 include/malg/utility.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 64f595a..edf7cb6 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -961,8 +961,8 @@ inline auto find(const Matrix<T> &A, std::size_t n = std::numeric_limits<std::si
 /// @param B the second matrix.
 /// @return
 ///      0 if they are the same,
-///     -i if the i-th element of A is smaller than the i-th element of B,
-///      i if the i-th element of A is greather than the i-th element of B.
+///     -i if the i-th element (counting from one) of A is smaller than the i-th element of B,
+///      i if the i-th element (counting from one) of A is greather than the i-th element of B.
 template <typename T>
 inline int64_t compare(const malg::MatrixBase<T> &A, const malg::MatrixBase<T> &B)
 {
@@ -972,10 +972,10 @@ inline int64_t compare(const malg::MatrixBase<T> &A, const malg::MatrixBase<T> &
     }
     for (std::size_t i = 0; i < A.size(); ++i) {
         if (A[i] < B[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (A[i] > B[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
@@ -986,8 +986,8 @@ inline int64_t compare(const malg::MatrixBase<T> &A, const malg::MatrixBase<T> &
 /// @param b the second vector.
 /// @return
 ///      0 if they are the same,
-///     -i if the i-th element of a is smaller than the i-th element of b,
-///      i if the i-th element of a is greather than the i-th element of b.
+///     -i if the i-th element (counting from one) of a is smaller than the i-th element of b,
+///      i if the i-th element (counting from one) of a is greather than the i-th element of b.
 template <typename T>
 inline int64_t compare(const malg::Vector<T> &a, const malg::Vector<T> &b)
 {
@@ -997,10 +997,10 @@ inline int64_t compare(const malg::Vector<T> &a, const malg::Vector<T> &b)
     }
     for (std::size_t i = 0; i < a.size(); ++i) {
         if (a[i] < b[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (a[i] > b[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
-- 
2.43.0


From 22ef3d1334d3265894105c0e890ead3dfad349ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 20/52] fix: limited find returns the first or last found
 indices

---
 include/malg/utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index edf7cb6..a593baf 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -942,11 +942,11 @@ inline auto find(const Matrix<T> &A, std::size_t n = std::numeric_limits<std::si
         return Matrix<std::size_t>(0UL, 0UL);
     }
     if ((n > 0) && (n < index.size())) {
-        std::size_t start = static_cast<std::size_t>(*index.begin());
+        auto count = static_cast<std::ptrdiff_t>(n);
         if (first_last) {
-            index = std::vector<size_t>(start + 0UL, start + n);
+            index = std::vector<size_t>(index.begin(), index.begin() + count);
         } else {
-            index = std::vector<size_t>(start + index.size() - n, start + index.size());
+            index = std::vector<size_t>(index.end() - count, index.end());
         }
     }
     // Prepare the array for the indexes. If the input is a row-vector, return the indexes as a row-vector.
-- 
2.43.0


From 65b538f5706e301ba6c8a1c4f2ee506fcfda45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 21/52] fix: construct the stacked matrix explicitly from its
 first operand

---
 include/malg/control/control.hpp | 2 +-
 include/malg/utility.hpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 48aea7b..f060a41 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -194,7 +194,7 @@ inline auto obsv(const MatrixBase<T> &A, const MatrixBase<T> &C)
         throw std::runtime_error("ctrb: A and C matrices dimensions doesn't match.");
     }
     // Create the observability matrix.
-    Matrix<T> result = C;
+    Matrix<T> result(C);
     // Construct the observability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::vstack(result, C * linalg::powm(A, i));
diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index a593baf..f75a290 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -240,7 +240,7 @@ inline auto vstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows() + 1, A.cols());
     // Append b to C.
@@ -291,7 +291,7 @@ inline auto hstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows(), A.cols() + 1);
     // Append b to C.
-- 
2.43.0


From d5d236fbc90520fa2b86c66d766ea940c69098a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 22/52] fix: trace of a matrix with more rows than columns
 stays inside the matrix

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index f9ce2c7..ae8f0d0 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1236,7 +1236,7 @@ inline auto trace(const MatrixBase<T> &A)
     return sum(diag(A));
 #else
     std::remove_const_t<T> result = 0;
-    for (std::size_t i = 0; i < A.rows(); ++i) {
+    for (std::size_t i = 0; i < std::min(A.rows(), A.cols()); ++i) {
         result += A(i, i);
     }
     return result;
-- 
2.43.0


From 5da2d0071421ae02eea75cd6441492c71cc1a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 23/52] fix: reject extraction ranges that start outside the
 matrix

---
 include/malg/utility.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index f75a290..e0af02e 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -343,6 +343,9 @@ inline auto extract(const MatrixBase<T> &matrix,
     if (start_column >= end_column) {
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
+    if ((start_row > matrix.rows()) || (start_column > matrix.cols())) {
+        throw std::invalid_argument("The starting position is outside the matrix.");
+    }
     using data_type = std::remove_const_t<T>;
     end_row         = std::min(matrix.rows(), end_row);
     end_column      = std::min(matrix.cols(), end_column);
@@ -373,6 +376,9 @@ inline auto extract_column(const MatrixBase<T> &matrix,
     if (column >= matrix.cols()) {
         throw std::invalid_argument("The selected column is outsize the matrix.");
     }
+    if (start_row > matrix.rows()) {
+        throw std::invalid_argument("The starting row is outside the matrix.");
+    }
     using data_type = std::remove_const_t<T>;
     end_row         = std::min(matrix.rows(), end_row);
     Vector<data_type> result(end_row - start_row, data_type(0.));
@@ -400,6 +406,9 @@ inline auto extract_row(const MatrixBase<T> &matrix,
     if (start_column >= end_column) {
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
+    if (start_column > matrix.cols()) {
+        throw std::invalid_argument("The starting column is outside the matrix.");
+    }
     using data_type = std::remove_const_t<T>;
     end_column      = std::min(matrix.cols(), end_column);
     Vector<data_type> result(end_column - start_column, data_type(0.));
-- 
2.43.0


From 16e74d570fd429869ce951f82452518f6a5a8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 24/52] fix: reject swaps of rows or columns outside the matrix

---
 include/malg/utility.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index e0af02e..c657a38 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -427,6 +427,9 @@ inline auto extract_row(const MatrixBase<T> &matrix,
 template <typename T>
 inline void swap_rows(MatrixBase<T> &matrix, std::size_t i, std::size_t j, std::size_t start_column = 0, std::size_t end_column = std::numeric_limits<std::size_t>::max())
 {
+    if ((i >= matrix.rows()) || (j >= matrix.rows())) {
+        throw std::invalid_argument("The selected row is outside the matrix.");
+    }
     end_column = std::min(end_column, matrix.cols());
     for (std::size_t c = start_column; c < end_column; ++c) {
         std::swap(matrix(i, c), matrix(j, c));
@@ -442,6 +445,9 @@ inline void swap_rows(MatrixBase<T> &matrix, std::size_t i, std::size_t j, std::
 template <typename T>
 inline void swap_cols(MatrixBase<T> &matrix, std::size_t i, std::size_t j, std::size_t start_row = 0, std::size_t end_row = std::numeric_limits<std::size_t>::max())
 {
+    if ((i >= matrix.cols()) || (j >= matrix.cols())) {
+        throw std::invalid_argument("The selected column is outside the matrix.");
+    }
     end_row = std::min(matrix.rows(), end_row);
     for (std::size_t r = start_row; r < end_row; ++r) {
         std::swap(matrix(r, i), matrix(r, j));
-- 
2.43.0


From edc24b2969bc4c336361d31dee41b692f7c920fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 25/52] fix: reject cofactors of a row or column outside the
 matrix

---
 include/malg/linalg.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index a1faafd..9382149 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -92,6 +92,9 @@ inline auto conjugate_transpose(const MatrixBase<std::complex<T>> &matrix)
 template <typename T>
 inline auto cofactor(const MatrixBase<T> &matrix, std::size_t p, std::size_t q)
 {
+    if ((p >= matrix.rows()) || (q >= matrix.cols())) {
+        throw std::invalid_argument("The selected row or column is outside the matrix.");
+    }
     // Create the output matrix.
     Matrix<std::remove_const_t<T>> output(matrix.rows() - 1, matrix.cols() - 1, 0);
     // Create the indexing variables.
-- 
2.43.0


From 215da4332881c9a47b37c0ec57bda37e7d5ebf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 26/52] fix: qr_decomposition and solve build their views and
 inner product correctly

---
 include/malg/linalg.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 9382149..289c2a7 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -274,7 +274,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
         u[0]   = 1;
         // Finding Householder projection.
         return utility::eye(a.size(), a.size(), data_type_t(1.)) -
-               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / (u * u));
+               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / malg::dot(u, u));
     };
 
     // Initialize matrix R.
@@ -285,7 +285,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
     Matrix<data_type_t> H(R.rows(), R.rows(), data_type_t(0.));
 
     // Compute Q and R.
-    for (std::size_t i = 0; i < (R.cols() - (R.cols() == R.rows())); ++i) {
+    for (std::size_t i = 0; (i + 1 < R.rows()) && (i < R.cols()); ++i) {
         // Initialize holder.
         for (std::size_t r = 0; r < H.rows(); ++r) {
             for (std::size_t c = 0; c < H.cols(); ++c) {
@@ -293,7 +293,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
             }
         }
         // Calculate Householder matrix i: rows and i: columns from R i: rows and ith column
-        View(H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
+        View(&H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
         // Update Q and R.
         Q = Q * H;
         R = H * R;
@@ -363,9 +363,9 @@ auto solve(const Matrix<T> &A, const Vector<T> &b)
     if (rows > cols) {
         auto [_q, _r] = linalg::qr_decomposition(A);
         return malg::dot(
-            linalg::inverse(View(_r, 0, cols, 0, cols)),
+            linalg::inverse(View(&_r, 0, cols, 0, cols)),
             malg::dot(
-                linalg::transpose(View(_q, 0, rows, 0, cols)),
+                linalg::transpose(View(&_q, 0, rows, 0, cols)),
                 b));
     }
     // Underdetermined system.
-- 
2.43.0


From 1979ab4e9a3bb3568a71fcd044d60e67e6f340a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:16 +0000
Subject: [PATCH 27/52] fix: structure predicates that could not be
 instantiated

---
 include/malg/utility.hpp | 57 +++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index c657a38..80afb5f 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -18,6 +18,15 @@
 #include <limits>
 #include <random>
 
+namespace malg::linalg
+{
+
+// Defined in linalg.hpp, which must be included to use the predicates based on it.
+template <typename CT>
+inline auto determinant(const MatrixBase<CT> &matrix);
+
+} // namespace malg::linalg
+
 namespace malg::utility
 {
 
@@ -574,7 +583,7 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
         for (std::size_t j = 0; j < matrix.cols(); ++j) {
-            if ((i != j) && (matrix(i, j) != 0)) {
+            if ((i != j) && (matrix(i, j) != T(0))) {
                 return false;
             }
         }
@@ -589,7 +598,12 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_zero(const MatrixBase<T> &matrix)
 {
-    return std::all_of(matrix.begin(), matrix.end(), [](const T &x) { return x == 0; });
+    for (std::size_t i = 0; i < matrix.size(); ++i) {
+        if (matrix[i] != T(0)) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
@@ -599,7 +613,12 @@ inline auto is_zero(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_constant(const MatrixBase<T> &matrix)
 {
-    return std::adjacent_find(matrix.begin(), matrix.end(), std::not_equal_to{}) == matrix.end();
+    for (std::size_t i = 1; i < matrix.size(); ++i) {
+        if (matrix[i] != matrix[0]) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
@@ -657,7 +676,14 @@ inline auto is_identity(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix == utility::identity<T>(matrix.cols()));
+    for (std::size_t i = 0; i < matrix.rows(); ++i) {
+        for (std::size_t j = 0; j < matrix.cols(); ++j) {
+            if (!malg::feq::approximately_equal(matrix(i, j), T((i == j) ? 1 : 0))) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is orthogonal.
@@ -670,7 +696,18 @@ inline auto is_orthogonal(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix * matrix.transpose() == utility::identity<T>(matrix.cols()));
+    for (std::size_t i = 0; i < matrix.rows(); ++i) {
+        for (std::size_t j = 0; j < matrix.cols(); ++j) {
+            std::remove_const_t<T> product = 0;
+            for (std::size_t k = 0; k < matrix.cols(); ++k) {
+                product += matrix(i, k) * matrix(j, k);
+            }
+            if (std::abs(product - T((i == j) ? 1 : 0)) > malg::feq::tolerance()) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is invertible.
@@ -680,7 +717,7 @@ inline auto is_orthogonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_invertible(const MatrixBase<T> &matrix)
 {
-    return matrix.determinant() != 0;
+    return linalg::determinant(matrix) != T(0);
 }
 
 /// @brief Checks if the matrix is linearly dependent.
@@ -690,7 +727,7 @@ inline auto is_invertible(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_linearly_dependent(const MatrixBase<T> &matrix)
 {
-    return matrix.determinant() == 0;
+    return linalg::determinant(matrix) == T(0);
 }
 
 /// @brief Checks if the matrix is linearly independent.
@@ -700,7 +737,7 @@ inline auto is_linearly_dependent(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_linearly_independent(const MatrixBase<T> &matrix)
 {
-    return !matrix.is_linearly_dependent();
+    return !utility::is_linearly_dependent(matrix);
 }
 
 /// @brief Checks if the matrix is a lower triangular one.
@@ -715,7 +752,7 @@ inline auto is_lower_triangular(const MatrixBase<T> &matrix)
     }
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = r + 1; c < matrix.cols(); ++c) {
-            if (matrix(r, c)) {
+            if (matrix(r, c) != T(0)) {
                 return false;
             }
         }
@@ -735,7 +772,7 @@ inline auto is_upper_triangular(const MatrixBase<T> &matrix)
     }
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = 0; c < r; ++c) {
-            if (matrix(r, c)) {
+            if (matrix(r, c) != T(0)) {
                 return false;
             }
         }
-- 
2.43.0


From 2cbd805a71de85378552ea3dd68f72dfdceb908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 28/52] fix: all and any accept complex elements

---
 include/malg/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index ae8f0d0..f188d42 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1333,7 +1333,7 @@ template <typename T>
 inline bool all(const MatrixBase<T> &a)
 {
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (a[i] == 0) {
+        if (a[i] == T(0)) {
             return false;
         }
     }
@@ -1348,7 +1348,7 @@ template <typename T>
 inline bool all(const Vector<T> &v)
 {
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (v[i] == 0) {
+        if (v[i] == T(0)) {
             return false;
         }
     }
@@ -1363,7 +1363,7 @@ template <typename T>
 inline bool any(const MatrixBase<T> &a)
 {
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (a[i] != 0) {
+        if (a[i] != T(0)) {
             return true;
         }
     }
@@ -1378,7 +1378,7 @@ template <typename T>
 inline bool any(const Vector<T> &v)
 {
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (v[i] != 0) {
+        if (v[i] != T(0)) {
             return true;
         }
     }
-- 
2.43.0


From eac9b808bf5d28df8fee67b1d44a3535d1ea1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 29/52] fix: never act on an uninitialised kind read from a
 file

---
 include/malg/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 9475bbc..d566dff 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -162,7 +162,7 @@ template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 {
     std::size_t size, i;
-    char type;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'V') {
@@ -189,7 +189,7 @@ template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
 {
     std::size_t rows, cols, r = 0, c = 0;
-    char type;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'M') {
-- 
2.43.0


From 46220ec7f8d68b3174631c01f1dedbf3ae6576c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 30/52] fix: do not resize to an unread size when a file ends
 after the kind

---
 include/malg/io.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index d566dff..e7ccf0b 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -170,7 +170,10 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
         return lhs;
     }
     // Read the size.
-    lhs >> size;
+    if (!(lhs >> size)) {
+        std::cerr << "The file does not contain the size of the vector.\n";
+        return lhs;
+    }
     // Prepare the vector.
     rhs.resize(size);
     // Read the vector.
@@ -197,8 +200,10 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
         return lhs;
     }
     // Read the size.
-    lhs >> rows;
-    lhs >> cols;
+    if (!(lhs >> rows) || !(lhs >> cols)) {
+        std::cerr << "The file does not contain the size of the matrix.\n";
+        return lhs;
+    }
     // Prepare the matrix.
     rhs.resize(rows, cols);
     // Read the matrix.
-- 
2.43.0


From d2529890a03e2df1fa720f7bce340131e8e22567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 31/52] fix: to_cpp accesses its argument as the reference it
 is

---
 include/malg/io.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index e7ccf0b..7734c3f 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -335,13 +335,13 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Vector
 {
     std::stringstream ss;
     ss << "malg::Vector<" << type << "> " << name << " = {";
-    for (std::size_t i = 0; i < v->size(); ++i) {
+    for (std::size_t i = 0; i < v.size(); ++i) {
         if constexpr (malg::is_complex_v<T>) {
-            ss << v->operator[](i).real() << std::showpos << v->operator[](i).imag() << "i" << std::noshowpos;
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
         } else {
-            ss << v->operator[](i);
+            ss << v[i];
         }
-        if (i < (v->size() - 1)) {
+        if (i < (v.size() - 1)) {
             ss << ", ";
         }
     }
@@ -359,20 +359,20 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Matrix
 {
     std::stringstream ss;
     ss << "malg::Matrix<" << type << "> " << name << " = {";
-    for (std::size_t r = 0, c = 0; r < m->rows(); ++r) {
+    for (std::size_t r = 0, c = 0; r < m.rows(); ++r) {
         ss << "{";
-        for (c = 0; c < m->cols(); ++c) {
+        for (c = 0; c < m.cols(); ++c) {
             if constexpr (malg::is_complex_v<T>) {
-                ss << m->operator()(r, c).real() << std::showpos << m->operator()(r, c).imag() << "i" << std::noshowpos;
+                ss << m(r, c).real() << std::showpos << m(r, c).imag() << "i" << std::noshowpos;
             } else {
-                ss << m->operator()(r, c);
+                ss << m(r, c);
             }
-            if (c < (m->cols() - 1)) {
+            if (c < (m.cols() - 1)) {
                 ss << ",";
             }
         }
         ss << "}";
-        if (r < (m->rows() - 1)) {
+        if (r < (m.rows() - 1)) {
             ss << ",";
         }
     }
-- 
2.43.0


From c7311e51b0d0004b71b2d7afdaa1131fcc773899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 32/52] fix: acker reports errors to its caller instead of
 ending the process

---
 include/malg/control/control.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index f060a41..9ac0ad2 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -291,19 +291,19 @@ template <typename T>
 inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBase<T> &poles)
 {
     if (!utility::is_square(A) || !utility::is_column_vector(B) || (A.rows() != B.rows())) {
-        std::cerr << "acker: matrix A and vector B not conformal.\n";
-        exit(1);
+        throw std::runtime_error("acker: matrix A and vector B not conformal.");
     }
     // poles could be complex.
     if (!utility::is_row_vector(poles) || poles.empty()) {
-        std::cerr << "acker: poles must be a vector.\n";
-        exit(1);
+        throw std::runtime_error("acker: poles must be a vector.");
+    }
+    if (poles.cols() != A.rows()) {
+        throw std::runtime_error("acker: there must be as many poles as states.");
     }
     // Make sure the system is controllable.
     auto ct = ctrb<T>(A, B);
     if (malg::feq::approximately_equal_to_zero(linalg::determinant(ct))) {
-        std::cerr << "acker: system not reachable, pole placement invalid.\n";
-        exit(1);
+        throw std::runtime_error("acker: system not reachable, pole placement invalid.");
     }
     // Compute the desired characteristic polynomial.
     auto p = poly(poles);
-- 
2.43.0


From 748760daef981fd4cfd145373897b5a13a8c72f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 33/52] fix: simulate stamps the last state with its time

---
 include/malg/control/control.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 9ac0ad2..90278d9 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -148,6 +148,7 @@ inline auto simulate(
         x.emplace_back(step.first);
         y.emplace_back(step.second);
     }
+    t[steps] = rtime;
     return std::make_tuple(t, x, y);
 }
 
-- 
2.43.0


From bed392fa493c70c97736afe90a0f879729e5b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 34/52] fix: report a failed allocation instead of writing
 through a null buffer

---
 include/malg/vector.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 39704ee..6663287 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -7,6 +7,8 @@
 #include <cassert>
 #include <cstdlib>
 #include <initializer_list>
+#include <limits>
+#include <new>
 #include <utility>
 
 //#define MEM_TRACE
@@ -336,8 +338,16 @@ private:
         if (size == _size) {
             return true;
         }
-        // Re-allocate the data.
-        _data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        // Check that the size in bytes can be represented.
+        if (size > (std::numeric_limits<std::size_t>::max() / sizeof(T))) {
+            throw std::bad_alloc();
+        }
+        // Re-allocate the data, if it fails we still own the old data.
+        T *data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        if (data == nullptr) {
+            throw std::bad_alloc();
+        }
+        _data = data;
 #ifdef MEM_TRACE
         if (_size == 0)
             std::cout << "Allocating    " << (sizeof(T) * size) << " bytes (" << _data << ")\n";
-- 
2.43.0


From 2969f9ff2d7c2ea7f69014838369bdb2a520e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 35/52] fix: select the complex or real form of norms and signs
 at compile time

---
 include/malg/math.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index f188d42..3ef195c 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1143,10 +1143,11 @@ auto abs(const malg::Vector<T> &a)
 template <typename T>
 auto sign(const malg::MatrixBase<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Returns a matrix containing the sign of the values in the input matrix.
@@ -1155,10 +1156,11 @@ auto sign(const malg::MatrixBase<T> &a)
 template <typename T>
 auto sign(const malg::Vector<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Vector projection of **a** onto **b**.
@@ -1182,7 +1184,7 @@ inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_s
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t r = r_start; r < std::min(r_end, A.rows()); r++) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(A(r, c));
         } else {
             accum += A(r, c) * A(r, c);
@@ -1393,7 +1395,7 @@ inline auto square_norm(const malg::Vector<T> &v)
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(v[i]);
         } else {
             accum += v[i] * v[i];
@@ -1412,7 +1414,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
     // Compute the sum of squares of the elements of the given matrix.
     for (std::size_t r = 0; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < A.cols(); ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
@@ -1429,7 +1431,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
 template <typename T>
 inline auto infinity_norm(const malg::Vector<T> &v)
 {
-    using data_type_t = std::remove_const_t<T>;
+    using data_type_t = std::remove_const_t<malg::is_complex_t<T>>;
     if (v.empty()) {
         return data_type_t(0.);
     }
@@ -1480,7 +1482,7 @@ auto sub_norm(const malg::MatrixBase<T> &A)
     data_type_t accum = 0;
     for (std::size_t r = 1; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < r; ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
-- 
2.43.0


From f411ee51400f869337415833e27be8f64f07e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 36/52] fix: constant complex elements are complex

---
 include/malg/type_traits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/malg/type_traits.hpp b/include/malg/type_traits.hpp
index a7c24f3..df9141b 100644
--- a/include/malg/type_traits.hpp
+++ b/include/malg/type_traits.hpp
@@ -26,6 +26,12 @@ struct is_complex<std::complex<T>> : public std::true_type {
     using type = T; ///< An alias for T.
 };
 
+/// @brief A constant type is complex if the type itself is.
+/// @tparam T the type.
+template <typename T>
+struct is_complex<const T> : public is_complex<T> {
+};
+
 /// @brief Alias template for checking if a type is complex.F
 /// @tparam T the type we are analyzing.
 /// @details
-- 
2.43.0


From f9bc92aa358d1a8ad9675e0173fc21ab29448f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 37/52] fix: eigenvalue functions can be instantiated

---
 include/malg/math.hpp    | 2 +-
 include/malg/utility.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 3ef195c..3fb3c1b 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1180,7 +1180,7 @@ inline auto projection(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param r_end the ending row.
 /// @returns the mangnitude of the column vector.
 template <typename T>
-inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end)
+inline auto vector_length(const malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start = 0, std::size_t r_end = std::numeric_limits<std::size_t>::max())
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t r = r_start; r < std::min(r_end, A.rows()); r++) {
diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 80afb5f..54ce207 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -72,7 +72,7 @@ inline auto eye(std::size_t rows, std::size_t cols, T value)
 /// @param value value for the diagonal.
 /// @returns the identity matrix.
 template <typename T>
-inline auto identity(std::size_t N, T value)
+inline auto identity(std::size_t N, T value = T(1))
 {
     return utility::eye<T>(N, N, value);
 }
-- 
2.43.0


From 3e8c7b93c1b9909c6fefe3d84a2747b1833a11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 38/52] fix: decompositions and control functions accept views
 of constant matrices

---
 include/malg/control/control.hpp | 12 ++++++------
 include/malg/linalg.hpp          |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 90278d9..5d211c0 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -167,7 +167,7 @@ inline auto ctrb(const MatrixBase<T> &A, const MatrixBase<T> &B)
         throw std::runtime_error("ctrb: A and B matrices dimensions doesn't match.");
     }
     // Create the controllability matrix.
-    Matrix<T> result(B);
+    Matrix<std::remove_const_t<T>> result(B);
     // Construct the controllability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::hstack(result, linalg::powm(A, i) * B);
@@ -195,7 +195,7 @@ inline auto obsv(const MatrixBase<T> &A, const MatrixBase<T> &C)
         throw std::runtime_error("ctrb: A and C matrices dimensions doesn't match.");
     }
     // Create the observability matrix.
-    Matrix<T> result(C);
+    Matrix<std::remove_const_t<T>> result(C);
     // Construct the observability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::vstack(result, C * linalg::powm(A, i));
@@ -250,12 +250,12 @@ inline auto poly(const MatrixBase<T> &A)
 {
     // An empty matrix.
     if ((A.size() == 0)) {
-        return Vector<T>{ 1 };
+        return Vector<std::remove_const_t<T>>{ 1 };
     }
 
     // A row/column vector.
     if ((A.rows() == 1) || (A.cols() == 1)) {
-        Vector<T> c(A.size() + 1);
+        Vector<std::remove_const_t<T>> c(A.size() + 1);
         c[0] = 1;
         for (std::size_t j = 0; j < A.size(); ++j) {
             for (std::size_t i = j + 1; i >= 1; --i) {
@@ -269,8 +269,8 @@ inline auto poly(const MatrixBase<T> &A)
         throw std::runtime_error("poly: Matrix A must be square.");
     }
     auto n = A.rows();
-    Vector<T> c(n + 1);
-    Matrix<T> B(A);
+    Vector<std::remove_const_t<T>> c(n + 1);
+    Matrix<std::remove_const_t<T>> B(A);
     auto last_c = trace(B);
     c[0]        = 1;
     c[1]        = -last_c;
diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 289c2a7..3f6fefc 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -317,8 +317,8 @@ inline auto lu_decomposition(const MatrixBase<T> &A)
         throw std::invalid_argument("The input matrix is not square.");
     }
     std::size_t N = A.rows();
-    Matrix<T> l(N, N, 0);
-    Matrix<T> u(N, N, 0);
+    Matrix<std::remove_const_t<T>> l(N, N, 0);
+    Matrix<std::remove_const_t<T>> u(N, N, 0);
 
     std::size_t i, j, k;
     for (i = 0; i < N; i++) {
@@ -424,7 +424,7 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
     auto rel_square_diff       = square_accuracy + 1.0;
 
     for (std::size_t batch_start_idx = 1; (rel_square_diff > square_accuracy && !malg::feq::approximately_equal_to_zero(fac_inv)); batch_start_idx += batch_size) {
-        auto local_accum = malg::Matrix<T>(A.rows(), A.cols());
+        auto local_accum = malg::Matrix<std::remove_const_t<T>>(A.rows(), A.cols());
         for (std::size_t i = 0; i < batch_size; ++i) {
             const double k = static_cast<double>(batch_start_idx + i);
             fac_inv        = fac_inv * (1.0 / k);
@@ -437,7 +437,7 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
         ret += local_accum;
         // Caclulate relative change in this iteration.
         // TODO(enrico): properly guard against division by zero
-        const malg::Matrix<T> rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
+        const malg::Matrix<std::remove_const_t<T>> rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
         rel_square_diff                 = malg::square_norm(rel_error);
     };
     // raise the result
-- 
2.43.0


From 2660a2fa36a82938491a506801f9cf0d6e1a4325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 39/52] fix: matrix exponential of single precision matrices

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 3f6fefc..ff20afb 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -437,7 +437,7 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
         ret += local_accum;
         // Caclulate relative change in this iteration.
         // TODO(enrico): properly guard against division by zero
-        const malg::Matrix<std::remove_const_t<T>> rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
+        const malg::Matrix<std::remove_const_t<T>> rel_error(malg::linalg::div(local_accum * local_accum, ret * ret + accuracy));
         rel_square_diff                 = malg::square_norm(rel_error);
     };
     // raise the result
-- 
2.43.0


From 39fba4713dafeaff87f3f42f4cc3d38aa8237f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 40/52] fix: compound scalar operations take the scalar by
 value, it may be an element of the left operand

---
 include/malg/math.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 3fb3c1b..36e7d2f 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -262,7 +262,7 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -294,7 +294,7 @@ inline auto operator/(const malg::MatrixBase<T1> &A, const T2 &b)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -720,7 +720,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -796,7 +796,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -872,7 +872,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -908,7 +908,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From eadbce9fd2945379ef8f891d2d1fb9ba90510830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 41/52] fix: approximate equality of values of different types

---
 include/malg/feq.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index e5b87e0..d4ca791 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <complex>
@@ -26,7 +27,8 @@ inline auto &tolerance()
 template <typename T1, typename T2>
 inline bool approximately_equal(T1 a, T2 b)
 {
-    return std::abs(a - b) <= tolerance() * std::max(std::abs(a), std::abs(b));
+    using T = std::common_type_t<decltype(std::abs(a)), decltype(std::abs(b))>;
+    return std::abs(a - b) <= tolerance() * std::max<T>(std::abs(a), std::abs(b));
 }
 
 /// @brief Checks if the fir floating point value is lesser than or equal to the second one.
-- 
2.43.0


From c6a73b804e867992bebc9d815635e750ee034443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:41 +0000
Subject: [PATCH 42/52] fix: a view whose range begins outside of the matrix is
 empty

---
 include/malg/view.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 4d1cef4..b256fb8 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -73,14 +73,18 @@ public:
     /// @returns the number of rows.
     inline std::size_t rows() const override
     {
-        return std::min(_row.stop, _matrix->rows()) - _row.start;
+        const std::size_t stop = std::min(_row.stop, _matrix->rows());
+        // A range that begins after the last row selects nothing.
+        return (stop > _row.start) ? (stop - _row.start) : 0;
     }
 
     /// @brief Get the number of columns of the matrix.
     /// @returns the number of columns.
     inline std::size_t cols() const override
     {
-        return std::min(_col.stop, _matrix->cols()) - _col.start;
+        const std::size_t stop = std::min(_col.stop, _matrix->cols());
+        // A range that begins after the last column selects nothing.
+        return (stop > _col.start) ? (stop - _col.start) : 0;
     }
 
     /// @brief Returns the total size of the matrix.
-- 
2.43.0


From 5727390ce35206631c05a3f1c9b93476472051e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 43/52] fix: a skew symmetric matrix has zeros on its diagonal

---
 include/malg/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 54ce207..c0eda19 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -562,7 +562,7 @@ inline auto is_skew_symmetric(const MatrixBase<T> &matrix)
         return false;
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
-        for (std::size_t j = i + 1; j < matrix.cols(); ++j) {
+        for (std::size_t j = i; j < matrix.cols(); ++j) {
             if (matrix(i, j) != -matrix(j, i)) {
                 return false;
             }
-- 
2.43.0


From cdb5443ea1ae3cf2c17c59dae8396badd5b013cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 44/52] fix: eigenvalue functions reject matrices which are not
 square

---
 include/malg/eigen.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 098e314..22dd007 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -17,6 +17,7 @@
 #include "malg/matrix.hpp"
 
 #include <complex>
+#include <stdexcept>
 
 namespace malg::eigen
 {
@@ -27,9 +28,12 @@ namespace malg::eigen
 template <typename T>
 inline auto wilkinson_shift(const malg::Matrix<std::complex<T>> &A)
 {
+    if (A.rows() != A.cols()) {
+        throw std::invalid_argument("The matrix must be square.");
+    }
     std::complex<T> s(0.0);
-    std::size_t N = A.rows() - 1;
-    if (N > 0) {
+    if (A.rows() > 1) {
+        std::size_t N = A.rows() - 1;
         // Bottom-right elements.
         auto a = A(N - 1, N - 1), b = A(N - 1, N), c = A(N, N - 1), d = A(N, N);
         auto delta = std::sqrt((a + d) * (a + d) - 4.0 * (a * d - b * c));
@@ -49,6 +53,9 @@ inline auto wilkinson_shift(const malg::Matrix<std::complex<T>> &A)
 template <typename T>
 inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
 {
+    if (A.rows() != A.cols()) {
+        throw std::invalid_argument("The matrix must be square.");
+    }
     int N  = A.rows();
     auto P = malg::utility::identity<std::complex<T>>(N);
     auto H = A;
@@ -98,6 +105,9 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
 template <typename T>
 auto qr_factorise_givens(const malg::Matrix<std::complex<T>> &A)
 {
+    if (A.rows() != A.cols()) {
+        throw std::invalid_argument("The matrix must be square.");
+    }
     malg::Matrix<std::complex<T>> Q = malg::utility::identity<std::complex<T>>(A.rows());
     malg::Matrix<std::complex<T>> R(A);
     for (std::size_t i = 1, j = 0; i < A.rows(); ++i, j = i - 1) {
@@ -199,6 +209,9 @@ auto QRHessenberg(const malg::Matrix<std::complex<T>> &A)
 template <typename T>
 auto eigenvectorUpper(const malg::Matrix<std::complex<T>> &M)
 {
+    if (M.rows() != M.cols()) {
+        throw std::invalid_argument("The matrix must be square.");
+    }
     bool fullset = true;
 
     int N = M.rows();
-- 
2.43.0


From 0aa01b40e9ead94b7dfea76b692b2b895b39294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 45/52] fix: reducing a zero or complex polynomial gives the
 coefficient zero

---
 include/malg/control/control.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 5d211c0..ca5d63a 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -228,12 +228,12 @@ inline auto polyreduce(const Vector<T> &a)
 {
     std::size_t i, j;
     for (j = 0; j < a.size(); ++j) {
-        if (a[j] != 0) {
+        if (a[j] != T(0)) {
             break;
         }
     }
     if (j == a.size()) {
-        return Vector<T>({ 0 });
+        return Vector<T>(1, T(0));
     }
     Vector<T> c(a.size() - j);
     for (i = j; i < a.size(); ++i) {
-- 
2.43.0


From bfac25e9e97af0e9692f62c4729cdddd814eb4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 46/52] fix: a view of a whole matrix could not be constructed

---
 include/malg/view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index b256fb8..c6ac34f 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -60,7 +60,7 @@ public:
     /// @param matrix the matrix.
     /// @param row the range for the rows.
     /// @param col the range for the columns.
-    View(MatrixType *matrix, Range row = Range::all(), Range col = Range::all())
+    View(MatrixType *matrix, Range row, Range col = Range::all())
         : _matrix(matrix),
           _row{ row },
           _col{ col }
-- 
2.43.0


From 659e31620e2bb1d286f1d1b2e5e6d5e0f303aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 47/52] fix: the stream operators of the models are found
 outside of namespace malg

---
 include/malg/io.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 7734c3f..9239616 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -215,6 +215,10 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
     return lhs;
 }
 
+// The stream operators of the models must be where the models are to be found.
+namespace control
+{
+
 /// @brief Output stream function.
 /// @param lhs the stream.
 /// @param rhs the state space model.
@@ -254,6 +258,8 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::control::Discrete
     return lhs;
 }
 
+} // namespace control
+
 /// @brief Prepares a string for printing the vector.
 /// @param name the name to show.
 /// @param v the vector to display.
-- 
2.43.0


From 43a66228bfbc0d8caeae83f79e4db535f19b032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 48/52] fix: a complex scalar can be multiplied by a vector

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 36e7d2f..d07747a 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -853,7 +853,7 @@ inline auto operator*(const malg::Vector<T1> &a, const T2 &b)
 /// @param a the vector.
 /// @param b the scalar.
 /// @returns a vector containing the multiplication of the scalar for the vector.
-template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T1>, T1>>
+template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T1> || malg::is_complex_v<T1>, T1>>
 inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 {
     // Select the right type.
-- 
2.43.0


From 767582c425dc393824c8cb103f6bfd190ec554be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 49/52] fix: conjugate transposes and real and imaginary parts
 of constant views

---
 include/malg/linalg.hpp | 12 ++++++------
 include/malg/math.hpp   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index ff20afb..eb04eea 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -56,10 +56,10 @@ inline auto powm(const MatrixBase<T> &A, std::size_t N)
 /// @brief Computes the hermitian transpose of the complex matrix.
 /// @param A the matrix.
 /// @returns the matrix transposed.
-template <typename T>
-inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
+template <typename T, typename = std::enable_if_t<malg::is_complex_v<T>>>
+inline auto hermitian_transpose(const MatrixBase<T> &A)
 {
-    Matrix<std::complex<std::remove_const_t<T>>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
             result(c, r) = std::conj(A(r, c));
@@ -71,10 +71,10 @@ inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
 /// @brief Computes the transpose and takes the complex conjugate of each entry.
 /// @param matrix the matrix.
 /// @returns the matrix transposed.
-template <typename T>
-inline auto conjugate_transpose(const MatrixBase<std::complex<T>> &matrix)
+template <typename T, typename = std::enable_if_t<malg::is_complex_v<T>>>
+inline auto conjugate_transpose(const MatrixBase<T> &matrix)
 {
-    Matrix<std::complex<std::remove_const_t<T>>> result(matrix.cols(), matrix.rows(), 0.);
+    Matrix<std::remove_const_t<T>> result(matrix.cols(), matrix.rows(), 0.);
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = 0; c < matrix.cols(); ++c) {
             result(c, r) = std::conj(matrix(r, c));
diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index d07747a..d3338e1 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1086,10 +1086,10 @@ inline auto element_wise_binary_function(const malg::MatrixBase<T1> &A, const ma
 /// @brief Extracts the real part of the values of a.
 /// @param a the matrix.
 /// @returns the real part of the values of a.
-template <typename T>
-auto real(const malg::MatrixBase<std::complex<T>> &a)
+template <typename T, typename = std::enable_if_t<malg::is_complex_v<T>>>
+auto real(const malg::MatrixBase<T> &a)
 {
-    return element_wise_function(a, [](const std::complex<T> &value) { return value.real(); });
+    return element_wise_function(a, [](const T &value) { return value.real(); });
 }
 
 /// @brief Extracts the real part of the values of a.
@@ -1104,10 +1104,10 @@ auto real(const malg::Vector<std::complex<T>> &a)
 /// @brief Extracts the imaginary part of the values of a.
 /// @param a the matrix.
 /// @returns imaginary part of the values of a.
-template <typename T>
-auto imag(const malg::MatrixBase<std::complex<T>> &a)
+template <typename T, typename = std::enable_if_t<malg::is_complex_v<T>>>
+auto imag(const malg::MatrixBase<T> &a)
 {
-    return element_wise_function(a, [](const std::complex<T> &value) { return value.imag(); });
+    return element_wise_function(a, [](const T &value) { return value.imag(); });
 }
 
 /// @brief Extracts the imaginary part of the values of a.
-- 
2.43.0


From e7fa0c486490821b723a9ecba3cc358dd99ff879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 50/52] fix: the decomposition in orthogonal factors and the
 solver accept complex elements

---
 include/malg/linalg.hpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index eb04eea..92b7b54 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -270,11 +270,22 @@ inline auto qr_decomposition(const Matrix<T> &A)
     // This function is required to build the householder.
     static auto make_householder = [](const Vector<data_type_t> &a) {
         // Find prependicular vector to mirror.
-        auto u = a / (a[0] + std::copysign(malg::square_norm(a), a[0]));
-        u[0]   = 1;
-        // Finding Householder projection.
-        return utility::eye(a.size(), a.size(), data_type_t(1.)) -
-               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / malg::dot(u, u));
+        auto norm = malg::square_norm(a);
+        if constexpr (malg::is_complex_v<data_type_t>) {
+            // The norm takes the phase of the first element.
+            auto u = a / (a[0] + ((std::abs(a[0]) > 0) ? (a[0] / std::abs(a[0])) * norm : data_type_t(norm)));
+            u[0]   = 1;
+            auto v = element_wise_function(u, [](const data_type_t &value) { return std::conj(value); });
+            // Finding Householder projection.
+            return utility::eye(a.size(), a.size(), data_type_t(1.)) -
+                   (utility::to_matrix(u, false) * utility::to_matrix(v, true)) * (2. / malg::dot(v, u));
+        } else {
+            auto u = a / (a[0] + std::copysign(norm, a[0]));
+            u[0]   = 1;
+            // Finding Householder projection.
+            return utility::eye(a.size(), a.size(), data_type_t(1.)) -
+                   (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / malg::dot(u, u));
+        }
     };
 
     // Initialize matrix R.
@@ -359,17 +370,25 @@ auto solve(const Matrix<T> &A, const Vector<T> &b)
     if (rows == cols) {
         return malg::dot(linalg::inverse(A), b);
     }
+    // The transpose, conjugated if the elements are complex.
+    auto ctranspose = [](const auto &M) {
+        if constexpr (malg::is_complex_v<T>) {
+            return linalg::hermitian_transpose(M);
+        } else {
+            return linalg::transpose(M);
+        }
+    };
     // Overdetermined system.
     if (rows > cols) {
         auto [_q, _r] = linalg::qr_decomposition(A);
         return malg::dot(
             linalg::inverse(View(&_r, 0, cols, 0, cols)),
             malg::dot(
-                linalg::transpose(View(&_q, 0, rows, 0, cols)),
+                ctranspose(View(&_q, 0, rows, 0, cols)),
                 b));
     }
     // Underdetermined system.
-    auto At = linalg::transpose(A);
+    auto At = ctranspose(A);
     return malg::dot(At * linalg::inverse(A * At), b);
 }
 
-- 
2.43.0


From 011627977aa7dfa5bd764d38a78ec81dd97ff5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 51/52] fix: a failed assignment of lists left the matrix with
 dimensions its data does not have

---
 include/malg/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 26eb5f2..0e58c95 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -363,12 +363,12 @@ public:
                 throw std::invalid_argument("The rows of the input list have different sizes.");
             }
         }
+        // Initialize the vector, if it fails the dimensions still are those of the data.
+        _data = Vector<T>(data.size() * data.begin()->size());
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
         this->_cols = data.begin()->size();
-        // Initialize the vector.
-        _data = Vector<T>(_rows * _cols);
         // Get an interator for the data.
         auto r_it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r, ++r_it) {
-- 
2.43.0


From 0d350a91a4b7d6aa2c95fbc8c26b664378d4fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 52/52] fix: the decomposition in orthogonal factors divided
 zero by zero on a column of zeros

---
 include/malg/linalg.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 92b7b54..6dbafa9 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -271,6 +271,10 @@ inline auto qr_decomposition(const Matrix<T> &A)
     static auto make_householder = [](const Vector<data_type_t> &a) {
         // Find prependicular vector to mirror.
         auto norm = malg::square_norm(a);
+        // There is nothing to mirror in a vector of zeros.
+        if (norm == 0.) {
+            return utility::eye(a.size(), a.size(), data_type_t(1.));
+        }
         if constexpr (malg::is_complex_v<data_type_t>) {
             // The norm takes the phase of the first element.
             auto u = a / (a[0] + ((std::abs(a[0]) > 0) ? (a[0] / std::abs(a[0])) * norm : data_type_t(norm)));
-- 
2.43.0

