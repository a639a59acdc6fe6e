From 2f597445619c62c6690f888dca887f1eff1587b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 01/18] fix: drop cached symbolic temporaries on reset, so that
 SymDiff sees reassigned inner expressions

---
 src/Scalar/MetaVariable.cpp | 19 +++++++------------
 src/Scalar/Parameter.cpp    |  7 +++++--
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/Scalar/MetaVariable.cpp b/src/Scalar/MetaVariable.cpp
index 3836dc1..dd99d62 100644
--- a/src/Scalar/MetaVariable.cpp
+++ b/src/Scalar/MetaVariable.cpp
@@ -22,20 +22,15 @@
 #include "MetaVariable.hpp"
 #include "Variable.hpp"
 
-// Reset value and derivative temporaries
+// Drop value and derivative temporaries (They refer to the definition of the expression when they were computed)
 void MetaVariable::resetTemp() {
-  // Reset value temporaries
-  if (nullptr != this->mp_tmp) {
-    this->mp_tmp->reset();
-  }
+  // Drop value temporaries
+  this->mp_tmp = nullptr;
 
-  // Reset derivative temporaries
-  std::for_each(EXECUTION_SEQ this->mp_dtmp.begin(), this->mp_dtmp.end(),
-                [](auto& item) {
-                  if (auto* v = item.second; nullptr != v) {
-                    v->reset();
-                  }
-                });
+  // Drop derivative temporaries
+  if (false == this->mp_dtmp.empty()) {
+    this->mp_dtmp.clear();
+  }
 
   this->m_visited = false;
 }
\ No newline at end of file
diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index 33c5487..8045668 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -76,8 +76,11 @@ Type Parameter::eval() {
 }
 
 void Parameter::reset() {
-  // Reset temporaries
-  MetaVariable::resetTemp();
+  // Reset the variable that holds the value of the parameter
+  if (nullptr != this->mp_tmp) {
+    this->mp_tmp->reset();
+  }
+  this->m_visited = false;
   return;
 }
 
-- 
2.43.0


From 09cfa7bcddc805942c487128399d764a3f8475f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 02/18] fix: reset the whole scalar graph once per query, not
 only the part below visited nodes

---
 include/Scalar/Variable.hpp | 5 +++++
 src/Scalar/Variable.cpp     | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Scalar/Variable.hpp b/include/Scalar/Variable.hpp
index 9a12fba..28d0109 100644
--- a/include/Scalar/Variable.hpp
+++ b/include/Scalar/Variable.hpp
@@ -38,6 +38,11 @@ private:
   void swap(Variable& other) noexcept;
 
 
+  // Sequence number of graph resets (Each query resets the whole graph once)
+  inline static size_t m_reset_count{0};
+  // Last graph reset that reached this variable
+  size_t m_reset_id{0};
+
 protected:
   // Underlying symbolic variable
   SharedPtr<VarWrap> m_var{std::make_shared<VarWrap>()};
diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index e6309a5..41ec990 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -116,6 +116,8 @@ Type Variable::getdValue() const {
 }
 
 void Variable::resetImpl() {
+  // Start a new graph reset
+  m_reset_id = ++m_reset_count;
   this->m_visited = true;
   // Reset states
   std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(), [](auto* item) {
@@ -249,8 +251,9 @@ OMPair& Variable::getCache() {
 
 // Reset
 void Variable::reset() {
-  if (true == this->m_visited) {
-    this->m_visited = false;
+  // Visit the internal equations once per graph reset, whether or not this variable was evaluated before
+  if (m_reset_id != m_reset_count) {
+    m_reset_id = m_reset_count;
     // Reset states
     std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(),
                   [](auto* item) {
-- 
2.43.0


From ebce93393d604376db412f9fdb46dde14417430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 03/18] fix: reset the whole matrix graph once per query, not
 only the part below visited matrices

---
 include/Matrix/CommonMatFunctions.hpp             | 3 +++
 include/Matrix/Matrix.hpp                         | 3 +++
 include/Matrix/MatrixInterface/MatrixUtils.ipp    | 4 +++-
 include/Matrix/MatrixInterface/MatrixVirtuals.ipp | 5 +++--
 include/Matrix/MetaMatrix.hpp                     | 8 ++++++++
 5 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index a77275f..8216edb 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -53,6 +53,7 @@ namespace CoolDiff {
         return *(Mexp.eval());
       } else {
         // Reset graph/tree
+        Mexp.newReset();
         Mexp.reset();
         // Return evaluation value
         return *(Mexp.eval());
@@ -69,6 +70,7 @@ namespace CoolDiff {
         return *(Mexp.devalF(X));
       } else {
         // Reset graph/tree
+        Mexp.newReset();
         Mexp.reset();
         // Return evaluation value
         return *(Mexp.devalF(X));
@@ -85,6 +87,7 @@ namespace CoolDiff {
         Mexp.traverse();
       } else {
         // Reset graph/tree
+        Mexp.newReset();
         Mexp.reset();
         // Return evaluation value
         Mexp.traverse();
diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index dcc8866..ce38c0c 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -111,6 +111,9 @@ private:
   bool m_eval{false};
   bool m_devalf{false};
   
+  // Last graph reset that reached this matrix
+  size_t m_reset_id{0};
+
   // Should destructor be called? (True by default)
   bool m_dest{true};
 
diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index cf83119..d7a2e09 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -191,7 +191,9 @@ bool Matrix<T>::findMe(void* v) const {
 // Reset impl
 template<typename T>
 void Matrix<T>::resetImpl() {
-    // Reset flag
+    // Start a new graph reset
+    this->newReset();
+    m_reset_id = this->m_reset_count;
     this->m_visited = true;
 
     // Reset states
diff --git a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
index 899749c..531945d 100644
--- a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
+++ b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
@@ -131,8 +131,9 @@ OMMatPair& Matrix<T>::getCache() {
 // Reset all visited flags
 template<typename T>
 void Matrix<T>::reset() {
-    if (true == this->m_visited) {
-        this->m_visited = false;
+    // Visit the internal equations once per graph reset, whether or not this matrix was evaluated before
+    if (m_reset_id != this->m_reset_count) {
+        m_reset_id = this->m_reset_count;
         // Reset states
         m_eval = false;
         m_devalf = false;
diff --git a/include/Matrix/MetaMatrix.hpp b/include/Matrix/MetaMatrix.hpp
index 4714e24..0c5190f 100644
--- a/include/Matrix/MetaMatrix.hpp
+++ b/include/Matrix/MetaMatrix.hpp
@@ -42,6 +42,9 @@ class MetaMatrix : protected CommonHeader {
   // Counter increment function   
   LL_t incFunc(const size_t = 2);
 
+  // Sequence number of graph resets (Each query resets the whole graph once)
+  inline static size_t m_reset_count{0};
+
 public:
   // Visited flag
   bool m_visited{false};
@@ -51,6 +54,11 @@ public:
   // Default constructor
   MetaMatrix();
 
+  // Start a new graph reset
+  static void newReset() { 
+    ++m_reset_count; 
+  }
+
   // Evaluate run-time
   V_PURE(Matrix<Type>* eval());
 
-- 
2.43.0


From 1b9d3924fcdf1d128c553d4bfc1f78ed39d021e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 04/18] fix: make DevalF/DevalR/JacobianR/HessianR of a scalar
 expression compile (a scalar has no allocatorType)

---
 include/Matrix/CommonMatFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 8216edb..33213e2 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -122,7 +122,7 @@ namespace CoolDiff {
     template <typename T, typename = CoolDiff::TensorR1::Details::IsPureMetaVariableType<T>>
     Matrix<Type>& DevalF(T& exp, const Matrix<Variable>& m, bool serial = true) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), m.allocatorType());
 
       // If T is an expression
       if constexpr (true == std::is_same_v<T, Expression>) {
@@ -166,7 +166,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>> 
     Matrix<Type>& DevalR(T& exp, const Matrix<Variable>& m) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), m.allocatorType());
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -181,7 +181,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& JacobianR(T& exp, const Vector<Variable>& vec) {
       const size_t rows = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1);
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -203,7 +203,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& HessianR(T& exp, const Vector<Variable>& vec) {
       const size_t dim = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim);
       Matrix<Expression> firstSym(dim, 1);
 
       // Exploit Hessian symmetry
-- 
2.43.0


From 37c15c56321ef282150ca2df180e06896f32de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 05/18] fix: fill the off-diagonal entries in HessianR and
 SymHessian

---
 include/Matrix/CommonMatFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 33213e2..c22d9e3 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -212,7 +212,7 @@ namespace CoolDiff {
         // Precompute
         CoolDiff::TensorR1::PreComp(firstSym[i]);
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (i > j) {
             result(i, j) = CoolDiff::TensorR1::DevalR(firstSym[i], vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
@@ -258,7 +258,7 @@ namespace CoolDiff {
       // Exploit Hessian symmetry
       for (size_t i{}; i < dim; ++i) {
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (i > j) {
             result(i, j) = CoolDiff::TensorR1::SymDiff(CoolDiff::TensorR1::SymDiff(exp, vec[i]), vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
-- 
2.43.0


From b30268d4c80201b9723a7ebd7422a89484873022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 06/18] fix: assignment between Parameters carries the value
 over

---
 src/Scalar/Parameter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index 8045668..ba1b44c 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -26,6 +26,7 @@
 void Parameter::swap(Parameter& other) noexcept {
   std::swap(m_nidx, other.m_nidx);
   std::swap(m_cache, other.m_cache);
+  std::swap(this->mp_tmp, other.mp_tmp);
 }
 
 // Constructors
-- 
2.43.0


From 57bf966dd4757cc00639d701fb064618d77302b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 07/18] fix: mixed real/complex subtraction, division and
 comparison

---
 src/CommonHeader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CommonHeader.cpp b/src/CommonHeader.cpp
index bf6ac3c..a42ee7b 100644
--- a/src/CommonHeader.cpp
+++ b/src/CommonHeader.cpp
@@ -33,7 +33,7 @@
 
   // Subtraction (Type and complex number)
   Type operator-(Real val, const Type &cmx) {
-    return {val - cmx.real(), cmx.imag()};
+    return {val - cmx.real(), -cmx.imag()};
   }
 
   Type operator-(const Type &cmx, Real val) {
@@ -51,7 +51,7 @@
 
   // Division (Type and complex number)
   Type operator/(Real val, const Type &cmx) {
-    Real abs_sq = (cmx * cmx).real();
+    Real abs_sq = std::norm(cmx);
     return {(val * cmx.real()) / abs_sq, (-1 * val * cmx.imag()) / abs_sq};
   }
 
@@ -61,19 +61,19 @@
 
   // Not equal (Type and complex number)
   bool operator!=(const Type &cmx, Real val) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator!=(Real val, const Type &cmx) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   // Equal (Type and complex number)
   bool operator==(const Type &cmx, Real val) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator==(Real val, const Type &cmx) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 #endif
-- 
2.43.0


From 5a87d12b832d9fa064fc2d305ca8a6c7f6ef9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 08/18] fix: clear the border in Matrix::pad when the result
 matrix is reused

---
 include/Matrix/MatrixInterface/MatrixUtils.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index d7a2e09..685e21f 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -87,6 +87,8 @@ template<typename T>
 void Matrix<T>::pad(const size_t r, const size_t c, Matrix*& result) const {
     // Special matrix embedding
     MemoryManager::MatrixPool(result, m_rows + 2 * r, m_cols + 2 * c, allocatorType());
+    // The pool can hand back a matrix that is already in use
+    std::fill(EXECUTION_PAR result->getMatrixPtr(), result->getMatrixPtr() + result->getNumElem(), (T)(0));
     result->setBlockMat({r, r + m_rows - 1}, {c, c + m_cols - 1}, this);
 }
 
-- 
2.43.0


From e5cba60b3a07085194a5d956f2b78d318702d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 09/18] fix: write the zero blocks in the naive Kronecker
 product when the result matrix is reused

---
 .../NaiveCPU/MatKronNaiveHandler.hpp              | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
index 432a592..bb1d413 100644
--- a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
@@ -53,14 +53,13 @@ class MatKronNaiveHandler : public T {
           const size_t i = ((n1 - j) / lc);
           Type val = (*lhs)(i, j);
 
-          if ((Type)(0) != val) {
-            std::for_each(EXECUTION_PAR rhs_idx.begin(), rhs_idx.end(),
-                [&](const size_t n2) {
-                  const size_t m = (n2 % rc);
-                  const size_t l = ((n2 - m) / rc);
-                  (*result)((i * rr) + l, (j * rc) + m) = ((*rhs)(l, m) * val);
-                });
-          }
+          std::for_each(EXECUTION_PAR rhs_idx.begin(), rhs_idx.end(),
+              [&](const size_t n2) {
+                const size_t m = (n2 % rc);
+                const size_t l = ((n2 - m) / rc);
+                // Blocks of zero entries are written as well (The result matrix can be a reused one)
+                (*result)((i * rr) + l, (j * rc) + m) = (((Type)(0) != val) ? ((*rhs)(l, m) * val) : (Type)(0));
+              });
         });
 
         return;
-- 
2.43.0


From a91deba2bfab539eefe558c09aeefbc1382dd36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 10/18] fix: the naive transpose and the transpose derivative
 do not conjugate, as the Eigen transpose

---
 .../NaiveCPU/MatDervTransposeNaiveHandler.hpp               | 6 +-----
 .../MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp   | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
index dd73e07..141f851 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
@@ -56,11 +56,7 @@ class MatDervTransposeNaiveHandler : public T {
                               // Inner Row and column index
                               const size_t m = (n2 % ncols_x);
                               const size_t l = ((n2 - m) / ncols_x);
-                              #if defined(USE_COMPLEX_MATH)
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = std::conj((*rhs)(l + (i * nrows_x), m + (j * ncols_x)));
-                              #else
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
-                              #endif
+                              (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
               });
         });
       }
diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
index 6d79778..fdb0531 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
@@ -44,11 +44,7 @@
           // Row and column index
           const size_t j = (n % ncols);
           const size_t i = ((n - j) / ncols);
-          #if defined(USE_COMPLEX_MATH)
-              (*result)(j, i) = std::conj((*rhs)(i, j));
-          #else
-              (*result)(j, i) = (*rhs)(i, j);
-          #endif
+          (*result)(j, i) = (*rhs)(i, j);
         });
       }
 };
\ No newline at end of file
-- 
2.43.0


From 0b25e92e4c17fc963a74841dfe8d53478e8607b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 11/18] fix: DevalR of an unrelated matrix has the shape of
 that matrix

---
 include/Matrix/CommonMatFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index c22d9e3..aa3fa22 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -99,7 +99,7 @@ namespace CoolDiff {
                                                                   std::is_base_of_v<MetaVariable, U>  ||
                                                                   std::is_base_of_v<MetaMatrix, T>>>
     inline Matrix<Type>& DevalR(T& Mexp, const U& X) {
-      if constexpr(true == std::is_base_of_v<U, MetaMatrix>) {
+      if constexpr(true == std::is_base_of_v<MetaMatrix, U>) {
         const size_t nrows = X.getNumRows();
         const size_t ncols = X.getNumColumns();
         if(auto it = Mexp.getCache().find(X.m_nidx); it != Mexp.getCache().end()) {
-- 
2.43.0


From 52db835d860a6bdebe41e8646233df0a86bc64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 12/18] fix: Matrix::getColumn returns the requested column

---
 include/Matrix/MatrixInterface/MatrixAccessors.ipp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixAccessors.ipp b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
index a44bb45..4a00b8f 100644
--- a/include/Matrix/MatrixInterface/MatrixAccessors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
@@ -169,10 +169,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) && {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, &tmp, i](const size_t n) {
+                    tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return std::move(tmp);
@@ -188,10 +186,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) const & {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, &tmp, i](const size_t n) {
+                    tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return tmp;
-- 
2.43.0


From 834f44f0ece55f4db2f3aa74d7a6b3e70b03ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 13/18] fix: reverse mode through a convolution

---
 include/Matrix/BinaryOps/GenericMatConv.hpp | 29 +++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatConv.hpp b/include/Matrix/BinaryOps/GenericMatConv.hpp
index 37f155f..95e7860 100644
--- a/include/Matrix/BinaryOps/GenericMatConv.hpp
+++ b/include/Matrix/BinaryOps/GenericMatConv.hpp
@@ -264,14 +264,27 @@ public:
         const size_t ccols = cCache->getNumColumns(); 
 
         /* IMPORTANT: The derivative is computed here */
-        // Typically, right_mat will be less than cCache dimension, so no need for padding
-        MATRIX_CONV(m_stride_x, m_stride_y, m_pad_x, m_pad_y, cCache, right_mat, mp_arr[2]);
-
-        // Find the best number of zero padding on the input to match the output dimensions (right_mat)
-        const size_t px = (m_stride_x*(rrows - 1) + crows - lrows)/2; 
-        const size_t py = (m_stride_y*(rcols - 1) + ccols - lcols)/2;
-
-        MATRIX_CONV(m_stride_x, m_stride_y, px, py, left_mat, cCache, mp_arr[3]);
+        MemoryManager::MatrixPool(mp_arr[2], lrows, lcols, left_mat->allocatorType());
+        MemoryManager::MatrixPool(mp_arr[3], rrows, rcols, right_mat->allocatorType());
+        CoolDiff::TensorR2::Details::ResetZero(mp_arr[2]);
+        CoolDiff::TensorR2::Details::ResetZero(mp_arr[3]);
+
+        // Each output element (i,j) pulls back to the input block and to the kernel it was computed from
+        for (size_t i{}; i < crows; ++i) {
+          for (size_t j{}; j < ccols; ++j) {
+            for (size_t a{}; a < rrows; ++a) {
+              for (size_t b{}; b < rcols; ++b) {
+                const size_t r = (i * m_stride_x) + a;
+                const size_t c = (j * m_stride_y) + b;
+                // Skip the zero padding around the input
+                if ((r >= m_pad_x) && (r < m_pad_x + lrows) && (c >= m_pad_y) && (c < m_pad_y + lcols)) {
+                  (*mp_arr[2])(r - m_pad_x, c - m_pad_y) += ((*cCache)(i, j) * (*right_mat)(a, b));
+                  (*mp_arr[3])(a, b) += ((*cCache)(i, j) * (*left_mat)(r - m_pad_x, c - m_pad_y));
+                }
+              }
+            }
+          }
+        }
 
         const auto mp_arr2_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[2]);
         const auto mp_arr3_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[3]);
-- 
2.43.0


From ea8430a122eed5232b68b060ec9f3607dccc2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 14/18] fix: vec works on a copy, it does not reshape the value
 and the derivative of its operand

---
 include/Matrix/UnaryOps/GenericMatVec.hpp | 44 +++++++++++++----------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/include/Matrix/UnaryOps/GenericMatVec.hpp b/include/Matrix/UnaryOps/GenericMatVec.hpp
index 2746347..bedc1ee 100644
--- a/include/Matrix/UnaryOps/GenericMatVec.hpp
+++ b/include/Matrix/UnaryOps/GenericMatVec.hpp
@@ -37,7 +37,7 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
         #endif
 
         // All matrices
-        inline static constexpr const size_t m_size{2};
+        inline static constexpr const size_t m_size{4};
         Matrix<Type>* mp_arr[m_size]{};
 
     public:
@@ -80,31 +80,37 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
 
         // Matrix eval computation
         V_OVERRIDE(Matrix<Type>* eval()) {
-            // Get number of rows/columns 
-            const size_t nrows = getNumRows();
-            const size_t ncols = getNumColumns();
-
-            // Reshape and return
-            Matrix<Type>* right_mat = mp_right->eval();
-            right_mat->reshape(nrows, ncols);
-            return right_mat;
+            // Copy and reshape (The operand keeps its own shape)
+            const Matrix<Type>* right_mat = mp_right->eval();
+            const size_t nelem = right_mat->getNumElem();
+            MemoryManager::MatrixPool(mp_arr[2], nelem, 1, allocatorType());
+            std::copy(EXECUTION_PAR right_mat->getMatrixPtr(), right_mat->getMatrixPtr() + nelem, mp_arr[2]->getMatrixPtr());
+            return mp_arr[2];
         }
 
         // Matrix devalF computation
         V_OVERRIDE(Matrix<Type>* devalF(Matrix<Variable>& X)) {
-            // Get number of rows/columns 
+            // Get number of rows/columns of X
             const size_t xrows = X.getNumRows(); 
             const size_t xcols = X.getNumColumns();
-            const size_t nrows = getNumRows();
-            const size_t ncols = getNumColumns();
 
-            // Matrix derivative vectorization
-            Matrix<Variable> Y(1, xrows*xcols, X.getMatrixPtr());
-
-            // Reshape and return
-            Matrix<Type>* dright_mat = mp_right->devalF(Y);
-            dright_mat->reshape(nrows*xrows, ncols*xcols);
-            return dright_mat;
+            // Right matrix derivative
+            const Matrix<Type>* dright_mat = mp_right->devalF(X);
+            const size_t nrows = (dright_mat->getNumRows() / xrows);
+            const size_t ncols = (dright_mat->getNumColumns() / xcols);
+
+            // Stack the derivative blocks of the elements in the order of vectorization
+            MemoryManager::MatrixPool(mp_arr[3], (nrows*ncols*xrows), xcols, allocatorType());
+            for(size_t n{}; n < nrows*ncols; ++n) {
+                const size_t j = (n % ncols);
+                const size_t i = ((n - j) / ncols);
+                for(size_t l{}; l < xrows; ++l) {
+                    for(size_t m{}; m < xcols; ++m) {
+                        (*mp_arr[3])((n*xrows) + l, m) = (*dright_mat)((i*xrows) + l, (j*xcols) + m);
+                    }
+                }
+            }
+            return mp_arr[3];
         }
 
         // Traverse
-- 
2.43.0


From 80ad08dfd8dce270b9b8ea39172d129799a3fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 15/18] fix: symbolic value of constant / expression keeps the
 constant

The derivative of f(c / u) was taken at f'(1 / u).
---
 include/Scalar/BinaryOps/GenericDiv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Scalar/BinaryOps/GenericDiv.hpp b/include/Scalar/BinaryOps/GenericDiv.hpp
index 7893f31..9a22fef 100644
--- a/include/Scalar/BinaryOps/GenericDiv.hpp
+++ b/include/Scalar/BinaryOps/GenericDiv.hpp
@@ -257,7 +257,7 @@ public:
   V_OVERRIDE(Variable* symEval()) {
     // Evaluate variable in run-time
     if (nullptr == this->mp_tmp) {
-      auto tmp = Allocate<Expression>((Type)(1) / (EVAL_R()));
+      auto tmp = Allocate<Expression>(mp_left / (EVAL_R()));
       this->mp_tmp = tmp.get();
     }
     return this->mp_tmp;
-- 
2.43.0


From ff08dd7a02265ea26df4df415c0c0194c9343d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 16/18] fix: elementwise matrix division of zero and negative
 entries

---
 include/Matrix/CommonMatFunctions.hpp |  5 ++++-
 include/Matrix/UnaryFunctions.hpp     | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index aa3fa22..f3c8a62 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -324,6 +324,9 @@ UNARY_MATRIX_OPERATOR(SigmoidM, Sigmoid<Type>, DSigmoid<Type>);
   UNARY_MATRIX_OPERATOR(AbsM, Abs<Type>, DAbs<Type>)
 #endif
 
+// Matrix reciprocal function (element wise)
+UNARY_MATRIX_OPERATOR(RecipM, Recip<Type>, DRecip<Type>)
+
 // Matrix element wise division function
 template <typename T1, typename T2>
 constexpr const auto& operator/(const IMatrix<T1>& X, const IMatrix<T2>& Y) {
@@ -340,7 +343,7 @@ constexpr const auto& operator/(const IMatrix<T1>& X, const IMatrix<T2>& Y) {
   ASSERT((X.allocatorType() == Y.allocatorType()), "LHS and RHS matrices live in different memory spaces");
   
   // Return expression
-  return ExpM(LogM(X) - LogM(Y));
+  return (X ^ RecipM(Y));
 }
 
 // Matrix broadcast function 
diff --git a/include/Matrix/UnaryFunctions.hpp b/include/Matrix/UnaryFunctions.hpp
index 4f1e97c..43a672c 100644
--- a/include/Matrix/UnaryFunctions.hpp
+++ b/include/Matrix/UnaryFunctions.hpp
@@ -156,6 +156,18 @@ __host__ __device__ T DAbs(T x) {
     return (T)(((T)(0) < x) - (x < (T)(0)));
 }
 
+// Reciprocal function 
+template<typename T>
+__host__ __device__ T Recip(T x) { 
+    return (T)((T)1/(x)); 
+}
+
+// Derivative of reciprocal function 
+template<typename T>
+__host__ __device__ T DRecip(T x) { 
+    return (T)((T)(-1)/(x*x)); 
+}
+
 // List of device functions
 enum DEVICE_FUNCTIONS {
     SIN = 0, DSIN, 
@@ -168,6 +180,7 @@ enum DEVICE_FUNCTIONS {
     RELU, DRELU, 
     LEAKYRELU, DLEAKYRELU, 
     ABS, DABS,
+    RECIP, DRECIP,
     COUNT
 };
 
@@ -189,6 +202,7 @@ __global__ void DeviceFunctionsInit() {
     device_functions<T>[DEVICE_FUNCTIONS::RELU] = ReLU<T>;           device_functions<T>[DEVICE_FUNCTIONS::DRELU] = DReLU<T>;
     device_functions<T>[DEVICE_FUNCTIONS::LEAKYRELU] = LeakyReLU<T>; device_functions<T>[DEVICE_FUNCTIONS::DLEAKYRELU] = DLeakyReLU<T>;
     device_functions<T>[DEVICE_FUNCTIONS::ABS] = Abs<T>;             device_functions<T>[DEVICE_FUNCTIONS::DABS] = DAbs<T>;
+    device_functions<T>[DEVICE_FUNCTIONS::RECIP] = Recip<T>;         device_functions<T>[DEVICE_FUNCTIONS::DRECIP] = DRecip<T>;
 }
 
 // Map of all device functions and its enum
@@ -203,4 +217,5 @@ std::unordered_map<FunctionTypeCuda<T>, int> device_functions_map{  /* <-- Funct
                                                                     {Sigmoid<T>, SIGMOID},          {DSigmoid<T>, DSIGMOID},
                                                                     {ReLU<T>, RELU},                {DReLU<T>, DRELU},
                                                                     {LeakyReLU<T>, LEAKYRELU},      {DLeakyReLU<T>, DLEAKYRELU},
-                                                                    {Abs<T>, ABS},                  {DAbs<T>, DABS}};
\ No newline at end of file
+                                                                    {Abs<T>, ABS},                  {DAbs<T>, DABS},
+                                                                    {Recip<T>, RECIP},              {DRecip<T>, DRECIP}};
\ No newline at end of file
-- 
2.43.0


From 1ad1fb160afb3412381ec9ebd23e168642e02b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 17/18] fix: derivative of a Matrix<Variable> by itself
 compares entries, as entries can be shared or re-assigned

---
 .../Matrix/MatrixInterface/MatrixUtils.ipp    | 21 ++-----------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 685e21f..b913e6c 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -135,25 +135,8 @@ void Matrix<T>::setDevalF(const Matrix<Variable>& X) {
     }
     // If the matrix type is Variable
     else if constexpr (true == std::is_same_v<T, Variable>) {
-        // Last is the most important condition to delineate Matrix<Variable>'s
-        if ((nullptr != getMatrixPtr()) && (nullptr != mp_dresult) && (nullptr != mp_dresult->getMatrixPtr()) && (m_nidx == X.m_nidx)) {
-            // Get dimensions of X variable matrix
-            const size_t xrows = X.getNumRows();
-            const size_t xcols = X.getNumColumns();
-
-            // Vector of indices in X matrix
-            const auto idx = CoolDiff::Common::Range<size_t>(0, X.getNumElem());
-            // Logic for Kronecker product (With ones)
-            std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                    [this, xrows, xcols](const size_t n) {
-                        const size_t j = (n % xcols);
-                        const size_t i = ((n - j) / xcols);
-                        // Inner loop
-                        (*mp_dresult)((i * xrows) + i, (j * xcols) + j) = (Type)(1);
-            });
-        }
-        // If the Matrix is Variable, but of different form
-        else if ((nullptr != getMatrixPtr()) &&  (nullptr != mp_dresult) && (nullptr != mp_dresult->getMatrixPtr())) {
+        // Entry by entry, as copies of a matrix can hold other variables
+        if ((nullptr != getMatrixPtr()) && (nullptr != mp_dresult) && (nullptr != mp_dresult->getMatrixPtr())) {
             // Get dimensions of X variable matrix
             const size_t xrows = X.getNumRows();
             const size_t xcols = X.getNumColumns();
-- 
2.43.0


From 9c9b3c5a754b9d77dc28cd2f13a02adf40939a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 18/18] fix: DevalF of an expression by a matrix of variables
 does not evaluate shared nodes in parallel

---
 include/Matrix/CommonMatFunctions.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index f3c8a62..80379c2 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -131,13 +131,13 @@ namespace CoolDiff {
                         [&exp](const auto &v) { return CoolDiff::TensorR1::DevalF(exp, v); });
           return result;
         } else {
-          // Copy expression and fill it up with exp
+          // Copy expression and fill it up with exp (The copies share the nodes of exp, so the evaluation is serial)
           Vector<Expression> exp_coll(n);
           exp_coll.reserve(n);
-          std::fill(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), exp);
+          std::fill(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(), exp);
 
           // Tranform and get results
-          std::transform(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), m.getMatrixPtr(), result.getMatrixPtr(),
+          std::transform(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(), m.getMatrixPtr(), result.getMatrixPtr(),
                         [](auto &v1, const auto &v2) { return CoolDiff::TensorR1::DevalF(v1, v2); });
           return result;
         }
@@ -148,13 +148,13 @@ namespace CoolDiff {
         std::transform(EXECUTION_SEQ m.getMatrixPtr(), m.getMatrixPtr() + n, result.getMatrixPtr(),
                       [&exp](const auto &v) { return CoolDiff::TensorR1::DevalF(exp, v); });
       } else {
-        // Copy expression and fill it up with exp
+        // Copy expression and fill it up with exp (The copies share the nodes of exp, so the evaluation is serial)
         Vector<Expression> exp_coll(n);
         exp_coll.reserve(n);
-        std::fill(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), exp);
+        std::fill(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(), exp);
 
         // Tranform and get results
-        std::transform(EXECUTION_PAR exp_coll.begin(), exp_coll.end(),
+        std::transform(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(),
                       m.getMatrixPtr(), result.getMatrixPtr(),
                       [](auto &v1, const auto &v2) { return CoolDiff::TensorR1::DevalF(v1, v2); });
       }
-- 
2.43.0

