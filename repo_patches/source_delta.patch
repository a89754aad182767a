From 72e98dcdefb49a5c99b0ec6fca25f2a825b70a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 01/39] fix: moveit has to exchange the ownership flag too

A default constructed variable could be assigned only once: after the exchange
its empty storage was still flagged as allocated and the next assignment failed
with 'try to delete nullptr'.
---
 include/etr_bits/Core/BaseStore.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 144b8e4..fb6e9d6 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -294,15 +294,17 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   template <typename L2> BaseStore &moveit(L2 &other) {
     T *temporary = other.p;
-    int tempSize = other.sz;
-    int tempCapacity = other.capacity;
+    std::size_t tempSize = other.sz;
+    std::size_t tempCapacity = other.capacity;
+    bool tempAllocated = other.allocated;
     other.p = this->p;
     other.sz = this->sz;
     other.capacity = this->capacity;
+    other.allocated = this->allocated;
     this->p = temporary;
     this->sz = tempSize;
     this->capacity = tempCapacity;
-    allocated = true;
+    this->allocated = tempAllocated;
     return *this;
   }
   auto begin() const { return It<T>{p}; }
-- 
2.43.0


From e6d868cba9e06fce82d7926cd4304c96480b95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 02/39] fix: take over the capacity when a vector is built from
 a function result

The constructor exchanged pointer and size but left the capacity at zero, so
that copies of such a vector read and wrote beyond their allocation.
---
 include/etr_bits/Vector/Constructors.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index b9c576f..66f73e8 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -199,13 +199,7 @@ Vec(Vec<T2, R2, Trait2> &&other_vec) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
   } else {
-    std::size_t temp = other_vec.size();
-    d.allocated = other_vec.d.allocated;
-    other_vec.d.sz = this->size();
-    d.sz = temp;
-    T *tempP = other_vec.d.p;
-    other_vec.d.p = d.p;
-    d.p = tempP;
+    d.moveit(other_vec.d);
     if (other_vec.d.im()) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
-- 
2.43.0


From cc6935d3c4046b5c8a54cf657c8ea31206dbc1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 03/39] fix: copying or moving storage keeps the matrix shape

---
 include/etr_bits/Core/BaseStore.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index fb6e9d6..a313bf3 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -34,17 +34,18 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   // constructors
   BaseStore(const BaseStore<T> &other)
-      : sz(other.sz), capacity(other.capacity), allocated(other.allocated) {
+      : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
+        mp(other.mp) {
     if (other.allocated) {
       p = new T[capacity];
-      std::copy(other.p, other.p + capacity, p);
+      std::copy(other.p, other.p + sz, p);
     } else {
       p = nullptr;
     }
   }
   BaseStore(BaseStore<T> &&other) noexcept
       : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
-        p(other.p) {
+        p(other.p), mp(other.mp) {
     other.capacity = 0;
     other.sz = 0;
     other.allocated = false;
-- 
2.43.0


From 55cf2fc920caeff5c51e1a9c4213682c6145e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 04/39] fix: assigning a shorter storage has to shrink the
 target

The copy loop ran over the old length and failed with an out of boundaries
error; the matrix shape was not assigned either.
---
 include/etr_bits/Core/BaseStore.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index a313bf3..a3907e8 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -138,10 +138,13 @@ template <typename T, typename BaseTrait> struct BaseStore {
       } else {
         resize(other.size());
       }
+    } else {
+      this->sz = other.size();
     }
     for (std::size_t i = 0; i < this->sz; i++) {
       p[i] = other[i];
     }
+    mp.setMatrix(other.mp);
     return *this;
   }
 
-- 
2.43.0


From af75e2690bc474eda106448b4ab982e5d2eccac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 05/39] fix: a vector or scalar assigned to a matrix variable
 makes it a vector

The matrix flag and dimensions of the former value were kept, although they no
longer described the stored elements.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index a813443..5865909 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -23,6 +23,9 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = inp;
     }
+    if constexpr (!isSubset::value && !isVarPointer::value) {
+      d.setMatrix(false, 0, 0);
+    }
     return *this;
   } else {
     if constexpr (isSubset::value) {
@@ -36,6 +39,9 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = static_cast<T>(inp);
     }
+    if constexpr (!isSubset::value && !isVarPointer::value) {
+      d.setMatrix(false, 0, 0);
+    }
     return *this;
   }
 }
@@ -105,6 +111,8 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
   }
   if (otherVec.d.im()) {
     d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+  } else if constexpr (!isSubset::value && !isVarPointer::value) {
+    d.setMatrix(false, 0, 0);
   }
   return *this;
 }
@@ -230,10 +238,14 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
   if constexpr (isVariableType::value) {
     if (otherVec.d.im()) {
       d.setMatrix(d.AllVarsRef, true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(d.AllVarsRef, false, 0, 0);
     }
   } else {
     if (otherVec.d.im()) {
       d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+    } else if constexpr (!isSubset::value) {
+      d.setMatrix(false, 0, 0);
     }
   }
   return *this;
-- 
2.43.0


From 8b305fd11b564ac0ce7b733a2e4282ac15525d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 06/39] fix: assigning to a subset must not resize the
 subsetted variable

A selection with repeated positions can be longer than the variable. In that
case the variable was resized (and its elements lost) before the assignment.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 5865909..0dfec51 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -103,8 +103,6 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    if (d.p->size() < temp.size())
-      d.resize(temp.size());
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
-- 
2.43.0


From 1549771bde1d0f144c1a36b00c5d8e046bd135da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 07/39] fix: recycle the elements of a subset over its own
 length

Positions were reduced modulo the length of the underlying variable, so that
elements of a selection longer than the variable were addressed wrongly.
---
 include/etr_bits/Core/SubsetClass.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 26bc638..3e0b8c8 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -61,12 +61,12 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
@@ -129,7 +129,7 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
-- 
2.43.0


From 674f26b1e96b7713842fa4e3b0ae7bdaf748cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 08/39] fix: missing parentheses in matrix[double, double]
 subsetting

m(2.0, 3.0) addressed element 3 - nr + 2 instead of row 2 of column 3.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index a2499f5..e16c68b 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -234,7 +234,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = convertSize(*idxR) - 1 * vec.nr() + indexRow;
+    ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
-- 
2.43.0


From 31c23a3051ec82398831297f629091916a89a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 09/39] fix: truncate a fractional column in
 matrix[vec<double>, double]

The fraction was multiplied with the number of rows and addressed a different
row; all other combinations truncate the position first.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index e16c68b..15e608e 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -437,7 +437,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
       }
       return;
     } else {
-- 
2.43.0


From e449cf9eeb2d795d4c1ecbc45115698b3233705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 10/39] fix: matrix[vec<bool>, vec] yields a matrix

It is the only combination of two vectors that did not set the dimensions.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 15e608e..01a8caa 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -521,6 +521,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
           counter++;
         }
       }
+      mp.setMatrix(true, positions.size(), idxR->size());
       return;
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
-- 
2.43.0


From 93202b4a0e6c6c759b151df65ee3bb75e2656cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 11/39] fix: back() has to return the last element

It returned the element after the last one. cmr used it and therefore read
beyond the end of the time vector in the last interval.
---
 include/etr_bits/Core/BaseStore.hpp     | 2 +-
 include/etr_bits/Core/Borrow.hpp        | 2 +-
 include/etr_bits/Vector/VectorClass.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index a3907e8..7e7aa06 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -313,7 +313,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index bed8808..eb909e0 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -154,7 +154,7 @@ template <typename T, typename BorrowTrait> struct Borrow {
   template <typename L2> Borrow &moveit(L2 &other) = delete;
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
   void realloc(int new_size) = delete;
   void push_back(T input) = delete;
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index ce974b2..e7b6b42 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -83,7 +83,7 @@ template <typename T, typename R, typename Trait> struct Vec {
     }
   }
 
-  T &back() const { return d.p[this->size()]; }
+  T &back() const { return d.p[this->size() - 1]; }
   void fill(T value) { d.fill(value); }
   void resize(std::size_t newSize) { d.resize(newSize); }
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
-- 
2.43.0


From f1fe17aed6b99ead9edb5b19514e3def406d67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 12/39] fix: unary functions keep the shape of a matrix

---
 include/etr_bits/UnaryCalculations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 3b0be8e..254aede 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -14,7 +14,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
   using typeTraitObj = I;
   MatrixParameter mp;
   bool im() const {
-    if constexpr (std::is_arithmetic_v<I>) {
+    if constexpr (!std::is_arithmetic_v<I>) {
       return obj.im();
     } else {
       return false;
-- 
2.43.0


From 2428eb3b81d85f5cb6fed3e29dac58d5e06299c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 13/39] fix: filling from a function result must respect
 capacity and ownership

BaseStore took over the memory but kept its old capacity, and Borrow released
memory it does not own and then pointed to a different allocation.
---
 include/etr_bits/Core/BaseStore.hpp | 6 +-----
 include/etr_bits/Core/Borrow.hpp    | 5 +----
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 7e7aa06..89fa929 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -171,11 +171,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
         std::copy(ptr, ptr + sz, p);
       }
     } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
+      moveit(inp.d);
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index eb909e0..73f0b47 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -104,11 +104,8 @@ template <typename T, typename BorrowTrait> struct Borrow {
         std::copy(ptr, ptr + sz, p);
       }
     } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
       DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
+      std::copy(ptr, ptr + sz, p);
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From 1aaf6ccd96a75a5ac80d047c7511f276307a6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 14/39] fix: vector_logical(variable) has to create the
 requested length

The length was converted to bool, so that the vector always had one element.
---
 include/etr_bits/Allocation/Vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 7e27d3b..841cd45 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -54,14 +54,14 @@ template <typename T> inline auto vector_logical(const T &inp) {
 
 template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<bool>(inp[0]);
+    return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
-- 
2.43.0


From b948f0f67478a585ddbc5f3ca055ea20b263952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 15/39] fix: recycle short logical indices over the rows or
 columns of a matrix

---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 53 ++++++++++---------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 01a8caa..5fbbd17 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -35,6 +35,11 @@ namespace etr {
 [25,] "vecbool" "vecbool"
 */
 
+// NOTE: a logical index which is shorter than the dimension is recycled
+inline std::size_t maskLength(std::size_t sizeMask, std::size_t extent) {
+  return sizeMask < extent ? extent : sizeMask;
+}
+
 template <typename T, typename I, typename R, typename C>
 inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
                           const C *idxR) {
@@ -81,18 +86,18 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         return;
       }
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
+      for (std::size_t i = 0; i < maskLength(idxR->size(), vec.nc()); i++) {
+        if ((*idxR)[i % idxR->size()])
           counter++;
       }
       ass(counter > 0, "subset has to have at least one element");
       BaseStore<std::size_t> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < maskLength(idxR->size(), vec.nc()); i++) {
         if (((i % vec.nc()) == 0) && i != 0)
           counter2++;
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -293,17 +298,17 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         return;
       }
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i])
+      for (std::size_t i = 0; i < maskLength(idxL->size(), vec.nr()); i++) {
+        if ((*idxL)[i % idxL->size()])
           counter++;
       }
       BaseStore<std::size_t> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < maskLength(idxL->size(), vec.nr()); i++) {
         if (((i % vec.nr()) == 0) && i != 0)
           counter2++;
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -451,36 +456,36 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     using DataTypeC = ExtractDataType<C>::RetType;
     if constexpr (is<DataTypeR, bool> && is<DataTypeC, bool>) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i] == true) {
+      for (std::size_t i = 0; i < maskLength(idxL->size(), vec.nr()); i++) {
+        if ((*idxL)[i % idxL->size()]) {
           counter++;
         }
       }
       BaseStore<int> positions_rows(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < maskLength(idxL->size(), vec.nr()); i++) {
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions_rows[counter] = i - counter2 * vec.nr();
           counter++;
         }
       }
       counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
+      for (std::size_t i = 0; i < maskLength(idxR->size(), vec.nc()); i++) {
+        if ((*idxR)[i % idxR->size()])
           counter++;
       }
       BaseStore<int> positions_cols(counter);
       counter = 0;
       counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < maskLength(idxR->size(), vec.nc()); i++) {
         if (((i % vec.nc()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions_cols[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -498,17 +503,17 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, bool> &&
                          (is<DataTypeC, int> || is<DataTypeC, double>)) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++)
-        if ((*idxL)[i])
+      for (std::size_t i = 0; i < maskLength(idxL->size(), vec.nr()); i++)
+        if ((*idxL)[i % idxL->size()])
           counter++;
       BaseStore<int> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < maskLength(idxL->size(), vec.nr()); i++) {
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -526,17 +531,17 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++)
-        if ((*idxR)[i])
+      for (std::size_t i = 0; i < maskLength(idxR->size(), vec.nc()); i++)
+        if ((*idxR)[i % idxR->size()])
           counter++;
       BaseStore<int> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < maskLength(idxR->size(), vec.nc()); i++) {
         if (((i % vec.nc()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
-- 
2.43.0


From 59d54c392a7e3a4424662e430ca567721fe40baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 16/39] fix: reject matrix positions outside of the rows or
 columns

---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 70 +++++++++++--------
 include/etr_bits/Subsetting/at.hpp            | 26 +++----
 2 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 5fbbd17..3b5aa7b 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -35,6 +35,16 @@ namespace etr {
 [25,] "vecbool" "vecbool"
 */
 
+// NOTE: index of an element based on zero based row and column.
+// Positions outside of the matrix are mapped to an index beyond the data, thus
+// they are rejected when accessed instead of addressing another column.
+template <typename T>
+inline std::size_t matrixIndex(const T &vec, std::size_t row, std::size_t col) {
+  if (row < vec.nr() && col < vec.nc())
+    return col * vec.nr() + row;
+  return std::numeric_limits<std::size_t>::max();
+}
+
 // NOTE: a logical index which is shorter than the dimension is recycled
 inline std::size_t maskLength(std::size_t sizeMask, std::size_t extent) {
   return sizeMask < extent ? extent : sizeMask;
@@ -63,7 +73,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nr());
     for (std::size_t j = 0; j < vec.nr(); j++) {
-      ind[j] = (*idxR - 1) * vec.nr() + j;
+      ind[j] = matrixIndex(vec, j, *idxR - 1);
     }
     mp.setMatrix(false, 0, 0);
     return;
@@ -74,7 +84,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nr());
     for (std::size_t j = 0; j < vec.nr(); j++) {
-      ind[j] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + j;
+      ind[j] = matrixIndex(vec, j, static_cast<std::size_t>(*idxR) - 1);
     }
     mp.setMatrix(false, 0, 0);
     return;
@@ -106,7 +116,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = (positions[j]) * vec.nr() + i;
+          ind[counter] = matrixIndex(vec, i, positions[j]);
           counter++;
         }
       }
@@ -121,7 +131,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.nr() * idxR->size());
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = (d2i((*idxR)[j]) - 1) * vec.nr() + i;
+          ind[counter] = matrixIndex(vec, i, d2i((*idxR)[j]) - 1);
           counter++;
         }
       }
@@ -135,7 +145,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.nr() * idxR->size());
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = ((*idxR)[j] - 1) * vec.nr() + i;
+          ind[counter] = matrixIndex(vec, i, (*idxR)[j] - 1);
           counter++;
         }
       }
@@ -154,20 +164,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nc());
     for (std::size_t j = 0; j < vec.nc(); j++)
-      ind[j] = j * vec.nr() + (indexRow - 1);
+      ind[j] = matrixIndex(vec, indexRow - 1, j);
     mp.setMatrix(false, 0, 0);
     return;
   } else if constexpr (isd<R, int, C, int>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (*idxR - 1) * vec.nr() + indexRow;
+    ind[0] = matrixIndex(vec, indexRow, *idxR - 1);
     return;
   } else if constexpr (isd<R, int, C, double>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + indexRow;
+    ind[0] = matrixIndex(vec, indexRow, static_cast<std::size_t>(*idxR) - 1);
     return;
   } else if constexpr (is<R, int> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
@@ -194,7 +204,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(positions.size());
       indexRow--;
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = (d2i(positions[j])) * vec.nr() + indexRow;
+        ind[j] = matrixIndex(vec, indexRow, d2i(positions[j]));
       }
       mp.setMatrix(false, 0, 0);
       return;
@@ -203,14 +213,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
+        ind[j] = matrixIndex(vec, indexRow, (*idxR)[j] - 1);
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = static_cast<std::size_t>(*idxL);
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
+        ind[j] = matrixIndex(vec, indexRow, d2i((*idxR)[j]) - 1);
       mp.setMatrix(false, 0, 0);
     } else {
       static_assert(sizeof(T) == 0,
@@ -226,20 +236,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nc());
     for (std::size_t j = 0; j < vec.nc(); j++)
-      ind[j] = j * convertSize(vec.nr()) + (indexRow - 1);
+      ind[j] = matrixIndex(vec, indexRow - 1, j);
     mp.setMatrix(false, 0, 0);
     return;
   } else if constexpr (isd<R, double, C, int>) {
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (*idxR - 1) * convertSize(vec.nr()) + indexRow;
+    ind[0] = matrixIndex(vec, indexRow, *idxR - 1);
     return;
   } else if constexpr (isd<R, double, C, double>) {
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
+    ind[0] = matrixIndex(vec, indexRow, convertSize(*idxR) - 1);
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
@@ -266,7 +276,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(positions.size());
       indexRow--;
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = (d2i(positions[j])) * vec.nr() + indexRow;
+        ind[j] = matrixIndex(vec, indexRow, d2i(positions[j]));
       }
       mp.setMatrix(false, 0, 0);
       return;
@@ -275,14 +285,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
+        ind[j] = matrixIndex(vec, indexRow, (*idxR)[j] - 1);
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = convertSize(*idxL);
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
+        ind[j] = matrixIndex(vec, indexRow, d2i((*idxR)[j]) - 1);
       mp.setMatrix(false, 0, 0);
     } else {
       static_assert(sizeof(T) == 0,
@@ -318,7 +328,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < vec.nc(); j++) {
         for (std::size_t i = 0; i < positions.size(); i++) {
-          ind[counter] = j * vec.nr() + positions[i];
+          ind[counter] = matrixIndex(vec, positions[i], j);
           counter++;
         }
       }
@@ -333,7 +343,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + ((*idxL)[j] - 1);
+          ind[counter] = matrixIndex(vec, (*idxL)[j] - 1, i);
           counter++;
         }
       }
@@ -348,7 +358,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + (d2i((*idxL)[j]) - 1);
+          ind[counter] = matrixIndex(vec, d2i((*idxL)[j]) - 1, i);
           counter++;
         }
       }
@@ -383,20 +393,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       }
       ind.resize(positions.size());
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + positions[j];
+        ind[j] = matrixIndex(vec, positions[j], (*idxR) - 1);
       }
       mp.setMatrix(false, 0, 0);
       return;
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = matrixIndex(vec, (*idxL)[j] - 1, (*idxR) - 1);
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = matrixIndex(vec, d2i((*idxL)[j]) - 1, (*idxR) - 1);
       }
       return;
     } else {
@@ -429,20 +439,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       }
       ind.resize(positions.size());
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + positions[j];
+        ind[j] = matrixIndex(vec, positions[j], convertSize(*idxR) - 1);
       }
       mp.setMatrix(false, 0, 0);
       return;
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = matrixIndex(vec, (*idxL)[j] - 1, convertSize(*idxR) - 1);
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = matrixIndex(vec, d2i((*idxL)[j]) - 1, convertSize(*idxR) - 1);
       }
       return;
     } else {
@@ -494,7 +504,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions_cols.size(); j++) {
         for (std::size_t i = 0; i < positions_rows.size(); i++) {
-          ind[counter] = positions_cols[j] * vec.nr() + positions_rows[i];
+          ind[counter] = matrixIndex(vec, positions_rows[i], positions_cols[j]);
           counter++;
         }
       }
@@ -522,7 +532,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < positions.size(); i++) {
-          ind[counter] = (d2i((*idxR)[j]) - 1) * vec.nr() + positions[i];
+          ind[counter] = matrixIndex(vec, positions[i], d2i((*idxR)[j]) - 1);
           counter++;
         }
       }
@@ -550,7 +560,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < idxL->size(); i++) {
-          ind[counter] = (positions[j]) * vec.nr() + d2i((*idxL)[i]) - 1;
+          ind[counter] = matrixIndex(vec, d2i((*idxL)[i]) - 1, positions[j]);
           counter++;
         }
       }
@@ -563,7 +573,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       for (std::size_t i = 0; i < idxR->size(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
           ind[counter] =
-              (d2i((*idxR)[i]) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+              matrixIndex(vec, d2i((*idxL)[j]) - 1, d2i((*idxR)[i]) - 1);
           counter++;
         }
       }
diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 80f2967..8a9cad8 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -58,24 +58,21 @@ inline auto &at(T &inp, R r, C c) {
   if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
     r--;
     c--;
-    ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r) < inp.size(),
+    ass(r >= 0 && r < inp.nr() && c >= 0 && c < inp.nc(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c * inp.nr() + r];
   } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
     int r_ = d2i(r);
     r_--;
     c--;
-    ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r_) < inp.size(),
+    ass(r_ >= 0 && r_ < inp.nr() && c >= 0 && c < inp.nc(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c * inp.nr() + r_];
   } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
     r--;
     int c_ = d2i(c);
     c_--;
-    ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r) < inp.size(),
+    ass(r >= 0 && r < inp.nr() && c_ >= 0 && c_ < inp.nc(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c_ * inp.nr() + r];
   } else {
@@ -83,9 +80,7 @@ inline auto &at(T &inp, R r, C c) {
     int c_ = d2i(c);
     r_--;
     c_--;
-    ass((c_ * inp.nr() + r_) >= 0,
-        "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r_) < inp.size(),
+    ass(r_ >= 0 && r_ < inp.nr() && c_ >= 0 && c_ < inp.nc(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c_ * inp.nr() + r_];
   }
@@ -100,24 +95,21 @@ inline auto at(const T &inp, R r, C c) {
   if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
     r--;
     c--;
-    ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r) < inp.size(),
+    ass(r >= 0 && r < inp.nr() && c >= 0 && c < inp.nc(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c * inp.nr() + r];
   } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
     int r_ = d2i(r);
     r_--;
     c--;
-    ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r_) < inp.size(),
+    ass(r_ >= 0 && r_ < inp.nr() && c >= 0 && c < inp.nc(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c * inp.nr() + r_];
   } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
     r--;
     int c_ = d2i(c);
     c_--;
-    ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r) < inp.size(),
+    ass(r >= 0 && r < inp.nr() && c_ >= 0 && c_ < inp.nc(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c_ * inp.nr() + r];
   } else {
@@ -125,9 +117,7 @@ inline auto at(const T &inp, R r, C c) {
     int c_ = d2i(c);
     r_--;
     c_--;
-    ass((c_ * inp.nr() + r_) >= 0,
-        "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r_) < inp.size(),
+    ass(r_ >= 0 && r_ < inp.nr() && c_ >= 0 && c_ < inp.nc(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c_ * inp.nr() + r_];
   }
-- 
2.43.0


From efcb6bc41617a0f5d0dec648452d92016d471ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 17/39] fix: derivative of a quotient divides by the squared
 denominator

---
 include/etr_bits/Core/Traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 5802388..8e41cd8 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -98,7 +98,7 @@ struct DivideDerivTrait {
   static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
                                                     RDeriv rd) {
     return (ld * r - l * rd) /
-           std::pow(rd, 2); // TODO: add check for integral ...
+           std::pow(r, 2); // TODO: add check for integral ...
   }
 };
 
-- 
2.43.0


From 5b45e8f1b4cfccf53f518162f71fab701b63c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 18/39] fix: apply the chain rule for unary functions

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 74da964..5854f86 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -74,11 +74,8 @@ template <typename Deriv, typename Trait, typename OpTrait> struct UnaryType {
     return Op::f(Deriv::getVal(av, idx));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    if constexpr (IsConstant<Deriv> || IsVariableType<Deriv>) {
-      return Op::fDeriv(Deriv::getVal(av, idx));
-    } else {
-      return Op::fDeriv(Deriv::getDeriv(av, idx));
-    }
+    // NOTE: chain rule
+    return Op::fDeriv(Deriv::getVal(av, idx)) * Deriv::getDeriv(av, idx);
   }
 };
 
-- 
2.43.0


From 986a48889fb43de50c997d923955c7033d9dab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 19/39] fix: assignment of expressions to tracked variables
 uses the old derivatives

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 0dfec51..cec03c1 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -206,14 +206,19 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         temp[i] = otherVec.d[i];
       }
-      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      for (std::size_t i = 0; i < res.getSize(d.AllVarsRef); i++) {
-        d.setDeriv(d.AllVarsRef, i, res.getDeriv(d.AllVarsRef, i));
+      // NOTE: the derivatives have to be calculated based on the old values
+      // and derivatives as the target can be part of the expression
+      Buffer<BaseType> tempDerivs;
+      tempDerivs.resize(otherVec.size());
+      for (std::size_t i = 0; i < otherVec.size(); i++) {
+        tempDerivs[i] = res.getDeriv(d.AllVarsRef, i);
       }
 
-      d.resize(otherVec.size());
-      for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = temp[i];
+      d.resize(temp.size());
+      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, temp.size());
+      for (std::size_t i = 0; i < temp.size(); i++) {
+        d.setVal(d.AllVarsRef, i, temp[i]);
+        d.setDeriv(d.AllVarsRef, i, tempDerivs[i]);
       }
 
     }
-- 
2.43.0


From 6d9b0998c26602f6e7092e0f54919385a3c185a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 20/39] fix: assignment of constants to tracked borrowed
 variables

---
 include/etr_bits/Derivatives/VarPointer.hpp    | 9 ++++++---
 include/etr_bits/Vector/AssignmentOperator.hpp | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/VarPointer.hpp b/include/etr_bits/Derivatives/VarPointer.hpp
index 96fc23e..c76c147 100644
--- a/include/etr_bits/Derivatives/VarPointer.hpp
+++ b/include/etr_bits/Derivatives/VarPointer.hpp
@@ -151,7 +151,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 0) {
       if (av.varBufferDerivs[Idx].size() != av.varBuffer[Idx].size()) {
         av.varBufferDerivs[Idx].resize(av.varBuffer[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBufferDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -160,7 +161,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 1) {
       if (av.varBorrowDerivs[Idx].size() != av.varBorrow[Idx].size()) {
         av.varBorrowDerivs[Idx].resize(av.varBorrow[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -169,7 +171,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 2) {
       if (av.varBorrowSEXPDerivs[Idx].size() != av.varBorrowSEXP[Idx].size()) {
         av.varBorrowSEXPDerivs[Idx].resize(av.varBorrowSEXP[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowSEXPDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index cec03c1..e122815 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -184,10 +184,11 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
     if constexpr (IsConstant<decltype(otherVec)>) {
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = otherVec.d[i];
+        d.setVal(d.AllVarsRef, i, otherVec.d[i]);
       }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      if (d.AllVarsRef.IndepVarIdx == d.I) {
+      if (d.AllVarsRef.IndepVarIdx == d.I &&
+          d.AllVarsRef.IndepVarTypeIdx == R::TIdx) {
         for (std::size_t i = 0; i < otherVec.size(); i++) {
           d.setDeriv(d.AllVarsRef, i, 1.0);
         }
-- 
2.43.0


From d82f9d1a30144fd76a4beeac283c799494086855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 21/39] fix: comparisons yield logical vectors so that they can
 be used as index

---
 include/etr_bits/BinaryCalculations.hpp | 60 ++++++++-----------------
 1 file changed, 18 insertions(+), 42 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index b401e34..c561046 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -270,19 +270,15 @@ template <typename L, typename R> auto operator==(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, EqualTrait>>(
         BinaryOperation<decltype(l.d), R, EqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), EqualTrait>>(
         BinaryOperation<L, decltype(r.d), EqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>(l.d, r.d));
   } else {
@@ -294,19 +290,15 @@ template <typename L, typename R> auto operator!=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
         BinaryOperation<decltype(l.d), R, UnEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
         BinaryOperation<L, decltype(r.d), UnEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
@@ -320,19 +312,15 @@ template <typename L, typename R> auto operator>(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, LargerTrait>>(
         BinaryOperation<decltype(l.d), R, LargerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), LargerTrait>>(
         BinaryOperation<L, decltype(r.d), LargerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
@@ -346,19 +334,15 @@ template <typename L, typename R> auto operator>=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, LargerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), LargerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
@@ -372,19 +356,15 @@ template <typename L, typename R> auto operator<(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, SmallerTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), SmallerTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
@@ -398,19 +378,15 @@ template <typename L, typename R> auto operator<=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
-- 
2.43.0


From 1e5bc3784c846b1756dd5f855e13907096b37f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 22/39] fix: quotients and powers are numeric even for integer
 operands

---
 include/etr_bits/BinaryCalculations.hpp | 20 ++++++--------------
 include/etr_bits/Core/Traits.hpp        |  4 ++--
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index c561046..7122a43 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -222,19 +222,15 @@ template <typename L, typename R> auto operator/(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<BaseType,
                BinaryOperation<decltype(l.d), R, DivideTrait>>(
         BinaryOperation<decltype(l.d), R, DivideTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<BaseType,
                BinaryOperation<L, decltype(r.d), DivideTrait>>(
         BinaryOperation<L, decltype(r.d), DivideTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<BaseType,
         BinaryOperation<decltype(l.d), decltype(r.d), DivideTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), DivideTrait>(l.d, r.d));
   } else {
@@ -246,19 +242,15 @@ template <typename L, typename R> auto operator^(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<BaseType,
                BinaryOperation<decltype(l.d), R, PowTrait>>(
         BinaryOperation<decltype(l.d), R, PowTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<BaseType,
                BinaryOperation<L, decltype(r.d), PowTrait>>(
         BinaryOperation<L, decltype(r.d), PowTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<BaseType,
         BinaryOperation<decltype(l.d), decltype(r.d), PowTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), PowTrait>(l.d, r.d));
   } else {
diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 8e41cd8..351d891 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -270,8 +270,8 @@ struct DivideTrait {
 };
 struct PowTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
-    return std::pow(l, r);
+  static inline BaseType f(L l, R r) {
+    return std::pow(static_cast<BaseType>(l), static_cast<BaseType>(r));
   }
 };
 struct EqualTrait {
-- 
2.43.0


From a4544ecc781a2ba65e1e870ae89443abb9b41720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 23/39] fix: coca reads its arguments without requiring them to
 be writeable

---
 include/etr_bits/Coca.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Coca.hpp b/include/etr_bits/Coca.hpp
index 5acbcc0..c75b1e7 100644
--- a/include/etr_bits/Coca.hpp
+++ b/include/etr_bits/Coca.hpp
@@ -116,11 +116,11 @@ template <typename... Args> inline auto coca(Args &&...args) {
           const auto &const_arg = arg;
           if constexpr (std::is_same_v<InnerType, cType>) {
             for (int i = 0; i < arg.size(); i++) {
-              ret[index + i] = arg[i]; // const_arg[i];
+              ret[index + i] = const_arg[i];
             }
           } else {
             for (int i = 0; i < arg.size(); i++) {
-              ret[index + i] = static_cast<cType>(arg[i]);
+              ret[index + i] = static_cast<cType>(const_arg[i]);
             }
           }
           index += arg.size();
-- 
2.43.0


From 36bef8fd4bab522c5c0343c052129f4a660f3706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 24/39] fix: math functions are numeric even for integer
 operands

---
 include/etr_bits/UnaryCalculations.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 254aede..bf1de97 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -95,7 +95,7 @@ template <typename T> auto operator-(const T &obj) {
 template <typename T> auto sinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -113,7 +113,7 @@ auto sinus(const T &obj) -> BaseType {
 template <typename T> auto sinush(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SinusHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SinusHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -131,7 +131,7 @@ auto sinush(const T &obj) -> BaseType {
 template <typename T> auto asinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ASinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ASinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -149,7 +149,7 @@ auto asinus(const T &obj) -> BaseType {
 template <typename T> auto cosinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), CosinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), CosinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -167,7 +167,7 @@ auto cosinus(const T &obj) -> BaseType {
 template <typename T> auto cosinush(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), CosinusHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), CosinusHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -185,7 +185,7 @@ auto cosinush(const T &obj) -> BaseType {
 template <typename T> auto acosinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ACosinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ACosinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -203,7 +203,7 @@ auto acosinus(const T &obj) -> BaseType {
 template <typename T> auto tangens(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), TangensTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), TangensTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -221,7 +221,7 @@ auto tangens(const T &obj) -> BaseType {
 template <typename T> auto tangensh(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), TangensHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), TangensHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -239,7 +239,7 @@ auto tangensh(const T &obj) -> BaseType {
 template <typename T> auto atangens(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ATangensTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ATangensTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -257,7 +257,7 @@ auto atangens(const T &obj) -> BaseType {
 template <typename T> auto ln(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), LogTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), LogTrait>(obj.d));
   } else if constexpr (isDouble) { // issue: this should be never be used. Also
@@ -276,7 +276,7 @@ auto ln(const T &obj) -> BaseType {
 template <typename T> auto sqroot(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SquareRootTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SquareRootTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -295,7 +295,7 @@ template <typename T>
 auto exp(const T &obj) { // issue: updae this in the documentation
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ExpTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ExpTrait>(obj.d));
   } else if constexpr (isDouble) {
-- 
2.43.0


From 26e2c294a30b3ef7409e3e369fb382e801a30071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 25/39] fix: linear interpolation uses the slope and the last
 node

---
 include/etr_bits/Interpolation.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index dd943e8..f48e0d5 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -24,15 +24,15 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double ret;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
       return ret;
     }
     // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
+    for (std::size_t i = 0; i + 1 < timeVec.size(); i++) {
       if (t >= timeVec[i] && t < timeVec[i + 1]) {
         t0 = timeVec[i];
         t1 = timeVec[i + 1];
@@ -40,6 +40,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
@@ -51,15 +52,15 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double ret;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
       return ret;
     }
     // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
+    for (std::size_t i = 0; i + 1 < timeVec.size(); i++) {
       if (t >= timeVec[i] && t < timeVec[i + 1]) {
         t0 = timeVec[i];
         t1 = timeVec[i + 1];
@@ -67,6 +68,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
-- 
2.43.0


From fa624f1026f13659b27feff9d37cf07a426fefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 26/39] fix: initBorrow lets the tracked variable point to the
 borrowed memory

---
 include/etr_bits/Derivatives/AllVars.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Derivatives/AllVars.hpp b/include/etr_bits/Derivatives/AllVars.hpp
index 8a0986f..069ee09 100644
--- a/include/etr_bits/Derivatives/AllVars.hpp
+++ b/include/etr_bits/Derivatives/AllVars.hpp
@@ -50,7 +50,7 @@ struct AllVars {
     int idx = 0;
     LoopVariadicT(
         [&](auto arg) {
-          this->varBorrow[idx] = arg;
+          this->varBorrow[idx].d = arg.d;
           idx++;
         },
         args...);
-- 
2.43.0


From 3558014e89edfc3a77e7f719e210a2ac149c3618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 27/39] fix: iterating over a subset visits the selected
 elements

---
 include/etr_bits/Core/Utils.hpp         | 9 +++++++++
 include/etr_bits/Vector/VectorClass.hpp | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index 5161f43..110d995 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -51,6 +51,15 @@ template <typename T> struct It {
   void operator++() { ++p; }
 };
 
+// NOTE: iterates over the elements selected by a subset
+template <typename S> struct SubsetIt {
+  S *s;
+  std::size_t i;
+  decltype(auto) operator*() { return (*s)[i]; }
+  bool operator!=(const SubsetIt &rhs) { return i != rhs.i; }
+  void operator++() { ++i; }
+};
+
 inline void ass(bool inp, std::string message) {
 #ifdef STANDALONE_ETR
   if (!inp)
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index e7b6b42..a1dcb89 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -60,14 +60,14 @@ template <typename T, typename R, typename Trait> struct Vec {
 
   auto begin() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p};
+      return SubsetIt<R>{const_cast<R *>(&d), 0};
     } else {
       return It<T>{d.p};
     }
   }
   auto end() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p + this->size()};
+      return SubsetIt<R>{const_cast<R *>(&d), this->size()};
     } else {
       return It<T>{d.p + this->size()};
     }
-- 
2.43.0


From c305e509ed2e6c81554efcc9a287fd0d22440679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 28/39] fix: math functions of scalars call existing functions

---
 include/etr_bits/UnaryCalculations.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index bf1de97..1b3be31 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -107,7 +107,7 @@ template <typename T> auto sinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinus(const T &obj) -> BaseType {
-  return Sinus(obj);
+  return SinusTrait::f(obj);
 }
 
 template <typename T> auto sinush(const T &obj) {
@@ -125,7 +125,7 @@ template <typename T> auto sinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinush(const T &obj) -> BaseType {
-  return SinusH(obj);
+  return SinusHTrait::f(obj);
 }
 
 template <typename T> auto asinus(const T &obj) {
@@ -143,7 +143,7 @@ template <typename T> auto asinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto asinus(const T &obj) -> BaseType {
-  return ASinus(obj);
+  return ASinusTrait::f(obj);
 }
 
 template <typename T> auto cosinus(const T &obj) {
@@ -161,7 +161,7 @@ template <typename T> auto cosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinus(const T &obj) -> BaseType {
-  return Cosinus(obj);
+  return CosinusTrait::f(obj);
 }
 
 template <typename T> auto cosinush(const T &obj) {
@@ -179,7 +179,7 @@ template <typename T> auto cosinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinush(const T &obj) -> BaseType {
-  return CosinusH(obj);
+  return CosinusHTrait::f(obj);
 }
 
 template <typename T> auto acosinus(const T &obj) {
@@ -197,7 +197,7 @@ template <typename T> auto acosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto acosinus(const T &obj) -> BaseType {
-  return ACosinus(obj);
+  return ACosinusTrait::f(obj);
 }
 
 template <typename T> auto tangens(const T &obj) {
@@ -215,7 +215,7 @@ template <typename T> auto tangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangens(const T &obj) -> BaseType {
-  return Tangens(obj);
+  return TangensTrait::f(obj);
 }
 
 template <typename T> auto tangensh(const T &obj) {
@@ -233,7 +233,7 @@ template <typename T> auto tangensh(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangensh(const T &obj) -> BaseType {
-  return TangensH(obj);
+  return TangensHTrait::f(obj);
 }
 
 template <typename T> auto atangens(const T &obj) {
@@ -251,7 +251,7 @@ template <typename T> auto atangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto atangens(const T &obj) -> BaseType {
-  return ATangens(obj);
+  return ATangensTrait::f(obj);
 }
 
 template <typename T> auto ln(const T &obj) {
@@ -288,7 +288,7 @@ template <typename T> auto sqroot(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sqroot(const T &obj) -> BaseType {
-  return SquareRoot(obj);
+  return SquareRootTrait::f(obj);
 }
 
 template <typename T>
@@ -307,7 +307,7 @@ auto exp(const T &obj) { // issue: updae this in the documentation
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto exp(const T &obj) -> BaseType {
-  return Exp(obj);
+  return ExpTrait::f(obj);
 }
 
 } // namespace etr
-- 
2.43.0


From 70face47d7605742fdfdca836e2e5921c3b8e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 29/39] fix: subsetting an expression beyond its length is
 rejected

---
 include/etr_bits/Core/SubsetClass.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 3e0b8c8..b5aab17 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -129,7 +129,11 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % ind.size()]);
+    const std::size_t idx = ind[pos % ind.size()];
+    // expressions recycle their elements, hence they do not check the bounds
+    ass(idx < this->p->size(),
+        "Error: out of boundaries --> value beyond size of vector");
+    return this->p->operator[](idx);
   }
 
   ~Subset() {}
-- 
2.43.0


From 2083723ef908cb45fc9441c977fd03833b4d0eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 30/39] fix: selecting everything of a matrix expression keeps
 its shape

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 3b5aa7b..efd16d9 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -60,7 +60,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.size());
       for (std::size_t i = 0; i < vec.size(); i++)
         ind[i] = i;
-      mp.setMatrix(vec.d.mp);
+      mp.setMatrix(true, vec.nr(), vec.nc());
       return;
     } else {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
-- 
2.43.0


From cfa70b706e36fec357be78f630bfc460540d98a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 31/39] fix: reallocating to a smaller size must not write
 beyond the new memory

---
 include/etr_bits/Core/BaseStore.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 89fa929..6ad8910 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -316,10 +316,11 @@ template <typename T, typename BaseTrait> struct BaseStore {
     T *temp;
     capacity = static_cast<int>(new_size * 1.15);
     temp = new T[capacity];
-    for (std::size_t i = 0; i < sz; i++)
+    const std::size_t kept = sz < new_size ? sz : new_size;
+    for (std::size_t i = 0; i < kept; i++)
       temp[i] = p[i];
 
-    for (std::size_t i = sz; i < new_size; i++)
+    for (std::size_t i = kept; i < new_size; i++)
       temp[i] = T();
 
     delete[] p;
-- 
2.43.0


From e91295124389a6daafa6fee3cbf821be19806ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 32/39] fix: recycle the operands of nested expressions in
 derivatives as in the values

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 5854f86..3ab5d97 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -23,12 +23,17 @@ struct QuarternyType {
   }
 
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    // NOTE: shorter operands are recycled, as it is done for the values
+    const std::size_t idxL = idx % LDeriv::getSize(av);
+    const std::size_t idxR = idx % RDeriv::getSize(av);
+    return Op::f(LDeriv::getVal(av, idxL), RDeriv::getVal(av, idxR));
   }
 
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx),
-                      LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    const std::size_t idxL = idx % LDeriv::getSize(av);
+    const std::size_t idxR = idx % RDeriv::getSize(av);
+    return Op::fDeriv(LDeriv::getVal(av, idxL), RDeriv::getVal(av, idxR),
+                      LDeriv::getDeriv(av, idxL), RDeriv::getDeriv(av, idxR));
   }
 };
 
@@ -50,10 +55,14 @@ struct BinaryType {
                                                      : RDeriv::getSize(av);
   }
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    const std::size_t idxL = idx % LDeriv::getSize(av);
+    const std::size_t idxR = idx % RDeriv::getSize(av);
+    return Op::f(LDeriv::getVal(av, idxL), RDeriv::getVal(av, idxR));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    const std::size_t idxL = idx % LDeriv::getSize(av);
+    const std::size_t idxR = idx % RDeriv::getSize(av);
+    return Op::fDeriv(LDeriv::getDeriv(av, idxL), RDeriv::getDeriv(av, idxR));
   }
 };
 
-- 
2.43.0


From aa3a928486c4f55d4dc2e56dad989f14d9d8ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 33/39] fix: sine of a comparison is no truth value in
 derivatives

---
 include/etr_bits/Core/Traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 351d891..25a118b 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -228,8 +228,8 @@ struct UnEqualDerivTrait {
 };
 
 struct SinusDerivTrait {
-  template <typename L> static inline L f(L l) { return sin(l); }
-  template <typename L> static inline L fDeriv(L l) { return cos(l); }
+  template <typename L> static inline BaseType f(L l) { return sin(l); }
+  template <typename L> static inline BaseType fDeriv(L l) { return cos(l); }
 };
 
 struct PlusTrait {
-- 
2.43.0


From 0b9c9e92283de9146e6e6d9215d8823c8137d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 34/39] fix: coca takes the element type of its arguments, not
 the arithmetic type of an expression

---
 include/etr_bits/Coca.hpp | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/include/etr_bits/Coca.hpp b/include/etr_bits/Coca.hpp
index c75b1e7..a8d6e25 100644
--- a/include/etr_bits/Coca.hpp
+++ b/include/etr_bits/Coca.hpp
@@ -16,8 +16,7 @@ inline auto determine_type(const auto &rest) {
   if constexpr (std::is_arithmetic_v<restType>) {
     return typename std::remove_reference<decltype(rest)>::type{};
   } else {
-    using tD = ExtractedTypeD<restType>;
-    return typename ExtractDataType<tD>::RetType{};
+    return typename ExtractDataType<std::remove_const_t<restType>>::RetType{};
   }
 };
 
@@ -29,20 +28,16 @@ inline auto determine_type(const auto &first, const auto &rest) {
     return typename std::common_type<firstType, restType>::type{};
   } else if constexpr (!std::is_arithmetic_v<firstType> &&
                        std::is_arithmetic_v<restType>) {
-    using tD = ExtractedTypeD<firstType>;
-    using firstInner = ExtractDataType<tD>::RetType;
+    using firstInner = ExtractDataType<std::remove_const_t<firstType>>::RetType;
     return typename std::common_type<firstInner, restType>::type{};
   } else if constexpr (std::is_arithmetic_v<firstType> &&
                        !std::is_arithmetic_v<restType>) {
-    using tD = ExtractedTypeD<restType>;
-    using restInner = ExtractDataType<tD>::RetType;
+    using restInner = ExtractDataType<std::remove_const_t<restType>>::RetType;
     return typename std::common_type<firstType, restInner>::type{};
   } else if constexpr (!std::is_arithmetic_v<firstType> &&
                        !std::is_arithmetic_v<restType>) {
-    using tD1 = ExtractedTypeD<firstType>;
-    using firstInner = ExtractDataType<tD1>::RetType;
-    using tD2 = ExtractedTypeD<restType>;
-    using restInner = ExtractDataType<tD2>::RetType;
+    using firstInner = ExtractDataType<std::remove_const_t<firstType>>::RetType;
+    using restInner = ExtractDataType<std::remove_const_t<restType>>::RetType;
     return typename std::common_type<firstInner, restInner>::type{};
   }
 }
@@ -55,20 +50,16 @@ inline auto determine_type(const auto &first, const auto &...rest) {
     return typename std::common_type<firstType, restType>::type{};
   } else if constexpr (!std::is_arithmetic_v<firstType> &&
                        std::is_arithmetic_v<restType>) {
-    using tD = ExtractedTypeD<firstType>;
-    using firstInner = ExtractDataType<tD>::RetType;
+    using firstInner = ExtractDataType<std::remove_const_t<firstType>>::RetType;
     return typename std::common_type<firstInner, restType>::type{};
   } else if constexpr (std::is_arithmetic_v<firstType> &&
                        !std::is_arithmetic_v<restType>) {
-    using tD = ExtractedTypeD<restType>;
-    using restInner = ExtractDataType<tD>::RetType;
+    using restInner = ExtractDataType<std::remove_const_t<restType>>::RetType;
     return typename std::common_type<firstType, restInner>::type{};
   } else if constexpr (!std::is_arithmetic_v<firstType> &&
                        !std::is_arithmetic_v<restType>) {
-    using tD1 = ExtractedTypeD<firstType>;
-    using firstInner = ExtractDataType<tD1>::RetType;
-    using tD2 = ExtractedTypeD<restType>;
-    using restInner = ExtractDataType<tD2>::RetType;
+    using firstInner = ExtractDataType<std::remove_const_t<firstType>>::RetType;
+    using restInner = ExtractDataType<std::remove_const_t<restType>>::RetType;
     return typename std::common_type<firstInner, restInner>::type{};
   }
 }
@@ -108,11 +99,7 @@ template <typename... Args> inline auto coca(Args &&...args) {
           }
           index++;
         } else {
-          using tD = std::remove_reference_t<decltype(arg)>;
-          using tD2 = ExtractedTypeD<tD>;
-          using InnerType = typename ExtractDataType<tD2>::RetType;
-          // using tD = ExtractedTypeD<decltype(arg)>;
-          // using InnerType = typename ExtractDataType<tD>::RetType;
+          using InnerType = typename ExtractDataType<testType>::RetType;
           const auto &const_arg = arg;
           if constexpr (std::is_same_v<InnerType, cType>) {
             for (int i = 0; i < arg.size(); i++) {
@@ -159,9 +146,7 @@ inline auto coca(AV &av, Args &&...args) {
           }
           index++;
         } else {
-          using tD = std::remove_reference_t<decltype(arg)>;
-          using tD2 = ExtractedTypeD<tD>;
-          using InnerType = typename ExtractDataType<tD2>::RetType;
+          using InnerType = typename ExtractDataType<testType>::RetType;
           if constexpr (std::is_same_v<InnerType, cType>) {
             for (int i = 0; i < arg.size(); i++) {
               av.varConstants[Idx][index + i] = arg[i];
-- 
2.43.0


From 57ec2a096a27dc5d819e736e3f621a3a52f7f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 35/39] fix: vector_integer and vector_logical create integer
 and logical vectors

---
 .../etr_bits/Allocation/AllocationUtils.hpp   |  2 +-
 include/etr_bits/Allocation/Vector.hpp        | 32 +++++++++----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/etr_bits/Allocation/AllocationUtils.hpp b/include/etr_bits/Allocation/AllocationUtils.hpp
index 23aa7ab..3975c68 100644
--- a/include/etr_bits/Allocation/AllocationUtils.hpp
+++ b/include/etr_bits/Allocation/AllocationUtils.hpp
@@ -51,7 +51,7 @@ template <typename T> inline auto createLVec(T s) {
 template <typename T, typename VecType = BaseType> inline auto createRVec(T s) {
   std::size_t size = convertSize(s);
   ass(size > 0, "invalid length argument");
-  return Vec<VecType, Buffer<BaseType, BufferTrait, RBufTrait>, RVecTrait>(
+  return Vec<VecType, Buffer<VecType, BufferTrait, RBufTrait>, RVecTrait>(
       SI{size});
 }
 
diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 841cd45..31938ad 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -9,14 +9,14 @@ namespace etr {
 
 template <typename T> inline auto vector_integer(const T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<int>(inp[0]);
+    return createRVec<int, int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
@@ -24,14 +24,14 @@ template <typename T> inline auto vector_integer(const T &inp) {
 
 template <typename T> inline auto vector_integer(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<int>(inp[0]);
+    return createRVec<int, int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
@@ -39,14 +39,14 @@ template <typename T> inline auto vector_integer(T &inp) {
 
 template <typename T> inline auto vector_logical(const T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<int>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<int>(inp[0]);
+    return createRVec<int, bool>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
@@ -54,14 +54,14 @@ template <typename T> inline auto vector_logical(const T &inp) {
 
 template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<int>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<int>(inp[0]);
+    return createRVec<int, bool>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
-- 
2.43.0


From 91c2cfb1f82d7befb6d518a89d0e8bd45dfae633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 36/39] fix: a number assigned to a tracked variable sets its
 derivative too

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index e122815..37353e3 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -23,7 +23,13 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = inp;
     }
-    if constexpr (!isSubset::value && !isVarPointer::value) {
+    if constexpr (isVariableType::value) {
+      const bool isIndep = d.AllVarsRef.IndepVarIdx == R::I &&
+                           d.AllVarsRef.IndepVarTypeIdx == R::TIdx;
+      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, 1);
+      d.setDeriv(d.AllVarsRef, 0, isIndep ? 1.0 : 0.0);
+      d.setMatrix(d.AllVarsRef, false, 0, 0);
+    } else if constexpr (!isSubset::value && !isVarPointer::value) {
       d.setMatrix(false, 0, 0);
     }
     return *this;
@@ -39,7 +45,13 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = static_cast<T>(inp);
     }
-    if constexpr (!isSubset::value && !isVarPointer::value) {
+    if constexpr (isVariableType::value) {
+      const bool isIndep = d.AllVarsRef.IndepVarIdx == R::I &&
+                           d.AllVarsRef.IndepVarTypeIdx == R::TIdx;
+      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, 1);
+      d.setDeriv(d.AllVarsRef, 0, isIndep ? 1.0 : 0.0);
+      d.setMatrix(d.AllVarsRef, false, 0, 0);
+    } else if constexpr (!isSubset::value && !isVarPointer::value) {
       d.setMatrix(false, 0, 0);
     }
     return *this;
-- 
2.43.0


From 97155a8787d4c0f2010edad91290b0b578727172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 37/39] fix: colon computes its length from the distance of the
 ends

Counting up to the end with accumulated increments depends on rounding:
colon(2.3, 0.3) wrote fewer elements than it had allocated, other ends more,
and colon(std::size_t{3}, std::size_t{0}) did not stop.
---
 include/etr_bits/Allocation/Colon.hpp | 65 +++++++++++----------------
 1 file changed, 26 insertions(+), 39 deletions(-)

diff --git a/include/etr_bits/Allocation/Colon.hpp b/include/etr_bits/Allocation/Colon.hpp
index 29827ad..b84bb06 100644
--- a/include/etr_bits/Allocation/Colon.hpp
+++ b/include/etr_bits/Allocation/Colon.hpp
@@ -17,32 +17,33 @@ const Vec is an Operation
 */
 
 #include "AllocationUtils.hpp"
+#include <cmath>
+#include <limits>
 #include <type_traits>
 
 namespace etr {
 
-template <typename T> inline auto colonInternal(T start, T end) {
-  if (start < end) {
-    std::size_t length = convertSize(end - start + 1);
-    Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (start <= end) {
-      ret[counter] = start;
-      start++;
-      counter++;
-    }
-    return ret;
-  } else {
-    std::size_t length = convertSize(start - end + 1);
-    Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (end <= start) {
-      ret[counter] = start;
-      start--;
-      counter++;
+// NOTE: the length depends on the distance of the ends. Rounding errors in it
+// are ignored as in R
+template <typename T> inline std::size_t colonLength(T start, T end) {
+  auto distance = start < end ? end - start : start - end;
+  if constexpr (std::is_floating_point_v<T>) {
+    const T whole = std::round(distance);
+    if (std::abs(distance - whole) <
+        static_cast<T>(std::numeric_limits<float>::epsilon())) {
+      distance = whole;
     }
-    return ret;
   }
+  return convertSize(distance + 1);
+}
+
+template <typename T> inline auto colonInternal(T start, T end) {
+  const std::size_t length = colonLength(start, end);
+  Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
+  for (std::size_t i = 0; i < length; i++) {
+    ret[i] = start < end ? start + static_cast<T>(i) : start - static_cast<T>(i);
+  }
+  return ret;
 }
 
 template <typename A, typename O>
@@ -248,26 +249,12 @@ inline auto colon(const A &start, const O &end) {
 // NOTE: here starts colon with saving in AllVars
 template <int Idx, typename AV, typename T>
 inline auto colonInternalDerivs(AV &av, T start, T end) {
-  if (start < end) {
-    std::size_t length = convertSize(end - start + 1);
-    av.varConstants[Idx].resize(convertSize(length));
-    Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-    std::size_t counter = 0;
-    while (start <= end) {
-      av.varConstants[Idx][counter] = start;
-      start++;
-      counter++;
-    }
-    return ret;
-  }
-  std::size_t length = convertSize(start - end + 1);
-  av.varConstants[Idx].resize(convertSize(length));
+  const std::size_t length = colonLength(start, end);
+  av.varConstants[Idx].resize(length);
   Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-  std::size_t counter = 0;
-  while (end <= start) {
-    av.varConstants[Idx][counter] = start;
-    start--;
-    counter++;
+  for (std::size_t i = 0; i < length; i++) {
+    av.varConstants[Idx][i] =
+        start < end ? start + static_cast<T>(i) : start - static_cast<T>(i);
   }
   return ret;
 }
-- 
2.43.0


From b56c8e92844aaebf35915aec5d70b4553aa814aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 38/39] fix: subset takes a position of any whole number type

A std::size_t compiled but selected nothing: reading was rejected and
subset(v, v.size()) = x silently wrote nothing.
---
 include/etr_bits/Subsetting/VectorSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/VectorSubsetting.hpp b/include/etr_bits/Subsetting/VectorSubsetting.hpp
index 9af08c7..4539be9 100644
--- a/include/etr_bits/Subsetting/VectorSubsetting.hpp
+++ b/include/etr_bits/Subsetting/VectorSubsetting.hpp
@@ -30,7 +30,7 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
     ind[0] = *idx - 1;
     ass(ind[0] >= 0, "invalid index argument");
     return;
-  } else if constexpr (is<I, double>) {
+  } else if constexpr (is<I, double> || std::is_integral_v<I>) {
     ind.resize(1);
     ind[0] = convertSizeSubsetting(*idx) - 1;
     return;
-- 
2.43.0


From 0718bdbea663c34ce3be4d689e614a06c810c505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 39/39] fix: a matrix view made from a pointer refers to the
 memory

---
 include/etr_bits/Vector/Constructors.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index 66f73e8..d418078 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -217,8 +217,12 @@ Vec(BaseType *ptr, std::size_t size) : d(size) {
   }
 }
 Vec(BaseType *ptr, std::size_t rows, std::size_t cols) : d(rows * cols) {
-  for (std::size_t i = 0; i < d.size(); i++)
-    d[i] = ptr[i];
+  if constexpr (isBorrow::value) {
+    d.init(ptr, rows * cols);
+  } else {
+    for (std::size_t i = 0; i < d.size(); i++)
+      d[i] = ptr[i];
+  }
   d.setMatrix(true, rows, cols);
 }
 
-- 
2.43.0

