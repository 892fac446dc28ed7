From ff0db8047cdbe2e7731b6df6dee2fe7536c5930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 01/86] fix: TransparentQueue::emplace() adds a stale element
 to an empty queue

---
 include/bcl/transparent_queue.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 64d367d..5617bf7 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -156,6 +156,11 @@ public:
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
     if (mIsSingle) {
+      if (mIsEmpty) {
+        mValue = value_type{std::forward<ArgTy>(Args)...};
+        mIsEmpty = false;
+        return;
+      }
       mIsSingle = false;
       Ty *Current = mValue;
       mQueue = new Container();
-- 
2.43.0


From a81fb6480a172446cd1396ab53a2c460b347e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 02/86] fix: assignments of TransparentQueue return nothing,
 leak and break on self-assignment

---
 include/bcl/transparent_queue.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 5617bf7..eec37b6 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -67,12 +67,17 @@ public:
 
   /// Copy assignment.
   TransparentQueue & operator=(const TransparentQueue &TQ) {
+    if (this == &TQ)
+      return *this;
+    if (!mIsSingle)
+      delete mQueue;
     mIsSingle = TQ.mIsSingle;
     mIsEmpty = TQ.mIsEmpty;
     if (mIsSingle)
       mValue = TQ.mValue;
     else
       mQueue = new Container(*TQ.mQueue);
+    return *this;
   }
 
   /// Move constructor.
@@ -85,11 +90,16 @@ public:
 
   /// Move assignment.
   TransparentQueue & operator=(TransparentQueue &&TQ) {
+    if (this == &TQ)
+      return *this;
+    if (!mIsSingle)
+      delete mQueue;
     mIsSingle = TQ.mIsSingle;
     mIsEmpty = TQ.mIsEmpty;
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    return *this;
   }
 
   /// Removes allocated memory if it is necessary.
-- 
2.43.0


From c6a15797184658a19d00799d14e9d6be5db4ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 03/86] fix: pop() of a moved-from TransparentQueue returns a
 stale pointer

---
 include/bcl/transparent_queue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index eec37b6..8eb0f6a 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -86,6 +86,7 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
   }
 
   /// Move assignment.
@@ -99,6 +100,7 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
     return *this;
   }
 
-- 
2.43.0


From bd209581b7bce786501b221e31d6c65ef5ff0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 04/86] fix: TransparentQueue::swap() does not compile

---
 include/bcl/transparent_queue.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 8eb0f6a..fcfb692 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -194,7 +194,9 @@ public:
     if (mIsSingle) {
       if (TQ.mIsSingle) {
         std::swap(mValue, TQ.mValue);
-        std::swap(mIsEmpty, TQ.mIsEmpty);
+        bool Tmp = mIsEmpty;
+        mIsEmpty = TQ.mIsEmpty;
+        TQ.mIsEmpty = Tmp;
       } else {
         Ty *Tmp = mValue;
         mIsSingle = false;
@@ -205,14 +207,14 @@ public:
       }
     } else {
       if (TQ.mIsSingle) {
-        Ty *Tmp = TQ.Value;
+        Ty *Tmp = TQ.mValue;
         TQ.mIsSingle = false;
         TQ.mQueue = mQueue;
         mIsSingle = true;
         mIsEmpty = TQ.mIsEmpty;
         mValue = Tmp;
       } else {
-        mQueue->swap(TQ.mQueue);
+        mQueue->swap(*TQ.mQueue);
       }
     }
   }
-- 
2.43.0


From 61ccac4a4bf9b7774a0db6f28a07584db9825bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 05/86] fix: iterators of bcl::Chain do not compile when they
 are moved

---
 include/bcl/Chain.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index ee34366..67fe52f 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -265,7 +265,7 @@ public:
 
   /// Preincrement, this node must not be null.
   ChainIteratorC & operator++()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(mCurrent))) {
     assert(mCurrent && "Advancing null node!");
     mCurrent = ChainTraits<Ty, Tag>::getNext(mCurrent);
     return *this;
@@ -279,7 +279,7 @@ public:
 
   /// Predecrement, this node must not be null.
   ChainIteratorC & operator--()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(mCurrent))) {
     assert(mCurrent && "Decreasing null node!!");
     mCurrent = ChainTraits<Ty, Tag>::getPrev(mCurrent);
     return *this;
@@ -296,13 +296,13 @@ public:
 
   /// Returns a next node.
   const Ty * getNext() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(mCurrent))) {
     return ChainTraits<Ty, Tag>::getNext(mCurrent);
   }
 
   /// Returns a previous node.
   const Ty * getPrev() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(mCurrent))) {
     return ChainTraits<Ty, Tag>::getPrev(mCurrent);
   }
 
-- 
2.43.0


From dea0130f41fc28b52c54f418c1881f50c655bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 06/86] fix: comparison of a chain iterator and a node returns
 nothing

---
 include/bcl/Chain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index 67fe52f..16e499f 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -246,7 +246,7 @@ public:
 
   /// Compares the iterator with a node.
   bool operator==(const Ty *RHS) const noexcept {
-    mCurrent == RHS;
+    return mCurrent == RHS;
   }
 
   /// Compares the iterator with a node.
-- 
2.43.0


From 2f4d466c8ae27152b39825b99a8c0dd2a4e74a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:47 +0000
Subject: [PATCH 07/86] fix: postfix decrement of a chain iterator advances it

---
 include/bcl/Chain.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index 16e499f..8226203 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -288,7 +288,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIteratorC operator--(int)
       noexcept(noexcept(ChainIteratorC::operator--())) {
-    ChainIteratorC Tmp = *this; ++*this; return Tmp;
+    ChainIteratorC Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
@@ -361,7 +361,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIterator operator--(int)
       noexcept(noexcept(ChainIterator::operator--())) {
-    ChainIterator Tmp = *this; ++*this; return Tmp;
+    ChainIterator Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
-- 
2.43.0


From 46069c77d293f19ca4189fe2daf56166609d3296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 08/86] fix: BinomialSystem::solve() mishandles equations with
 a single variable after substitution

---
 include/bcl/Equation.h | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index e35056d..055452d 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -362,6 +362,21 @@ public:
   std::size_t solve(ColumnInfoT &Info, StreamT &OS = Undef) {
     for (std::size_t I = 0; I < mInstantiatedSize; ++I) {
       auto &Row = mRows[mIdx[I]];
+      // Both monomials may refer to the same variable, in particular, after
+      // substitutions which have been performed for previous equations.
+      bool IsSingle = Row.LHS.Column == Row.RHS.Column;
+      if (IsSingle) {
+        Row.LHS.Value += Row.RHS.Value;
+        Row.RHS.Value = 0;
+      }
+      if (Row.LHS.Value == 0 && Row.RHS.Value == 0) {
+        assert((!IsSolvable || Row.Constant == 0) &&
+          "Equation must have solution!");
+        if (Row.Constant != 0)
+          return I;
+        // The equation does not constrain its variables.
+        continue;
+      }
       // We want to solve binomial equation A * X + B * Y = C
       // 1. Find GCD and two coefficients X' and Y' such as GCD = A * X' + B * Y'
       auto GCD = euclidGCD(Row.LHS.Value, Row.RHS.Value);
@@ -391,10 +406,13 @@ public:
       // Y = (Y' * Q) + (A / GCD) * T, where T is any integer value.
       mSolution.emplace_back(Row.LHS.Column, 1,
         ParameterCol, Row.RHS.Value / std::get<0>(GCD), AnySolution.first);
-      mSolution.emplace_back(Row.RHS.Column, 1,
-        ParameterCol, - Row.LHS.Value / std::get<0>(GCD), AnySolution.second);
-      auto &SolutionLHS = mSolution[mSolution.size() - 1];
-      auto &SolutionRHS = mSolution[mSolution.size() - 2];
+      if (!IsSingle)
+        mSolution.emplace_back(Row.RHS.Column, 1,
+          ParameterCol, - Row.LHS.Value / std::get<0>(GCD), AnySolution.second);
+      // Solutions for both monomials are the same if there is a single variable.
+      std::size_t UpdateSize = mSolution.size() - (IsSingle ? 1 : 2);
+      auto &SolutionLHS = mSolution.back();
+      auto &SolutionRHS = mSolution[UpdateSize];
       log("> solution:\n", OS);
       logEquation(SolutionLHS, Info, OS);
       logEquation(SolutionRHS, Info, OS);
@@ -417,7 +435,7 @@ public:
         logEquation(RowToUpdate, Info, OS);
       }
       log("> update solution:\n", OS);
-      for (std::size_t J = 0, EJ = mSolution.size() - 2; J < EJ; ++J) {
+      for (std::size_t J = 0; J < UpdateSize; ++J) {
         auto &SolutionToUpdate = mSolution[J];
         logEquation(SolutionToUpdate, Info, OS);
         updateRow(SolutionLHS, SolutionToUpdate.Constant, SolutionToUpdate.LHS);
-- 
2.43.0


From bc56be94875c7f28dffa8c35858795cd25805b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 09/86] fix: numbers of guards and computed monomials of an
 equation are never returned

---
 include/bcl/Equation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 055452d..fea17df 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -143,7 +143,7 @@ public:
     return guard_const_range{guard_begin(), guard_end()};
   }
 
-  std::size_t guard_size() const noexcept { mGuards.second; }
+  std::size_t guard_size() const noexcept { return mGuards.second; }
 
   using inverse_iterator = typename InverseGuardList::iterator;
   using inverse_range = Range<inverse_iterator>;
@@ -176,7 +176,7 @@ public:
     return inverse_const_range{inverse_begin(), inverse_end()};
   }
 
-  std::size_t inverse_size() const noexcept { mInverseGuards.second; }
+  std::size_t inverse_size() const noexcept { return mInverseGuards.second; }
 
   using computed_iterator = typename ComputedMonomList::iterator;
   using computed_range = Range<computed_iterator>;
@@ -210,7 +210,7 @@ public:
     return computed_const_range{computed_begin(), computed_end()};
   }
 
-  std::size_t computed_size() const noexcept { mComputedMonoms.second; }
+  std::size_t computed_size() const noexcept { return mComputedMonoms.second; }
 
 private:
   std::pair<GuardList, std::size_t> mGuards = {{}, 0};
-- 
2.43.0


From 3264a8122ce29e10b2db6c75a8f85196ae4d5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 10/86] fix: range of instantiated equations contains discarded
 ones

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index fea17df..32c4d28 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -541,7 +541,7 @@ public:
         ++I;
       } else {
         --mInstantiatedSize;
-        std::swap(mIdx[I], mIdx[mInstantiatedSize]);
+        std::swap(Row, mRows[mIdx[mInstantiatedSize]]);
       }
     }
   }
-- 
2.43.0


From fbfa3ad86b3460c48a64cf2a9dfb2fe2c5b281cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 11/86] fix: move assignment of multidimensional arrays returns
 nothing and leaks

---
 include/bcl/marray.h   | 4 ++++
 include/bcl/marray_f.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/bcl/marray.h b/include/bcl/marray.h
index 889b1de..7881428 100644
--- a/include/bcl/marray.h
+++ b/include/bcl/marray.h
@@ -105,10 +105,14 @@ public:
   }
 
   inline marray & operator=(marray &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray() BCL_ALWAYS_INLINE {
diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index 0e9a17e..bf549f3 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -76,10 +76,14 @@ public:
   }
 
   inline marray_f & operator=(marray_f &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray_f() BCL_ALWAYS_INLINE {
-- 
2.43.0


From e3ae82b2282cb4c4e14cc051747734799a0c2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 12/86] fix: Diagnostic frees arrays of characters with a wrong
 operator delete

---
 include/bcl/Diagnostic.h | 456 +++++++++++++++++++--------------------
 1 file changed, 228 insertions(+), 228 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 00bf223..9e64bd5 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -1,228 +1,228 @@
-//===--- Diagnostic.h --- Simple Diagnostics Container ----------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file implements a simple container for diagnostics (warnings,
-// errors, etc.).
-// All diagnostics are represented as a string: <Kind> C<Code>(<Pos>): <Fmt>,
-// for example: error C101(100): unexpected character 'c'.
-//
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_DIAGNOSTIC_H
-#define BCL_DIAGNOSTIC_H
-
-#include <cstring>
-#include <memory>
-#include <vector>
-
-namespace bcl {
-/// \brief This is a simple container for diagnostics (warnings, errors, etc.).
-///
-/// All diagnostics are represented as a character string.
-class Diagnostic {
-  typedef std::vector<std::unique_ptr<const char>> Collection;
-
-public:
-  typedef const char * value_type;
-  typedef value_type reference;
-  typedef const value_type const_reference;
-  typedef value_type * pointer;
-  typedef const value_type * const_pointer;
-
-private:
-  /// Bidirectional iterator which is a wrapper for internal iterator Itr.
-  template<class Itr>  class iterator_wrapper :
-    public std::iterator<
-    std::bidirectional_iterator_tag, value_type, std::ptrdiff_t,
-    const_pointer, const_reference> {
-  public:
-    typedef typename Diagnostic::value_type value_type;
-    typedef typename Diagnostic::const_pointer pointer;
-    typedef typename Diagnostic::const_reference reference;
-
-    iterator_wrapper() = default;
-
-    reference operator*() const { return mCurItr->get(); }
-    pointer operator->() const { return &operator*(); }
-
-    bool operator==(const iterator_wrapper &RHS) const {
-      return mCurItr == RHS.mCurItr;
-    }
-    bool operator!=(const iterator_wrapper &RHS) const {
-      return mCurItr != RHS.mCurItr;
-    }
-
-    iterator_wrapper & operator--() { --mCurItr; return *this; }
-    iterator_wrapper & operator++() { ++mCurItr; return *this; }
-    iterator_wrapper operator--(int) { auto Tmp = *this; --*this; return Tmp; }
-    iterator_wrapper operator++(int) { auto Tmp = *this; ++*this; return Tmp; }
-
-  private:
-    friend Diagnostic;
-    iterator_wrapper(const Itr &I) : mCurItr(I) {}
-
-    Itr mCurItr;
-  };
-
-public:
-  typedef typename Collection::size_type size_type;
-  typedef iterator_wrapper <Collection::const_iterator> iterator;
-  typedef iterator const_iterator;
-  typedef iterator_wrapper<Collection::const_reverse_iterator> reverse_iterator;
-  typedef reverse_iterator const_reverse_iterator;
-
-  /// Constructs container for diagnostics of a specified kind.
-  explicit Diagnostic(const char *Kind) {
-    char *Buf = new char[std::strlen(Kind) + 1];
-    std::strcpy(Buf, Kind);
-    mKind.reset(Buf);
-  }
-
-  /// Returns kind of diagnostics.
-  const char * getKind() const noexcept { return mKind.get(); }
-
-  /// \brief Returns an iterator to the first element of the container.
-  ///
-  /// If the container is empty, the returned iterator will be equal to end().
-  iterator begin() const { return mDiagnostics.begin(); }
-
-  /// \brief Returns an iterator to the element following the last element of
-  /// the container.
-  ///
-  /// This element acts as a placeholder; attempting to access it results in
-  /// undefined behavior.
-  iterator end() const { return mDiagnostics.end(); }
-
-  /// \brief Returns an iterator to the first element of the container.
-  ///
-  /// If the container is empty, the returned iterator will be equal to cend().
-  iterator cbegin() const { return mDiagnostics.begin(); }
-
-  /// \brief Returns an iterator to the element following the last element of
-  /// the container.
-  ///
-  /// This element acts as a placeholder; attempting to access it results in
-  /// undefined behavior.
-  iterator cend() const { return mDiagnostics.end(); }
-
-  /// \brief Returns a reverse iterator to the first element of the reversed
-  /// container.
-  ///
-  /// It corresponds to the last element of the non-reversed container.
-  /// If the container is empty, the returned iterator will be equal to rend().
-  reverse_iterator rbegin() const { return mDiagnostics.rbegin(); }
-
-  /// \brief Returns a reverse iterator to the element following the last
-  /// element of the reversed container.
-  ///
-  /// It corresponds to the element preceding the first element of the
-  /// non-reversed container.
-  /// This element acts as a placeholder; attempting to access it results in
-  /// undefined behavior.
-  reverse_iterator rend() const { return mDiagnostics.rend(); }
-
-  /// \brief Returns a reverse iterator to the first element of the reversed
-  /// container.
-  ///
-  /// It corresponds to the last element of the non-reversed container.
-  /// If the container is empty, the returned iterator will be equal to crend().
-  reverse_iterator crbegin() const { return mDiagnostics.rbegin(); }
-
-  /// \brief Returns a reverse iterator to the element following the last
-  /// element of the reversed container.
-  ///
-  /// It corresponds to the element preceding the first element of the
-  /// non-reversed container.
-  /// This element acts as a placeholder; attempting to access it results in
-  /// undefined behavior.
-  reverse_iterator crend() const { return mDiagnostics.rend(); }
-
-  /// \brief Returns true if the container has no elements.
-  ///
-  /// This does not consider internal errors (see, internal()).
-  bool empty() const { return mDiagnostics.empty(); }
-
-  /// Returns the number of elements in the container.
-  ///
-  /// This does not consider internal errors (see, internal()).
-  size_type size() const { return mDiagnostics.size(); }
-
-  /// Removes all elements from the container including internal errors.
-  void clear() { mDiagnostics.clear(); mInternalError = 0; }
-
-  /// Exchanges the contents of the container with those of other
-  /// including internal errors.
-  void swap(Diagnostic &Other) {
-    mDiagnostics.swap(Other.mDiagnostics);
-    std::swap(mInternalError, Other.mInternalError);
-  }
-
-  /// Returns number of internal erros which have been occurred when
-  /// someone try to insert new error in this container.
-  size_type internal_size() const noexcept { return mInternalError; }
-
-  /// \brief Inserts new diagnostic to the container.
-  ///
-  /// \param[in] Code Identifier of a diagnostic.
-  /// \param[in] Fmt Pointer to a null-terminated multibyte string specifying
-  ///  how to interpret the diagnostic description.
-  /// \param[in] Pos Position associated with a diagnostic.
-  /// \param[in] A Number of parameters which is going to replace format
-  /// placeholders in Fmt string.
-  /// \return True if diagnostic has been successfully inserted. In some cases
-  /// some internal errors may prevent diagnostic insertion. When this occurs
-  /// this method returns false and increments internal errors counter
-  /// (see, internal()).
-  ///
-  /// Each diagnostic is represented as a character string:
-  /// <Kind> C<Code>(<Pos>): <Fmt>, Kind may be error, warning, etc.
-  template<class... Args>
-  bool insert(size_type Code, const char *Fmt, uintmax_t Pos, Args... A) {
-    static constexpr const char *PrefixFmt = "%s C%zu(%ju): ";
-    auto PreSize = std::snprintf(nullptr, 0, PrefixFmt, mKind.get(), Code, Pos);
-    auto ErrSize = std::snprintf(nullptr, 0, Fmt, A...);
-    if (PreSize < 0 || ErrSize < 0) {
-      ++mInternalError;
-      return false;
-    }
-    auto Size = PreSize + ErrSize + 1;
-    char *Buf = new char[Size];
-    if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
-        std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
-      ++mInternalError;
-      return false;
-    }
-    mDiagnostics.emplace_back(std::unique_ptr<const char>(Buf));
-    return true;
-  }
-private:
-  std::unique_ptr<const char> mKind;
-  Collection mDiagnostics;
-  size_type mInternalError = 0;
-};
-}
-
-namespace std {
-/// Specializes the std::swap algorithm for bcl::Diagnostic.
-inline void swap(bcl::Diagnostic &LHS, bcl::Diagnostic &RHS) {
-  LHS.swap(RHS);
-}
-}
-#endif//BCL_DIAGNOSTIC_H
+//===--- Diagnostic.h --- Simple Diagnostics Container ----------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file implements a simple container for diagnostics (warnings,
+// errors, etc.).
+// All diagnostics are represented as a string: <Kind> C<Code>(<Pos>): <Fmt>,
+// for example: error C101(100): unexpected character 'c'.
+//
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_DIAGNOSTIC_H
+#define BCL_DIAGNOSTIC_H
+
+#include <cstring>
+#include <memory>
+#include <vector>
+
+namespace bcl {
+/// \brief This is a simple container for diagnostics (warnings, errors, etc.).
+///
+/// All diagnostics are represented as a character string.
+class Diagnostic {
+  typedef std::vector<std::unique_ptr<const char[]>> Collection;
+
+public:
+  typedef const char * value_type;
+  typedef value_type reference;
+  typedef const value_type const_reference;
+  typedef value_type * pointer;
+  typedef const value_type * const_pointer;
+
+private:
+  /// Bidirectional iterator which is a wrapper for internal iterator Itr.
+  template<class Itr>  class iterator_wrapper :
+    public std::iterator<
+    std::bidirectional_iterator_tag, value_type, std::ptrdiff_t,
+    const_pointer, const_reference> {
+  public:
+    typedef typename Diagnostic::value_type value_type;
+    typedef typename Diagnostic::const_pointer pointer;
+    typedef typename Diagnostic::const_reference reference;
+
+    iterator_wrapper() = default;
+
+    reference operator*() const { return mCurItr->get(); }
+    pointer operator->() const { return &operator*(); }
+
+    bool operator==(const iterator_wrapper &RHS) const {
+      return mCurItr == RHS.mCurItr;
+    }
+    bool operator!=(const iterator_wrapper &RHS) const {
+      return mCurItr != RHS.mCurItr;
+    }
+
+    iterator_wrapper & operator--() { --mCurItr; return *this; }
+    iterator_wrapper & operator++() { ++mCurItr; return *this; }
+    iterator_wrapper operator--(int) { auto Tmp = *this; --*this; return Tmp; }
+    iterator_wrapper operator++(int) { auto Tmp = *this; ++*this; return Tmp; }
+
+  private:
+    friend Diagnostic;
+    iterator_wrapper(const Itr &I) : mCurItr(I) {}
+
+    Itr mCurItr;
+  };
+
+public:
+  typedef typename Collection::size_type size_type;
+  typedef iterator_wrapper <Collection::const_iterator> iterator;
+  typedef iterator const_iterator;
+  typedef iterator_wrapper<Collection::const_reverse_iterator> reverse_iterator;
+  typedef reverse_iterator const_reverse_iterator;
+
+  /// Constructs container for diagnostics of a specified kind.
+  explicit Diagnostic(const char *Kind) {
+    char *Buf = new char[std::strlen(Kind) + 1];
+    std::strcpy(Buf, Kind);
+    mKind.reset(Buf);
+  }
+
+  /// Returns kind of diagnostics.
+  const char * getKind() const noexcept { return mKind.get(); }
+
+  /// \brief Returns an iterator to the first element of the container.
+  ///
+  /// If the container is empty, the returned iterator will be equal to end().
+  iterator begin() const { return mDiagnostics.begin(); }
+
+  /// \brief Returns an iterator to the element following the last element of
+  /// the container.
+  ///
+  /// This element acts as a placeholder; attempting to access it results in
+  /// undefined behavior.
+  iterator end() const { return mDiagnostics.end(); }
+
+  /// \brief Returns an iterator to the first element of the container.
+  ///
+  /// If the container is empty, the returned iterator will be equal to cend().
+  iterator cbegin() const { return mDiagnostics.begin(); }
+
+  /// \brief Returns an iterator to the element following the last element of
+  /// the container.
+  ///
+  /// This element acts as a placeholder; attempting to access it results in
+  /// undefined behavior.
+  iterator cend() const { return mDiagnostics.end(); }
+
+  /// \brief Returns a reverse iterator to the first element of the reversed
+  /// container.
+  ///
+  /// It corresponds to the last element of the non-reversed container.
+  /// If the container is empty, the returned iterator will be equal to rend().
+  reverse_iterator rbegin() const { return mDiagnostics.rbegin(); }
+
+  /// \brief Returns a reverse iterator to the element following the last
+  /// element of the reversed container.
+  ///
+  /// It corresponds to the element preceding the first element of the
+  /// non-reversed container.
+  /// This element acts as a placeholder; attempting to access it results in
+  /// undefined behavior.
+  reverse_iterator rend() const { return mDiagnostics.rend(); }
+
+  /// \brief Returns a reverse iterator to the first element of the reversed
+  /// container.
+  ///
+  /// It corresponds to the last element of the non-reversed container.
+  /// If the container is empty, the returned iterator will be equal to crend().
+  reverse_iterator crbegin() const { return mDiagnostics.rbegin(); }
+
+  /// \brief Returns a reverse iterator to the element following the last
+  /// element of the reversed container.
+  ///
+  /// It corresponds to the element preceding the first element of the
+  /// non-reversed container.
+  /// This element acts as a placeholder; attempting to access it results in
+  /// undefined behavior.
+  reverse_iterator crend() const { return mDiagnostics.rend(); }
+
+  /// \brief Returns true if the container has no elements.
+  ///
+  /// This does not consider internal errors (see, internal()).
+  bool empty() const { return mDiagnostics.empty(); }
+
+  /// Returns the number of elements in the container.
+  ///
+  /// This does not consider internal errors (see, internal()).
+  size_type size() const { return mDiagnostics.size(); }
+
+  /// Removes all elements from the container including internal errors.
+  void clear() { mDiagnostics.clear(); mInternalError = 0; }
+
+  /// Exchanges the contents of the container with those of other
+  /// including internal errors.
+  void swap(Diagnostic &Other) {
+    mDiagnostics.swap(Other.mDiagnostics);
+    std::swap(mInternalError, Other.mInternalError);
+  }
+
+  /// Returns number of internal erros which have been occurred when
+  /// someone try to insert new error in this container.
+  size_type internal_size() const noexcept { return mInternalError; }
+
+  /// \brief Inserts new diagnostic to the container.
+  ///
+  /// \param[in] Code Identifier of a diagnostic.
+  /// \param[in] Fmt Pointer to a null-terminated multibyte string specifying
+  ///  how to interpret the diagnostic description.
+  /// \param[in] Pos Position associated with a diagnostic.
+  /// \param[in] A Number of parameters which is going to replace format
+  /// placeholders in Fmt string.
+  /// \return True if diagnostic has been successfully inserted. In some cases
+  /// some internal errors may prevent diagnostic insertion. When this occurs
+  /// this method returns false and increments internal errors counter
+  /// (see, internal()).
+  ///
+  /// Each diagnostic is represented as a character string:
+  /// <Kind> C<Code>(<Pos>): <Fmt>, Kind may be error, warning, etc.
+  template<class... Args>
+  bool insert(size_type Code, const char *Fmt, uintmax_t Pos, Args... A) {
+    static constexpr const char *PrefixFmt = "%s C%zu(%ju): ";
+    auto PreSize = std::snprintf(nullptr, 0, PrefixFmt, mKind.get(), Code, Pos);
+    auto ErrSize = std::snprintf(nullptr, 0, Fmt, A...);
+    if (PreSize < 0 || ErrSize < 0) {
+      ++mInternalError;
+      return false;
+    }
+    auto Size = PreSize + ErrSize + 1;
+    char *Buf = new char[Size];
+    if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
+        std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
+      ++mInternalError;
+      return false;
+    }
+    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
+    return true;
+  }
+private:
+  std::unique_ptr<const char[]> mKind;
+  Collection mDiagnostics;
+  size_type mInternalError = 0;
+};
+}
+
+namespace std {
+/// Specializes the std::swap algorithm for bcl::Diagnostic.
+inline void swap(bcl::Diagnostic &LHS, bcl::Diagnostic &RHS) {
+  LHS.swap(RHS);
+}
+}
+#endif//BCL_DIAGNOSTIC_H
-- 
2.43.0


From 438f3ae4c8b6843f641e7021d9b0f1c13d3cb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 13/86] fix: Diagnostic::insert() leaks its buffer if
 formatting fails

---
 include/bcl/Diagnostic.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 9e64bd5..7c7779c 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -206,6 +206,7 @@ public:
     char *Buf = new char[Size];
     if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
         std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
+      delete [] Buf;
       ++mInternalError;
       return false;
     }
-- 
2.43.0


From 71e03fae25406b77b011e2cb89f7b404147a57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 14/86] fix: Diagnostic::swap() does not exchange kinds

---
 include/bcl/Diagnostic.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 7c7779c..8ecbec5 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -170,6 +170,7 @@ public:
   /// Exchanges the contents of the container with those of other
   /// including internal errors.
   void swap(Diagnostic &Other) {
+    mKind.swap(Other.mKind);
     mDiagnostics.swap(Other.mDiagnostics);
     std::swap(mInternalError, Other.mInternalError);
   }
-- 
2.43.0


From 22e57c961c0bb3067e8e21a5025c28f9e9d8e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 15/86] fix: escaped quotes and backslashes in JSON strings

The lexer takes '/' for the escape character, so that it stops at an escaped
quote, and runs over the quote which follows a '/' or an escaped backslash.
---
 include/bcl/Json.h | 3754 ++++++++++++++++++++++----------------------
 1 file changed, 1878 insertions(+), 1876 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index aae7f4e..d31a04b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1,1876 +1,1878 @@
-//===--- Json.h ------------- JSON String Serializer ------------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file implements functionality to parse string contains data in JSON
-// format and convert this string to an appropriate high-level representation.
-// Let us call this string JSON string and appropriate high-level
-// representation JSON object. Backward conversion is also supported. That
-// means that JSON object can be unparsed to a JSON string.
-//
-// The main functionality is available from json::Parser class. Different types
-// are supported, for example, scalar types (int, long, float, etc.),
-// character strings (char *, std::string), arrays (Ty *), some classes
-// (bcl::Diagnostic) and other.
-//
-// Some special supported type is bcl::StaticMap. To convert some JSON string
-// to this type it is necessary to declare appropriate type previously.
-//
-// If JSON objects have special static method name which returns an identifier
-// of each object in a string format and if this identifier is used in
-// JSON string, the json::Parser<...>::parse() method can determine an
-// appropriate JSON object in objects specified as a parameters for Parser
-// template. This method returns json::Object. Note that to make available this
-// search JSON objects should inherit json::Object.
-//
-// To implement conversions for other types or separate cells in bcl::StaticMap
-// it is possible to specialize json::Traits and json::CellTraits
-// templates. If there is not built-in static method name() in a cell in some
-// bcl::StaticMap it is possible to implement it in json::CellTraits
-// specialization.
-//
-// If some errors occurred conversion methods should implement garbage
-// collection.
-//
-// To build JSON string for a JSON object json::Parser<...>::unparse() method
-// can be used. Note that parse() treats pointer as array or scalar depending
-// on the to context but unparse() treats pointer always as an array, except
-// pointers to char (char *). This is due to there is no any way to determine
-// size of array.
-//
-//===----------------------------------------------------------------------===//
-//
-// Now let us see some usage example.
-//
-// 1. The simplest example is:
-// \code
-//   json::Parser<> P(R"j({"0":1, "1":2})j");
-//   int * Array;
-//   P.parse(Array);
-//   for (int I = 0; I < 2; ++I)
-//     std::cout << Array[I] << ' ';
-// \endcode
-// An output is: 1 2.
-//
-// 2. The following code is parsed JSON string "{\"Name\": "Jon", \"Age\": 1}"
-// and prints it to STDOUT. Use Human Obj; Obj[Human::Name] to access a name.
-// \code
-//   JSON_OBJECT_BEGIN(Human)
-//   JSON_OBJECT_PAIR_2(Human, Name, std::string, Age, unsigned)
-//   JSON_OBJECT_END(Human)
-//   JSON_DEFAULT_TRAITS(::, Human)
-//
-//   json::Parser<> P(R"j({"Name": "Jon", "Age": 1})j");
-//   Human O;
-//   if (P.parse<Human>(O)) {
-//     std::cout << O[Human::Name] << ":" << O[Human::Age] << std::endl;
-//
-// 3. If JSON string contains identifier a parse can determine how to parse
-// a specified string. Identifier is a pair of "name" and a value,
-// for example "Human" in a JSON string.
-// \code
-//   JSON_OBJECT_BEGIN(Human)
-//   JSON_OBJECT_ROOT_PAIR_2(Human, Name, std::string, Age, unsigned)
-//     Human() : JSON_INIT_ROOT {}
-//   JSON_OBJECT_END(Human)
-//   JSON_DEFAULT_TRAITS(::, Human)
-//
-//   JSON_OBJECT_BEGIN(Dog)
-//   JSON_OBJECT_ROOT_PAIR(Dog, Name, std::string)
-//   JSON_OBJECT_END(Dog)
-//   JSON_DEFAULT_TRAITS(::, Dog)
-//
-//   json::Parser<Humna, Dog> P(R"j({"name": "Human", "Name": "Jon", "Age": 1})j");
-//   auto O = P.parse();
-//   if (O && O.is<Human>()) {
-//     Human &OH = O->as<Humna>();
-//     std::cout << OH[Human::Name] << OH[Human::Age] << std::endl;
-//   }
-// \endcode
-// Note, that JSON_OBJECT_ROOT_PAIR should be used instead of JSON_OBJECT_PAIR.
-// It is also necessary to add at least default constructor and use
-// JSON_INIT_ROOT in constructor definition.
-//
-// 4. It is also possible to add other constructors and typedefs for value types
-// and define an object in a namespace:
-// \code
-// namespace People {
-//   JSON_OBJECT_BEGIN(Human)
-//   JSON_OBJECT_ROOT_PAIR_2(Human, Name, Age)
-//     Human(const std::string &N, unsigned A) :
-//       JSON_INIT(Human, N, A), JSON_INIT_ROOT {}
-//     using NameTy = JSON_VALUE_TYPE(Human, Name);
-//     using AgeTy = JSON_VALUE_TYPE(Human, Age);
-//   JSON_OBJECT_END(::, Human)
-// }
-// JSON_DEFAULT_TRAITS(People::, Human)
-// \endcode
-//
-// 5. If there were errors while a string has been parsed it is possible to
-// investigate these errors.
-// \code
-//   if (!P.parse<Human>(O)) {
-//     for (auto &Err : P.errors())
-//       std::cerr << Err << "\n";
-//     if (P.errors().internal_size() > 0)
-//       std::cerr << "json error: " << P.errors().internal_size() <<
-//       " internal errors\n";
-//   }
-// 6. To unparse JSON object O use the following code:
-// \code
-//   // Do not add identifier ("name": "Human") to the result.
-//   // This works in case of sub-object (JSON_OBJECT_PAIR was used instead of
-//   // JSON_OBJECT_ROOT_PAIR) and in case of top-level objects.
-//   Human O;
-//   json::Parser<Human>::unparse(O);
-//
-//   // Add identifier to the result. This works only in case of top-level
-//   // objects.
-//   Human O;
-//   json::Parser<Human>::unparseAsObject(O);
-//
-//   // Add identifier to the result. This works only in case of top-level
-//   // objects.
-//   Human OH;
-//   Object &O = OH;
-//   Parser<Human>::unparse(O);
-// \endcode
-//
-// 7. If you want to have more opportunities to customize JSON-object definition
-// it is possible to define new object in the following way:
-// \code
-//   // Let us begin description of a JSON-object 'Human' in a global namespace.
-//   JSON_OBJECT_BEGIN(Human)
-//     // The object contains two name-value pairs which represents human name
-//     // and its age. Here we specify type of a value in each pair.
-//     JSON_VALUE(Name, std::string)
-//     JSON_VALUE(Age, unsigned)
-//
-//     // Now, we specify list of all name-value pairs which should be stored
-//     // in JSON. We use JSON_OBJECT_ROOT to indicate that the current object
-//     // is top-level object. If we want to use this object as a sub-object
-//     // only we can use JSON_OBJECT instead.
-//     JSON_OBJECT_ROOT(Human, Name, Age)
-//
-//     // Now, we specify name-value pairs which can be accessed in C++ code in
-//     // the following way Obj[Human::Name] where 'Obj' has type 'Human'.
-//     JSON_ACCESS(Human, Name)
-//     JSON_ACCESS(Human, Age)
-//
-//     // Arbitrary C++ code can be written here. It becomes a part of
-//     // the Human class. For example, it is possible to add constructor.
-//     // Attention, JSON_INIT_ROOT must be always used in case of
-//     // top-level objects! It is necessary to use it in any constructors
-//     // of a top-level objects (including default).
-//     // So, top-level object can not have an implicit default constructor.
-//     // Hence, a simplest way to define constructor of a top-level object is
-//     // 'Human() : JSON_INIT_ROOT {}'.
-//     // Attention, do not use JSON_INIT_ROOT in case of sub-objects!
-//     Human(const std::string &N, unsigned A) :
-//       JSON_INIT(N, A), JSON_INIT_ROOT {}
-//
-//     // It is also possible to use type of a value in a name-value pair.
-//     using NameTy = JSON_VALUE_TYPE(Human, Name);
-//     using AgeTy = JSON_VALUE_TYPE(Human, Age);
-//
-//   // Here, we finalize description of objects.
-//   JSON_OBJECT_END(Human)
-//   // An finally, it is necessary to describe how the object should be
-//   // parsed/unparsed. Here we use default capabilities, however, it could be
-//   // also customized manually.
-//   JSON_DEFAULT_TRAITS(::, Human)
-// \endcode
-//
-// 8. It is also possible to define JSON-object manually.
-// \code
-//   namespace detail {
-//   struct ExampleObject {
-//     struct Text {
-//       static inline const std::string & name() {
-//         static const std::string N("Text");
-//         return N;
-//       }
-//       using ValueType = const char *;
-//     };
-//   };
-//   }
-//   struct ExampleObject : public bcl::StaticMap<detail::ExampleObject::Text> {
-//     static constexpr detail::ExampleObject::Text Text =
-//       detail::ExampleObject::Text();
-//   };
-//   template<> struct json::Traits<ExampleObject> :
-//     public json::Traits<bcl::StaticMap<::detail::ExampleObject::Text>> {};
-// \endcode
-// The previous code defines some JSON object ExmpaleObject with a single field
-// Text.
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_JSON_H
-#define BCL_JSON_H
-
-#include "cell.h"
-#include "Diagnostic.h"
-#include "utility.h"
-#include <cctype>
-#include <map>
-#include <memory>
-#include <optional>
-#include <set>
-#include <stack>
-#include <string>
-#include <string_view>
-#include <tuple>
-#include <vector>
-
-#define JSON_ERROR_1 "unexpected end of string"
-#define JSON_ERROR_2 "unexpected character '%c' expected '%c'"
-#define JSON_ERROR_3 "unknown json string, identifier '%s' is not found"
-#define JSON_ERROR_4 "unexpected character '%c' identifier expected"
-#define JSON_ERROR_5 "unexpected character '%c' identifier, number or keyword expected"
-#define JSON_ERROR_6 "value conversion error"
-#define JSON_ERROR_7 "uninitialized elements in array"
-#define JSON_ERROR_8 "target object type does not support duplicate of keys"
-#define JSON_ERROR_9 "illegal value"
-#define JSON_ERROR(C) C, JSON_ERROR_##C
-
-#define JSON_OBJECT_BEGIN(Object_) \
-namespace json_ { struct Object_##Impl {
-
-/// Provides static name() method which.
-#define JSON_NAME(Name) \
-static inline const std::string & \
-name() { static const std::string N(#Name); return N;}
-
-///\brief Specifies a way to access a value of a JSON name-value pari.
-///
-/// Usage example:
-///   Object_ Val;
-///   Val[Object_::Name__] = ...
-#define JSON_ACCESS(Object_, Name_) \
-static constexpr json_::Object_##Impl::Name_ Name_ \
-= json_::Object_##Impl::Name_();
-
-/// Specifies a JSON name-value pair. Instead of a concrete value its type should
-/// be specified.
-#define JSON_VALUE(Name_, Type_) \
-struct Name_ { JSON_NAME(Name_) using ValueType = Type_; };
-
-/// Defines structure of a sub-object.
-#define JSON_OBJECT(Object_, ...) \
-  using Base = bcl::StaticMap<__VA_ARGS__>; }; } \
-struct Object_ : public json_::Object_##Impl::Base {
-
-/// Defines structure of a top-level object.
-#define JSON_OBJECT_ROOT(Object_, ...) \
-  using Base = bcl::StaticMap<__VA_ARGS__>; }; } \
-struct Object_ : \
-  public json_::Object_##Impl::Base, public ::json::Object { \
-  JSON_NAME(Object_)
-
-/// Initializes object with a list of values.
-#define JSON_INIT(Object_, ...) json_::Object_##Impl::Base(__VA_ARGS__)
-
-/// Initializes top-level object.
-#define JSON_INIT_ROOT ::json::Object(name())
-
-/// Type of a value with name Name_ in a name-value pair inside object Object_.
-#define JSON_VALUE_TYPE(Object_, Name_) \
-json_::Object_##Impl::Name_::ValueType
-
-/// Ends description of JSON-object.
-#define JSON_OBJECT_END(Object_) };
-
-/// Specifies that a JSON-object should be parsed/unparsed in a default way.
-#define JSON_DEFAULT_TRAITS(namespace_, Object_) \
-namespace json { \
-template<> struct Traits<namespace_ Object_> : \
-  public Traits<namespace_ json_::Object_##Impl::Base> {}; \
-}
-
-namespace json {
-/// This is a base class for all JSON objects which can be obtained when
-/// a string represented JSON is parsed.
-///
-/// \attention All JSON objects must inherit this class and implement a static
-/// method `static ObjectName name()`.
-class Object {
-public:
-  /// Identifier of an object.
-  typedef std::string ObjectName;
-
-  /// Default constructor.
-  explicit Object(const ObjectName &Name) : mName(Name) {}
-
-  /// Virtual destructor.
-  virtual ~Object() {}
-
-  Object(const Object &) = default;
-  Object & operator=(const Object &) = default;
-  Object(Object &&) = default;
-  Object & operator=(Object &&) = default;
-
-  /// Returns identifier of an object.
-  const ObjectName & getName() const noexcept { return mName; }
-
-  /// Returns true if this object has a specified type Ty.
-  template<class Ty> bool is() const { return Ty::name() == mName; }
-
-  /// \brief Casts object to a specified type.
-  ///
-  /// \pre This object must have a specified type, otherwise behavior
-  /// is undefined.
-  template<class Ty> Ty & as() { return static_cast<Ty &>(*this); }
-
-  /// \brief Casts object to a specified type.
-  ///
-  /// \pre This object must have a specified type, otherwise behavior
-  /// is undefined.
-  template<class Ty> const Ty & as() const {
-    return static_cast<const Ty &>(*this);
-  }
-private:
-  ObjectName mName;
-};
-
-/// Type of tokens which may occur in a JSON string.
-enum class Token : char {
-  LEFT_BRACKET = '[',
-  RIGHT_BRACKET = ']',
-  LEFT_BRACE = '{',
-  RIGHT_BRACE = '}',
-  COMMA = ',',
-  COLON = ':',
-  QUOTE = '"',
-  ESCAPE = '/',
-  DOT = '.',
-  PLUS = '+',
-  MINUS = '-',
-  NUMBER = 'n',
-  IDENTIFIER = 'i',
-  KEYWORD = 'k',
-  INVALID = '\0',
-};
-
-/// List of keywords which may occur in a JSON string.
-enum class Keyword : uint8_t {
-  TRUE = 0,
-  FALSE,
-  NO_VALUE,
-};
-
-/// List of keywords which may occur in a JSON string.
-const char *const KeywordTable[] = {"true", "false", "null"};
-
-inline std::string_view toString(Keyword K) noexcept {
-  assert(0 <= static_cast<std::underlying_type_t<Keyword>>(K) &&
-         static_cast<std::underlying_type_t<Keyword>>(K) <
-             sizeof KeywordTable / sizeof KeywordTable[0] &&
-         "Unknown keyword!");
-  return KeywordTable[static_cast<std::underlying_type_t<Keyword>>(K)];
-}
-
-/// Representation of a JSON string.
-typedef std::string String;
-
-/// Position in a JSON string.
-typedef std::string::size_type Position;
-
-/// This is a lexer for a JSON string.
-class Lexer: private bcl::Uncopyable {
-  /// Checks whether a specified character Ch is a quote.
-  static inline bool isQuote(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::QUOTE);
-  }
-
-  /// Checks whether a specified character Ch is escape ('\').
-  static inline bool isEscape(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::ESCAPE);
-  }
-
-  /// Checks whether a specified character Ch is dot.
-  static inline bool isDot(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::DOT);
-  }
-
-  /// Checks whether a specified character Ch identifies a sign of a number.
-  static inline bool isSign(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::MINUS) ||
-      Ch == static_cast<char>(Token::PLUS);
-  }
-
-  /// Checks whether a specified character Ch is a left brace.
-  static inline bool isLeftBrace(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::LEFT_BRACE);
-  }
-
-  /// Checks whether a specified character Ch is a right brace.
-  static inline bool isRightBrace(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::RIGHT_BRACE);
-  }
-
-  /// Checks whether a specified character Ch is a left bracket.
-  static inline bool isLeftBracket(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::LEFT_BRACKET);
-  }
-
-  /// Checks whether a specified character Ch is a right bracket.
-  static inline bool isRightBracket(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::RIGHT_BRACKET);
-  }
-
-  /// State of a lexer.
-  struct State {
-    State(Position S, Position E, Position N, Token T, bool IsInt) :
-      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt) {}
-
-    Position mStart = 0;
-    Position mEnd = 0;
-    Position mNext = 0;
-    Token mToken;
-    bool mIsIntegral = false;
-  };
-
-public:
-  /// Constructs a lexer for a specified JSON string.
-  explicit Lexer(const String &JSON) : mJSON(JSON), mErrors("json error") {}
-
-  /// Goes to a next token in a JSON string.
-  ///
-  /// The token is represented by characters in a range [start(), end()].
-  /// To access a character following the token use next().
-  /// \return `true` if JSON string has been successfully traversed. If errors
-  /// have been occurred they will be stored in errors() container and this
-  /// returns `false`.
-  bool goToNext() {
-    for (; mNext < mJSON.size() && std::isspace(mJSON[mNext]); ++mNext);
-    mToken = Token::INVALID;
-    if (mNext >= mJSON.size()) {
-      mErrors.insert(JSON_ERROR(1), mNext);
-      mStart = mEnd = mNext = mJSON.size();
-      return false;
-    }
-    mStart = mEnd = mNext;
-    if (isQuote(mJSON[mNext])) {
-      for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (isQuote(mJSON[mNext]) && !isEscape(mJSON[mNext - 1])) {
-          mEnd = mNext++;
-          mToken = Token::IDENTIFIER;
-          return true;
-        }
-      }
-      mErrors.insert(JSON_ERROR(1), mStart);
-      mStart = mEnd = mNext = mJSON.size();
-      return false;
-    } else if (std::isdigit(mJSON[mNext]) || isSign(mJSON[mNext])) {
-      mToken = Token::NUMBER;
-      mIsIntegral = true;
-      for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (std::isdigit(mJSON[mNext]))
-          continue;
-        if (isDot(mJSON[mNext])) {
-          if (!mIsIntegral)
-            break;
-          mIsIntegral = false;
-        } else {
-          break;
-        }
-      }
-      mNext = mNext < mJSON.size() ? mNext : mJSON.size();
-      mEnd = mNext - 1;
-      return true;
-    } else if (std::isalpha(mJSON[mNext])) {
-      if (auto K{[this](std::string_view S) {
-            for (std::size_t I = 0,
-                             EI = sizeof KeywordTable / sizeof KeywordTable[0];
-                 I < EI; ++I) {
-              std::string_view Current{KeywordTable[I]};
-              if (S.substr(0, Current.size()) == Current) {
-                mNext = mStart + Current.size();
-                mEnd = mNext - 1;
-                mToken = Token::KEYWORD;
-                mKeyword = static_cast<Keyword>(I);
-                return true;
-              }
-            }
-            return false;
-          }(mJSON.data() + mNext)})
-        return true;
-    }
-    mEnd = mNext;
-    mToken = static_cast<Token>(mJSON[mStart]);
-    ++mNext;
-    return true;
-  }
-
-  /// \brief Checks that current token is a special character Ch.
-  ///
-  /// \return If a current token is not a special character Ch this method
-  /// returns false and add appropriate error in the errors collection.
-  bool checkSpecial(Token Ch) {
-    if (is(Ch))
-      return true;
-    mErrors.insert(JSON_ERROR(2), mStart, mJSON[mStart], Ch);
-    return false;
-  }
-
-  /// \brief Checks that current token is an identifier.
-  ///
-  /// \return If a current token is not an identifier this method
-  /// returns false and add appropriate error in the errors collection.
-  bool checkIdentifier() {
-    if (is(Token::IDENTIFIER))
-      return true;
-    mErrors.insert(JSON_ERROR(4), mStart, mJSON[mStart]);
-    return false;
-  }
-
-  /// \brief Checks that current token is an identifier, a number or a keywrod
-  /// ('true', 'false', 'null').
-  ///
-  ///
-  /// \return If a current token is not an identifier and a number this method
-  /// returns false and add appropriate error in the errors collection.
-  bool checkValue() {
-    if (is(Token::IDENTIFIER) || is(Token::NUMBER) ||
-        isKeyword(Keyword::TRUE) || isKeyword(Keyword::FALSE) ||
-        isKeyword(Keyword::NO_VALUE))
-      return true;
-    mErrors.insert(JSON_ERROR(5), mStart, mJSON[mStart]);
-    return false;
-  }
-
-  /// Skips all characters in a JSON string between braces or brackets,
-  /// return false if some errors have been occurred.
-  bool skipInternal() {
-    Token Last;
-    if (is(Token::LEFT_BRACKET))
-      Last = Token::RIGHT_BRACKET;
-    else if (checkSpecial(Token::LEFT_BRACE))
-      Last = Token::RIGHT_BRACE;
-    else
-      return false;
-    int Level = 0;
-    while (goToNext()) {
-      if ((isRightBrace(mJSON[mStart]) || isRightBracket(mJSON[mStart])) &&
-          Level-- == 0)
-        return checkSpecial(Last);
-      if (isLeftBrace(mJSON[mStart]) || isLeftBracket(mJSON[mStart]))
-        ++Level;
-    }
-    return false;
-  }
-
-  /// Resets current lexer position.
-  void resetPosition() noexcept {
-    mStart = mEnd = mNext = 0;
-    mToken = Token::INVALID;
-  }
-
-  /// Sets lexer position and parses the first token at the new position.
-  void setPosition(Position Start) {
-    mStart = mEnd = mNext = Start;
-    mToken = Token::INVALID;
-    goToNext();
-  }
-
-  /// Saves the current position in an internal stack, it can be restored with
-  /// restorePosition() method.
-  void storePosition() {
-    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral));
-  }
-
-  /// Restores the last stored position. If there is no stored positions do
-  /// nothing.
-  void restorePosition() {
-    if (mStates.empty())
-      return;
-    mStart = mStates.top().mStart;
-    mEnd = mStates.top().mEnd;
-    mNext = mStates.top().mNext;
-    mToken = mStates.top().mToken;
-    mIsIntegral = mStates.top().mIsIntegral;
-  }
-
-  /// \brief Returns start position of a current token in the JSON string.
-  Position start() const noexcept { return mStart; }
-
-  /// \brief Returns end position of a current token in the JSON string.
-  Position end() const noexcept { return mEnd; }
-
-  /// Returns position of a character following a current token in the
-  // JSON string.
-  Position next() const noexcept { return mNext; }
-
-  /// Returns true if a current token is equal to a specified one.
-  bool is(Token Token) const noexcept { return mToken == Token; }
-
-  /// Returns true if a current token is an integral number.
-  bool isIntegral() const noexcept {
-    return mToken == Token::NUMBER && mIsIntegral;
-  }
-
-  /// Returns true if a current token is an floating point number.
-  bool isFloatingPoint() const noexcept {
-    return mToken == Token::NUMBER && !mIsIntegral;
-  }
-
-  /// Return true if a current token is a specified keyword.
-  bool isKeyword(Keyword K) const noexcept {
-    return is(Token::KEYWORD) && mKeyword == K;
-  }
-
-  /// Returns container of errors.
-  bcl::Diagnostic & errors() noexcept { return mErrors; }
-
-  /// Returns container of errors.
-  const bcl::Diagnostic & errors() const noexcept { return mErrors; }
-
-  /// Returns true if errors have been occurred, internal errors are
-  /// also considered.
-  bool hasErrors() const {
-    return !errors().empty() || errors().internal_size() > 0;
-  }
-
-  /// Discards limiting quotes of the current token, if it is an identifier, or
-  /// does nothing.
-  std::pair<Position, Position> discardQuote() const noexcept {
-    return is(Token::IDENTIFIER) ?
-      std::make_pair(start() + 1, end() - 1) :
-      std::make_pair(start(), end());
-  }
-
-  /// Returns a JSON string.
-  const String & json() const noexcept { return mJSON; }
-
-private:
-  String mJSON;
-  bcl::Diagnostic mErrors;
-  Position mStart = 0;
-  Position mEnd = 0;
-  Position mNext = 0;
-  Token mToken;
-  bool mIsIntegral = false;
-  Keyword mKeyword = Keyword::NO_VALUE;
-  std::stack<State> mStates;
-};
-
-/// \brief This implements methods to convert value in a JSON string to
-/// specified type and to assign it to a specified destination.
-///
-/// This class should be specialized by different types. There are some
-/// default specialization for simple types for other types conversion
-/// must be specialized manually.
-///
-///
-/// The following static methods should be implemented:
-/// - static bool parse(Ty &, Lexer &) -
-///     Converts value from a JSON string to a type Ty and stores it
-///     in to a specified destination.
-///     Lexer parameter points to the first value token.
-///     This returns true on success.
-/// - static bool parse(Ty &, Lexer &, std::pair<Position, Position>) -
-///     Converts value from a JSON string to a type Ty and stores it
-///     in to a specified destination.
-///     Lexer parameter points to the first value token.
-///     If value is represented as a map {...} then the last parameter is
-///     a position of a value key in a JSON string
-///     (first and end character is quotes). In case of arrays [] the last
-///     parameter is a pair of (0, number), where number is a number of
-///     currently evaluated element of the array.
-///     This returns true on success.
-/// - static void unparse(String &JSON, const Ty &) -
-///     Converts value to string and stores it ina JSON string.
-///
-/// This last parse method is necessary to evaluate compound types, i.e. types
-/// with values represented as {"K1":V1, ..., "KN":VN} or [V1, ..., VN].
-/// The following implementation is recommended. The parse(Ty &, Lexer &) method
-/// will be invoked to convert compound value to Ty and store it in to the
-/// destination specified by the first parameter. In case of compound type this
-/// method invokes Parser<>::traverse() method to traverses all pair "KI":VI
-/// (or only VI in case of arrays) and invokes for each pair the method
-/// parse(Ty *, Lexer &, std::pair<Position, Position>).
-/// The last parameter will be a position of "KI" or a number of currently
-/// evaluated element of array.
-template<class Ty> struct Traits {
-  typedef typename Ty::UnknownTraitsError ValueType;
-};
-
-/// \brief This implements methods to convert value in a JSON string to
-/// specified cell in a static map.
-///
-/// This class can be specialized by different keys in a static map.
-/// By default this uses implementation of Traits for a type of
-/// data stored in a cell. Note that some specialization can traverse
-/// tokens in a JSON string. For example, see specialization for pointers or
-/// bcl::StaticMap.
-template<class CellKey> struct CellTraits {
-  typedef typename CellKey::ValueType ValueType;
-  inline static bool parse(ValueType &Dest, Lexer &Lex)
-      noexcept(
-        noexcept(Traits<ValueType>::parse(Dest, Lex))) {
-    return Traits<ValueType>::parse(Dest, Lex);
-  }
-  inline static void unparse(String &JSON, const ValueType &Obj)
-      noexcept(
-        noexcept(Traits<ValueType>::unparse(JSON, Obj))) {
-    Traits<ValueType>::unparse(JSON, Obj);
-  }
-  inline static typename std::result_of<
-    decltype(&CellKey::name)()>::type name()
-      noexcept(noexcept(CellKey::name())) {
-    return CellKey::name();
-  }
-};
-
-/// \brief This class parses a string which represents JSON and converts it to
-/// an appropriate representation.
-///
-/// \tparam Objects List of JSON objects supported by parser. Each object
-/// should inherited bcl::StaticMap and json::Object.
-template<class... Objects> class Parser {
-  /// List of supported JSON objects.
-  typedef bcl::TypeList<Objects...> ObjectTypeList;
-
-  /// \brief This parses a specified JSON string and converts it to
-  /// a specified type.
-  ///
-  /// There are two ways to use this functor. If a target type is known it is
-  /// possible to use static method parse(), otherwise this functor can be
-  /// passed to a bcl::TypeList::for_each() method. In the last case
-  /// bcl::TypeList should comprise different target types and appropriate type
-  /// will be determined by name. Note that in this case all target type must
-  /// propose a static `Object::ObjectName name()` method.
-  class ParseFunctor {
-  public:
-    /// Converts JSON string to a specified Ty.
-    template<class Ty> static bool parse(Ty &Obj, Lexer &Lex) {
-      Lex.resetPosition();
-      Lex.goToNext();
-      if (!Traits<Ty>::parse(Obj, Lex)) {
-        Lex.errors().insert(JSON_ERROR(6), Lex.start());
-        return false;
-      }
-      if (Lex.next() < Lex.json().size()) {
-        Lex.goToNext();
-        Lex.checkSpecial(Token::COMMA);
-        return false;
-      }
-      return true;
-    }
-
-    /// Creates functor to convert JSON string to a type with a specified name.
-    ParseFunctor(Object::ObjectName Name, Lexer &Lex) :
-      mName(Name), mLex(Lex) {}
-
-    /// Converts JSON string to a specified Ty if it has an appropriate name.
-    template<class Ty> void operator()() {
-      if (Ty::name() != mName)
-        return;
-      auto Obj = std::unique_ptr<Ty>(new Ty);
-      if (!parse(*Obj, mLex))
-        return;
-      mObject = std::move(Obj);
-    }
-
-    /// Returns unique pointer to created object or nullptr.
-    std::unique_ptr<Object> stealObject() noexcept {
-      return std::move(mObject);
-    }
-
-  private:
-    Object::ObjectName mName;
-    Lexer &mLex;
-    std::unique_ptr<Object> mObject;
-  };
-
-  /// \brief This unparses JSON object to a JSON string.
-  ///
-  /// There are two ways to use this functor. If type of an object is known it
-  /// is possible to use static method unparse(), otherwise this functor can be
-  /// passed to a bcl::TypeList::for_each() method. In the last case
-  /// bcl::TypeList should comprise different target types and appropriate type
-  /// will be determined by name. Note that in this case all target type must
-  /// propose a static `Object::ObjectName name()` method.
-  class UnparseFunctor {
-  public:
-    /// Unparses JSON object of a specified type.
-    template<class Ty> static String unparse(const Ty &Obj) {
-      String JSON;
-      Traits<Ty>::unparse(JSON, Obj);
-      return JSON;
-    }
-
-    /// Creates functor to unparse a specified JSON object.
-    explicit UnparseFunctor(const Object &Obj, const char *NameKey)
-      : mObj(Obj), mNameKey(NameKey) {
-      assert(NameKey && "Identifier of a JSON object must not be null!");
-    }
-
-    /// Unparses JSON object if it has a specified type Ty.
-    template<class Ty> void operator()() {
-      if (!mObj.is<Ty>())
-        return;
-      mString = unparse(mObj.as<Ty>());
-      assert(mString.front() == '{' &&
-        "The first character in a JSON string must be '{'");
-      assert(mString.back() == '}' &&
-        "The last character in a JSON string must be '}'");
-      std::string Name("\"");
-      Name += mNameKey;
-      Name += "\":\"";
-      Name += mObj.getName() + "\"";
-      if (mString.find(':') != String::npos)
-        Name += ',';
-      mString.insert(1, Name);
-    }
-
-    /// Returns unparsed object.
-    const String & getString() const noexcept { return mString; }
-  private:
-    String mString;
-    const Object &mObj;
-    const char *mNameKey;
-  };
-
-public:
-  /// \brief Traverses all pairs of keys and value in a string bounded with
-  /// left and right braces.
-  ///
-  /// This is a utility method which is used to parse JSON string. It should be
-  /// used to add support for additional value conversions.
-  /// \tparam CT This is specialization of CellTraits or Traits
-  /// templates. For each pair of keys and values the method CT::parse() will be
-  /// called.
-  /// \tparam Ty This is a type of JSON object where the converted values
-  /// must be stored.
-  /// \param [in, out] Dest JSON object which is used to store converted value.
-  /// \param [in, out] Lex Lexer which should point to a Token::LEFT_BRACE or
-  /// Token::LEFT_BRACKET tokens. The method will traverse tokens to
-  /// the Token::RIGHT_BRACE or Token::RIGHT_BRACKET.
-  /// \return True on success or false if some errors have been occurred. Such
-  /// errors can be found in Lex.errors() container.
-  template<class CT, class Ty>
-  static bool traverse(Ty &Dest, Lexer &Lex) {
-    Token Last;
-    if (Lex.is(Token::LEFT_BRACKET))
-      Last = Token::RIGHT_BRACKET;
-    else if (Lex.checkSpecial(Token::LEFT_BRACE))
-      Last = Token::RIGHT_BRACE;
-    else
-      return false;
-    Position Count = 0;
-    if (!Lex.goToNext())
-      return false;
-    // It may be empty container, so it is checked here.
-    // This is not the end of string so do not check that
-    // mLex.next() >= mLex.json().size().
-    if (Lex.is(Last))
-      return true;
-    for (;;) {
-      std::pair<Position, Position> Key(0, Count++);
-      if (Last == Token::RIGHT_BRACE) {
-        if (!Lex.checkIdentifier())
-          return false;
-        Key = std::make_pair(Lex.start(), Lex.end());
-        if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
-            !Lex.goToNext())
-          return false;
-      }
-      if (!Lex.is(Token::LEFT_BRACE) && !Lex.is(Token::LEFT_BRACKET) &&
-          !Lex.checkValue())
-        return false;
-      if (!CT::parse(Dest, Lex, Key))
-        return false;
-      if (!Lex.goToNext())
-        return false;
-      // This is not the end of string so do not check that
-      // mLex.next() >= mLex.json().size().
-      if (Lex.is(Last))
-        return true;
-      if (!Lex.checkSpecial(Token::COMMA))
-        return false;
-      if (!Lex.goToNext())
-        return false;
-    }
-  }
-
-  /// \brief Determines number of keys in array representation.
-  ///
-  /// This is a utility method.
-  /// Array is represented using the following JSON strings:
-  /// {"0":V0, ..., "N":VN} or [V0, ..., VN].
-  /// \returns At first, a number of indexes secondly the maximum index occurred
-  /// in array representation and the last one value identifies whether some
-  /// errors have been occurred (false if any error has been occurred).
-  /// For empty arrays the second value in the tuple id undefined.
-  static std::tuple<Position, Position, bool> numberOfKeys(Lexer &Lex);
-
-  /// \brief Unparses a specified JSON object to a JSON string.
-  ///
-  /// NameKey parameter is a key for a field which marks JSON object identifier
-  /// in a JSON string.
-  static String unparse(const Object &Obj, const char *NameKey = "name") {
-    assert(NameKey && "Identifier of a JSON object must not be null!");
-    UnparseFunctor F(Obj, NameKey);
-    ObjectTypeList::for_each_type(F);
-    return F.getString();
-  }
-
-  /// \brief Unparses a specified JSON object to a JSON string.
-  ///
-  /// The specified JSON object will be previously converted to json::Object
-  /// and then it will be unparsed. This is convenient to add identifier of
-  /// the object (NameKey) to a JSON string. This identifier will be
-  /// automatically added for json::Object only.
-  ///
-  /// NameKey parameter is a key for a field which marks JSON object identifier
-  /// in a JSON string.
-  template<class Ty>
-  static String unparseAsObject(const Ty &Obj, const char *NameKey = "name") {
-    return unparse(static_cast<const Object &>(Obj), NameKey);
-  }
-
-  /// Unparses a specified JSON object to a JSON string.
-  template<class Ty,
-    class = typename std::enable_if<
-      !std::is_same<typename std::decay<Ty>::type, Object>::value>::type>
-    static String unparse(const Ty &Obj) {
-    return UnparseFunctor::unparse(Obj);
-  }
-
-  /// \brief Constructs a lexer for a specified JSON string.
-  ///
-  /// NameKey parameter is a key for a field which marks JSON object identifier
-  /// in a JSON string.
-  explicit Parser(const String &JSON, const char *NameKey = "name")
-    : mLex(JSON), mNameKey(NameKey) {
-    assert(NameKey && "Identifier of a JSON object must not be null!");
-  }
-
-  /// Parses JSON string and returns appropriate JSON object or
-  /// nullptr if errors have occurred.
-  std::unique_ptr<Object> parse() {
-    if (!parseName())
-      return nullptr;
-    ParseFunctor F(
-      mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1), mLex);
-    ObjectTypeList::for_each_type(F);
-    return F.stealObject();
-  }
-
-  /// Parses JSON string and converts it to a specified type,
-  /// returns true on success.
-  template<class Ty> bool parse(Ty &Obj) {
-    return ParseFunctor::parse(Obj, mLex);
-  }
-
-  /// Key stored in a JSON string which marks identifier of an JSON object.
-  const char *getNameKey() noexcept {
-    return mNameKey;
-  }
-
-  /// Returns container of errors.
-  const bcl::Diagnostic & errors() const noexcept { return mLex.errors(); }
-
-  /// Returns true if errors have been occurred, internal errors are
-  /// also considered.
-  bool hasErrors() const { return mLex.hasErrors(); }
-
-private:
-  /// \brief Determines identifier to build appropriate JSONObject object.
-  ///
-  /// \post If this method returns true identifier is represented by characters
-  /// in the range [mNameStart, mNameEnd].
-  /// \return True in success, false if some errors have been occurred.
-  bool parseName() {
-    mLex.resetPosition();
-    if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
-      return false;
-    while (mLex.goToNext()) {
-      if (!mLex.is(Token::IDENTIFIER))
-        return false;
-      bool IsName = (mLex.json().compare(
-        mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
-      if (!mLex.goToNext() || !mLex.checkSpecial(Token::COLON) ||
-          !mLex.goToNext())
-        return false;
-      if (IsName) {
-        if (!mLex.checkIdentifier())
-          return false;
-        mNameStart = mLex.start();
-        mNameEnd = mLex.end();
-        return true;
-      }
-      if (((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) &&
-           !mLex.skipInternal()) ||
-          !mLex.checkValue())
-        return false;
-      if (!mLex.goToNext())
-        return false;
-      if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
-        break;
-      if (!mLex.checkSpecial(Token::COMMA))
-        return false;
-      }
-    mLex.errors().insert(JSON_ERROR(3), mLex.json().size(), getNameKey());
-    return false;
-  }
-private:
-  Lexer mLex;
-  Position mNameStart = 0;
-  Position mNameEnd = 0;
-  const char *mNameKey;
-};
-
-template<> struct Traits<std::string> {
-  inline static String unescape(const String &Str) {
-    if (Str.size() < 2)
-      return Str;
-    std::string Res;
-    Res.reserve(Str.length());
-    auto I = Str.begin(), EI = Str.end() - 1;
-    while (I != EI) {
-      if (*I != '\\') {
-        Res += *I;
-        ++I;
-        continue;
-      }
-      switch (*(++I)) {
-        case 'n': Res += "\n"; break;
-        case 't': Res += "\t"; break;
-        case 'v': Res += "\v"; break;
-        case 'f': Res += "\f"; break;
-        case 'r': Res += "\r"; break;
-        case '"': case '\\': Res += *I; break;
-        default: continue;
-      }
-      ++I;
-    }
-    if (I == EI)
-      Res += Str.back();
-    return Res;
-  }
-  inline static Position escape(String &JSON, Position Pos) {
-    switch (JSON[Pos]) {
-      case '\n': JSON.replace(Pos, 1, "n"); break;
-      case '\t': JSON.replace(Pos, 1, "t"); break;
-      case '\v': JSON.replace(Pos, 1, "v"); break;
-      case '\f': JSON.replace(Pos, 1, "f"); break;
-      case '\r': JSON.replace(Pos, 1, "r"); break;
-      case '"': case '\\': break;
-      default: return Pos;
-    }
-    JSON.insert(Pos, "\\");
-    return Pos + 1;
-  }
-  inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
-    try {
-      auto Value = Lex.discardQuote();
-      Dest = unescape(
-        Lex.json().substr(Value.first, Value.second - Value.first + 1));
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, const std::string &Obj) {
-    auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
-    for (; I < JSON.size() - 1; ++I)
-      I = escape(JSON, I);
-  }
-};
-
-template<> struct Traits<char> {
-  inline static bool parse(char &Dest, Lexer &Lex) noexcept {
-    auto Value = Lex.discardQuote();
-    auto Tmp = Traits<std::string>::unescape(
-      Lex.json().substr(Value.first, Value.second - Value.first + 1));
-    if (Tmp.size() != 1)
-      return false;
-    Dest = Lex.json()[Tmp.front()];
-    return true;
-  }
-  inline static void unparse(String &JSON, char Obj) {
-    auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
-    Traits<std::string>::escape(JSON, I);
-  }
-};
-
-template<> struct Traits<int> {
-  inline static bool parse(int &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoi(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, int Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<long> {
-  inline static bool parse(long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stol(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, long Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<long long> {
-  inline static bool parse(long long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoll(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, long long Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<unsigned> {
-  inline static bool parse(unsigned &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = static_cast<unsigned>(std::stoul(Str));
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, unsigned Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<unsigned long> {
-  inline static bool parse(unsigned long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoul(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, unsigned long Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<unsigned long long> {
-  inline static bool parse(unsigned long long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoull(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, unsigned long long Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<float> {
-  inline static bool parse(float &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stof(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, float Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<double> {
-  inline static bool parse(double &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stod(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, double Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<bool> {
-  inline static bool parse(bool &Dest, Lexer &Lex) noexcept {
-    try {
-      if (Lex.isKeyword(Keyword::TRUE)) {
-        return Dest = true;
-      } else if (Lex.isKeyword(Keyword::FALSE)) {
-        return !(Dest = false);
-      }
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = Str == toString(Keyword::TRUE);
-      return (Str == toString(Keyword::TRUE) ||
-              Str == toString(Keyword::FALSE));
-    }
-    catch (...) {
-      return false;
-    }
-  }
-  inline static void unparse(String &JSON, bool Obj) {
-    JSON += Obj ? toString(Keyword::TRUE) : toString(Keyword::FALSE);
-  }
-};
-
-template<> struct Traits<char *> {
-  inline static bool parse(char *&Dest, Lexer &Lex) {
-    char *TmpDest = nullptr;
-    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
-      try {
-        Position MaxIdx, Count;
-        bool Ok;
-        std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
-        if (!Ok)
-          return false;
-        if (Count != 0) {
-          if (Count < MaxIdx + 1) {
-            /// User of JSON serializer can not determine if there is some
-            /// uninitialized elements in an array without manual parsing of
-            /// a JSON string. So do not parse such arrays. This array
-            /// should be parsed as a map.
-            Lex.errors().insert(JSON_ERROR(7), Lex.start());
-            throw 0;
-          } else if (Count > MaxIdx + 1) {
-            Lex.errors().insert(JSON_ERROR(8), Lex.start());
-
-            throw 0;
-          }
-          TmpDest = new char[MaxIdx + 1];
-        }
-        // Note, in case of empty array traverse also should be called to move
-        // lexer position to the end of this array.
-        if (!Parser<>::traverse<Traits<char *>>(TmpDest, Lex))
-          throw 0;
-      }
-      catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
-        return false;
-      }
-    } else {
-      try {
-        auto Value = Lex.discardQuote();
-        auto Unescaped = Traits<std::string>::unescape(
-          Lex.json().substr(Value.first, Value.second - Value.first + 1));
-        TmpDest = new char[Unescaped.length() + 1];
-        Unescaped.copy(TmpDest, Unescaped.length());
-        TmpDest[Unescaped.length()] = '\0';
-      }
-      catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
-        return false;
-      }
-    }
-    Dest = TmpDest;
-    return true;
-  }
-  inline static bool parse(char *&Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    if (Key.first != 0) {
-      // Note that Idx will be successfully converted because this check has
-      // been performed when memory for the Dest array has been allocated.
-      // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
-      return Traits<char>::parse(Dest[Idx], Lex);
-    } else {
-      return Traits<char>::parse(Dest[Key.second], Lex);
-    }
-  }
-  inline static void unparse(String &JSON, const char *Obj) {
-    if (!Obj)
-      return;
-    auto I = JSON.size() + 1;
-    JSON += "\"";
-    JSON += Obj;
-    JSON += "\"";
-    for (; I < JSON.size() - 1; ++I)
-      I = Traits<std::string>::escape(JSON, I);
-  }
-};
-
-template<class Ty> struct Traits<Ty *> {
-  inline static bool parse(Ty *&Dest, Lexer &Lex) {
-    Ty *TmpDest = nullptr;
-    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
-      try {
-        Position MaxIdx, Count;
-        bool Ok;
-        std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
-        if (!Ok)
-          return false;
-        if (Count != 0) {
-          if (Count < MaxIdx + 1) {
-            /// User of JSON serializer can not determine if there is some
-            /// uninitialized elements in an array without manual parsing of
-            /// a JSON string. So do not parse such arrays. This array
-            /// should be parsed as a map.
-            Lex.errors().insert(JSON_ERROR(7), Lex.start());
-            throw 0;
-          } else if (Count > MaxIdx + 1) {
-            Lex.errors().insert(JSON_ERROR(8), Lex.start());
-
-            throw 0;
-          }
-          TmpDest = new Ty[MaxIdx + 1];
-        }
-        // Note, in case of empty array traverse also should be called to move
-        // lexer position to the end of this array.
-        if (!Parser<>::traverse<Traits<Ty *>>(TmpDest, Lex))
-          throw 0;
-      }
-      catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
-        return false;
-      }
-    } else {
-      try {
-        auto Value = Lex.discardQuote();
-        TmpDest = new Ty;
-        if (!Traits<Ty>::parse(*TmpDest, Lex))
-          throw 0;
-      }
-      catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
-        return false;
-      }
-    }
-    Dest = TmpDest;
-    return true;
-  }
-  inline static bool parse(Ty *&Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    if (Key.first != 0) {
-      // Note that Idx will be successfully converted because this check has
-      // been performed when memory for the Dest array has been allocated.
-      // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
-      return Traits<Ty>::parse(Dest[Idx], Lex);
-    } else {
-      return Traits<Ty>::parse(Dest[Key.second], Lex);
-    }
-  }
-  inline static void unparse(String &JSON, const Ty* Obj) {
-    if (Obj)
-      Traits<Ty>::unparse(JSON, *Obj);
-  }
-};
-
-template<class Ty> struct Traits<const Ty *> {
-  inline static bool parse(const Ty *&Dest, Lexer &Lex) {
-    Ty *TmpDest;
-    if (Traits<Ty *>::parse(TmpDest, Lex)) {
-      Dest = TmpDest;
-      return true;
-    }
-    return false;
-  }
-  inline static void unparse(String &JSON, const Ty* Obj) {
-      Traits<Ty *>::unparse(JSON, Obj);
-  }
-};
-
-template<class Ty, class Allocator>
-struct Traits<std::vector<Ty, Allocator>> {
-  inline static bool parse(std::vector<Ty, Allocator> &Dest, Lexer &Lex) {
-    Position MaxIdx, Count;
-    bool Ok;
-    std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
-    if (!Ok)
-      return false;
-    if (Count != 0) {
-      if (Count < MaxIdx + 1) {
-        /// User of JSON serializer can not determine if there is some
-        /// uninitialized elements in an array without manual parsing of
-        /// a JSON string. So do not parse such arrays. This array
-        /// should be parsed as a map.
-        Lex.errors().insert(JSON_ERROR(7), Lex.start());
-        return false;
-      } else if (Count > MaxIdx + 1) {
-        Lex.errors().insert(JSON_ERROR(8), Lex.start());
-        return false;
-      }
-    }
-    Dest.resize(Count);
-    // Note, in case of empty array traverse also should be called to move
-    // lexer position to the end of this array.
-    return Parser<>::
-      traverse<Traits<std::vector<Ty, Allocator>>>(Dest, Lex);
-  }
-  inline static bool parse(std::vector<Ty, Allocator> &Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    if (Key.first != 0) {
-      // Note that Idx will be successfully converted because this check has
-      // been performed when memory for the Dest array has been allocated.
-      // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
-      return Traits<Ty>::parse(Dest[Idx], Lex);
-    } else {
-      return Traits<Ty>::parse(Dest[Key.second], Lex);
-    }
-  }
-  inline static void unparse(String &JSON,
-      const std::vector<Ty, Allocator> &Obj) {
-    typedef std::vector<Ty, Allocator> VecTy;
-    if (!Obj.empty()) {
-      std::vector<String> Values(Obj.size());
-      bool HasEmpty = false;
-      for (typename VecTy::size_type I = 0; I < Obj.size(); ++I) {
-        Traits<typename VecTy::value_type>::unparse(Values[I], Obj[I]);
-        HasEmpty = HasEmpty || Values[I].empty();
-      }
-      if (HasEmpty) {
-        JSON += '{';
-        for (typename VecTy::size_type I = 0; I < Obj.size(); ++I) {
-          if (Values[I].empty())
-            continue;
-          JSON += "\"";
-          Traits<unsigned long long>::unparse(JSON, I);
-          JSON += "\":" + Values[I] + ",";
-        }
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
-        JSON += '}';
-      } else {
-        JSON += '[';
-        for (auto &V : Values)
-          JSON += V + ',';
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
-        JSON += ']';
-      }
-    } else {
-      JSON += "[]";
-    }
-  }
-};
-
-template<class KeyTy, class Compare, class Allocator>
-struct Traits<std::set<KeyTy, Compare, Allocator>> {
-  typedef std::set<KeyTy, Compare, Allocator> SetTy;
-  inline static bool parse(SetTy &Dest, Lexer &Lex) {
-    if (!Lex.checkSpecial(Token::LEFT_BRACKET))
-      return false;
-    return Parser<>::traverse<Traits<SetTy>>(Dest, Lex);
-  }
-  inline static bool parse(SetTy &Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    KeyTy KeyValue;
-    if (!Traits<KeyTy>::parse(KeyValue, Lex))
-      return false;
-    auto Pair = Dest.insert(std::move(KeyValue));
-    if (!Pair.second) {
-      Lex.errors().insert(JSON_ERROR(8), Lex.start());
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, const SetTy &Obj) {
-    JSON += '[';
-    if (!Obj.empty()) {
-      auto I = Obj.begin(), EI = Obj.end();
-      for (--EI; I != EI; ++I) {
-        String Key;
-        Traits<KeyTy>::unparse(Key, *I);
-        if (!Key.empty())
-          JSON += Key + ',';
-      }
-      String Key;
-      Traits<KeyTy>::unparse(Key, *I);
-      if (!Key.empty())
-        JSON += Key;
-      else if (JSON.back() == ',')
-        JSON.erase(JSON.size() - 1);
-    }
-    JSON += ']';
-  }
-};
-
-template<class KeyTy, class Ty, class Compare, class Allocator>
-struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
-  typedef std::map<KeyTy, Ty, Compare, Allocator> MapTy;
-  inline static bool parse(MapTy &Dest, Lexer &Lex) {
-    return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
-  }
-  inline static bool parse(MapTy &Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    Lex.storePosition();
-    Lex.setPosition(Key.first);
-    KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
-    Lex.restorePosition();
-    auto Pair = Dest.emplace(KeyValue, Ty());
-    if (!Pair.second) {
-      Lex.errors().insert(JSON_ERROR(8), Lex.start());
-      return false;
-    }
-    if (!Traits<Ty>::parse(Pair.first->second, Lex)) {
-      Dest.erase(Pair.first);
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, const MapTy &Obj) {
-    JSON += '{';
-    if (!Obj.empty()) {
-      auto I = Obj.begin(), EI = Obj.end();
-      for (--EI; I != EI; ++I) {
-        String Value;
-        Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
-        if (!Value.empty()) {
-          String Id;
-          Traits<typename MapTy::key_type>::unparse(Id, I->first);
-          Id = bcl::quote(std::move(Id));
-          JSON += Id + ':'+ Value + ',';
-        }
-      }
-      String Value;
-      Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
-      if (!Value.empty()) {
-        String Id;
-        Traits<typename MapTy::key_type>::unparse(Id, I->first);
-        Id = bcl::quote(std::move(Id));
-        JSON += Id + ':' + Value;
-      } else if (JSON.back() == ',') {
-        JSON.erase(JSON.size() - 1);
-      }
-    }
-    JSON += '}';
-  }
-};
-
-template<class KeyTy, class Ty, class Compare, class Allocator>
-struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
-  typedef std::multimap<KeyTy, Ty, Compare, Allocator> MapTy;
-  inline static bool parse(MapTy &Dest, Lexer &Lex) {
-    return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
-  }
-  inline static bool parse(MapTy &Dest, Lexer &Lex,
-    std::pair<Position, Position> Key) {
-    Lex.storePosition();
-    Lex.setPosition(Key.first);
-    KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
-    Lex.restorePosition();
-    auto Itr = Dest.emplace(KeyValue, Ty());
-    if (Itr == Dest.end())
-      return false;
-    if (!Traits<Ty>::parse(Itr->second, Lex)) {
-      Dest.erase(Itr);
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, const MapTy &Obj) {
-    JSON += '{';
-    if (!Obj.empty()) {
-      auto I = Obj.begin(), EI = Obj.end();
-      for (--EI; I != EI; ++I) {
-        String Value;
-        Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
-        if (!Value.empty()) {
-          String Id;
-          Traits<typename MapTy::key_type>::unparse(Id, I->first);
-          Id = bcl::quote(std::move(Id));
-          JSON += Id + ':' + Value + ',';
-        }
-      }
-      String Value;
-      Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
-      if (!Value.empty()) {
-        String Id;
-        Traits<typename MapTy::key_type>::unparse(Id, I->first);
-        Id = bcl::quote(std::move(Id));
-        JSON += Id + ':' + Value;
-      } else if (JSON.back() == ',') {
-        JSON.erase(JSON.size() - 1);
-      }
-    }
-    JSON += '}';
-  }
-};
-
-namespace detail {
-/// This functor parses a value which starts with the last token extracted
-/// from a JSON string, converts it to an appropriate type and assigns
-/// to an appropriate field in a JSON object implemented as a bcl::StaticMap.
-class ParseCellFunctor {
-public:
-  /// \brief Creates this functor to parse a value associated with
-  /// a specified key.
-  ///
-  /// The Key parameter is necessary to identify destination which should be set
-  /// on the parsed value.
-  ParseCellFunctor(std::pair<Position, Position> Key, Lexer &Lex) : mLex(Lex),
-    mKey(Key), mHasError(false) {}
-
-  /// \brief Parses a value specified by the last token evaluated by the
-  /// lexer, converts it to an appropriate type and assigns to a currently
-  /// evaluated key determined in constructor.
-  ///
-  /// Note that the current token may be beginning of a compound value,
-  /// for example '{'.
-  template<class CellTy> void operator()(CellTy *Cell) {
-    typedef typename CellTy::CellKey CellKey;
-    if (mLex.json().compare(
-          mKey.first + 1, mKey.second - mKey.first - 1 ,
-          CellTraits<CellKey>::name()) != 0)
-      return;
-    mHasError = !CellTraits<CellKey>::parse(
-      Cell->template value<CellKey>(), mLex);
-  }
-
-  /// Returns true if errors have been occurred during conversion.
-  bool hasError() const noexcept { return mHasError; }
-private:
-  Lexer &mLex;
-  std::pair<Position, Position> mKey;
-  bool mHasError;
-};
-
-/// This functor unparses JSON object represented as a bcl::StaticMap. It should
-/// be called for each cell in the map.
-class UnparseCellFunctor {
-public:
-  /// Creates functor which stores unparsed data in a specified JSON string.
-  explicit UnparseCellFunctor(String &JSON) : mIsFirst(true), mJSON(JSON) {}
-
-  /// Unparses a specified cell if it has a value.
-  template<class CellTy> void operator()(CellTy *Cell) {
-    typedef typename CellTy::CellKey CellKey;
-    String Value;
-    CellTraits<CellKey>::unparse(Value, Cell->template value<CellKey>());
-    if (Value.empty())
-      return;
-    if (!mIsFirst)
-      mJSON += ',';
-    else
-      mIsFirst = false;
-    Traits<
-      typename std::decay<
-        typename std::result_of<
-          decltype(&CellTraits<CellKey>::name)()>::type>::type>::
-      unparse(mJSON, CellTraits<CellKey>::name());
-    mJSON += ':' + Value;
-  }
-private:
-  bool mIsFirst;
-  String &mJSON;
-};
-}
-
-template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
-  inline static bool parse(bcl::StaticMap<Args...> &Dest, Lexer &Lex) {
-    if (!Lex.checkSpecial(Token::LEFT_BRACE))
-      return false;
-    return Parser<>::
-      traverse<Traits<bcl::StaticMap<Args...>>>(Dest, Lex);
-  }
-  inline static bool parse(bcl::StaticMap<Args...> &Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    detail::ParseCellFunctor Parse(Key, Lex);
-    Dest.for_each(Parse);
-    return !Parse.hasError();
-  }
-  inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
-    detail::UnparseCellFunctor Unparse(JSON);
-    JSON += '{';
-    Obj.for_each(Unparse);
-    JSON += '}';
-  }
-};
-
-template<class... Objects> std::tuple<Position, Position, bool>
-Parser<Objects...>::numberOfKeys(Lexer &Lex) {
-  Lex.storePosition();
-  Position MaxIdx = 0;
-  Position Count = 0;
-  Token Last;
-  if (Lex.is(Token::LEFT_BRACKET))
-    Last = Token::RIGHT_BRACKET;
-  else if (Lex.checkSpecial(Token::LEFT_BRACE))
-    Last = Token::RIGHT_BRACE;
-  else
-    return std::make_tuple(0, 0, false);
-  if (!Lex.goToNext())
-    return std::make_tuple(0, 0, false);
-  if (Lex.is(Last)) {
-    Lex.restorePosition();
-    return std::make_tuple(0, 0, true);
-  }
-  for (;;) {
-    ++Count;
-    if (Last == Token::RIGHT_BRACE) {
-      if (!Lex.checkIdentifier())
-        return std::make_tuple(0, 0, false);
-      unsigned long long Idx;
-      if (!Traits<unsigned long long>::parse(Idx, Lex))
-        return std::make_tuple(0, 0, false);
-      MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
-      if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
-          !Lex.goToNext())
-        return std::make_tuple(0, 0, false);
-    }
-    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
-      if (!Lex.skipInternal())
-        return std::make_tuple(0, 0, false);
-    } else if (!Lex.checkValue()) {
-      return std::make_tuple(0, 0, false);
-    }
-    if (!Lex.goToNext())
-      return std::make_tuple(0, 0, false);
-    if (Lex.is(Last))
-      break;
-    if (!Lex.checkSpecial(Token::COMMA))
-      return std::make_tuple(0, 0, false);
-    if (!Lex.goToNext())
-      return std::make_tuple(0, 0, false);
-  }
-  Lex.restorePosition();
-  return std::make_tuple(
-    Count, Last == Token::RIGHT_BRACE ? MaxIdx : Count - 1, true);
-}
-
-template<> struct Traits<bcl::Diagnostic> {
-  inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex) {
-    return Parser<>::
-      traverse<Traits<bcl::Diagnostic>>(Dest, Lex);
-  }
-  inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
-    std::pair<Position, Position>) {
-    const char *Msg;
-    if (!Traits<const char *>::parse(Msg, Lex))
-      return false;
-    char *Kind = new char[std::strlen(Msg) + 1];
-    char *Buf = new char[std::strlen(Msg) + 1];
-    std::size_t Code;
-    std::uintmax_t Pos;
-    auto ArgNum = std::sscanf(Msg, "%s C%zu(%ju): %s", Kind, &Code, &Pos, Buf);
-    if (ArgNum != 4 || std::strcmp(Kind, Dest.getKind()) != 0 ||
-        !Dest.insert(Code, "%s", Pos, Buf)) {
-      Lex.errors().insert(JSON_ERROR(9), Lex.start());
-      delete[]Kind;
-      delete[]Buf;
-      return false;
-    }
-    delete[]Kind;
-    delete[]Buf;
-    return true;
-  }
-  inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
-    JSON += '[';
-    if (!Obj.empty()) {
-      auto I = Obj.begin(), EI = Obj.end();
-      bcl::Diagnostic::size_type Idx = 0;
-      for (--EI; I != EI; ++I, ++Idx) {
-        Traits<bcl::Diagnostic::value_type>::unparse(JSON, *I);
-        JSON += ',';
-      }
-      Traits<bcl::Diagnostic::value_type>::unparse(JSON, *I);
-    }
-    JSON += ']';
-  }
-};
-
-/// Specialization of JSON serialization traits for std::optional type.
-///
-/// Note that 'T' must be default constructible and copy assignable.
-template<class T> struct Traits<std::optional<T>> {
-  static_assert(std::is_default_constructible<T>::value,
-    "Underlining type must be default constructible!");
-  static_assert(std::is_copy_assignable<T>::value,
-    "Underlining type must be copy assignable!");
-  static bool parse(std::optional<T> &Dest, ::json::Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      if (Lex.isKeyword(Keyword::NO_VALUE) ||
-          Traits<std::string>::parse(Str, Lex) &&
-              Str == toString(Keyword::NO_VALUE)) {
-        Dest.reset();
-      } else {
-        T Tmp;
-        Traits<T>::parse(Tmp, Lex);
-        Dest = std::move(Tmp);
-      }
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  static void unparse(String &JSON, const std::optional<T> &Obj) {
-    if (Obj.has_value())
-      Traits<T>::unparse(JSON, *Obj);
-    else
-      JSON += toString(Keyword::NO_VALUE);
-  }
-};
-}
-
-//===- Definition of macros which simplifies definition of a JSON-object --===//
-#include "JsonObjectMacros.h"
-
-#endif// TSAR_REQUESTS_H
+//===--- Json.h ------------- JSON String Serializer ------------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file implements functionality to parse string contains data in JSON
+// format and convert this string to an appropriate high-level representation.
+// Let us call this string JSON string and appropriate high-level
+// representation JSON object. Backward conversion is also supported. That
+// means that JSON object can be unparsed to a JSON string.
+//
+// The main functionality is available from json::Parser class. Different types
+// are supported, for example, scalar types (int, long, float, etc.),
+// character strings (char *, std::string), arrays (Ty *), some classes
+// (bcl::Diagnostic) and other.
+//
+// Some special supported type is bcl::StaticMap. To convert some JSON string
+// to this type it is necessary to declare appropriate type previously.
+//
+// If JSON objects have special static method name which returns an identifier
+// of each object in a string format and if this identifier is used in
+// JSON string, the json::Parser<...>::parse() method can determine an
+// appropriate JSON object in objects specified as a parameters for Parser
+// template. This method returns json::Object. Note that to make available this
+// search JSON objects should inherit json::Object.
+//
+// To implement conversions for other types or separate cells in bcl::StaticMap
+// it is possible to specialize json::Traits and json::CellTraits
+// templates. If there is not built-in static method name() in a cell in some
+// bcl::StaticMap it is possible to implement it in json::CellTraits
+// specialization.
+//
+// If some errors occurred conversion methods should implement garbage
+// collection.
+//
+// To build JSON string for a JSON object json::Parser<...>::unparse() method
+// can be used. Note that parse() treats pointer as array or scalar depending
+// on the to context but unparse() treats pointer always as an array, except
+// pointers to char (char *). This is due to there is no any way to determine
+// size of array.
+//
+//===----------------------------------------------------------------------===//
+//
+// Now let us see some usage example.
+//
+// 1. The simplest example is:
+// \code
+//   json::Parser<> P(R"j({"0":1, "1":2})j");
+//   int * Array;
+//   P.parse(Array);
+//   for (int I = 0; I < 2; ++I)
+//     std::cout << Array[I] << ' ';
+// \endcode
+// An output is: 1 2.
+//
+// 2. The following code is parsed JSON string "{\"Name\": "Jon", \"Age\": 1}"
+// and prints it to STDOUT. Use Human Obj; Obj[Human::Name] to access a name.
+// \code
+//   JSON_OBJECT_BEGIN(Human)
+//   JSON_OBJECT_PAIR_2(Human, Name, std::string, Age, unsigned)
+//   JSON_OBJECT_END(Human)
+//   JSON_DEFAULT_TRAITS(::, Human)
+//
+//   json::Parser<> P(R"j({"Name": "Jon", "Age": 1})j");
+//   Human O;
+//   if (P.parse<Human>(O)) {
+//     std::cout << O[Human::Name] << ":" << O[Human::Age] << std::endl;
+//
+// 3. If JSON string contains identifier a parse can determine how to parse
+// a specified string. Identifier is a pair of "name" and a value,
+// for example "Human" in a JSON string.
+// \code
+//   JSON_OBJECT_BEGIN(Human)
+//   JSON_OBJECT_ROOT_PAIR_2(Human, Name, std::string, Age, unsigned)
+//     Human() : JSON_INIT_ROOT {}
+//   JSON_OBJECT_END(Human)
+//   JSON_DEFAULT_TRAITS(::, Human)
+//
+//   JSON_OBJECT_BEGIN(Dog)
+//   JSON_OBJECT_ROOT_PAIR(Dog, Name, std::string)
+//   JSON_OBJECT_END(Dog)
+//   JSON_DEFAULT_TRAITS(::, Dog)
+//
+//   json::Parser<Humna, Dog> P(R"j({"name": "Human", "Name": "Jon", "Age": 1})j");
+//   auto O = P.parse();
+//   if (O && O.is<Human>()) {
+//     Human &OH = O->as<Humna>();
+//     std::cout << OH[Human::Name] << OH[Human::Age] << std::endl;
+//   }
+// \endcode
+// Note, that JSON_OBJECT_ROOT_PAIR should be used instead of JSON_OBJECT_PAIR.
+// It is also necessary to add at least default constructor and use
+// JSON_INIT_ROOT in constructor definition.
+//
+// 4. It is also possible to add other constructors and typedefs for value types
+// and define an object in a namespace:
+// \code
+// namespace People {
+//   JSON_OBJECT_BEGIN(Human)
+//   JSON_OBJECT_ROOT_PAIR_2(Human, Name, Age)
+//     Human(const std::string &N, unsigned A) :
+//       JSON_INIT(Human, N, A), JSON_INIT_ROOT {}
+//     using NameTy = JSON_VALUE_TYPE(Human, Name);
+//     using AgeTy = JSON_VALUE_TYPE(Human, Age);
+//   JSON_OBJECT_END(::, Human)
+// }
+// JSON_DEFAULT_TRAITS(People::, Human)
+// \endcode
+//
+// 5. If there were errors while a string has been parsed it is possible to
+// investigate these errors.
+// \code
+//   if (!P.parse<Human>(O)) {
+//     for (auto &Err : P.errors())
+//       std::cerr << Err << "\n";
+//     if (P.errors().internal_size() > 0)
+//       std::cerr << "json error: " << P.errors().internal_size() <<
+//       " internal errors\n";
+//   }
+// 6. To unparse JSON object O use the following code:
+// \code
+//   // Do not add identifier ("name": "Human") to the result.
+//   // This works in case of sub-object (JSON_OBJECT_PAIR was used instead of
+//   // JSON_OBJECT_ROOT_PAIR) and in case of top-level objects.
+//   Human O;
+//   json::Parser<Human>::unparse(O);
+//
+//   // Add identifier to the result. This works only in case of top-level
+//   // objects.
+//   Human O;
+//   json::Parser<Human>::unparseAsObject(O);
+//
+//   // Add identifier to the result. This works only in case of top-level
+//   // objects.
+//   Human OH;
+//   Object &O = OH;
+//   Parser<Human>::unparse(O);
+// \endcode
+//
+// 7. If you want to have more opportunities to customize JSON-object definition
+// it is possible to define new object in the following way:
+// \code
+//   // Let us begin description of a JSON-object 'Human' in a global namespace.
+//   JSON_OBJECT_BEGIN(Human)
+//     // The object contains two name-value pairs which represents human name
+//     // and its age. Here we specify type of a value in each pair.
+//     JSON_VALUE(Name, std::string)
+//     JSON_VALUE(Age, unsigned)
+//
+//     // Now, we specify list of all name-value pairs which should be stored
+//     // in JSON. We use JSON_OBJECT_ROOT to indicate that the current object
+//     // is top-level object. If we want to use this object as a sub-object
+//     // only we can use JSON_OBJECT instead.
+//     JSON_OBJECT_ROOT(Human, Name, Age)
+//
+//     // Now, we specify name-value pairs which can be accessed in C++ code in
+//     // the following way Obj[Human::Name] where 'Obj' has type 'Human'.
+//     JSON_ACCESS(Human, Name)
+//     JSON_ACCESS(Human, Age)
+//
+//     // Arbitrary C++ code can be written here. It becomes a part of
+//     // the Human class. For example, it is possible to add constructor.
+//     // Attention, JSON_INIT_ROOT must be always used in case of
+//     // top-level objects! It is necessary to use it in any constructors
+//     // of a top-level objects (including default).
+//     // So, top-level object can not have an implicit default constructor.
+//     // Hence, a simplest way to define constructor of a top-level object is
+//     // 'Human() : JSON_INIT_ROOT {}'.
+//     // Attention, do not use JSON_INIT_ROOT in case of sub-objects!
+//     Human(const std::string &N, unsigned A) :
+//       JSON_INIT(N, A), JSON_INIT_ROOT {}
+//
+//     // It is also possible to use type of a value in a name-value pair.
+//     using NameTy = JSON_VALUE_TYPE(Human, Name);
+//     using AgeTy = JSON_VALUE_TYPE(Human, Age);
+//
+//   // Here, we finalize description of objects.
+//   JSON_OBJECT_END(Human)
+//   // An finally, it is necessary to describe how the object should be
+//   // parsed/unparsed. Here we use default capabilities, however, it could be
+//   // also customized manually.
+//   JSON_DEFAULT_TRAITS(::, Human)
+// \endcode
+//
+// 8. It is also possible to define JSON-object manually.
+// \code
+//   namespace detail {
+//   struct ExampleObject {
+//     struct Text {
+//       static inline const std::string & name() {
+//         static const std::string N("Text");
+//         return N;
+//       }
+//       using ValueType = const char *;
+//     };
+//   };
+//   }
+//   struct ExampleObject : public bcl::StaticMap<detail::ExampleObject::Text> {
+//     static constexpr detail::ExampleObject::Text Text =
+//       detail::ExampleObject::Text();
+//   };
+//   template<> struct json::Traits<ExampleObject> :
+//     public json::Traits<bcl::StaticMap<::detail::ExampleObject::Text>> {};
+// \endcode
+// The previous code defines some JSON object ExmpaleObject with a single field
+// Text.
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_JSON_H
+#define BCL_JSON_H
+
+#include "cell.h"
+#include "Diagnostic.h"
+#include "utility.h"
+#include <cctype>
+#include <map>
+#include <memory>
+#include <optional>
+#include <set>
+#include <stack>
+#include <string>
+#include <string_view>
+#include <tuple>
+#include <vector>
+
+#define JSON_ERROR_1 "unexpected end of string"
+#define JSON_ERROR_2 "unexpected character '%c' expected '%c'"
+#define JSON_ERROR_3 "unknown json string, identifier '%s' is not found"
+#define JSON_ERROR_4 "unexpected character '%c' identifier expected"
+#define JSON_ERROR_5 "unexpected character '%c' identifier, number or keyword expected"
+#define JSON_ERROR_6 "value conversion error"
+#define JSON_ERROR_7 "uninitialized elements in array"
+#define JSON_ERROR_8 "target object type does not support duplicate of keys"
+#define JSON_ERROR_9 "illegal value"
+#define JSON_ERROR(C) C, JSON_ERROR_##C
+
+#define JSON_OBJECT_BEGIN(Object_) \
+namespace json_ { struct Object_##Impl {
+
+/// Provides static name() method which.
+#define JSON_NAME(Name) \
+static inline const std::string & \
+name() { static const std::string N(#Name); return N;}
+
+///\brief Specifies a way to access a value of a JSON name-value pari.
+///
+/// Usage example:
+///   Object_ Val;
+///   Val[Object_::Name__] = ...
+#define JSON_ACCESS(Object_, Name_) \
+static constexpr json_::Object_##Impl::Name_ Name_ \
+= json_::Object_##Impl::Name_();
+
+/// Specifies a JSON name-value pair. Instead of a concrete value its type should
+/// be specified.
+#define JSON_VALUE(Name_, Type_) \
+struct Name_ { JSON_NAME(Name_) using ValueType = Type_; };
+
+/// Defines structure of a sub-object.
+#define JSON_OBJECT(Object_, ...) \
+  using Base = bcl::StaticMap<__VA_ARGS__>; }; } \
+struct Object_ : public json_::Object_##Impl::Base {
+
+/// Defines structure of a top-level object.
+#define JSON_OBJECT_ROOT(Object_, ...) \
+  using Base = bcl::StaticMap<__VA_ARGS__>; }; } \
+struct Object_ : \
+  public json_::Object_##Impl::Base, public ::json::Object { \
+  JSON_NAME(Object_)
+
+/// Initializes object with a list of values.
+#define JSON_INIT(Object_, ...) json_::Object_##Impl::Base(__VA_ARGS__)
+
+/// Initializes top-level object.
+#define JSON_INIT_ROOT ::json::Object(name())
+
+/// Type of a value with name Name_ in a name-value pair inside object Object_.
+#define JSON_VALUE_TYPE(Object_, Name_) \
+json_::Object_##Impl::Name_::ValueType
+
+/// Ends description of JSON-object.
+#define JSON_OBJECT_END(Object_) };
+
+/// Specifies that a JSON-object should be parsed/unparsed in a default way.
+#define JSON_DEFAULT_TRAITS(namespace_, Object_) \
+namespace json { \
+template<> struct Traits<namespace_ Object_> : \
+  public Traits<namespace_ json_::Object_##Impl::Base> {}; \
+}
+
+namespace json {
+/// This is a base class for all JSON objects which can be obtained when
+/// a string represented JSON is parsed.
+///
+/// \attention All JSON objects must inherit this class and implement a static
+/// method `static ObjectName name()`.
+class Object {
+public:
+  /// Identifier of an object.
+  typedef std::string ObjectName;
+
+  /// Default constructor.
+  explicit Object(const ObjectName &Name) : mName(Name) {}
+
+  /// Virtual destructor.
+  virtual ~Object() {}
+
+  Object(const Object &) = default;
+  Object & operator=(const Object &) = default;
+  Object(Object &&) = default;
+  Object & operator=(Object &&) = default;
+
+  /// Returns identifier of an object.
+  const ObjectName & getName() const noexcept { return mName; }
+
+  /// Returns true if this object has a specified type Ty.
+  template<class Ty> bool is() const { return Ty::name() == mName; }
+
+  /// \brief Casts object to a specified type.
+  ///
+  /// \pre This object must have a specified type, otherwise behavior
+  /// is undefined.
+  template<class Ty> Ty & as() { return static_cast<Ty &>(*this); }
+
+  /// \brief Casts object to a specified type.
+  ///
+  /// \pre This object must have a specified type, otherwise behavior
+  /// is undefined.
+  template<class Ty> const Ty & as() const {
+    return static_cast<const Ty &>(*this);
+  }
+private:
+  ObjectName mName;
+};
+
+/// Type of tokens which may occur in a JSON string.
+enum class Token : char {
+  LEFT_BRACKET = '[',
+  RIGHT_BRACKET = ']',
+  LEFT_BRACE = '{',
+  RIGHT_BRACE = '}',
+  COMMA = ',',
+  COLON = ':',
+  QUOTE = '"',
+  ESCAPE = '\\',
+  DOT = '.',
+  PLUS = '+',
+  MINUS = '-',
+  NUMBER = 'n',
+  IDENTIFIER = 'i',
+  KEYWORD = 'k',
+  INVALID = '\0',
+};
+
+/// List of keywords which may occur in a JSON string.
+enum class Keyword : uint8_t {
+  TRUE = 0,
+  FALSE,
+  NO_VALUE,
+};
+
+/// List of keywords which may occur in a JSON string.
+const char *const KeywordTable[] = {"true", "false", "null"};
+
+inline std::string_view toString(Keyword K) noexcept {
+  assert(0 <= static_cast<std::underlying_type_t<Keyword>>(K) &&
+         static_cast<std::underlying_type_t<Keyword>>(K) <
+             sizeof KeywordTable / sizeof KeywordTable[0] &&
+         "Unknown keyword!");
+  return KeywordTable[static_cast<std::underlying_type_t<Keyword>>(K)];
+}
+
+/// Representation of a JSON string.
+typedef std::string String;
+
+/// Position in a JSON string.
+typedef std::string::size_type Position;
+
+/// This is a lexer for a JSON string.
+class Lexer: private bcl::Uncopyable {
+  /// Checks whether a specified character Ch is a quote.
+  static inline bool isQuote(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::QUOTE);
+  }
+
+  /// Checks whether a specified character Ch is escape ('\').
+  static inline bool isEscape(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::ESCAPE);
+  }
+
+  /// Checks whether a specified character Ch is dot.
+  static inline bool isDot(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::DOT);
+  }
+
+  /// Checks whether a specified character Ch identifies a sign of a number.
+  static inline bool isSign(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::MINUS) ||
+      Ch == static_cast<char>(Token::PLUS);
+  }
+
+  /// Checks whether a specified character Ch is a left brace.
+  static inline bool isLeftBrace(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::LEFT_BRACE);
+  }
+
+  /// Checks whether a specified character Ch is a right brace.
+  static inline bool isRightBrace(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::RIGHT_BRACE);
+  }
+
+  /// Checks whether a specified character Ch is a left bracket.
+  static inline bool isLeftBracket(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::LEFT_BRACKET);
+  }
+
+  /// Checks whether a specified character Ch is a right bracket.
+  static inline bool isRightBracket(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::RIGHT_BRACKET);
+  }
+
+  /// State of a lexer.
+  struct State {
+    State(Position S, Position E, Position N, Token T, bool IsInt) :
+      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt) {}
+
+    Position mStart = 0;
+    Position mEnd = 0;
+    Position mNext = 0;
+    Token mToken;
+    bool mIsIntegral = false;
+  };
+
+public:
+  /// Constructs a lexer for a specified JSON string.
+  explicit Lexer(const String &JSON) : mJSON(JSON), mErrors("json error") {}
+
+  /// Goes to a next token in a JSON string.
+  ///
+  /// The token is represented by characters in a range [start(), end()].
+  /// To access a character following the token use next().
+  /// \return `true` if JSON string has been successfully traversed. If errors
+  /// have been occurred they will be stored in errors() container and this
+  /// returns `false`.
+  bool goToNext() {
+    for (; mNext < mJSON.size() && std::isspace(mJSON[mNext]); ++mNext);
+    mToken = Token::INVALID;
+    if (mNext >= mJSON.size()) {
+      mErrors.insert(JSON_ERROR(1), mNext);
+      mStart = mEnd = mNext = mJSON.size();
+      return false;
+    }
+    mStart = mEnd = mNext;
+    if (isQuote(mJSON[mNext])) {
+      for (++mNext; mNext < mJSON.size(); ++mNext) {
+        if (isEscape(mJSON[mNext])) {
+          ++mNext;
+        } else if (isQuote(mJSON[mNext])) {
+          mEnd = mNext++;
+          mToken = Token::IDENTIFIER;
+          return true;
+        }
+      }
+      mErrors.insert(JSON_ERROR(1), mStart);
+      mStart = mEnd = mNext = mJSON.size();
+      return false;
+    } else if (std::isdigit(mJSON[mNext]) || isSign(mJSON[mNext])) {
+      mToken = Token::NUMBER;
+      mIsIntegral = true;
+      for (++mNext; mNext < mJSON.size(); ++mNext) {
+        if (std::isdigit(mJSON[mNext]))
+          continue;
+        if (isDot(mJSON[mNext])) {
+          if (!mIsIntegral)
+            break;
+          mIsIntegral = false;
+        } else {
+          break;
+        }
+      }
+      mNext = mNext < mJSON.size() ? mNext : mJSON.size();
+      mEnd = mNext - 1;
+      return true;
+    } else if (std::isalpha(mJSON[mNext])) {
+      if (auto K{[this](std::string_view S) {
+            for (std::size_t I = 0,
+                             EI = sizeof KeywordTable / sizeof KeywordTable[0];
+                 I < EI; ++I) {
+              std::string_view Current{KeywordTable[I]};
+              if (S.substr(0, Current.size()) == Current) {
+                mNext = mStart + Current.size();
+                mEnd = mNext - 1;
+                mToken = Token::KEYWORD;
+                mKeyword = static_cast<Keyword>(I);
+                return true;
+              }
+            }
+            return false;
+          }(mJSON.data() + mNext)})
+        return true;
+    }
+    mEnd = mNext;
+    mToken = static_cast<Token>(mJSON[mStart]);
+    ++mNext;
+    return true;
+  }
+
+  /// \brief Checks that current token is a special character Ch.
+  ///
+  /// \return If a current token is not a special character Ch this method
+  /// returns false and add appropriate error in the errors collection.
+  bool checkSpecial(Token Ch) {
+    if (is(Ch))
+      return true;
+    mErrors.insert(JSON_ERROR(2), mStart, mJSON[mStart], Ch);
+    return false;
+  }
+
+  /// \brief Checks that current token is an identifier.
+  ///
+  /// \return If a current token is not an identifier this method
+  /// returns false and add appropriate error in the errors collection.
+  bool checkIdentifier() {
+    if (is(Token::IDENTIFIER))
+      return true;
+    mErrors.insert(JSON_ERROR(4), mStart, mJSON[mStart]);
+    return false;
+  }
+
+  /// \brief Checks that current token is an identifier, a number or a keywrod
+  /// ('true', 'false', 'null').
+  ///
+  ///
+  /// \return If a current token is not an identifier and a number this method
+  /// returns false and add appropriate error in the errors collection.
+  bool checkValue() {
+    if (is(Token::IDENTIFIER) || is(Token::NUMBER) ||
+        isKeyword(Keyword::TRUE) || isKeyword(Keyword::FALSE) ||
+        isKeyword(Keyword::NO_VALUE))
+      return true;
+    mErrors.insert(JSON_ERROR(5), mStart, mJSON[mStart]);
+    return false;
+  }
+
+  /// Skips all characters in a JSON string between braces or brackets,
+  /// return false if some errors have been occurred.
+  bool skipInternal() {
+    Token Last;
+    if (is(Token::LEFT_BRACKET))
+      Last = Token::RIGHT_BRACKET;
+    else if (checkSpecial(Token::LEFT_BRACE))
+      Last = Token::RIGHT_BRACE;
+    else
+      return false;
+    int Level = 0;
+    while (goToNext()) {
+      if ((isRightBrace(mJSON[mStart]) || isRightBracket(mJSON[mStart])) &&
+          Level-- == 0)
+        return checkSpecial(Last);
+      if (isLeftBrace(mJSON[mStart]) || isLeftBracket(mJSON[mStart]))
+        ++Level;
+    }
+    return false;
+  }
+
+  /// Resets current lexer position.
+  void resetPosition() noexcept {
+    mStart = mEnd = mNext = 0;
+    mToken = Token::INVALID;
+  }
+
+  /// Sets lexer position and parses the first token at the new position.
+  void setPosition(Position Start) {
+    mStart = mEnd = mNext = Start;
+    mToken = Token::INVALID;
+    goToNext();
+  }
+
+  /// Saves the current position in an internal stack, it can be restored with
+  /// restorePosition() method.
+  void storePosition() {
+    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral));
+  }
+
+  /// Restores the last stored position. If there is no stored positions do
+  /// nothing.
+  void restorePosition() {
+    if (mStates.empty())
+      return;
+    mStart = mStates.top().mStart;
+    mEnd = mStates.top().mEnd;
+    mNext = mStates.top().mNext;
+    mToken = mStates.top().mToken;
+    mIsIntegral = mStates.top().mIsIntegral;
+  }
+
+  /// \brief Returns start position of a current token in the JSON string.
+  Position start() const noexcept { return mStart; }
+
+  /// \brief Returns end position of a current token in the JSON string.
+  Position end() const noexcept { return mEnd; }
+
+  /// Returns position of a character following a current token in the
+  // JSON string.
+  Position next() const noexcept { return mNext; }
+
+  /// Returns true if a current token is equal to a specified one.
+  bool is(Token Token) const noexcept { return mToken == Token; }
+
+  /// Returns true if a current token is an integral number.
+  bool isIntegral() const noexcept {
+    return mToken == Token::NUMBER && mIsIntegral;
+  }
+
+  /// Returns true if a current token is an floating point number.
+  bool isFloatingPoint() const noexcept {
+    return mToken == Token::NUMBER && !mIsIntegral;
+  }
+
+  /// Return true if a current token is a specified keyword.
+  bool isKeyword(Keyword K) const noexcept {
+    return is(Token::KEYWORD) && mKeyword == K;
+  }
+
+  /// Returns container of errors.
+  bcl::Diagnostic & errors() noexcept { return mErrors; }
+
+  /// Returns container of errors.
+  const bcl::Diagnostic & errors() const noexcept { return mErrors; }
+
+  /// Returns true if errors have been occurred, internal errors are
+  /// also considered.
+  bool hasErrors() const {
+    return !errors().empty() || errors().internal_size() > 0;
+  }
+
+  /// Discards limiting quotes of the current token, if it is an identifier, or
+  /// does nothing.
+  std::pair<Position, Position> discardQuote() const noexcept {
+    return is(Token::IDENTIFIER) ?
+      std::make_pair(start() + 1, end() - 1) :
+      std::make_pair(start(), end());
+  }
+
+  /// Returns a JSON string.
+  const String & json() const noexcept { return mJSON; }
+
+private:
+  String mJSON;
+  bcl::Diagnostic mErrors;
+  Position mStart = 0;
+  Position mEnd = 0;
+  Position mNext = 0;
+  Token mToken;
+  bool mIsIntegral = false;
+  Keyword mKeyword = Keyword::NO_VALUE;
+  std::stack<State> mStates;
+};
+
+/// \brief This implements methods to convert value in a JSON string to
+/// specified type and to assign it to a specified destination.
+///
+/// This class should be specialized by different types. There are some
+/// default specialization for simple types for other types conversion
+/// must be specialized manually.
+///
+///
+/// The following static methods should be implemented:
+/// - static bool parse(Ty &, Lexer &) -
+///     Converts value from a JSON string to a type Ty and stores it
+///     in to a specified destination.
+///     Lexer parameter points to the first value token.
+///     This returns true on success.
+/// - static bool parse(Ty &, Lexer &, std::pair<Position, Position>) -
+///     Converts value from a JSON string to a type Ty and stores it
+///     in to a specified destination.
+///     Lexer parameter points to the first value token.
+///     If value is represented as a map {...} then the last parameter is
+///     a position of a value key in a JSON string
+///     (first and end character is quotes). In case of arrays [] the last
+///     parameter is a pair of (0, number), where number is a number of
+///     currently evaluated element of the array.
+///     This returns true on success.
+/// - static void unparse(String &JSON, const Ty &) -
+///     Converts value to string and stores it ina JSON string.
+///
+/// This last parse method is necessary to evaluate compound types, i.e. types
+/// with values represented as {"K1":V1, ..., "KN":VN} or [V1, ..., VN].
+/// The following implementation is recommended. The parse(Ty &, Lexer &) method
+/// will be invoked to convert compound value to Ty and store it in to the
+/// destination specified by the first parameter. In case of compound type this
+/// method invokes Parser<>::traverse() method to traverses all pair "KI":VI
+/// (or only VI in case of arrays) and invokes for each pair the method
+/// parse(Ty *, Lexer &, std::pair<Position, Position>).
+/// The last parameter will be a position of "KI" or a number of currently
+/// evaluated element of array.
+template<class Ty> struct Traits {
+  typedef typename Ty::UnknownTraitsError ValueType;
+};
+
+/// \brief This implements methods to convert value in a JSON string to
+/// specified cell in a static map.
+///
+/// This class can be specialized by different keys in a static map.
+/// By default this uses implementation of Traits for a type of
+/// data stored in a cell. Note that some specialization can traverse
+/// tokens in a JSON string. For example, see specialization for pointers or
+/// bcl::StaticMap.
+template<class CellKey> struct CellTraits {
+  typedef typename CellKey::ValueType ValueType;
+  inline static bool parse(ValueType &Dest, Lexer &Lex)
+      noexcept(
+        noexcept(Traits<ValueType>::parse(Dest, Lex))) {
+    return Traits<ValueType>::parse(Dest, Lex);
+  }
+  inline static void unparse(String &JSON, const ValueType &Obj)
+      noexcept(
+        noexcept(Traits<ValueType>::unparse(JSON, Obj))) {
+    Traits<ValueType>::unparse(JSON, Obj);
+  }
+  inline static typename std::result_of<
+    decltype(&CellKey::name)()>::type name()
+      noexcept(noexcept(CellKey::name())) {
+    return CellKey::name();
+  }
+};
+
+/// \brief This class parses a string which represents JSON and converts it to
+/// an appropriate representation.
+///
+/// \tparam Objects List of JSON objects supported by parser. Each object
+/// should inherited bcl::StaticMap and json::Object.
+template<class... Objects> class Parser {
+  /// List of supported JSON objects.
+  typedef bcl::TypeList<Objects...> ObjectTypeList;
+
+  /// \brief This parses a specified JSON string and converts it to
+  /// a specified type.
+  ///
+  /// There are two ways to use this functor. If a target type is known it is
+  /// possible to use static method parse(), otherwise this functor can be
+  /// passed to a bcl::TypeList::for_each() method. In the last case
+  /// bcl::TypeList should comprise different target types and appropriate type
+  /// will be determined by name. Note that in this case all target type must
+  /// propose a static `Object::ObjectName name()` method.
+  class ParseFunctor {
+  public:
+    /// Converts JSON string to a specified Ty.
+    template<class Ty> static bool parse(Ty &Obj, Lexer &Lex) {
+      Lex.resetPosition();
+      Lex.goToNext();
+      if (!Traits<Ty>::parse(Obj, Lex)) {
+        Lex.errors().insert(JSON_ERROR(6), Lex.start());
+        return false;
+      }
+      if (Lex.next() < Lex.json().size()) {
+        Lex.goToNext();
+        Lex.checkSpecial(Token::COMMA);
+        return false;
+      }
+      return true;
+    }
+
+    /// Creates functor to convert JSON string to a type with a specified name.
+    ParseFunctor(Object::ObjectName Name, Lexer &Lex) :
+      mName(Name), mLex(Lex) {}
+
+    /// Converts JSON string to a specified Ty if it has an appropriate name.
+    template<class Ty> void operator()() {
+      if (Ty::name() != mName)
+        return;
+      auto Obj = std::unique_ptr<Ty>(new Ty);
+      if (!parse(*Obj, mLex))
+        return;
+      mObject = std::move(Obj);
+    }
+
+    /// Returns unique pointer to created object or nullptr.
+    std::unique_ptr<Object> stealObject() noexcept {
+      return std::move(mObject);
+    }
+
+  private:
+    Object::ObjectName mName;
+    Lexer &mLex;
+    std::unique_ptr<Object> mObject;
+  };
+
+  /// \brief This unparses JSON object to a JSON string.
+  ///
+  /// There are two ways to use this functor. If type of an object is known it
+  /// is possible to use static method unparse(), otherwise this functor can be
+  /// passed to a bcl::TypeList::for_each() method. In the last case
+  /// bcl::TypeList should comprise different target types and appropriate type
+  /// will be determined by name. Note that in this case all target type must
+  /// propose a static `Object::ObjectName name()` method.
+  class UnparseFunctor {
+  public:
+    /// Unparses JSON object of a specified type.
+    template<class Ty> static String unparse(const Ty &Obj) {
+      String JSON;
+      Traits<Ty>::unparse(JSON, Obj);
+      return JSON;
+    }
+
+    /// Creates functor to unparse a specified JSON object.
+    explicit UnparseFunctor(const Object &Obj, const char *NameKey)
+      : mObj(Obj), mNameKey(NameKey) {
+      assert(NameKey && "Identifier of a JSON object must not be null!");
+    }
+
+    /// Unparses JSON object if it has a specified type Ty.
+    template<class Ty> void operator()() {
+      if (!mObj.is<Ty>())
+        return;
+      mString = unparse(mObj.as<Ty>());
+      assert(mString.front() == '{' &&
+        "The first character in a JSON string must be '{'");
+      assert(mString.back() == '}' &&
+        "The last character in a JSON string must be '}'");
+      std::string Name("\"");
+      Name += mNameKey;
+      Name += "\":\"";
+      Name += mObj.getName() + "\"";
+      if (mString.find(':') != String::npos)
+        Name += ',';
+      mString.insert(1, Name);
+    }
+
+    /// Returns unparsed object.
+    const String & getString() const noexcept { return mString; }
+  private:
+    String mString;
+    const Object &mObj;
+    const char *mNameKey;
+  };
+
+public:
+  /// \brief Traverses all pairs of keys and value in a string bounded with
+  /// left and right braces.
+  ///
+  /// This is a utility method which is used to parse JSON string. It should be
+  /// used to add support for additional value conversions.
+  /// \tparam CT This is specialization of CellTraits or Traits
+  /// templates. For each pair of keys and values the method CT::parse() will be
+  /// called.
+  /// \tparam Ty This is a type of JSON object where the converted values
+  /// must be stored.
+  /// \param [in, out] Dest JSON object which is used to store converted value.
+  /// \param [in, out] Lex Lexer which should point to a Token::LEFT_BRACE or
+  /// Token::LEFT_BRACKET tokens. The method will traverse tokens to
+  /// the Token::RIGHT_BRACE or Token::RIGHT_BRACKET.
+  /// \return True on success or false if some errors have been occurred. Such
+  /// errors can be found in Lex.errors() container.
+  template<class CT, class Ty>
+  static bool traverse(Ty &Dest, Lexer &Lex) {
+    Token Last;
+    if (Lex.is(Token::LEFT_BRACKET))
+      Last = Token::RIGHT_BRACKET;
+    else if (Lex.checkSpecial(Token::LEFT_BRACE))
+      Last = Token::RIGHT_BRACE;
+    else
+      return false;
+    Position Count = 0;
+    if (!Lex.goToNext())
+      return false;
+    // It may be empty container, so it is checked here.
+    // This is not the end of string so do not check that
+    // mLex.next() >= mLex.json().size().
+    if (Lex.is(Last))
+      return true;
+    for (;;) {
+      std::pair<Position, Position> Key(0, Count++);
+      if (Last == Token::RIGHT_BRACE) {
+        if (!Lex.checkIdentifier())
+          return false;
+        Key = std::make_pair(Lex.start(), Lex.end());
+        if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
+            !Lex.goToNext())
+          return false;
+      }
+      if (!Lex.is(Token::LEFT_BRACE) && !Lex.is(Token::LEFT_BRACKET) &&
+          !Lex.checkValue())
+        return false;
+      if (!CT::parse(Dest, Lex, Key))
+        return false;
+      if (!Lex.goToNext())
+        return false;
+      // This is not the end of string so do not check that
+      // mLex.next() >= mLex.json().size().
+      if (Lex.is(Last))
+        return true;
+      if (!Lex.checkSpecial(Token::COMMA))
+        return false;
+      if (!Lex.goToNext())
+        return false;
+    }
+  }
+
+  /// \brief Determines number of keys in array representation.
+  ///
+  /// This is a utility method.
+  /// Array is represented using the following JSON strings:
+  /// {"0":V0, ..., "N":VN} or [V0, ..., VN].
+  /// \returns At first, a number of indexes secondly the maximum index occurred
+  /// in array representation and the last one value identifies whether some
+  /// errors have been occurred (false if any error has been occurred).
+  /// For empty arrays the second value in the tuple id undefined.
+  static std::tuple<Position, Position, bool> numberOfKeys(Lexer &Lex);
+
+  /// \brief Unparses a specified JSON object to a JSON string.
+  ///
+  /// NameKey parameter is a key for a field which marks JSON object identifier
+  /// in a JSON string.
+  static String unparse(const Object &Obj, const char *NameKey = "name") {
+    assert(NameKey && "Identifier of a JSON object must not be null!");
+    UnparseFunctor F(Obj, NameKey);
+    ObjectTypeList::for_each_type(F);
+    return F.getString();
+  }
+
+  /// \brief Unparses a specified JSON object to a JSON string.
+  ///
+  /// The specified JSON object will be previously converted to json::Object
+  /// and then it will be unparsed. This is convenient to add identifier of
+  /// the object (NameKey) to a JSON string. This identifier will be
+  /// automatically added for json::Object only.
+  ///
+  /// NameKey parameter is a key for a field which marks JSON object identifier
+  /// in a JSON string.
+  template<class Ty>
+  static String unparseAsObject(const Ty &Obj, const char *NameKey = "name") {
+    return unparse(static_cast<const Object &>(Obj), NameKey);
+  }
+
+  /// Unparses a specified JSON object to a JSON string.
+  template<class Ty,
+    class = typename std::enable_if<
+      !std::is_same<typename std::decay<Ty>::type, Object>::value>::type>
+    static String unparse(const Ty &Obj) {
+    return UnparseFunctor::unparse(Obj);
+  }
+
+  /// \brief Constructs a lexer for a specified JSON string.
+  ///
+  /// NameKey parameter is a key for a field which marks JSON object identifier
+  /// in a JSON string.
+  explicit Parser(const String &JSON, const char *NameKey = "name")
+    : mLex(JSON), mNameKey(NameKey) {
+    assert(NameKey && "Identifier of a JSON object must not be null!");
+  }
+
+  /// Parses JSON string and returns appropriate JSON object or
+  /// nullptr if errors have occurred.
+  std::unique_ptr<Object> parse() {
+    if (!parseName())
+      return nullptr;
+    ParseFunctor F(
+      mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1), mLex);
+    ObjectTypeList::for_each_type(F);
+    return F.stealObject();
+  }
+
+  /// Parses JSON string and converts it to a specified type,
+  /// returns true on success.
+  template<class Ty> bool parse(Ty &Obj) {
+    return ParseFunctor::parse(Obj, mLex);
+  }
+
+  /// Key stored in a JSON string which marks identifier of an JSON object.
+  const char *getNameKey() noexcept {
+    return mNameKey;
+  }
+
+  /// Returns container of errors.
+  const bcl::Diagnostic & errors() const noexcept { return mLex.errors(); }
+
+  /// Returns true if errors have been occurred, internal errors are
+  /// also considered.
+  bool hasErrors() const { return mLex.hasErrors(); }
+
+private:
+  /// \brief Determines identifier to build appropriate JSONObject object.
+  ///
+  /// \post If this method returns true identifier is represented by characters
+  /// in the range [mNameStart, mNameEnd].
+  /// \return True in success, false if some errors have been occurred.
+  bool parseName() {
+    mLex.resetPosition();
+    if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
+      return false;
+    while (mLex.goToNext()) {
+      if (!mLex.is(Token::IDENTIFIER))
+        return false;
+      bool IsName = (mLex.json().compare(
+        mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
+      if (!mLex.goToNext() || !mLex.checkSpecial(Token::COLON) ||
+          !mLex.goToNext())
+        return false;
+      if (IsName) {
+        if (!mLex.checkIdentifier())
+          return false;
+        mNameStart = mLex.start();
+        mNameEnd = mLex.end();
+        return true;
+      }
+      if (((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) &&
+           !mLex.skipInternal()) ||
+          !mLex.checkValue())
+        return false;
+      if (!mLex.goToNext())
+        return false;
+      if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
+        break;
+      if (!mLex.checkSpecial(Token::COMMA))
+        return false;
+      }
+    mLex.errors().insert(JSON_ERROR(3), mLex.json().size(), getNameKey());
+    return false;
+  }
+private:
+  Lexer mLex;
+  Position mNameStart = 0;
+  Position mNameEnd = 0;
+  const char *mNameKey;
+};
+
+template<> struct Traits<std::string> {
+  inline static String unescape(const String &Str) {
+    if (Str.size() < 2)
+      return Str;
+    std::string Res;
+    Res.reserve(Str.length());
+    auto I = Str.begin(), EI = Str.end() - 1;
+    while (I != EI) {
+      if (*I != '\\') {
+        Res += *I;
+        ++I;
+        continue;
+      }
+      switch (*(++I)) {
+        case 'n': Res += "\n"; break;
+        case 't': Res += "\t"; break;
+        case 'v': Res += "\v"; break;
+        case 'f': Res += "\f"; break;
+        case 'r': Res += "\r"; break;
+        case '"': case '\\': Res += *I; break;
+        default: continue;
+      }
+      ++I;
+    }
+    if (I == EI)
+      Res += Str.back();
+    return Res;
+  }
+  inline static Position escape(String &JSON, Position Pos) {
+    switch (JSON[Pos]) {
+      case '\n': JSON.replace(Pos, 1, "n"); break;
+      case '\t': JSON.replace(Pos, 1, "t"); break;
+      case '\v': JSON.replace(Pos, 1, "v"); break;
+      case '\f': JSON.replace(Pos, 1, "f"); break;
+      case '\r': JSON.replace(Pos, 1, "r"); break;
+      case '"': case '\\': break;
+      default: return Pos;
+    }
+    JSON.insert(Pos, "\\");
+    return Pos + 1;
+  }
+  inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
+    try {
+      auto Value = Lex.discardQuote();
+      Dest = unescape(
+        Lex.json().substr(Value.first, Value.second - Value.first + 1));
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, const std::string &Obj) {
+    auto I = JSON.size() + 1;
+    JSON += '"' + Obj + '"';
+    for (; I < JSON.size() - 1; ++I)
+      I = escape(JSON, I);
+  }
+};
+
+template<> struct Traits<char> {
+  inline static bool parse(char &Dest, Lexer &Lex) noexcept {
+    auto Value = Lex.discardQuote();
+    auto Tmp = Traits<std::string>::unescape(
+      Lex.json().substr(Value.first, Value.second - Value.first + 1));
+    if (Tmp.size() != 1)
+      return false;
+    Dest = Lex.json()[Tmp.front()];
+    return true;
+  }
+  inline static void unparse(String &JSON, char Obj) {
+    auto I = JSON.size() + 1;
+    JSON += '"' + Obj + '"';
+    Traits<std::string>::escape(JSON, I);
+  }
+};
+
+template<> struct Traits<int> {
+  inline static bool parse(int &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stoi(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, int Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<long> {
+  inline static bool parse(long &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stol(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, long Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<long long> {
+  inline static bool parse(long long &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stoll(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, long long Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<unsigned> {
+  inline static bool parse(unsigned &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = static_cast<unsigned>(std::stoul(Str));
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, unsigned Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<unsigned long> {
+  inline static bool parse(unsigned long &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stoul(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, unsigned long Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<unsigned long long> {
+  inline static bool parse(unsigned long long &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stoull(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, unsigned long long Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<float> {
+  inline static bool parse(float &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stof(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, float Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<double> {
+  inline static bool parse(double &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stod(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, double Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<bool> {
+  inline static bool parse(bool &Dest, Lexer &Lex) noexcept {
+    try {
+      if (Lex.isKeyword(Keyword::TRUE)) {
+        return Dest = true;
+      } else if (Lex.isKeyword(Keyword::FALSE)) {
+        return !(Dest = false);
+      }
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = Str == toString(Keyword::TRUE);
+      return (Str == toString(Keyword::TRUE) ||
+              Str == toString(Keyword::FALSE));
+    }
+    catch (...) {
+      return false;
+    }
+  }
+  inline static void unparse(String &JSON, bool Obj) {
+    JSON += Obj ? toString(Keyword::TRUE) : toString(Keyword::FALSE);
+  }
+};
+
+template<> struct Traits<char *> {
+  inline static bool parse(char *&Dest, Lexer &Lex) {
+    char *TmpDest = nullptr;
+    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
+      try {
+        Position MaxIdx, Count;
+        bool Ok;
+        std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
+        if (!Ok)
+          return false;
+        if (Count != 0) {
+          if (Count < MaxIdx + 1) {
+            /// User of JSON serializer can not determine if there is some
+            /// uninitialized elements in an array without manual parsing of
+            /// a JSON string. So do not parse such arrays. This array
+            /// should be parsed as a map.
+            Lex.errors().insert(JSON_ERROR(7), Lex.start());
+            throw 0;
+          } else if (Count > MaxIdx + 1) {
+            Lex.errors().insert(JSON_ERROR(8), Lex.start());
+
+            throw 0;
+          }
+          TmpDest = new char[MaxIdx + 1];
+        }
+        // Note, in case of empty array traverse also should be called to move
+        // lexer position to the end of this array.
+        if (!Parser<>::traverse<Traits<char *>>(TmpDest, Lex))
+          throw 0;
+      }
+      catch (...) {
+        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        return false;
+      }
+    } else {
+      try {
+        auto Value = Lex.discardQuote();
+        auto Unescaped = Traits<std::string>::unescape(
+          Lex.json().substr(Value.first, Value.second - Value.first + 1));
+        TmpDest = new char[Unescaped.length() + 1];
+        Unescaped.copy(TmpDest, Unescaped.length());
+        TmpDest[Unescaped.length()] = '\0';
+      }
+      catch (...) {
+        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        return false;
+      }
+    }
+    Dest = TmpDest;
+    return true;
+  }
+  inline static bool parse(char *&Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    if (Key.first != 0) {
+      // Note that Idx will be successfully converted because this check has
+      // been performed when memory for the Dest array has been allocated.
+      // This also implies that Dest[Idx] can not produce out of range exception.
+      auto Idx = std::stoull(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      return Traits<char>::parse(Dest[Idx], Lex);
+    } else {
+      return Traits<char>::parse(Dest[Key.second], Lex);
+    }
+  }
+  inline static void unparse(String &JSON, const char *Obj) {
+    if (!Obj)
+      return;
+    auto I = JSON.size() + 1;
+    JSON += "\"";
+    JSON += Obj;
+    JSON += "\"";
+    for (; I < JSON.size() - 1; ++I)
+      I = Traits<std::string>::escape(JSON, I);
+  }
+};
+
+template<class Ty> struct Traits<Ty *> {
+  inline static bool parse(Ty *&Dest, Lexer &Lex) {
+    Ty *TmpDest = nullptr;
+    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
+      try {
+        Position MaxIdx, Count;
+        bool Ok;
+        std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
+        if (!Ok)
+          return false;
+        if (Count != 0) {
+          if (Count < MaxIdx + 1) {
+            /// User of JSON serializer can not determine if there is some
+            /// uninitialized elements in an array without manual parsing of
+            /// a JSON string. So do not parse such arrays. This array
+            /// should be parsed as a map.
+            Lex.errors().insert(JSON_ERROR(7), Lex.start());
+            throw 0;
+          } else if (Count > MaxIdx + 1) {
+            Lex.errors().insert(JSON_ERROR(8), Lex.start());
+
+            throw 0;
+          }
+          TmpDest = new Ty[MaxIdx + 1];
+        }
+        // Note, in case of empty array traverse also should be called to move
+        // lexer position to the end of this array.
+        if (!Parser<>::traverse<Traits<Ty *>>(TmpDest, Lex))
+          throw 0;
+      }
+      catch (...) {
+        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        return false;
+      }
+    } else {
+      try {
+        auto Value = Lex.discardQuote();
+        TmpDest = new Ty;
+        if (!Traits<Ty>::parse(*TmpDest, Lex))
+          throw 0;
+      }
+      catch (...) {
+        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        return false;
+      }
+    }
+    Dest = TmpDest;
+    return true;
+  }
+  inline static bool parse(Ty *&Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    if (Key.first != 0) {
+      // Note that Idx will be successfully converted because this check has
+      // been performed when memory for the Dest array has been allocated.
+      // This also implies that Dest[Idx] can not produce out of range exception.
+      auto Idx = std::stoull(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      return Traits<Ty>::parse(Dest[Idx], Lex);
+    } else {
+      return Traits<Ty>::parse(Dest[Key.second], Lex);
+    }
+  }
+  inline static void unparse(String &JSON, const Ty* Obj) {
+    if (Obj)
+      Traits<Ty>::unparse(JSON, *Obj);
+  }
+};
+
+template<class Ty> struct Traits<const Ty *> {
+  inline static bool parse(const Ty *&Dest, Lexer &Lex) {
+    Ty *TmpDest;
+    if (Traits<Ty *>::parse(TmpDest, Lex)) {
+      Dest = TmpDest;
+      return true;
+    }
+    return false;
+  }
+  inline static void unparse(String &JSON, const Ty* Obj) {
+      Traits<Ty *>::unparse(JSON, Obj);
+  }
+};
+
+template<class Ty, class Allocator>
+struct Traits<std::vector<Ty, Allocator>> {
+  inline static bool parse(std::vector<Ty, Allocator> &Dest, Lexer &Lex) {
+    Position MaxIdx, Count;
+    bool Ok;
+    std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
+    if (!Ok)
+      return false;
+    if (Count != 0) {
+      if (Count < MaxIdx + 1) {
+        /// User of JSON serializer can not determine if there is some
+        /// uninitialized elements in an array without manual parsing of
+        /// a JSON string. So do not parse such arrays. This array
+        /// should be parsed as a map.
+        Lex.errors().insert(JSON_ERROR(7), Lex.start());
+        return false;
+      } else if (Count > MaxIdx + 1) {
+        Lex.errors().insert(JSON_ERROR(8), Lex.start());
+        return false;
+      }
+    }
+    Dest.resize(Count);
+    // Note, in case of empty array traverse also should be called to move
+    // lexer position to the end of this array.
+    return Parser<>::
+      traverse<Traits<std::vector<Ty, Allocator>>>(Dest, Lex);
+  }
+  inline static bool parse(std::vector<Ty, Allocator> &Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    if (Key.first != 0) {
+      // Note that Idx will be successfully converted because this check has
+      // been performed when memory for the Dest array has been allocated.
+      // This also implies that Dest[Idx] can not produce out of range exception.
+      auto Idx = std::stoull(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      return Traits<Ty>::parse(Dest[Idx], Lex);
+    } else {
+      return Traits<Ty>::parse(Dest[Key.second], Lex);
+    }
+  }
+  inline static void unparse(String &JSON,
+      const std::vector<Ty, Allocator> &Obj) {
+    typedef std::vector<Ty, Allocator> VecTy;
+    if (!Obj.empty()) {
+      std::vector<String> Values(Obj.size());
+      bool HasEmpty = false;
+      for (typename VecTy::size_type I = 0; I < Obj.size(); ++I) {
+        Traits<typename VecTy::value_type>::unparse(Values[I], Obj[I]);
+        HasEmpty = HasEmpty || Values[I].empty();
+      }
+      if (HasEmpty) {
+        JSON += '{';
+        for (typename VecTy::size_type I = 0; I < Obj.size(); ++I) {
+          if (Values[I].empty())
+            continue;
+          JSON += "\"";
+          Traits<unsigned long long>::unparse(JSON, I);
+          JSON += "\":" + Values[I] + ",";
+        }
+        assert(JSON.back() == ',' && "A delimiter must be a comma!");
+        JSON.erase(JSON.size() - 1);
+        JSON += '}';
+      } else {
+        JSON += '[';
+        for (auto &V : Values)
+          JSON += V + ',';
+        assert(JSON.back() == ',' && "A delimiter must be a comma!");
+        JSON.erase(JSON.size() - 1);
+        JSON += ']';
+      }
+    } else {
+      JSON += "[]";
+    }
+  }
+};
+
+template<class KeyTy, class Compare, class Allocator>
+struct Traits<std::set<KeyTy, Compare, Allocator>> {
+  typedef std::set<KeyTy, Compare, Allocator> SetTy;
+  inline static bool parse(SetTy &Dest, Lexer &Lex) {
+    if (!Lex.checkSpecial(Token::LEFT_BRACKET))
+      return false;
+    return Parser<>::traverse<Traits<SetTy>>(Dest, Lex);
+  }
+  inline static bool parse(SetTy &Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    KeyTy KeyValue;
+    if (!Traits<KeyTy>::parse(KeyValue, Lex))
+      return false;
+    auto Pair = Dest.insert(std::move(KeyValue));
+    if (!Pair.second) {
+      Lex.errors().insert(JSON_ERROR(8), Lex.start());
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, const SetTy &Obj) {
+    JSON += '[';
+    if (!Obj.empty()) {
+      auto I = Obj.begin(), EI = Obj.end();
+      for (--EI; I != EI; ++I) {
+        String Key;
+        Traits<KeyTy>::unparse(Key, *I);
+        if (!Key.empty())
+          JSON += Key + ',';
+      }
+      String Key;
+      Traits<KeyTy>::unparse(Key, *I);
+      if (!Key.empty())
+        JSON += Key;
+      else if (JSON.back() == ',')
+        JSON.erase(JSON.size() - 1);
+    }
+    JSON += ']';
+  }
+};
+
+template<class KeyTy, class Ty, class Compare, class Allocator>
+struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
+  typedef std::map<KeyTy, Ty, Compare, Allocator> MapTy;
+  inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
+  }
+  inline static bool parse(MapTy &Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    Lex.storePosition();
+    Lex.setPosition(Key.first);
+    KeyTy KeyValue;
+    Traits<KeyTy>::parse(KeyValue, Lex);
+    Lex.restorePosition();
+    auto Pair = Dest.emplace(KeyValue, Ty());
+    if (!Pair.second) {
+      Lex.errors().insert(JSON_ERROR(8), Lex.start());
+      return false;
+    }
+    if (!Traits<Ty>::parse(Pair.first->second, Lex)) {
+      Dest.erase(Pair.first);
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, const MapTy &Obj) {
+    JSON += '{';
+    if (!Obj.empty()) {
+      auto I = Obj.begin(), EI = Obj.end();
+      for (--EI; I != EI; ++I) {
+        String Value;
+        Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
+        if (!Value.empty()) {
+          String Id;
+          Traits<typename MapTy::key_type>::unparse(Id, I->first);
+          Id = bcl::quote(std::move(Id));
+          JSON += Id + ':'+ Value + ',';
+        }
+      }
+      String Value;
+      Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
+      if (!Value.empty()) {
+        String Id;
+        Traits<typename MapTy::key_type>::unparse(Id, I->first);
+        Id = bcl::quote(std::move(Id));
+        JSON += Id + ':' + Value;
+      } else if (JSON.back() == ',') {
+        JSON.erase(JSON.size() - 1);
+      }
+    }
+    JSON += '}';
+  }
+};
+
+template<class KeyTy, class Ty, class Compare, class Allocator>
+struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
+  typedef std::multimap<KeyTy, Ty, Compare, Allocator> MapTy;
+  inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
+  }
+  inline static bool parse(MapTy &Dest, Lexer &Lex,
+    std::pair<Position, Position> Key) {
+    Lex.storePosition();
+    Lex.setPosition(Key.first);
+    KeyTy KeyValue;
+    Traits<KeyTy>::parse(KeyValue, Lex);
+    Lex.restorePosition();
+    auto Itr = Dest.emplace(KeyValue, Ty());
+    if (Itr == Dest.end())
+      return false;
+    if (!Traits<Ty>::parse(Itr->second, Lex)) {
+      Dest.erase(Itr);
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, const MapTy &Obj) {
+    JSON += '{';
+    if (!Obj.empty()) {
+      auto I = Obj.begin(), EI = Obj.end();
+      for (--EI; I != EI; ++I) {
+        String Value;
+        Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
+        if (!Value.empty()) {
+          String Id;
+          Traits<typename MapTy::key_type>::unparse(Id, I->first);
+          Id = bcl::quote(std::move(Id));
+          JSON += Id + ':' + Value + ',';
+        }
+      }
+      String Value;
+      Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
+      if (!Value.empty()) {
+        String Id;
+        Traits<typename MapTy::key_type>::unparse(Id, I->first);
+        Id = bcl::quote(std::move(Id));
+        JSON += Id + ':' + Value;
+      } else if (JSON.back() == ',') {
+        JSON.erase(JSON.size() - 1);
+      }
+    }
+    JSON += '}';
+  }
+};
+
+namespace detail {
+/// This functor parses a value which starts with the last token extracted
+/// from a JSON string, converts it to an appropriate type and assigns
+/// to an appropriate field in a JSON object implemented as a bcl::StaticMap.
+class ParseCellFunctor {
+public:
+  /// \brief Creates this functor to parse a value associated with
+  /// a specified key.
+  ///
+  /// The Key parameter is necessary to identify destination which should be set
+  /// on the parsed value.
+  ParseCellFunctor(std::pair<Position, Position> Key, Lexer &Lex) : mLex(Lex),
+    mKey(Key), mHasError(false) {}
+
+  /// \brief Parses a value specified by the last token evaluated by the
+  /// lexer, converts it to an appropriate type and assigns to a currently
+  /// evaluated key determined in constructor.
+  ///
+  /// Note that the current token may be beginning of a compound value,
+  /// for example '{'.
+  template<class CellTy> void operator()(CellTy *Cell) {
+    typedef typename CellTy::CellKey CellKey;
+    if (mLex.json().compare(
+          mKey.first + 1, mKey.second - mKey.first - 1 ,
+          CellTraits<CellKey>::name()) != 0)
+      return;
+    mHasError = !CellTraits<CellKey>::parse(
+      Cell->template value<CellKey>(), mLex);
+  }
+
+  /// Returns true if errors have been occurred during conversion.
+  bool hasError() const noexcept { return mHasError; }
+private:
+  Lexer &mLex;
+  std::pair<Position, Position> mKey;
+  bool mHasError;
+};
+
+/// This functor unparses JSON object represented as a bcl::StaticMap. It should
+/// be called for each cell in the map.
+class UnparseCellFunctor {
+public:
+  /// Creates functor which stores unparsed data in a specified JSON string.
+  explicit UnparseCellFunctor(String &JSON) : mIsFirst(true), mJSON(JSON) {}
+
+  /// Unparses a specified cell if it has a value.
+  template<class CellTy> void operator()(CellTy *Cell) {
+    typedef typename CellTy::CellKey CellKey;
+    String Value;
+    CellTraits<CellKey>::unparse(Value, Cell->template value<CellKey>());
+    if (Value.empty())
+      return;
+    if (!mIsFirst)
+      mJSON += ',';
+    else
+      mIsFirst = false;
+    Traits<
+      typename std::decay<
+        typename std::result_of<
+          decltype(&CellTraits<CellKey>::name)()>::type>::type>::
+      unparse(mJSON, CellTraits<CellKey>::name());
+    mJSON += ':' + Value;
+  }
+private:
+  bool mIsFirst;
+  String &mJSON;
+};
+}
+
+template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
+  inline static bool parse(bcl::StaticMap<Args...> &Dest, Lexer &Lex) {
+    if (!Lex.checkSpecial(Token::LEFT_BRACE))
+      return false;
+    return Parser<>::
+      traverse<Traits<bcl::StaticMap<Args...>>>(Dest, Lex);
+  }
+  inline static bool parse(bcl::StaticMap<Args...> &Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    detail::ParseCellFunctor Parse(Key, Lex);
+    Dest.for_each(Parse);
+    return !Parse.hasError();
+  }
+  inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
+    detail::UnparseCellFunctor Unparse(JSON);
+    JSON += '{';
+    Obj.for_each(Unparse);
+    JSON += '}';
+  }
+};
+
+template<class... Objects> std::tuple<Position, Position, bool>
+Parser<Objects...>::numberOfKeys(Lexer &Lex) {
+  Lex.storePosition();
+  Position MaxIdx = 0;
+  Position Count = 0;
+  Token Last;
+  if (Lex.is(Token::LEFT_BRACKET))
+    Last = Token::RIGHT_BRACKET;
+  else if (Lex.checkSpecial(Token::LEFT_BRACE))
+    Last = Token::RIGHT_BRACE;
+  else
+    return std::make_tuple(0, 0, false);
+  if (!Lex.goToNext())
+    return std::make_tuple(0, 0, false);
+  if (Lex.is(Last)) {
+    Lex.restorePosition();
+    return std::make_tuple(0, 0, true);
+  }
+  for (;;) {
+    ++Count;
+    if (Last == Token::RIGHT_BRACE) {
+      if (!Lex.checkIdentifier())
+        return std::make_tuple(0, 0, false);
+      unsigned long long Idx;
+      if (!Traits<unsigned long long>::parse(Idx, Lex))
+        return std::make_tuple(0, 0, false);
+      MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
+      if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
+          !Lex.goToNext())
+        return std::make_tuple(0, 0, false);
+    }
+    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
+      if (!Lex.skipInternal())
+        return std::make_tuple(0, 0, false);
+    } else if (!Lex.checkValue()) {
+      return std::make_tuple(0, 0, false);
+    }
+    if (!Lex.goToNext())
+      return std::make_tuple(0, 0, false);
+    if (Lex.is(Last))
+      break;
+    if (!Lex.checkSpecial(Token::COMMA))
+      return std::make_tuple(0, 0, false);
+    if (!Lex.goToNext())
+      return std::make_tuple(0, 0, false);
+  }
+  Lex.restorePosition();
+  return std::make_tuple(
+    Count, Last == Token::RIGHT_BRACE ? MaxIdx : Count - 1, true);
+}
+
+template<> struct Traits<bcl::Diagnostic> {
+  inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex) {
+    return Parser<>::
+      traverse<Traits<bcl::Diagnostic>>(Dest, Lex);
+  }
+  inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
+    std::pair<Position, Position>) {
+    const char *Msg;
+    if (!Traits<const char *>::parse(Msg, Lex))
+      return false;
+    char *Kind = new char[std::strlen(Msg) + 1];
+    char *Buf = new char[std::strlen(Msg) + 1];
+    std::size_t Code;
+    std::uintmax_t Pos;
+    auto ArgNum = std::sscanf(Msg, "%s C%zu(%ju): %s", Kind, &Code, &Pos, Buf);
+    if (ArgNum != 4 || std::strcmp(Kind, Dest.getKind()) != 0 ||
+        !Dest.insert(Code, "%s", Pos, Buf)) {
+      Lex.errors().insert(JSON_ERROR(9), Lex.start());
+      delete[]Kind;
+      delete[]Buf;
+      return false;
+    }
+    delete[]Kind;
+    delete[]Buf;
+    return true;
+  }
+  inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
+    JSON += '[';
+    if (!Obj.empty()) {
+      auto I = Obj.begin(), EI = Obj.end();
+      bcl::Diagnostic::size_type Idx = 0;
+      for (--EI; I != EI; ++I, ++Idx) {
+        Traits<bcl::Diagnostic::value_type>::unparse(JSON, *I);
+        JSON += ',';
+      }
+      Traits<bcl::Diagnostic::value_type>::unparse(JSON, *I);
+    }
+    JSON += ']';
+  }
+};
+
+/// Specialization of JSON serialization traits for std::optional type.
+///
+/// Note that 'T' must be default constructible and copy assignable.
+template<class T> struct Traits<std::optional<T>> {
+  static_assert(std::is_default_constructible<T>::value,
+    "Underlining type must be default constructible!");
+  static_assert(std::is_copy_assignable<T>::value,
+    "Underlining type must be copy assignable!");
+  static bool parse(std::optional<T> &Dest, ::json::Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      if (Lex.isKeyword(Keyword::NO_VALUE) ||
+          Traits<std::string>::parse(Str, Lex) &&
+              Str == toString(Keyword::NO_VALUE)) {
+        Dest.reset();
+      } else {
+        T Tmp;
+        Traits<T>::parse(Tmp, Lex);
+        Dest = std::move(Tmp);
+      }
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  static void unparse(String &JSON, const std::optional<T> &Obj) {
+    if (Obj.has_value())
+      Traits<T>::unparse(JSON, *Obj);
+    else
+      JSON += toString(Keyword::NO_VALUE);
+  }
+};
+}
+
+//===- Definition of macros which simplifies definition of a JSON-object --===//
+#include "JsonObjectMacros.h"
+
+#endif// TSAR_REQUESTS_H
-- 
2.43.0


From 308b324a4a4744490c5cd3ea91a0d1ba808a5fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 16/86] fix: unescape() of a JSON string reads past the end

An escape sequence at the end of a string moves the iterator behind the
position where the loop stops.
---
 include/bcl/Json.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index d31a04b..14421cc 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1046,9 +1046,9 @@ template<> struct Traits<std::string> {
       return Str;
     std::string Res;
     Res.reserve(Str.length());
-    auto I = Str.begin(), EI = Str.end() - 1;
+    auto I = Str.begin(), EI = Str.end();
     while (I != EI) {
-      if (*I != '\\') {
+      if (*I != '\\' || I + 1 == EI) {
         Res += *I;
         ++I;
         continue;
@@ -1064,8 +1064,6 @@ template<> struct Traits<std::string> {
       }
       ++I;
     }
-    if (I == EI)
-      Res += Str.back();
     return Res;
   }
   inline static Position escape(String &JSON, Position Pos) {
-- 
2.43.0


From e0b7d46104d82b246bceb8330d44d2ff4df15b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 17/86] fix: raw characters in JSON are taken for numbers,
 identifiers and keywords

The codes of these tokens are the characters 'n', 'i' and 'k'.
---
 include/bcl/Json.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 14421cc..6ee7fc7 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -516,6 +516,8 @@ public:
     }
     mEnd = mNext;
     mToken = static_cast<Token>(mJSON[mStart]);
+    if (is(Token::NUMBER) || is(Token::IDENTIFIER) || is(Token::KEYWORD))
+      mToken = Token::INVALID;
     ++mNext;
     return true;
   }
-- 
2.43.0


From 3016f1c59d46ff3fd3140d7a669df3e643d6ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 18/86] fix: punctuation is accepted as a string value in JSON

For example {"Name":[} or a text which consists of a colon.
---
 include/bcl/Json.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 6ee7fc7..1958de9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1082,6 +1082,9 @@ template<> struct Traits<std::string> {
     return Pos + 1;
   }
   inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
+    if (!Lex.is(Token::IDENTIFIER) && !Lex.is(Token::NUMBER) &&
+        !Lex.is(Token::KEYWORD))
+      return false;
     try {
       auto Value = Lex.discardQuote();
       Dest = unescape(
@@ -1312,9 +1315,9 @@ template<> struct Traits<char *> {
       }
     } else {
       try {
-        auto Value = Lex.discardQuote();
-        auto Unescaped = Traits<std::string>::unescape(
-          Lex.json().substr(Value.first, Value.second - Value.first + 1));
+        std::string Unescaped;
+        if (!Traits<std::string>::parse(Unescaped, Lex))
+          return false;
         TmpDest = new char[Unescaped.length() + 1];
         Unescaped.copy(TmpDest, Unescaped.length());
         TmpDest[Unescaped.length()] = '\0';
-- 
2.43.0


From 37ea26bb2c90721ff87f736e4ac614027c4d859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 19/86] fix: characters are neither read from JSON nor written
 to it

---
 include/bcl/Json.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 1958de9..310b5e5 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1105,17 +1105,17 @@ template<> struct Traits<std::string> {
 
 template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
-    auto Value = Lex.discardQuote();
-    auto Tmp = Traits<std::string>::unescape(
-      Lex.json().substr(Value.first, Value.second - Value.first + 1));
-    if (Tmp.size() != 1)
+    std::string Tmp;
+    if (!Traits<std::string>::parse(Tmp, Lex) || Tmp.size() != 1)
       return false;
-    Dest = Lex.json()[Tmp.front()];
+    Dest = Tmp.front();
     return true;
   }
   inline static void unparse(String &JSON, char Obj) {
     auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
+    JSON += '"';
+    JSON += Obj;
+    JSON += '"';
     Traits<std::string>::escape(JSON, I);
   }
 };
-- 
2.43.0


From 3b2a84d459626b3cccbe35ee2fe3a1bddb82b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 20/86] fix: unsigned numbers read from JSON silently wrap
 around

---
 include/bcl/Json.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 310b5e5..25ca354 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1176,7 +1176,9 @@ template<> struct Traits<unsigned> {
     try {
       std::string Str;
       Traits<std::string>::parse(Str, Lex);
-      Dest = static_cast<unsigned>(std::stoul(Str));
+      auto Value = std::stoul(Str);
+      Dest = static_cast<unsigned>(Value);
+      return Dest == Value && Str.find('-') == std::string::npos;
     }
     catch (...) {
       return false;
@@ -1194,6 +1196,7 @@ template<> struct Traits<unsigned long> {
       std::string Str;
       Traits<std::string>::parse(Str, Lex);
       Dest = std::stoul(Str);
+      return Str.find('-') == std::string::npos;
     }
     catch (...) {
       return false;
@@ -1211,6 +1214,7 @@ template<> struct Traits<unsigned long long> {
       std::string Str;
       Traits<std::string>::parse(Str, Lex);
       Dest = std::stoull(Str);
+      return Str.find('-') == std::string::npos;
     }
     catch (...) {
       return false;
-- 
2.43.0


From e1ce8126609bd3a233b097f8e4aa4e8942d578b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 21/86] fix: wrong operator delete for arrays which JSON fails
 to fill

---
 include/bcl/Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 25ca354..ba62ee5 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1314,7 +1314,7 @@ template<> struct Traits<char *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
@@ -1327,7 +1327,7 @@ template<> struct Traits<char *> {
         TmpDest[Unescaped.length()] = '\0';
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     }
@@ -1390,7 +1390,7 @@ template<class Ty> struct Traits<Ty *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
-- 
2.43.0


From 3f251c78c7b6625cfda1507279abda78e61c292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 22/86] fix: JSON arrays with duplicate indexes leave elements
 uninitialized

The number of keys is compared with the maximum index only, so that one
duplicate hides one missing index.
---
 include/bcl/Json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index ba62ee5..6779f1b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1757,6 +1757,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
   Lex.storePosition();
   Position MaxIdx = 0;
   Position Count = 0;
+  std::set<unsigned long long> Indexes;
   Token Last;
   if (Lex.is(Token::LEFT_BRACKET))
     Last = Token::RIGHT_BRACKET;
@@ -1778,6 +1779,10 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
       unsigned long long Idx;
       if (!Traits<unsigned long long>::parse(Idx, Lex))
         return std::make_tuple(0, 0, false);
+      if (!Indexes.insert(Idx).second) {
+        Lex.errors().insert(JSON_ERROR(8), Lex.start());
+        return std::make_tuple(0, 0, false);
+      }
       MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
       if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
           !Lex.goToNext())
-- 
2.43.0


From e4a5e985869c1b99512f04d809b0922ecdde0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 23/86] fix: escaped index of a JSON array throws out of the
 parser

---
 include/bcl/Json.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 6779f1b..1044712 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1340,8 +1340,8 @@ template<> struct Traits<char *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<char>::parse(Dest[Idx], Lex);
     } else {
       return Traits<char>::parse(Dest[Key.second], Lex);
@@ -1414,8 +1414,8 @@ template<class Ty> struct Traits<Ty *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
@@ -1474,8 +1474,8 @@ struct Traits<std::vector<Ty, Allocator>> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
-- 
2.43.0


From afade876075d6704d75e5d8762eb67126fc21483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 24/86] fix: assertion fails if a vector without any value is
 written to JSON

---
 include/bcl/Json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 1044712..fe3b79a 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1500,8 +1500,8 @@ struct Traits<std::vector<Ty, Allocator>> {
           Traits<unsigned long long>::unparse(JSON, I);
           JSON += "\":" + Values[I] + ",";
         }
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
+        if (JSON.back() == ',')
+          JSON.erase(JSON.size() - 1);
         JSON += '}';
       } else {
         JSON += '[';
-- 
2.43.0


From 18e0dd695d6ceb068f0733fba3a703507938d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 25/86] fix: failure to read a key of a JSON map is ignored

The entry gets an uninitialized or an empty key.
---
 include/bcl/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index fe3b79a..cb48d85 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1569,8 +1569,10 @@ struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsKey = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsKey)
+      return false;
     auto Pair = Dest.emplace(KeyValue, Ty());
     if (!Pair.second) {
       Lex.errors().insert(JSON_ERROR(8), Lex.start());
@@ -1622,8 +1624,10 @@ struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsKey = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsKey)
+      return false;
     auto Itr = Dest.emplace(KeyValue, Ty());
     if (Itr == Dest.end())
       return false;
-- 
2.43.0


From c236528b508c8217d77018f5b02650fde1106b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 26/86] fix: optional values in JSON accept what cannot be
 converted

A failure is ignored, and a string "null" which has been written is lost.
---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index cb48d85..aaa7e98 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1865,12 +1865,14 @@ template<class T> struct Traits<std::optional<T>> {
     try {
       std::string Str;
       if (Lex.isKeyword(Keyword::NO_VALUE) ||
-          Traits<std::string>::parse(Str, Lex) &&
+          !std::is_convertible<T, std::string>::value &&
+              Traits<std::string>::parse(Str, Lex) &&
               Str == toString(Keyword::NO_VALUE)) {
         Dest.reset();
       } else {
         T Tmp;
-        Traits<T>::parse(Tmp, Lex);
+        if (!Traits<T>::parse(Tmp, Lex))
+          return false;
         Dest = std::move(Tmp);
       }
     }
-- 
2.43.0


From 51933b33537552c01739263f6f1325a92930d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 27/86] fix: JSON text followed by a comma is rejected without
 an error

Trailing spaces are a part of the text and are not an error.
---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index aaa7e98..55cde73 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -770,9 +770,11 @@ template<class... Objects> class Parser {
         Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
       }
-      if (Lex.next() < Lex.json().size()) {
+      if (Lex.json().find_first_not_of(" \t\n\v\f\r", Lex.next()) !=
+          String::npos) {
         Lex.goToNext();
-        Lex.checkSpecial(Token::COMMA);
+        if (Lex.checkSpecial(Token::COMMA))
+          Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
       }
       return true;
-- 
2.43.0


From 0dc1ade3035de8cccec1caafe04b459b1908f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 28/86] fix: name of a JSON object is not found after a
 compound member

If a key is expected and is not found no error is recorded.
---
 include/bcl/Json.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 55cde73..a7c12a7 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1009,7 +1009,7 @@ private:
     if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
       return false;
     while (mLex.goToNext()) {
-      if (!mLex.is(Token::IDENTIFIER))
+      if (!mLex.checkIdentifier())
         return false;
       bool IsName = (mLex.json().compare(
         mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
@@ -1023,9 +1023,8 @@ private:
         mNameEnd = mLex.end();
         return true;
       }
-      if (((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) &&
-           !mLex.skipInternal()) ||
-          !mLex.checkValue())
+      if ((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) ?
+          !mLex.skipInternal() : !mLex.checkValue())
         return false;
       if (!mLex.goToNext())
         return false;
-- 
2.43.0


From 2a6064503475a0d806a71b9760f5a672894830e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 29/86] fix: no error is recorded if the name of a JSON object
 is unknown

---
 include/bcl/Json.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index a7c12a7..3e55bb1 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -977,7 +977,10 @@ public:
     ParseFunctor F(
       mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1), mLex);
     ObjectTypeList::for_each_type(F);
-    return F.stealObject();
+    auto Obj = F.stealObject();
+    if (!Obj && !hasErrors())
+      mLex.errors().insert(JSON_ERROR(3), mNameStart, getNameKey());
+    return Obj;
   }
 
   /// Parses JSON string and converts it to a specified type,
-- 
2.43.0


From 847d107d62a3457cdf50673b9b2bbc8f4050f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 30/86] fix: unknown compound members of JSON objects are not
 skipped

---
 include/bcl/Json.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 3e55bb1..a23b43f 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1696,16 +1696,21 @@ public:
           mKey.first + 1, mKey.second - mKey.first - 1 ,
           CellTraits<CellKey>::name()) != 0)
       return;
+    mIsFound = true;
     mHasError = !CellTraits<CellKey>::parse(
       Cell->template value<CellKey>(), mLex);
   }
 
   /// Returns true if errors have been occurred during conversion.
   bool hasError() const noexcept { return mHasError; }
+
+  /// Returns true if there is a field with the specified key.
+  bool isFound() const noexcept { return mIsFound; }
 private:
   Lexer &mLex;
   std::pair<Position, Position> mKey;
   bool mHasError;
+  bool mIsFound = false;
 };
 
 /// This functor unparses JSON object represented as a bcl::StaticMap. It should
@@ -1750,6 +1755,9 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
       std::pair<Position, Position> Key) {
     detail::ParseCellFunctor Parse(Key, Lex);
     Dest.for_each(Parse);
+    if (!Parse.isFound() &&
+        (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)))
+      return Lex.skipInternal();
     return !Parse.hasError();
   }
   inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
-- 
2.43.0


From bcd41b5fb2368cb06243e82aaab9c81f51b02a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 31/86] fix: diagnostics are not read back from JSON

Kinds and texts with spaces are refused and each text leaks.
---
 include/bcl/Json.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index a23b43f..c1d3fae 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1831,23 +1831,21 @@ template<> struct Traits<bcl::Diagnostic> {
   }
   inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
     std::pair<Position, Position>) {
-    const char *Msg;
-    if (!Traits<const char *>::parse(Msg, Lex))
+    std::string Msg;
+    if (!Traits<std::string>::parse(Msg, Lex))
       return false;
-    char *Kind = new char[std::strlen(Msg) + 1];
-    char *Buf = new char[std::strlen(Msg) + 1];
+    auto KindSize = std::strlen(Dest.getKind());
     std::size_t Code;
     std::uintmax_t Pos;
-    auto ArgNum = std::sscanf(Msg, "%s C%zu(%ju): %s", Kind, &Code, &Pos, Buf);
-    if (ArgNum != 4 || std::strcmp(Kind, Dest.getKind()) != 0 ||
-        !Dest.insert(Code, "%s", Pos, Buf)) {
+    int Text = -1;
+    if (Msg.compare(0, KindSize, Dest.getKind()) != 0 ||
+        std::sscanf(Msg.c_str() + KindSize, " C%zu(%ju):%n",
+                    &Code, &Pos, &Text) != 2 ||
+        Text < 0 || Msg[KindSize + Text] != ' ' ||
+        !Dest.insert(Code, "%s", Pos, Msg.c_str() + KindSize + Text + 1)) {
       Lex.errors().insert(JSON_ERROR(9), Lex.start());
-      delete[]Kind;
-      delete[]Buf;
       return false;
     }
-    delete[]Kind;
-    delete[]Buf;
     return true;
   }
   inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
-- 
2.43.0


From 441d4f4317c41424dbbc793665f5c6ae02da69d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 32/86] fix: cells of a static map constructed from types are
 in the reversed order

---
 include/bcl/cell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 8b376cb..33d57de 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -370,7 +370,7 @@ namespace detail {
 template<template<class Ty> class KeyCtor, class Types, class... Keys>
 struct StaticMapConstructorImp {
   typedef typename StaticMapConstructorImp<KeyCtor, typename Types::Next,
-    typename KeyCtor<typename Types::Type>::CellKey, Keys...>::Type Type;
+    Keys..., typename KeyCtor<typename Types::Type>::CellKey>::Type Type;
 };
 
 template<template<class Ty> class KeyCtor, class... Keys>
-- 
2.43.0


From 9ef1775dc4d0dce4ed177b7997e53c016d3bc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 33/86] fix: functors which copy and move data to a map do not
 compile

---
 include/bcl/cell.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 33d57de..354b1f2 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -696,7 +696,7 @@ private:
 template<class To_> struct CopyFromCellFunctor {
   typedef To_ To;
 
-  CopyFromCellFunctor(const To *T) : mTo(T) {
+  CopyFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -713,7 +713,7 @@ private:
 
   template<class CellTy> inline void copyFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 
 /// \brief Moves data from one cell to another.
@@ -752,7 +752,7 @@ private:
 template<class To_> struct MoveFromCellFunctor {
   typedef To_ To;
 
-  MoveFromCellFunctor(const To *T) : mTo(T) {
+  MoveFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -769,7 +769,7 @@ private:
 
   template<class CellTy> inline void moveFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 }
 
-- 
2.43.0


From adc2f156ccef377cdc69cbbc68ca3dc2faaa5270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 34/86] fix: MoveToCellFunctor copies data instead of moving
 them

---
 include/bcl/cell.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 354b1f2..ce8562f 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -724,7 +724,7 @@ private:
 template<class From_> struct MoveToCellFunctor {
   typedef From_ From;
 
-  MoveToCellFunctor(const From *F) : mFrom(F) {
+  MoveToCellFunctor(From *F) : mFrom(F) {
     assert(F && "The source of data must not be null!");
   }
 
@@ -741,7 +741,7 @@ private:
 
   template<class CellTy> inline void moveTo(CellTy *, std::false_type) {}
 
-  const From *mFrom;
+  From *mFrom;
 };
 
 /// \brief Moves data from one cell to another.
-- 
2.43.0


From 988c7ddfcf0480374311ae840aea6b6a5158b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 35/86] fix: for_each_type() of an empty list does not accept a
 temporary

---
 include/bcl/cell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index ce8562f..24fb491 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -283,7 +283,7 @@ template<> struct TypeList<> {
   static constexpr std::size_t size_of() { return 0; }
 
   /// This is invoked when all types will be visited.
-  template<class Function> static void for_each_type(Function &) {}
+  template<class Function> static void for_each_type(Function &&) {}
 };
 
 /// \brief Determines whether the Type exists in the TypeList.
-- 
2.43.0


From de7651e4170f1b77ccb0d89996d348d15db6f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 36/86] fix: tagged_tuple_idx does not accept tags

---
 include/bcl/tagged.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/tagged.h b/include/bcl/tagged.h
index 706d51e..ab073d2 100644
--- a/include/bcl/tagged.h
+++ b/include/bcl/tagged.h
@@ -361,7 +361,7 @@ template<class Tag, class T> class tagged_tuple_idx;
 template<class Tag, class... Taggeds>
 class tagged_tuple_idx<Tag, tagged_tuple<Taggeds...>> :
   public std::integral_constant<
-    std::size_t, bcl::index_of<Tag, Taggeds...>()> {};
+    std::size_t, bcl::index_of<get_tagged<Tag, Taggeds...>, Taggeds...>()> {};
 
 /// Provide compile time access to a tag with a specified index.
 template<std::size_t Idx, class T> struct tagged_tuple_tag;
-- 
2.43.0


From bdfc75bc493faf90378fb37fd493e191b27578a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 37/86] fix: get_tagged_tuple reverses the order of tags

---
 include/bcl/tagged.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/tagged.h b/include/bcl/tagged.h
index ab073d2..09e57b2 100644
--- a/include/bcl/tagged.h
+++ b/include/bcl/tagged.h
@@ -439,7 +439,7 @@ namespace detail {
 template<class Ty, class Tags, class... Taggeds>
 struct get_tagged_tuple_impl {
   using type = typename get_tagged_tuple_impl<Ty, typename Tags::Next,
-    tagged<Ty, typename Tags::Type>, Taggeds...>::type;
+    Taggeds..., tagged<Ty, typename Tags::Type>>::type;
 };
 
 template<class Ty, class... Taggeds>
-- 
2.43.0


From 1a2e1c1c6fb38b47318db4825224670d74dc5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 38/86] fix: merge of two empty static maps does not compile

---
 include/bcl/cell.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 24fb491..2d1ed2f 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -623,6 +623,10 @@ template<class Right> struct MergeCell<StaticMap<>, Right> {
   typedef Right Result;
 };
 
+template<> struct MergeCell<StaticMap<>, StaticMap<> > {
+  typedef StaticMap<> Result;
+};
+
 /// Deletes memory allocated for a value which is stored in a cell if it has
 /// a pointer type.
 struct ClearCellFunctor {
-- 
2.43.0


From 546de7b53174024ff0a95a58060703ec305aec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 39/86] fix: TraitSet::release() erases an element which does
 not exist

---
 include/bcl/trait.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1d5511b..1daf246 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -805,8 +805,9 @@ public:
   template<class Trait> TraitDataTy<Trait> * release() {
     auto constexpr Key = TraitDescriptor::template getKey<Trait>();
     auto I = mValues.find(Key);
-    auto *Result = I == mValues.end() ? nullptr :
-      reinterpret_cast<TraitDataTy<Trait>*>(I->second);
+    if (I == mValues.end())
+      return nullptr;
+    auto *Result = reinterpret_cast<TraitDataTy<Trait>*>(I->second);
     mValues.erase(I);
     return Result;
   }
-- 
2.43.0


From b70e00e2234b951620b2f341e686f10cd70f61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 40/86] fix: move assignment of a TraitSet leaks descriptions
 of traits

---
 include/bcl/trait.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1daf246..26119b5 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -619,7 +619,16 @@ class TraitSet {
 public:
   TraitSet() = default;
   TraitSet(TraitSet &&) = default;
-  TraitSet & operator=(TraitSet &&) = default;
+  /// Destroys information about all traits and moves it from another set.
+  TraitSet & operator=(TraitSet &&TS) {
+    if (this != &TS) {
+      if (!mValues.empty())
+        mTD.for_each(ConflictsResolver(&mValues));
+      mValues = std::move(TS.mValues);
+      mTD = std::move(TS.mTD);
+    }
+    return *this;
+  }
 
   // This set manages memory allocation for a trait description, however,
   // it does not know how to copy this trait. Hence, only 'move' operations are
-- 
2.43.0


From 76897dadf6ea15743d14f37eded1f9c9ed907cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:24 +0000
Subject: [PATCH 41/86] fix: queries of an inactive redirection or one without
 a file do not crash

---
 include/bcl/RedirectIO.h | 554 ++++++++++++++++++++-------------------
 1 file changed, 280 insertions(+), 274 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index df66208..6b3cb47 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -1,274 +1,280 @@
-//===--- RedirectIO.h ----- Input/Output Redirection ------------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file proposes redirection functionality for input/output operations.
-// This is similar to using '>' in command line. For example, to implement
-// ./a.out 2>data.err in the code of 'a' the RedirectIO can be used as follows:
-//
-// // a.cpp
-// #include <bcl/RedirectIO.h>
-// int main() {
-//   bcl::RedirectIO R(STDERR_FILENO, "data.err");
-//   // now all writings in stderr will be redirected to "data.err"
-// }
-//
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_REDIRECT_IO_H
-#define BCL_REDIRECT_IO_H
-
-#include "Diagnostic.h"
-#include "utility.h"
-#include <assert.h>
-#include <cctype>
-#include <cerrno>
-#include <cstdio>
-#include <cstring>
-#include <string>
-
-#if defined(_MSC_VER)
-# include <io.h>
-# define dup2 _dup2
-#define fileno _fileno
-#ifndef STDIN_FILENO
-# define STDIN_FILENO 0
-#endif
-#ifndef STDOUT_FILENO
-# define STDOUT_FILENO 1
-#endif
-#ifndef STDERR_FILENO
-# define STDERR_FILENO 2
-#endif
-#elif defined(__CYGWIN__)
-# include <io.h>
-#else
-# include <unistd.h>
-#endif
-
-namespace bcl {
-// This proposes redirection functionality for input/output operations.
-class RedirectIO {
-public:
-  /// The target file for redirection will be opened according to this mode.
-  enum class Mode : char {
-    Rewrite = 'w',
-    Append = 'a',
-    Read = 'r',
-  };
-
-  /// \brief Default constructor, nothing will be redirected.
-  ///
-  /// Note that only move operations are available, copy constructor and
-  /// assignment are deleted.
-  RedirectIO() : mFile(nullptr) {}
-
-  /// \brief Redirect file with handle descriptor From to a file with a name To.
-  ///
-  /// The To file will be opened in a mode according to a specified node M.
-  /// In case of Mode::Rewrite the file will be opened in mode "w+" and
-  /// in case of Mode::Append the file will be opened in mode "a+".
-  /// In case of Mode::Read the file will be opened in mode "r+.
-  /// In case of errors the file will not be opened and description of errors
-  /// becomes available from errors() container.
-  RedirectIO(int From, const std::string &To, Mode M = Mode::Rewrite) :
-    mErrors(new bcl::Diagnostic("redirect error")),
-    mFile(nullptr), mFromHandle(From), mToName(To) {
-    const char ModeStr[3] = { static_cast<char>(M), '+', '\0' };
-    mFile = std::fopen(To.data(), ModeStr);
-    if (!mFile) {
-      storeErrNo("fopen");
-      return;
-    }
-    if (dup2(fileno(mFile), mFromHandle) == -1) {
-      storeErrNo("dup2");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      else
-        mFile = nullptr;
-      return;
-    }
-    if (M == Mode::Append) {
-      // This is necessary to move position to the end of the file,
-      // otherwise a result of ftell() points to the beginning of the file.
-      while (fgetc(mFile) != EOF);
-      if (!std::feof(mFile)) {
-        storeErrNo("fgetc");
-        if (fclose(mFile) != 0)
-          storeErrNo("fclose");
-        else
-          mFile = nullptr;
-        return;
-      }
-    }
-    mDiffStart = mDiffPos = std::ftell(mFile);
-    if (mDiffPos == -1) {
-      storeErrNo("ftell");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      else
-        mFile = nullptr;
-      return;
-    }
-  }
-
-  /// Destructor closes a target file but redirected descriptor stays open and
-  /// redirection is still performed.
-  ~RedirectIO() {
-    // Note that when move operation is executed destructor also called,
-    // to determine this case let us use mayRedirected().
-    // This is possible because mErrors will be unset when move is performed.
-    if (!mayRedirected() || !mFile)
-      return;
-    if (fclose(mFile) != 0)
-      storeErrNo("fclose");
-    mFile = nullptr;
-  }
-
-  RedirectIO(const RedirectIO &) = delete;
-  RedirectIO & operator=(const RedirectIO &) = delete;
-  RedirectIO(RedirectIO &&) = default;
-  RedirectIO & operator=(RedirectIO &&) = default;
-
-  /// \brief Returns true if redirection is active, note that in case of errors
-  /// this also returns true.
-  ///
-  /// \return This returns false only if default constructor has been used
-  /// to create a RedirectIO object.
-  bool mayRedirected() const noexcept { return mErrors != nullptr; }
-
-  /// Returns container of errors.
-  const bcl::Diagnostic & errors() const noexcept {
-    assert(mayRedirected() && "Redirection has not been activated (default constructor was used)!");
-    return *mErrors;
-  }
-
-  /// Returns true if errors have been occurred, internal errors are
-  /// also considered.
-  bool hasErrors() const {
-    return mayRedirected() &&
-      (!errors().empty() || errors().internal_size() > 0);
-  }
-
-  /// Returns a name of target file for redirection.
-  const std::string & fileName() const noexcept { return mToName; }
-
-  /// \brief Returns true if some changes have been made since the last
-  /// position setting.
-  ///
-  /// \return If some errors occur this method is going to return false and
-  /// store errors description in a diagnostic container (see errors()).
-  bool isDiff() {
-    // It is necessary to perform this check because fflush(NULL) flushes all
-    // opened files and this is unwanted behavior.
-    if (!mFile) {
-      storeErrNo(EINVAL, "fflush");
-      return false;
-    }
-    if (std::fflush(mFile) != 0) {
-      storeErrNo("fflush");
-      return false;
-    }
-    auto Pos = std::ftell(mFile);
-    if (Pos == -1) {
-      storeErrNo("ftell");
-      return false;
-    }
-    return Pos != mDiffPos;
-  }
-
-  /// \brief Returns changes that have been made since the last
-  /// position setting.
-  ///
-  /// \return If some errors occur this method is going to return empty string
-  /// and store errors description in a diagnostic container (see errors()).
-  /// If input is redirected this method returns data which have not been
-  /// read yet.
-  std::string diff() {
-    assert(mFile && "File must not be null!");
-    if (!isDiff())
-      return "";
-    auto Pos = std::ftell(mFile);
-    if (Pos == -1) {
-      storeErrNo("ftell");
-      return "";
-    }
-    if (std::fseek(mFile, mDiffPos, SEEK_SET) != 0) {
-      storeErrNo("fseek");
-      return "";
-    }
-    char Buf[100] = "\0";
-    std::string Str;
-    while (std::fgets(Buf, 100, mFile))
-      Str += Buf;
-    if (!std::feof(mFile)) {
-      storeErrNo("fgets");
-      if (std::fseek(mFile, Pos, SEEK_SET) != 0)
-        storeErrNo("fseek");
-      return "";
-    }
-    return Str;
-  }
-
-  /// Reset position to perform diff() comparison. Position will the same
-  /// as when a redirection has been occurred.
-  void resetDiffPos() noexcept { mDiffPos = mDiffStart; }
-
-  /// Set position to perform diff() comparison to a current position.
-  bool setDiffPos() {
-    assert(mFile && "File must not be null!");
-    mDiffPos = std::ftell(mFile);
-    if (mDiffPos == -1) {
-      storeErrNo("ftell");
-      return false;
-    }
-    return true;
-  }
-
-private:
-  /// Stores description of error ErrNos to the errors() container.
-  ///
-  /// \param [in] Number of error. This must be one of possible errno values.
-  /// \param [in] Op This is an operation which produces an error.
-  void storeErrNo(int ErrNo, const char *Op) {
-    auto Error = std::strerror(ErrNo);
-    mErrors->insert(ErrNo, "%s: %c%s (%s)",
-      0, mToName.data(), std::tolower(Error[0]), Error + 1, Op);
-  }
-
-  /// Stores description of error available from errno macros to the errors()
-  /// container.
-  ///
-  /// \param [in] Op This is an operation which produces an error.
-  void storeErrNo(const char *Op) {
-    auto Error = std::strerror(errno);
-    mErrors->insert(errno, "%s: %c%s (%s)",
-      0, mToName.data(), std::tolower(Error[0]), Error + 1, Op);
-  }
-
-  std::unique_ptr<bcl::Diagnostic> mErrors;
-  int mFromHandle;
-  std::string mToName;
-  FILE *mFile;
-  long mDiffPos;
-  long mDiffStart;
-};
-}
-
-#endif//BCL_REDIRECT_IO_H
+//===--- RedirectIO.h ----- Input/Output Redirection ------------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file proposes redirection functionality for input/output operations.
+// This is similar to using '>' in command line. For example, to implement
+// ./a.out 2>data.err in the code of 'a' the RedirectIO can be used as follows:
+//
+// // a.cpp
+// #include <bcl/RedirectIO.h>
+// int main() {
+//   bcl::RedirectIO R(STDERR_FILENO, "data.err");
+//   // now all writings in stderr will be redirected to "data.err"
+// }
+//
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_REDIRECT_IO_H
+#define BCL_REDIRECT_IO_H
+
+#include "Diagnostic.h"
+#include "utility.h"
+#include <assert.h>
+#include <cctype>
+#include <cerrno>
+#include <cstdio>
+#include <cstring>
+#include <string>
+
+#if defined(_MSC_VER)
+# include <io.h>
+# define dup2 _dup2
+#define fileno _fileno
+#ifndef STDIN_FILENO
+# define STDIN_FILENO 0
+#endif
+#ifndef STDOUT_FILENO
+# define STDOUT_FILENO 1
+#endif
+#ifndef STDERR_FILENO
+# define STDERR_FILENO 2
+#endif
+#elif defined(__CYGWIN__)
+# include <io.h>
+#else
+# include <unistd.h>
+#endif
+
+namespace bcl {
+// This proposes redirection functionality for input/output operations.
+class RedirectIO {
+public:
+  /// The target file for redirection will be opened according to this mode.
+  enum class Mode : char {
+    Rewrite = 'w',
+    Append = 'a',
+    Read = 'r',
+  };
+
+  /// \brief Default constructor, nothing will be redirected.
+  ///
+  /// Note that only move operations are available, copy constructor and
+  /// assignment are deleted.
+  RedirectIO() : mFile(nullptr) {}
+
+  /// \brief Redirect file with handle descriptor From to a file with a name To.
+  ///
+  /// The To file will be opened in a mode according to a specified node M.
+  /// In case of Mode::Rewrite the file will be opened in mode "w+" and
+  /// in case of Mode::Append the file will be opened in mode "a+".
+  /// In case of Mode::Read the file will be opened in mode "r+.
+  /// In case of errors the file will not be opened and description of errors
+  /// becomes available from errors() container.
+  RedirectIO(int From, const std::string &To, Mode M = Mode::Rewrite) :
+    mErrors(new bcl::Diagnostic("redirect error")),
+    mFile(nullptr), mFromHandle(From), mToName(To) {
+    const char ModeStr[3] = { static_cast<char>(M), '+', '\0' };
+    mFile = std::fopen(To.data(), ModeStr);
+    if (!mFile) {
+      storeErrNo("fopen");
+      return;
+    }
+    if (dup2(fileno(mFile), mFromHandle) == -1) {
+      storeErrNo("dup2");
+      if (fclose(mFile) != 0)
+        storeErrNo("fclose");
+      else
+        mFile = nullptr;
+      return;
+    }
+    if (M == Mode::Append) {
+      // This is necessary to move position to the end of the file,
+      // otherwise a result of ftell() points to the beginning of the file.
+      while (fgetc(mFile) != EOF);
+      if (!std::feof(mFile)) {
+        storeErrNo("fgetc");
+        if (fclose(mFile) != 0)
+          storeErrNo("fclose");
+        else
+          mFile = nullptr;
+        return;
+      }
+    }
+    mDiffStart = mDiffPos = std::ftell(mFile);
+    if (mDiffPos == -1) {
+      storeErrNo("ftell");
+      if (fclose(mFile) != 0)
+        storeErrNo("fclose");
+      else
+        mFile = nullptr;
+      return;
+    }
+  }
+
+  /// Destructor closes a target file but redirected descriptor stays open and
+  /// redirection is still performed.
+  ~RedirectIO() {
+    // Note that when move operation is executed destructor also called,
+    // to determine this case let us use mayRedirected().
+    // This is possible because mErrors will be unset when move is performed.
+    if (!mayRedirected() || !mFile)
+      return;
+    if (fclose(mFile) != 0)
+      storeErrNo("fclose");
+    mFile = nullptr;
+  }
+
+  RedirectIO(const RedirectIO &) = delete;
+  RedirectIO & operator=(const RedirectIO &) = delete;
+  RedirectIO(RedirectIO &&) = default;
+  RedirectIO & operator=(RedirectIO &&) = default;
+
+  /// \brief Returns true if redirection is active, note that in case of errors
+  /// this also returns true.
+  ///
+  /// \return This returns false only if default constructor has been used
+  /// to create a RedirectIO object.
+  bool mayRedirected() const noexcept { return mErrors != nullptr; }
+
+  /// Returns container of errors.
+  const bcl::Diagnostic & errors() const noexcept {
+    assert(mayRedirected() && "Redirection has not been activated (default constructor was used)!");
+    return *mErrors;
+  }
+
+  /// Returns true if errors have been occurred, internal errors are
+  /// also considered.
+  bool hasErrors() const {
+    return mayRedirected() &&
+      (!errors().empty() || errors().internal_size() > 0);
+  }
+
+  /// Returns a name of target file for redirection.
+  const std::string & fileName() const noexcept { return mToName; }
+
+  /// \brief Returns true if some changes have been made since the last
+  /// position setting.
+  ///
+  /// \return If some errors occur this method is going to return false and
+  /// store errors description in a diagnostic container (see errors()).
+  bool isDiff() {
+    if (!mayRedirected())
+      return false;
+    // It is necessary to perform this check because fflush(NULL) flushes all
+    // opened files and this is unwanted behavior.
+    if (!mFile) {
+      storeErrNo(EINVAL, "fflush");
+      return false;
+    }
+    if (std::fflush(mFile) != 0) {
+      storeErrNo("fflush");
+      return false;
+    }
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
+      storeErrNo("ftell");
+      return false;
+    }
+    return Pos != mDiffPos;
+  }
+
+  /// \brief Returns changes that have been made since the last
+  /// position setting.
+  ///
+  /// \return If some errors occur this method is going to return empty string
+  /// and store errors description in a diagnostic container (see errors()).
+  /// If input is redirected this method returns data which have not been
+  /// read yet.
+  std::string diff() {
+    if (!isDiff())
+      return "";
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
+      storeErrNo("ftell");
+      return "";
+    }
+    if (std::fseek(mFile, mDiffPos, SEEK_SET) != 0) {
+      storeErrNo("fseek");
+      return "";
+    }
+    char Buf[100] = "\0";
+    std::string Str;
+    while (std::fgets(Buf, 100, mFile))
+      Str += Buf;
+    if (!std::feof(mFile)) {
+      storeErrNo("fgets");
+      if (std::fseek(mFile, Pos, SEEK_SET) != 0)
+        storeErrNo("fseek");
+      return "";
+    }
+    return Str;
+  }
+
+  /// Reset position to perform diff() comparison. Position will the same
+  /// as when a redirection has been occurred.
+  void resetDiffPos() noexcept { mDiffPos = mDiffStart; }
+
+  /// Set position to perform diff() comparison to a current position.
+  bool setDiffPos() {
+    if (!mayRedirected())
+      return false;
+    if (!mFile) {
+      storeErrNo(EINVAL, "ftell");
+      return false;
+    }
+    mDiffPos = std::ftell(mFile);
+    if (mDiffPos == -1) {
+      storeErrNo("ftell");
+      return false;
+    }
+    return true;
+  }
+
+private:
+  /// Stores description of error ErrNos to the errors() container.
+  ///
+  /// \param [in] Number of error. This must be one of possible errno values.
+  /// \param [in] Op This is an operation which produces an error.
+  void storeErrNo(int ErrNo, const char *Op) {
+    auto Error = std::strerror(ErrNo);
+    mErrors->insert(ErrNo, "%s: %c%s (%s)",
+      0, mToName.data(), std::tolower(Error[0]), Error + 1, Op);
+  }
+
+  /// Stores description of error available from errno macros to the errors()
+  /// container.
+  ///
+  /// \param [in] Op This is an operation which produces an error.
+  void storeErrNo(const char *Op) {
+    auto Error = std::strerror(errno);
+    mErrors->insert(errno, "%s: %c%s (%s)",
+      0, mToName.data(), std::tolower(Error[0]), Error + 1, Op);
+  }
+
+  std::unique_ptr<bcl::Diagnostic> mErrors;
+  int mFromHandle = -1;
+  std::string mToName;
+  FILE *mFile;
+  long mDiffPos = 0;
+  long mDiffStart = 0;
+};
+}
+
+#endif//BCL_REDIRECT_IO_H
-- 
2.43.0


From 84608b4d11889ef46279b73e641eca503e932574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:46 +0000
Subject: [PATCH 42/86] fix: moving a redirection leaves an inactive object and
 closes a replaced file

---
 include/bcl/RedirectIO.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 6b3cb47..8d081c5 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -143,8 +143,18 @@ public:
 
   RedirectIO(const RedirectIO &) = delete;
   RedirectIO & operator=(const RedirectIO &) = delete;
-  RedirectIO(RedirectIO &&) = default;
-  RedirectIO & operator=(RedirectIO &&) = default;
+  /// Moves redirection to this object, nothing is redirected by RHS after that.
+  RedirectIO(RedirectIO &&RHS) : RedirectIO() { swap(RHS); }
+
+  /// Moves redirection to this object, a target file of a previous redirection
+  /// will be closed and nothing is redirected by RHS after that.
+  RedirectIO & operator=(RedirectIO &&RHS) {
+    if (this != &RHS) {
+      RedirectIO Tmp(std::move(RHS));
+      swap(Tmp);
+    }
+    return *this;
+  }
 
   /// \brief Returns true if redirection is active, note that in case of errors
   /// this also returns true.
@@ -248,6 +258,16 @@ public:
   }
 
 private:
+  /// Exchanges redirections of two objects.
+  void swap(RedirectIO &RHS) {
+    std::swap(mErrors, RHS.mErrors);
+    std::swap(mFromHandle, RHS.mFromHandle);
+    std::swap(mToName, RHS.mToName);
+    std::swap(mFile, RHS.mFile);
+    std::swap(mDiffPos, RHS.mDiffPos);
+    std::swap(mDiffStart, RHS.mDiffStart);
+  }
+
   /// Stores description of error ErrNos to the errors() container.
   ///
   /// \param [in] Number of error. This must be one of possible errno values.
-- 
2.43.0


From 093350b064cb2b0d021a1408a47889446efe23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:41 +0000
Subject: [PATCH 43/86] fix: diff() of a redirection keeps data with null
 characters

---
 include/bcl/RedirectIO.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 8d081c5..7bdbcd0 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -224,12 +224,16 @@ public:
       storeErrNo("fseek");
       return "";
     }
-    char Buf[100] = "\0";
+    char Buf[100];
     std::string Str;
-    while (std::fgets(Buf, 100, mFile))
-      Str += Buf;
+    // Note, that data may contain null characters.
+    std::size_t Size;
+    do {
+      Size = std::fread(Buf, 1, sizeof(Buf), mFile);
+      Str.append(Buf, Size);
+    } while (Size == sizeof(Buf));
     if (!std::feof(mFile)) {
-      storeErrNo("fgets");
+      storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
         storeErrNo("fseek");
       return "";
-- 
2.43.0


From c6c9d172e4a10766f55a002a47ae33d25440b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:23 +0000
Subject: [PATCH 44/86] fix: a failed setDiffPos() keeps the previous position

---
 include/bcl/RedirectIO.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 7bdbcd0..6e89e53 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -253,11 +253,12 @@ public:
       storeErrNo(EINVAL, "ftell");
       return false;
     }
-    mDiffPos = std::ftell(mFile);
-    if (mDiffPos == -1) {
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
       storeErrNo("ftell");
       return false;
     }
+    mDiffPos = Pos;
     return true;
   }
 
-- 
2.43.0


From 2d7f790a4ff676ea8397c9e6d5ba513304b1eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:40 +0000
Subject: [PATCH 45/86] fix: setDiffPos() uses a current position of the file

---
 include/bcl/RedirectIO.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 6e89e53..01bdb2c 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -253,6 +253,12 @@ public:
       storeErrNo(EINVAL, "ftell");
       return false;
     }
+    // The position may be changed through the redirected descriptor, so discard
+    // the one which is known to the stream.
+    if (std::fflush(mFile) != 0) {
+      storeErrNo("fflush");
+      return false;
+    }
     auto Pos = std::ftell(mFile);
     if (Pos == -1) {
       storeErrNo("ftell");
-- 
2.43.0


From 20e9b93f0db9cda29d4782a3ffd8f68b531b14d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 46/86] fix: a stream is not used again if closing it fails in
 a redirection

---
 include/bcl/RedirectIO.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 01bdb2c..74e35eb 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -100,8 +100,7 @@ public:
       storeErrNo("dup2");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
     if (M == Mode::Append) {
@@ -112,8 +111,7 @@ public:
         storeErrNo("fgetc");
         if (fclose(mFile) != 0)
           storeErrNo("fclose");
-        else
-          mFile = nullptr;
+        mFile = nullptr;
         return;
       }
     }
@@ -122,8 +120,7 @@ public:
       storeErrNo("ftell");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
   }
-- 
2.43.0


From 1176927bd00aac5159035d14d05558cbc271a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 47/86] fix: binary literals with more than 31 digits

---
 include/bcl/utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index b2ee789..4db57ec 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -83,7 +83,8 @@ template <char HighBit, char... Bits>
 struct ToBinary<HighBit, Bits...> {
   static_assert(HighBit == '0' || HighBit == '1', "Not a binary value!");
   static const unsigned long long Value =
-    (HighBit - '0') << (sizeof...(Bits)) | ToBinary<Bits...>::Value;
+    static_cast<unsigned long long>(HighBit - '0') << (sizeof...(Bits)) |
+      ToBinary<Bits...>::Value;
 };
 
 /// Implementation of a user-defined binary-literal.
-- 
2.43.0


From 2c9cdb2381d0745edce097443e75f5a99b2c99d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 48/86] fix: numberOfDigits() and numberOfLessZeros() accept
 small integral types

---
 include/bcl/utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index 4db57ec..19d8602 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -110,7 +110,7 @@ constexpr unsigned long long operator "" _b() {
 template<class T>
 inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value % Base != 0 ? 0 : numberOfLessZeros(Value / Base, Base) + 1;
+  return Value % Base != 0 ? 0 : numberOfLessZeros<T>(Value / Base, Base) + 1;
 }
 
 /// Returns a number of digits in a value which is represented in a number
@@ -118,7 +118,7 @@ inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
 template<class T>
 inline constexpr std::size_t numberOfDigits(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value / Base == 0 ? 1 : numberOfDigits(Value / Base, Base) + 1;
+  return Value / Base == 0 ? 1 : numberOfDigits<T>(Value / Base, Base) + 1;
 }
 
 /// Returns a unit mask (11...1) of a specified type that comprises a specified
-- 
2.43.0


From cc188b0b663e6e73c2dc3c5c561f10c0f19ce0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:44 +0000
Subject: [PATCH 49/86] fix: numberOfLessZeros() terminates for zero

---
 include/bcl/utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index 19d8602..c5833b0 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -110,7 +110,8 @@ constexpr unsigned long long operator "" _b() {
 template<class T>
 inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value % Base != 0 ? 0 : numberOfLessZeros<T>(Value / Base, Base) + 1;
+  return Value % Base != 0 ? 0 : Value == 0 ? 1 :
+    numberOfLessZeros<T>(Value / Base, Base) + 1;
 }
 
 /// Returns a number of digits in a value which is represented in a number
-- 
2.43.0


From 7956807c84c733c2e30da7bd4e223a2d05ff1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 50/86] fix: shrinkPair() does not read outside of values which
 are smaller than a half of the result

---
 include/bcl/utility.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index c5833b0..adb93e5 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -371,8 +371,11 @@ template<class FirstT, class SecondT, class T> bool shrinkPair(
   for (std::size_t I = HalfSizeOfT; I < sizeof(SecondT); ++I)
     if (RawSecond[I] != 0)
       return false;
-  std::memmove((char *)&Out, RawFirst, HalfSizeOfT);
-  std::memmove((char *)&Out + HalfSizeOfT, RawSecond, HalfSizeOfT);
+  std::memset((char *)&Out, 0, SizeOfT);
+  std::memmove((char *)&Out, RawFirst,
+    sizeof(FirstT) < HalfSizeOfT ? sizeof(FirstT) : HalfSizeOfT);
+  std::memmove((char *)&Out + HalfSizeOfT, RawSecond,
+    sizeof(SecondT) < HalfSizeOfT ? sizeof(SecondT) : HalfSizeOfT);
   return true;
 }
 
-- 
2.43.0


From 9f5e619270f22a22ebcb37ad7ce627b802cb1854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:05 +0000
Subject: [PATCH 51/86] fix: status of a connection is used after it has been
 deleted

---
 include/bcl/IntrusiveConnection.h | 502 +++++++++++++++---------------
 1 file changed, 252 insertions(+), 250 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index c22fa0c..9409032 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -1,250 +1,252 @@
-//===- IntrusiveConnection.h -- Intrusive Connection ------------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file proposes intrusive connection between client and server.
-// Connection is intrusive because a server sends data to a client only when
-// it receive a request and a new request can be received only when the
-// previous one has been responded. It looks like this:
-//                          Client           Server
-//                            Request ->
-//                                    <- Response
-//                            Request ->
-//                                    <- Response
-//
-// There are two main functions:
-// - IntrusiveConnection::connect() starts connection;
-// - IntrusiveConnection::answer() answers a request.
-// Note that InstrusiveConnection can not be copied only move operations are
-// supported. This is due to the fact that when InstrusiveConnection is
-// destructed a connection will be automatically closed and all subsequent
-// requests is going to be rejected (client will receive
-// InstrusiveConnection::Reject response).
-//
-// Usage:
-//  void foo(bcl::IntrusiveConnection C) {
-//    do {
-//      C.answer([](const std::string &Request) {
-//         /* Answer a request */
-//      });
-//    } while (/*Exit if any requests are expected.*/);
-//  }
-//
-//  template<>
-//  void bcl::createServer<std::string>(const Socket<std::string> *S) {
-//    IntrusiveConnection::connect(S, '\0', foo);
-//}
-//
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_INTRUSIVE_CONNECTION_H
-#define BCL_INTRUSIVE_CONNECTION_H
-
-#include "Socket.h"
-#include <condition_variable>
-#include <mutex>
-#include <queue>
-#include <sstream>
-#include <thread>
-
-namespace bcl {
-/// Intrusive connection between client and server (look at the file beginning
-/// for details.
-class IntrusiveConnection {
-  struct Status {
-    std::mutex mReceiveMutex, mSendMutex;
-    std::condition_variable mReceiveEvent, mSendEvent;
-    std::string mReceiveData, mSendData;
-    bool mIsReceive = false, mIsSend = false, mClose = false, mReject = false;
-  };
-
-  explicit IntrusiveConnection(Status *I) : mStatus(I) {}
-
-public:
-  /// This response is going to be set if connection is closed but request
-  /// has been received.
-  struct Reject {
-    operator const std::string & () {
-      static const std::string Code = "REJECT";
-      return Code;
-    }
-  };
-
-  IntrusiveConnection(const IntrusiveConnection &) = delete;
-  IntrusiveConnection & operator=(const IntrusiveConnection &) = delete;
-
-  /// Move constructor.
-  IntrusiveConnection(IntrusiveConnection &&C) : mStatus(C.mStatus) {
-    C.mStatus = nullptr;
-  }
-
-  /// Move assignment.
-  IntrusiveConnection & operator=(IntrusiveConnection &&C) {
-    if (this == &C)
-      return *this;
-    mStatus = C.mStatus;
-    C.mStatus = nullptr;
-  }
-
-  /// Destructor.
-  ~IntrusiveConnection() {
-    if (!mStatus)
-      return;
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mReject = true;
-    }
-    mStatus->mSendEvent.notify_one();
-  }
-
-  /// \brief Receives a request, evaluates it and sends response.
-  ///
-  /// \param [in] F A function with prototype std::string(const std::string &).
-  /// A parameter is a request and a return value is a response.
-  /// \return true on success, otherwise returns false. If this function
-  /// returns false then function 'F' has not been invoked, connection
-  /// is broken and socket is closed.
-  template<class Function> bool answer(Function F) {
-    if (!mStatus)
-      return false;
-    std::string Data;
-    bool Close = false;
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mReceiveMutex);
-      mStatus->mReceiveEvent.wait(Lock,
-        [this] { return mStatus->mIsReceive || mStatus->mClose; });
-      Close = mStatus->mClose;
-      Data = mStatus->mReceiveData;
-      mStatus->mReceiveData.clear();
-      mStatus->mIsReceive = false;
-    }
-    if (Close) {
-      {
-        std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-        mStatus->mReject = true;
-      }
-      mStatus->mSendEvent.notify_one();
-      mStatus = nullptr;
-      return false;
-    }
-    Data = F(Data);
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mSendData = Data;
-      mStatus->mIsSend = true;
-    }
-    mStatus->mSendEvent.notify_one();
-    return true;
-  }
-
-  /// \brief Starts connection.
-  ///
-  /// \param [in] S Socket which provides connection.
-  /// \param [in] Delimiter This separates different requests.
-  /// \param [in, out] F Implementation of a server with prototype
-  /// void(IntrusiveConnection, ArgsTy...)
-  /// \param [in, out] Args Arguments which will be passed to F when server
-  /// is be started.
-  ///
-  /// Sometimes multiple requests may be joined. If a client send:
-  /// 'foo' then 'bar', the server may receive two different requests 'foo' then
-  /// 'bar' or a single request 'foobar'. To avoid the last case the Delimiter
-  /// parameter can be used.
-  /// For example, if it is known that a client uses '$' to separate different
-  /// requests ('foo$' then 'bar$'), it is possible to set Delimiter parameter
-  /// to '$'. Note that the delimiter also used when server sends responses
-  /// (even for REJECT response), so it will send 'response to foo$' then
-  /// 'response to bar$'. To avoid use of delimiters set Delimiter parameter
-  /// to '\0'.
-  template<class Function, class... ArgsTy>
-  static void connect(const bcl::Socket<std::string> *S,
-      char Delimiter, Function &&F, ArgsTy&&... Args) {
-    auto CS = new Status;
-    std::thread Engine(std::forward<Function>(F),
-      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
-    Engine.detach();
-    auto *Reject = new bool(false);
-    S->closed([Reject, CS](bool) {
-      if (!*Reject) {
-        {
-          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mClose = true;
-        }
-        CS->mReceiveEvent.notify_one();
-        {
-          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
-          CS->mSendEvent.wait(Lock, [CS] { return CS->mReject; });
-        }
-        delete CS;
-      }
-      delete Reject;
-    });
-    // It is not possible to store socket S in connection status CS, because
-    // when CS will be deleted it is necessary to access S to send REJECT
-    // response.
-    S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
-      std::queue<std::string> Buffer;
-      std::stringstream IS(Request);
-      std::string Item;
-      while (std::getline(IS, Item, Delimiter) && !IS.eof())
-        Buffer.push(Item);
-      // If there is no delimiter after last not empty string than this
-      // substring will be treated as a separate request.
-      // The last empty substring will be ignored.
-      if (!Item.empty())
-        Buffer.push(Item);
-      while (!Buffer.empty()) {
-        {
-          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mIsReceive = true;
-          CS->mReceiveData = Buffer.front();
-        }
-        CS->mReceiveEvent.notify_one();
-        Buffer.pop();
-        std::string Data;
-        {
-          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
-          CS->mSendEvent.wait(Lock,
-            [CS] { return CS->mIsSend || CS->mReject; });
-          // If CS->mReject is true, it is possible that there are some data,
-          // that have not been sent yet, so check it.
-          Data = CS->mIsSend ? CS->mSendData : IntrusiveConnection::Reject();
-          *Reject = CS->mReject;
-          CS->mSendData.clear();
-          CS->mIsSend = false;;
-        }
-        S->send(Data + Delimiter);
-        if (*Reject) {
-          delete CS;
-          break;
-        }
-      }
-    });
-  }
-
-private:
-  Status *mStatus;
-};
-}
-
-#endif//BCL_INTRUSIVE_CONNECTION_H
+//===- IntrusiveConnection.h -- Intrusive Connection ------------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file proposes intrusive connection between client and server.
+// Connection is intrusive because a server sends data to a client only when
+// it receive a request and a new request can be received only when the
+// previous one has been responded. It looks like this:
+//                          Client           Server
+//                            Request ->
+//                                    <- Response
+//                            Request ->
+//                                    <- Response
+//
+// There are two main functions:
+// - IntrusiveConnection::connect() starts connection;
+// - IntrusiveConnection::answer() answers a request.
+// Note that InstrusiveConnection can not be copied only move operations are
+// supported. This is due to the fact that when InstrusiveConnection is
+// destructed a connection will be automatically closed and all subsequent
+// requests is going to be rejected (client will receive
+// InstrusiveConnection::Reject response).
+//
+// Usage:
+//  void foo(bcl::IntrusiveConnection C) {
+//    do {
+//      C.answer([](const std::string &Request) {
+//         /* Answer a request */
+//      });
+//    } while (/*Exit if any requests are expected.*/);
+//  }
+//
+//  template<>
+//  void bcl::createServer<std::string>(const Socket<std::string> *S) {
+//    IntrusiveConnection::connect(S, '\0', foo);
+//}
+//
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_INTRUSIVE_CONNECTION_H
+#define BCL_INTRUSIVE_CONNECTION_H
+
+#include "Socket.h"
+#include <condition_variable>
+#include <mutex>
+#include <queue>
+#include <sstream>
+#include <thread>
+
+namespace bcl {
+/// Intrusive connection between client and server (look at the file beginning
+/// for details.
+class IntrusiveConnection {
+  struct Status {
+    std::mutex mReceiveMutex, mSendMutex;
+    std::condition_variable mReceiveEvent, mSendEvent;
+    std::string mReceiveData, mSendData;
+    bool mIsReceive = false, mIsSend = false, mClose = false, mReject = false;
+  };
+
+  explicit IntrusiveConnection(Status *I) : mStatus(I) {}
+
+public:
+  /// This response is going to be set if connection is closed but request
+  /// has been received.
+  struct Reject {
+    operator const std::string & () {
+      static const std::string Code = "REJECT";
+      return Code;
+    }
+  };
+
+  IntrusiveConnection(const IntrusiveConnection &) = delete;
+  IntrusiveConnection & operator=(const IntrusiveConnection &) = delete;
+
+  /// Move constructor.
+  IntrusiveConnection(IntrusiveConnection &&C) : mStatus(C.mStatus) {
+    C.mStatus = nullptr;
+  }
+
+  /// Move assignment.
+  IntrusiveConnection & operator=(IntrusiveConnection &&C) {
+    if (this == &C)
+      return *this;
+    mStatus = C.mStatus;
+    C.mStatus = nullptr;
+  }
+
+  /// Destructor.
+  ~IntrusiveConnection() {
+    if (!mStatus)
+      return;
+    // Status may be deleted as soon as the mutex is unlocked, so notify the
+    // receiver before.
+    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+    mStatus->mReject = true;
+    mStatus->mSendEvent.notify_one();
+  }
+
+  /// \brief Receives a request, evaluates it and sends response.
+  ///
+  /// \param [in] F A function with prototype std::string(const std::string &).
+  /// A parameter is a request and a return value is a response.
+  /// \return true on success, otherwise returns false. If this function
+  /// returns false then function 'F' has not been invoked, connection
+  /// is broken and socket is closed.
+  template<class Function> bool answer(Function F) {
+    if (!mStatus)
+      return false;
+    std::string Data;
+    bool Close = false;
+    {
+      std::unique_lock<std::mutex> Lock(mStatus->mReceiveMutex);
+      mStatus->mReceiveEvent.wait(Lock,
+        [this] { return mStatus->mIsReceive || mStatus->mClose; });
+      Close = mStatus->mClose;
+      Data = mStatus->mReceiveData;
+      mStatus->mReceiveData.clear();
+      mStatus->mIsReceive = false;
+    }
+    if (Close) {
+      {
+        // Status may be deleted as soon as the mutex is unlocked, so notify the
+        // receiver before.
+        std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+        mStatus->mReject = true;
+        mStatus->mSendEvent.notify_one();
+      }
+      mStatus = nullptr;
+      return false;
+    }
+    Data = F(Data);
+    {
+      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+      mStatus->mSendData = Data;
+      mStatus->mIsSend = true;
+    }
+    mStatus->mSendEvent.notify_one();
+    return true;
+  }
+
+  /// \brief Starts connection.
+  ///
+  /// \param [in] S Socket which provides connection.
+  /// \param [in] Delimiter This separates different requests.
+  /// \param [in, out] F Implementation of a server with prototype
+  /// void(IntrusiveConnection, ArgsTy...)
+  /// \param [in, out] Args Arguments which will be passed to F when server
+  /// is be started.
+  ///
+  /// Sometimes multiple requests may be joined. If a client send:
+  /// 'foo' then 'bar', the server may receive two different requests 'foo' then
+  /// 'bar' or a single request 'foobar'. To avoid the last case the Delimiter
+  /// parameter can be used.
+  /// For example, if it is known that a client uses '$' to separate different
+  /// requests ('foo$' then 'bar$'), it is possible to set Delimiter parameter
+  /// to '$'. Note that the delimiter also used when server sends responses
+  /// (even for REJECT response), so it will send 'response to foo$' then
+  /// 'response to bar$'. To avoid use of delimiters set Delimiter parameter
+  /// to '\0'.
+  template<class Function, class... ArgsTy>
+  static void connect(const bcl::Socket<std::string> *S,
+      char Delimiter, Function &&F, ArgsTy&&... Args) {
+    auto CS = new Status;
+    std::thread Engine(std::forward<Function>(F),
+      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
+    Engine.detach();
+    auto *Reject = new bool(false);
+    S->closed([Reject, CS](bool) {
+      if (!*Reject) {
+        {
+          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
+          CS->mClose = true;
+        }
+        CS->mReceiveEvent.notify_one();
+        {
+          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
+          CS->mSendEvent.wait(Lock, [CS] { return CS->mReject; });
+        }
+        delete CS;
+      }
+      delete Reject;
+    });
+    // It is not possible to store socket S in connection status CS, because
+    // when CS will be deleted it is necessary to access S to send REJECT
+    // response.
+    S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
+      if (*Reject) {
+        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+        return;
+      }
+      std::queue<std::string> Buffer;
+      std::stringstream IS(Request);
+      std::string Item;
+      while (std::getline(IS, Item, Delimiter) && !IS.eof())
+        Buffer.push(Item);
+      // If there is no delimiter after last not empty string than this
+      // substring will be treated as a separate request.
+      // The last empty substring will be ignored.
+      if (!Item.empty())
+        Buffer.push(Item);
+      while (!Buffer.empty()) {
+        {
+          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
+          CS->mIsReceive = true;
+          CS->mReceiveData = Buffer.front();
+        }
+        CS->mReceiveEvent.notify_one();
+        Buffer.pop();
+        std::string Data;
+        {
+          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
+          CS->mSendEvent.wait(Lock,
+            [CS] { return CS->mIsSend || CS->mReject; });
+          // If CS->mReject is true, it is possible that there are some data,
+          // that have not been sent yet, so check it.
+          Data = CS->mIsSend ? CS->mSendData : IntrusiveConnection::Reject();
+          *Reject = CS->mReject;
+          CS->mSendData.clear();
+          CS->mIsSend = false;;
+        }
+        S->send(Data + Delimiter);
+        if (*Reject) {
+          delete CS;
+          break;
+        }
+      }
+    });
+  }
+
+private:
+  Status *mStatus;
+};
+}
+
+#endif//BCL_INTRUSIVE_CONNECTION_H
-- 
2.43.0


From 879fad5276784cedc9886945d76e3ae4f8e09a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 52/86] fix: keep CRLF line endings of repaired headers

---
 include/bcl/Diagnostic.h          |  460 ++--
 include/bcl/IntrusiveConnection.h |  504 ++--
 include/bcl/Json.h                | 3812 ++++++++++++++---------------
 include/bcl/RedirectIO.h          |  616 ++---
 4 files changed, 2696 insertions(+), 2696 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 8ecbec5..b82b194 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -1,230 +1,230 @@
-//===--- Diagnostic.h --- Simple Diagnostics Container ----------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file implements a simple container for diagnostics (warnings,
-// errors, etc.).
-// All diagnostics are represented as a string: <Kind> C<Code>(<Pos>): <Fmt>,
-// for example: error C101(100): unexpected character 'c'.
-//
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_DIAGNOSTIC_H
-#define BCL_DIAGNOSTIC_H
-
-#include <cstring>
-#include <memory>
-#include <vector>
-
-namespace bcl {
-/// \brief This is a simple container for diagnostics (warnings, errors, etc.).
-///
-/// All diagnostics are represented as a character string.
-class Diagnostic {
-  typedef std::vector<std::unique_ptr<const char[]>> Collection;
-
-public:
-  typedef const char * value_type;
-  typedef value_type reference;
-  typedef const value_type const_reference;
-  typedef value_type * pointer;
-  typedef const value_type * const_pointer;
-
-private:
-  /// Bidirectional iterator which is a wrapper for internal iterator Itr.
-  template<class Itr>  class iterator_wrapper :
-    public std::iterator<
-    std::bidirectional_iterator_tag, value_type, std::ptrdiff_t,
-    const_pointer, const_reference> {
-  public:
-    typedef typename Diagnostic::value_type value_type;
-    typedef typename Diagnostic::const_pointer pointer;
-    typedef typename Diagnostic::const_reference reference;
-
-    iterator_wrapper() = default;
-
-    reference operator*() const { return mCurItr->get(); }
-    pointer operator->() const { return &operator*(); }
-
-    bool operator==(const iterator_wrapper &RHS) const {
-      return mCurItr == RHS.mCurItr;
-    }
-    bool operator!=(const iterator_wrapper &RHS) const {
-      return mCurItr != RHS.mCurItr;
-    }
-
-    iterator_wrapper & operator--() { --mCurItr; return *this; }
-    iterator_wrapper & operator++() { ++mCurItr; return *this; }
-    iterator_wrapper operator--(int) { auto Tmp = *this; --*this; return Tmp; }
-    iterator_wrapper operator++(int) { auto Tmp = *this; ++*this; return Tmp; }
-
-  private:
-    friend Diagnostic;
-    iterator_wrapper(const Itr &I) : mCurItr(I) {}
-
-    Itr mCurItr;
-  };
-
-public:
-  typedef typename Collection::size_type size_type;
-  typedef iterator_wrapper <Collection::const_iterator> iterator;
-  typedef iterator const_iterator;
-  typedef iterator_wrapper<Collection::const_reverse_iterator> reverse_iterator;
-  typedef reverse_iterator const_reverse_iterator;
-
-  /// Constructs container for diagnostics of a specified kind.
-  explicit Diagnostic(const char *Kind) {
-    char *Buf = new char[std::strlen(Kind) + 1];
-    std::strcpy(Buf, Kind);
-    mKind.reset(Buf);
-  }
-
-  /// Returns kind of diagnostics.
-  const char * getKind() const noexcept { return mKind.get(); }
-
-  /// \brief Returns an iterator to the first element of the container.
-  ///
-  /// If the container is empty, the returned iterator will be equal to end().
-  iterator begin() const { return mDiagnostics.begin(); }
-
-  /// \brief Returns an iterator to the element following the last element of
-  /// the container.
-  ///
-  /// This element acts as a placeholder; attempting to access it results in
-  /// undefined behavior.
-  iterator end() const { return mDiagnostics.end(); }
-
-  /// \brief Returns an iterator to the first element of the container.
-  ///
-  /// If the container is empty, the returned iterator will be equal to cend().
-  iterator cbegin() const { return mDiagnostics.begin(); }
-
-  /// \brief Returns an iterator to the element following the last element of
-  /// the container.
-  ///
-  /// This element acts as a placeholder; attempting to access it results in
-  /// undefined behavior.
-  iterator cend() const { return mDiagnostics.end(); }
-
-  /// \brief Returns a reverse iterator to the first element of the reversed
-  /// container.
-  ///
-  /// It corresponds to the last element of the non-reversed container.
-  /// If the container is empty, the returned iterator will be equal to rend().
-  reverse_iterator rbegin() const { return mDiagnostics.rbegin(); }
-
-  /// \brief Returns a reverse iterator to the element following the last
-  /// element of the reversed container.
-  ///
-  /// It corresponds to the element preceding the first element of the
-  /// non-reversed container.
-  /// This element acts as a placeholder; attempting to access it results in
-  /// undefined behavior.
-  reverse_iterator rend() const { return mDiagnostics.rend(); }
-
-  /// \brief Returns a reverse iterator to the first element of the reversed
-  /// container.
-  ///
-  /// It corresponds to the last element of the non-reversed container.
-  /// If the container is empty, the returned iterator will be equal to crend().
-  reverse_iterator crbegin() const { return mDiagnostics.rbegin(); }
-
-  /// \brief Returns a reverse iterator to the element following the last
-  /// element of the reversed container.
-  ///
-  /// It corresponds to the element preceding the first element of the
-  /// non-reversed container.
-  /// This element acts as a placeholder; attempting to access it results in
-  /// undefined behavior.
-  reverse_iterator crend() const { return mDiagnostics.rend(); }
-
-  /// \brief Returns true if the container has no elements.
-  ///
-  /// This does not consider internal errors (see, internal()).
-  bool empty() const { return mDiagnostics.empty(); }
-
-  /// Returns the number of elements in the container.
-  ///
-  /// This does not consider internal errors (see, internal()).
-  size_type size() const { return mDiagnostics.size(); }
-
-  /// Removes all elements from the container including internal errors.
-  void clear() { mDiagnostics.clear(); mInternalError = 0; }
-
-  /// Exchanges the contents of the container with those of other
-  /// including internal errors.
-  void swap(Diagnostic &Other) {
-    mKind.swap(Other.mKind);
-    mDiagnostics.swap(Other.mDiagnostics);
-    std::swap(mInternalError, Other.mInternalError);
-  }
-
-  /// Returns number of internal erros which have been occurred when
-  /// someone try to insert new error in this container.
-  size_type internal_size() const noexcept { return mInternalError; }
-
-  /// \brief Inserts new diagnostic to the container.
-  ///
-  /// \param[in] Code Identifier of a diagnostic.
-  /// \param[in] Fmt Pointer to a null-terminated multibyte string specifying
-  ///  how to interpret the diagnostic description.
-  /// \param[in] Pos Position associated with a diagnostic.
-  /// \param[in] A Number of parameters which is going to replace format
-  /// placeholders in Fmt string.
-  /// \return True if diagnostic has been successfully inserted. In some cases
-  /// some internal errors may prevent diagnostic insertion. When this occurs
-  /// this method returns false and increments internal errors counter
-  /// (see, internal()).
-  ///
-  /// Each diagnostic is represented as a character string:
-  /// <Kind> C<Code>(<Pos>): <Fmt>, Kind may be error, warning, etc.
-  template<class... Args>
-  bool insert(size_type Code, const char *Fmt, uintmax_t Pos, Args... A) {
-    static constexpr const char *PrefixFmt = "%s C%zu(%ju): ";
-    auto PreSize = std::snprintf(nullptr, 0, PrefixFmt, mKind.get(), Code, Pos);
-    auto ErrSize = std::snprintf(nullptr, 0, Fmt, A...);
-    if (PreSize < 0 || ErrSize < 0) {
-      ++mInternalError;
-      return false;
-    }
-    auto Size = PreSize + ErrSize + 1;
-    char *Buf = new char[Size];
-    if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
-        std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
-      delete [] Buf;
-      ++mInternalError;
-      return false;
-    }
-    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
-    return true;
-  }
-private:
-  std::unique_ptr<const char[]> mKind;
-  Collection mDiagnostics;
-  size_type mInternalError = 0;
-};
-}
-
-namespace std {
-/// Specializes the std::swap algorithm for bcl::Diagnostic.
-inline void swap(bcl::Diagnostic &LHS, bcl::Diagnostic &RHS) {
-  LHS.swap(RHS);
-}
-}
-#endif//BCL_DIAGNOSTIC_H
+//===--- Diagnostic.h --- Simple Diagnostics Container ----------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file implements a simple container for diagnostics (warnings,
+// errors, etc.).
+// All diagnostics are represented as a string: <Kind> C<Code>(<Pos>): <Fmt>,
+// for example: error C101(100): unexpected character 'c'.
+//
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_DIAGNOSTIC_H
+#define BCL_DIAGNOSTIC_H
+
+#include <cstring>
+#include <memory>
+#include <vector>
+
+namespace bcl {
+/// \brief This is a simple container for diagnostics (warnings, errors, etc.).
+///
+/// All diagnostics are represented as a character string.
+class Diagnostic {
+  typedef std::vector<std::unique_ptr<const char[]>> Collection;
+
+public:
+  typedef const char * value_type;
+  typedef value_type reference;
+  typedef const value_type const_reference;
+  typedef value_type * pointer;
+  typedef const value_type * const_pointer;
+
+private:
+  /// Bidirectional iterator which is a wrapper for internal iterator Itr.
+  template<class Itr>  class iterator_wrapper :
+    public std::iterator<
+    std::bidirectional_iterator_tag, value_type, std::ptrdiff_t,
+    const_pointer, const_reference> {
+  public:
+    typedef typename Diagnostic::value_type value_type;
+    typedef typename Diagnostic::const_pointer pointer;
+    typedef typename Diagnostic::const_reference reference;
+
+    iterator_wrapper() = default;
+
+    reference operator*() const { return mCurItr->get(); }
+    pointer operator->() const { return &operator*(); }
+
+    bool operator==(const iterator_wrapper &RHS) const {
+      return mCurItr == RHS.mCurItr;
+    }
+    bool operator!=(const iterator_wrapper &RHS) const {
+      return mCurItr != RHS.mCurItr;
+    }
+
+    iterator_wrapper & operator--() { --mCurItr; return *this; }
+    iterator_wrapper & operator++() { ++mCurItr; return *this; }
+    iterator_wrapper operator--(int) { auto Tmp = *this; --*this; return Tmp; }
+    iterator_wrapper operator++(int) { auto Tmp = *this; ++*this; return Tmp; }
+
+  private:
+    friend Diagnostic;
+    iterator_wrapper(const Itr &I) : mCurItr(I) {}
+
+    Itr mCurItr;
+  };
+
+public:
+  typedef typename Collection::size_type size_type;
+  typedef iterator_wrapper <Collection::const_iterator> iterator;
+  typedef iterator const_iterator;
+  typedef iterator_wrapper<Collection::const_reverse_iterator> reverse_iterator;
+  typedef reverse_iterator const_reverse_iterator;
+
+  /// Constructs container for diagnostics of a specified kind.
+  explicit Diagnostic(const char *Kind) {
+    char *Buf = new char[std::strlen(Kind) + 1];
+    std::strcpy(Buf, Kind);
+    mKind.reset(Buf);
+  }
+
+  /// Returns kind of diagnostics.
+  const char * getKind() const noexcept { return mKind.get(); }
+
+  /// \brief Returns an iterator to the first element of the container.
+  ///
+  /// If the container is empty, the returned iterator will be equal to end().
+  iterator begin() const { return mDiagnostics.begin(); }
+
+  /// \brief Returns an iterator to the element following the last element of
+  /// the container.
+  ///
+  /// This element acts as a placeholder; attempting to access it results in
+  /// undefined behavior.
+  iterator end() const { return mDiagnostics.end(); }
+
+  /// \brief Returns an iterator to the first element of the container.
+  ///
+  /// If the container is empty, the returned iterator will be equal to cend().
+  iterator cbegin() const { return mDiagnostics.begin(); }
+
+  /// \brief Returns an iterator to the element following the last element of
+  /// the container.
+  ///
+  /// This element acts as a placeholder; attempting to access it results in
+  /// undefined behavior.
+  iterator cend() const { return mDiagnostics.end(); }
+
+  /// \brief Returns a reverse iterator to the first element of the reversed
+  /// container.
+  ///
+  /// It corresponds to the last element of the non-reversed container.
+  /// If the container is empty, the returned iterator will be equal to rend().
+  reverse_iterator rbegin() const { return mDiagnostics.rbegin(); }
+
+  /// \brief Returns a reverse iterator to the element following the last
+  /// element of the reversed container.
+  ///
+  /// It corresponds to the element preceding the first element of the
+  /// non-reversed container.
+  /// This element acts as a placeholder; attempting to access it results in
+  /// undefined behavior.
+  reverse_iterator rend() const { return mDiagnostics.rend(); }
+
+  /// \brief Returns a reverse iterator to the first element of the reversed
+  /// container.
+  ///
+  /// It corresponds to the last element of the non-reversed container.
+  /// If the container is empty, the returned iterator will be equal to crend().
+  reverse_iterator crbegin() const { return mDiagnostics.rbegin(); }
+
+  /// \brief Returns a reverse iterator to the element following the last
+  /// element of the reversed container.
+  ///
+  /// It corresponds to the element preceding the first element of the
+  /// non-reversed container.
+  /// This element acts as a placeholder; attempting to access it results in
+  /// undefined behavior.
+  reverse_iterator crend() const { return mDiagnostics.rend(); }
+
+  /// \brief Returns true if the container has no elements.
+  ///
+  /// This does not consider internal errors (see, internal()).
+  bool empty() const { return mDiagnostics.empty(); }
+
+  /// Returns the number of elements in the container.
+  ///
+  /// This does not consider internal errors (see, internal()).
+  size_type size() const { return mDiagnostics.size(); }
+
+  /// Removes all elements from the container including internal errors.
+  void clear() { mDiagnostics.clear(); mInternalError = 0; }
+
+  /// Exchanges the contents of the container with those of other
+  /// including internal errors.
+  void swap(Diagnostic &Other) {
+    mKind.swap(Other.mKind);
+    mDiagnostics.swap(Other.mDiagnostics);
+    std::swap(mInternalError, Other.mInternalError);
+  }
+
+  /// Returns number of internal erros which have been occurred when
+  /// someone try to insert new error in this container.
+  size_type internal_size() const noexcept { return mInternalError; }
+
+  /// \brief Inserts new diagnostic to the container.
+  ///
+  /// \param[in] Code Identifier of a diagnostic.
+  /// \param[in] Fmt Pointer to a null-terminated multibyte string specifying
+  ///  how to interpret the diagnostic description.
+  /// \param[in] Pos Position associated with a diagnostic.
+  /// \param[in] A Number of parameters which is going to replace format
+  /// placeholders in Fmt string.
+  /// \return True if diagnostic has been successfully inserted. In some cases
+  /// some internal errors may prevent diagnostic insertion. When this occurs
+  /// this method returns false and increments internal errors counter
+  /// (see, internal()).
+  ///
+  /// Each diagnostic is represented as a character string:
+  /// <Kind> C<Code>(<Pos>): <Fmt>, Kind may be error, warning, etc.
+  template<class... Args>
+  bool insert(size_type Code, const char *Fmt, uintmax_t Pos, Args... A) {
+    static constexpr const char *PrefixFmt = "%s C%zu(%ju): ";
+    auto PreSize = std::snprintf(nullptr, 0, PrefixFmt, mKind.get(), Code, Pos);
+    auto ErrSize = std::snprintf(nullptr, 0, Fmt, A...);
+    if (PreSize < 0 || ErrSize < 0) {
+      ++mInternalError;
+      return false;
+    }
+    auto Size = PreSize + ErrSize + 1;
+    char *Buf = new char[Size];
+    if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
+        std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
+      delete [] Buf;
+      ++mInternalError;
+      return false;
+    }
+    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
+    return true;
+  }
+private:
+  std::unique_ptr<const char[]> mKind;
+  Collection mDiagnostics;
+  size_type mInternalError = 0;
+};
+}
+
+namespace std {
+/// Specializes the std::swap algorithm for bcl::Diagnostic.
+inline void swap(bcl::Diagnostic &LHS, bcl::Diagnostic &RHS) {
+  LHS.swap(RHS);
+}
+}
+#endif//BCL_DIAGNOSTIC_H
diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 9409032..ec0b611 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -1,252 +1,252 @@
-//===- IntrusiveConnection.h -- Intrusive Connection ------------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file proposes intrusive connection between client and server.
-// Connection is intrusive because a server sends data to a client only when
-// it receive a request and a new request can be received only when the
-// previous one has been responded. It looks like this:
-//                          Client           Server
-//                            Request ->
-//                                    <- Response
-//                            Request ->
-//                                    <- Response
-//
-// There are two main functions:
-// - IntrusiveConnection::connect() starts connection;
-// - IntrusiveConnection::answer() answers a request.
-// Note that InstrusiveConnection can not be copied only move operations are
-// supported. This is due to the fact that when InstrusiveConnection is
-// destructed a connection will be automatically closed and all subsequent
-// requests is going to be rejected (client will receive
-// InstrusiveConnection::Reject response).
-//
-// Usage:
-//  void foo(bcl::IntrusiveConnection C) {
-//    do {
-//      C.answer([](const std::string &Request) {
-//         /* Answer a request */
-//      });
-//    } while (/*Exit if any requests are expected.*/);
-//  }
-//
-//  template<>
-//  void bcl::createServer<std::string>(const Socket<std::string> *S) {
-//    IntrusiveConnection::connect(S, '\0', foo);
-//}
-//
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_INTRUSIVE_CONNECTION_H
-#define BCL_INTRUSIVE_CONNECTION_H
-
-#include "Socket.h"
-#include <condition_variable>
-#include <mutex>
-#include <queue>
-#include <sstream>
-#include <thread>
-
-namespace bcl {
-/// Intrusive connection between client and server (look at the file beginning
-/// for details.
-class IntrusiveConnection {
-  struct Status {
-    std::mutex mReceiveMutex, mSendMutex;
-    std::condition_variable mReceiveEvent, mSendEvent;
-    std::string mReceiveData, mSendData;
-    bool mIsReceive = false, mIsSend = false, mClose = false, mReject = false;
-  };
-
-  explicit IntrusiveConnection(Status *I) : mStatus(I) {}
-
-public:
-  /// This response is going to be set if connection is closed but request
-  /// has been received.
-  struct Reject {
-    operator const std::string & () {
-      static const std::string Code = "REJECT";
-      return Code;
-    }
-  };
-
-  IntrusiveConnection(const IntrusiveConnection &) = delete;
-  IntrusiveConnection & operator=(const IntrusiveConnection &) = delete;
-
-  /// Move constructor.
-  IntrusiveConnection(IntrusiveConnection &&C) : mStatus(C.mStatus) {
-    C.mStatus = nullptr;
-  }
-
-  /// Move assignment.
-  IntrusiveConnection & operator=(IntrusiveConnection &&C) {
-    if (this == &C)
-      return *this;
-    mStatus = C.mStatus;
-    C.mStatus = nullptr;
-  }
-
-  /// Destructor.
-  ~IntrusiveConnection() {
-    if (!mStatus)
-      return;
-    // Status may be deleted as soon as the mutex is unlocked, so notify the
-    // receiver before.
-    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-    mStatus->mReject = true;
-    mStatus->mSendEvent.notify_one();
-  }
-
-  /// \brief Receives a request, evaluates it and sends response.
-  ///
-  /// \param [in] F A function with prototype std::string(const std::string &).
-  /// A parameter is a request and a return value is a response.
-  /// \return true on success, otherwise returns false. If this function
-  /// returns false then function 'F' has not been invoked, connection
-  /// is broken and socket is closed.
-  template<class Function> bool answer(Function F) {
-    if (!mStatus)
-      return false;
-    std::string Data;
-    bool Close = false;
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mReceiveMutex);
-      mStatus->mReceiveEvent.wait(Lock,
-        [this] { return mStatus->mIsReceive || mStatus->mClose; });
-      Close = mStatus->mClose;
-      Data = mStatus->mReceiveData;
-      mStatus->mReceiveData.clear();
-      mStatus->mIsReceive = false;
-    }
-    if (Close) {
-      {
-        // Status may be deleted as soon as the mutex is unlocked, so notify the
-        // receiver before.
-        std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-        mStatus->mReject = true;
-        mStatus->mSendEvent.notify_one();
-      }
-      mStatus = nullptr;
-      return false;
-    }
-    Data = F(Data);
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mSendData = Data;
-      mStatus->mIsSend = true;
-    }
-    mStatus->mSendEvent.notify_one();
-    return true;
-  }
-
-  /// \brief Starts connection.
-  ///
-  /// \param [in] S Socket which provides connection.
-  /// \param [in] Delimiter This separates different requests.
-  /// \param [in, out] F Implementation of a server with prototype
-  /// void(IntrusiveConnection, ArgsTy...)
-  /// \param [in, out] Args Arguments which will be passed to F when server
-  /// is be started.
-  ///
-  /// Sometimes multiple requests may be joined. If a client send:
-  /// 'foo' then 'bar', the server may receive two different requests 'foo' then
-  /// 'bar' or a single request 'foobar'. To avoid the last case the Delimiter
-  /// parameter can be used.
-  /// For example, if it is known that a client uses '$' to separate different
-  /// requests ('foo$' then 'bar$'), it is possible to set Delimiter parameter
-  /// to '$'. Note that the delimiter also used when server sends responses
-  /// (even for REJECT response), so it will send 'response to foo$' then
-  /// 'response to bar$'. To avoid use of delimiters set Delimiter parameter
-  /// to '\0'.
-  template<class Function, class... ArgsTy>
-  static void connect(const bcl::Socket<std::string> *S,
-      char Delimiter, Function &&F, ArgsTy&&... Args) {
-    auto CS = new Status;
-    std::thread Engine(std::forward<Function>(F),
-      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
-    Engine.detach();
-    auto *Reject = new bool(false);
-    S->closed([Reject, CS](bool) {
-      if (!*Reject) {
-        {
-          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mClose = true;
-        }
-        CS->mReceiveEvent.notify_one();
-        {
-          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
-          CS->mSendEvent.wait(Lock, [CS] { return CS->mReject; });
-        }
-        delete CS;
-      }
-      delete Reject;
-    });
-    // It is not possible to store socket S in connection status CS, because
-    // when CS will be deleted it is necessary to access S to send REJECT
-    // response.
-    S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
-      std::queue<std::string> Buffer;
-      std::stringstream IS(Request);
-      std::string Item;
-      while (std::getline(IS, Item, Delimiter) && !IS.eof())
-        Buffer.push(Item);
-      // If there is no delimiter after last not empty string than this
-      // substring will be treated as a separate request.
-      // The last empty substring will be ignored.
-      if (!Item.empty())
-        Buffer.push(Item);
-      while (!Buffer.empty()) {
-        {
-          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mIsReceive = true;
-          CS->mReceiveData = Buffer.front();
-        }
-        CS->mReceiveEvent.notify_one();
-        Buffer.pop();
-        std::string Data;
-        {
-          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
-          CS->mSendEvent.wait(Lock,
-            [CS] { return CS->mIsSend || CS->mReject; });
-          // If CS->mReject is true, it is possible that there are some data,
-          // that have not been sent yet, so check it.
-          Data = CS->mIsSend ? CS->mSendData : IntrusiveConnection::Reject();
-          *Reject = CS->mReject;
-          CS->mSendData.clear();
-          CS->mIsSend = false;;
-        }
-        S->send(Data + Delimiter);
-        if (*Reject) {
-          delete CS;
-          break;
-        }
-      }
-    });
-  }
-
-private:
-  Status *mStatus;
-};
-}
-
-#endif//BCL_INTRUSIVE_CONNECTION_H
+//===- IntrusiveConnection.h -- Intrusive Connection ------------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file proposes intrusive connection between client and server.
+// Connection is intrusive because a server sends data to a client only when
+// it receive a request and a new request can be received only when the
+// previous one has been responded. It looks like this:
+//                          Client           Server
+//                            Request ->
+//                                    <- Response
+//                            Request ->
+//                                    <- Response
+//
+// There are two main functions:
+// - IntrusiveConnection::connect() starts connection;
+// - IntrusiveConnection::answer() answers a request.
+// Note that InstrusiveConnection can not be copied only move operations are
+// supported. This is due to the fact that when InstrusiveConnection is
+// destructed a connection will be automatically closed and all subsequent
+// requests is going to be rejected (client will receive
+// InstrusiveConnection::Reject response).
+//
+// Usage:
+//  void foo(bcl::IntrusiveConnection C) {
+//    do {
+//      C.answer([](const std::string &Request) {
+//         /* Answer a request */
+//      });
+//    } while (/*Exit if any requests are expected.*/);
+//  }
+//
+//  template<>
+//  void bcl::createServer<std::string>(const Socket<std::string> *S) {
+//    IntrusiveConnection::connect(S, '\0', foo);
+//}
+//
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_INTRUSIVE_CONNECTION_H
+#define BCL_INTRUSIVE_CONNECTION_H
+
+#include "Socket.h"
+#include <condition_variable>
+#include <mutex>
+#include <queue>
+#include <sstream>
+#include <thread>
+
+namespace bcl {
+/// Intrusive connection between client and server (look at the file beginning
+/// for details.
+class IntrusiveConnection {
+  struct Status {
+    std::mutex mReceiveMutex, mSendMutex;
+    std::condition_variable mReceiveEvent, mSendEvent;
+    std::string mReceiveData, mSendData;
+    bool mIsReceive = false, mIsSend = false, mClose = false, mReject = false;
+  };
+
+  explicit IntrusiveConnection(Status *I) : mStatus(I) {}
+
+public:
+  /// This response is going to be set if connection is closed but request
+  /// has been received.
+  struct Reject {
+    operator const std::string & () {
+      static const std::string Code = "REJECT";
+      return Code;
+    }
+  };
+
+  IntrusiveConnection(const IntrusiveConnection &) = delete;
+  IntrusiveConnection & operator=(const IntrusiveConnection &) = delete;
+
+  /// Move constructor.
+  IntrusiveConnection(IntrusiveConnection &&C) : mStatus(C.mStatus) {
+    C.mStatus = nullptr;
+  }
+
+  /// Move assignment.
+  IntrusiveConnection & operator=(IntrusiveConnection &&C) {
+    if (this == &C)
+      return *this;
+    mStatus = C.mStatus;
+    C.mStatus = nullptr;
+  }
+
+  /// Destructor.
+  ~IntrusiveConnection() {
+    if (!mStatus)
+      return;
+    // Status may be deleted as soon as the mutex is unlocked, so notify the
+    // receiver before.
+    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+    mStatus->mReject = true;
+    mStatus->mSendEvent.notify_one();
+  }
+
+  /// \brief Receives a request, evaluates it and sends response.
+  ///
+  /// \param [in] F A function with prototype std::string(const std::string &).
+  /// A parameter is a request and a return value is a response.
+  /// \return true on success, otherwise returns false. If this function
+  /// returns false then function 'F' has not been invoked, connection
+  /// is broken and socket is closed.
+  template<class Function> bool answer(Function F) {
+    if (!mStatus)
+      return false;
+    std::string Data;
+    bool Close = false;
+    {
+      std::unique_lock<std::mutex> Lock(mStatus->mReceiveMutex);
+      mStatus->mReceiveEvent.wait(Lock,
+        [this] { return mStatus->mIsReceive || mStatus->mClose; });
+      Close = mStatus->mClose;
+      Data = mStatus->mReceiveData;
+      mStatus->mReceiveData.clear();
+      mStatus->mIsReceive = false;
+    }
+    if (Close) {
+      {
+        // Status may be deleted as soon as the mutex is unlocked, so notify the
+        // receiver before.
+        std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+        mStatus->mReject = true;
+        mStatus->mSendEvent.notify_one();
+      }
+      mStatus = nullptr;
+      return false;
+    }
+    Data = F(Data);
+    {
+      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+      mStatus->mSendData = Data;
+      mStatus->mIsSend = true;
+    }
+    mStatus->mSendEvent.notify_one();
+    return true;
+  }
+
+  /// \brief Starts connection.
+  ///
+  /// \param [in] S Socket which provides connection.
+  /// \param [in] Delimiter This separates different requests.
+  /// \param [in, out] F Implementation of a server with prototype
+  /// void(IntrusiveConnection, ArgsTy...)
+  /// \param [in, out] Args Arguments which will be passed to F when server
+  /// is be started.
+  ///
+  /// Sometimes multiple requests may be joined. If a client send:
+  /// 'foo' then 'bar', the server may receive two different requests 'foo' then
+  /// 'bar' or a single request 'foobar'. To avoid the last case the Delimiter
+  /// parameter can be used.
+  /// For example, if it is known that a client uses '$' to separate different
+  /// requests ('foo$' then 'bar$'), it is possible to set Delimiter parameter
+  /// to '$'. Note that the delimiter also used when server sends responses
+  /// (even for REJECT response), so it will send 'response to foo$' then
+  /// 'response to bar$'. To avoid use of delimiters set Delimiter parameter
+  /// to '\0'.
+  template<class Function, class... ArgsTy>
+  static void connect(const bcl::Socket<std::string> *S,
+      char Delimiter, Function &&F, ArgsTy&&... Args) {
+    auto CS = new Status;
+    std::thread Engine(std::forward<Function>(F),
+      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
+    Engine.detach();
+    auto *Reject = new bool(false);
+    S->closed([Reject, CS](bool) {
+      if (!*Reject) {
+        {
+          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
+          CS->mClose = true;
+        }
+        CS->mReceiveEvent.notify_one();
+        {
+          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
+          CS->mSendEvent.wait(Lock, [CS] { return CS->mReject; });
+        }
+        delete CS;
+      }
+      delete Reject;
+    });
+    // It is not possible to store socket S in connection status CS, because
+    // when CS will be deleted it is necessary to access S to send REJECT
+    // response.
+    S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
+      if (*Reject) {
+        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+        return;
+      }
+      std::queue<std::string> Buffer;
+      std::stringstream IS(Request);
+      std::string Item;
+      while (std::getline(IS, Item, Delimiter) && !IS.eof())
+        Buffer.push(Item);
+      // If there is no delimiter after last not empty string than this
+      // substring will be treated as a separate request.
+      // The last empty substring will be ignored.
+      if (!Item.empty())
+        Buffer.push(Item);
+      while (!Buffer.empty()) {
+        {
+          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
+          CS->mIsReceive = true;
+          CS->mReceiveData = Buffer.front();
+        }
+        CS->mReceiveEvent.notify_one();
+        Buffer.pop();
+        std::string Data;
+        {
+          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
+          CS->mSendEvent.wait(Lock,
+            [CS] { return CS->mIsSend || CS->mReject; });
+          // If CS->mReject is true, it is possible that there are some data,
+          // that have not been sent yet, so check it.
+          Data = CS->mIsSend ? CS->mSendData : IntrusiveConnection::Reject();
+          *Reject = CS->mReject;
+          CS->mSendData.clear();
+          CS->mIsSend = false;;
+        }
+        S->send(Data + Delimiter);
+        if (*Reject) {
+          delete CS;
+          break;
+        }
+      }
+    });
+  }
+
+private:
+  Status *mStatus;
+};
+}
+
+#endif//BCL_INTRUSIVE_CONNECTION_H
diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index c1d3fae..6b14977 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1,1906 +1,1906 @@
-//===--- Json.h ------------- JSON String Serializer ------------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file implements functionality to parse string contains data in JSON
-// format and convert this string to an appropriate high-level representation.
-// Let us call this string JSON string and appropriate high-level
-// representation JSON object. Backward conversion is also supported. That
-// means that JSON object can be unparsed to a JSON string.
-//
-// The main functionality is available from json::Parser class. Different types
-// are supported, for example, scalar types (int, long, float, etc.),
-// character strings (char *, std::string), arrays (Ty *), some classes
-// (bcl::Diagnostic) and other.
-//
-// Some special supported type is bcl::StaticMap. To convert some JSON string
-// to this type it is necessary to declare appropriate type previously.
-//
-// If JSON objects have special static method name which returns an identifier
-// of each object in a string format and if this identifier is used in
-// JSON string, the json::Parser<...>::parse() method can determine an
-// appropriate JSON object in objects specified as a parameters for Parser
-// template. This method returns json::Object. Note that to make available this
-// search JSON objects should inherit json::Object.
-//
-// To implement conversions for other types or separate cells in bcl::StaticMap
-// it is possible to specialize json::Traits and json::CellTraits
-// templates. If there is not built-in static method name() in a cell in some
-// bcl::StaticMap it is possible to implement it in json::CellTraits
-// specialization.
-//
-// If some errors occurred conversion methods should implement garbage
-// collection.
-//
-// To build JSON string for a JSON object json::Parser<...>::unparse() method
-// can be used. Note that parse() treats pointer as array or scalar depending
-// on the to context but unparse() treats pointer always as an array, except
-// pointers to char (char *). This is due to there is no any way to determine
-// size of array.
-//
-//===----------------------------------------------------------------------===//
-//
-// Now let us see some usage example.
-//
-// 1. The simplest example is:
-// \code
-//   json::Parser<> P(R"j({"0":1, "1":2})j");
-//   int * Array;
-//   P.parse(Array);
-//   for (int I = 0; I < 2; ++I)
-//     std::cout << Array[I] << ' ';
-// \endcode
-// An output is: 1 2.
-//
-// 2. The following code is parsed JSON string "{\"Name\": "Jon", \"Age\": 1}"
-// and prints it to STDOUT. Use Human Obj; Obj[Human::Name] to access a name.
-// \code
-//   JSON_OBJECT_BEGIN(Human)
-//   JSON_OBJECT_PAIR_2(Human, Name, std::string, Age, unsigned)
-//   JSON_OBJECT_END(Human)
-//   JSON_DEFAULT_TRAITS(::, Human)
-//
-//   json::Parser<> P(R"j({"Name": "Jon", "Age": 1})j");
-//   Human O;
-//   if (P.parse<Human>(O)) {
-//     std::cout << O[Human::Name] << ":" << O[Human::Age] << std::endl;
-//
-// 3. If JSON string contains identifier a parse can determine how to parse
-// a specified string. Identifier is a pair of "name" and a value,
-// for example "Human" in a JSON string.
-// \code
-//   JSON_OBJECT_BEGIN(Human)
-//   JSON_OBJECT_ROOT_PAIR_2(Human, Name, std::string, Age, unsigned)
-//     Human() : JSON_INIT_ROOT {}
-//   JSON_OBJECT_END(Human)
-//   JSON_DEFAULT_TRAITS(::, Human)
-//
-//   JSON_OBJECT_BEGIN(Dog)
-//   JSON_OBJECT_ROOT_PAIR(Dog, Name, std::string)
-//   JSON_OBJECT_END(Dog)
-//   JSON_DEFAULT_TRAITS(::, Dog)
-//
-//   json::Parser<Humna, Dog> P(R"j({"name": "Human", "Name": "Jon", "Age": 1})j");
-//   auto O = P.parse();
-//   if (O && O.is<Human>()) {
-//     Human &OH = O->as<Humna>();
-//     std::cout << OH[Human::Name] << OH[Human::Age] << std::endl;
-//   }
-// \endcode
-// Note, that JSON_OBJECT_ROOT_PAIR should be used instead of JSON_OBJECT_PAIR.
-// It is also necessary to add at least default constructor and use
-// JSON_INIT_ROOT in constructor definition.
-//
-// 4. It is also possible to add other constructors and typedefs for value types
-// and define an object in a namespace:
-// \code
-// namespace People {
-//   JSON_OBJECT_BEGIN(Human)
-//   JSON_OBJECT_ROOT_PAIR_2(Human, Name, Age)
-//     Human(const std::string &N, unsigned A) :
-//       JSON_INIT(Human, N, A), JSON_INIT_ROOT {}
-//     using NameTy = JSON_VALUE_TYPE(Human, Name);
-//     using AgeTy = JSON_VALUE_TYPE(Human, Age);
-//   JSON_OBJECT_END(::, Human)
-// }
-// JSON_DEFAULT_TRAITS(People::, Human)
-// \endcode
-//
-// 5. If there were errors while a string has been parsed it is possible to
-// investigate these errors.
-// \code
-//   if (!P.parse<Human>(O)) {
-//     for (auto &Err : P.errors())
-//       std::cerr << Err << "\n";
-//     if (P.errors().internal_size() > 0)
-//       std::cerr << "json error: " << P.errors().internal_size() <<
-//       " internal errors\n";
-//   }
-// 6. To unparse JSON object O use the following code:
-// \code
-//   // Do not add identifier ("name": "Human") to the result.
-//   // This works in case of sub-object (JSON_OBJECT_PAIR was used instead of
-//   // JSON_OBJECT_ROOT_PAIR) and in case of top-level objects.
-//   Human O;
-//   json::Parser<Human>::unparse(O);
-//
-//   // Add identifier to the result. This works only in case of top-level
-//   // objects.
-//   Human O;
-//   json::Parser<Human>::unparseAsObject(O);
-//
-//   // Add identifier to the result. This works only in case of top-level
-//   // objects.
-//   Human OH;
-//   Object &O = OH;
-//   Parser<Human>::unparse(O);
-// \endcode
-//
-// 7. If you want to have more opportunities to customize JSON-object definition
-// it is possible to define new object in the following way:
-// \code
-//   // Let us begin description of a JSON-object 'Human' in a global namespace.
-//   JSON_OBJECT_BEGIN(Human)
-//     // The object contains two name-value pairs which represents human name
-//     // and its age. Here we specify type of a value in each pair.
-//     JSON_VALUE(Name, std::string)
-//     JSON_VALUE(Age, unsigned)
-//
-//     // Now, we specify list of all name-value pairs which should be stored
-//     // in JSON. We use JSON_OBJECT_ROOT to indicate that the current object
-//     // is top-level object. If we want to use this object as a sub-object
-//     // only we can use JSON_OBJECT instead.
-//     JSON_OBJECT_ROOT(Human, Name, Age)
-//
-//     // Now, we specify name-value pairs which can be accessed in C++ code in
-//     // the following way Obj[Human::Name] where 'Obj' has type 'Human'.
-//     JSON_ACCESS(Human, Name)
-//     JSON_ACCESS(Human, Age)
-//
-//     // Arbitrary C++ code can be written here. It becomes a part of
-//     // the Human class. For example, it is possible to add constructor.
-//     // Attention, JSON_INIT_ROOT must be always used in case of
-//     // top-level objects! It is necessary to use it in any constructors
-//     // of a top-level objects (including default).
-//     // So, top-level object can not have an implicit default constructor.
-//     // Hence, a simplest way to define constructor of a top-level object is
-//     // 'Human() : JSON_INIT_ROOT {}'.
-//     // Attention, do not use JSON_INIT_ROOT in case of sub-objects!
-//     Human(const std::string &N, unsigned A) :
-//       JSON_INIT(N, A), JSON_INIT_ROOT {}
-//
-//     // It is also possible to use type of a value in a name-value pair.
-//     using NameTy = JSON_VALUE_TYPE(Human, Name);
-//     using AgeTy = JSON_VALUE_TYPE(Human, Age);
-//
-//   // Here, we finalize description of objects.
-//   JSON_OBJECT_END(Human)
-//   // An finally, it is necessary to describe how the object should be
-//   // parsed/unparsed. Here we use default capabilities, however, it could be
-//   // also customized manually.
-//   JSON_DEFAULT_TRAITS(::, Human)
-// \endcode
-//
-// 8. It is also possible to define JSON-object manually.
-// \code
-//   namespace detail {
-//   struct ExampleObject {
-//     struct Text {
-//       static inline const std::string & name() {
-//         static const std::string N("Text");
-//         return N;
-//       }
-//       using ValueType = const char *;
-//     };
-//   };
-//   }
-//   struct ExampleObject : public bcl::StaticMap<detail::ExampleObject::Text> {
-//     static constexpr detail::ExampleObject::Text Text =
-//       detail::ExampleObject::Text();
-//   };
-//   template<> struct json::Traits<ExampleObject> :
-//     public json::Traits<bcl::StaticMap<::detail::ExampleObject::Text>> {};
-// \endcode
-// The previous code defines some JSON object ExmpaleObject with a single field
-// Text.
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_JSON_H
-#define BCL_JSON_H
-
-#include "cell.h"
-#include "Diagnostic.h"
-#include "utility.h"
-#include <cctype>
-#include <map>
-#include <memory>
-#include <optional>
-#include <set>
-#include <stack>
-#include <string>
-#include <string_view>
-#include <tuple>
-#include <vector>
-
-#define JSON_ERROR_1 "unexpected end of string"
-#define JSON_ERROR_2 "unexpected character '%c' expected '%c'"
-#define JSON_ERROR_3 "unknown json string, identifier '%s' is not found"
-#define JSON_ERROR_4 "unexpected character '%c' identifier expected"
-#define JSON_ERROR_5 "unexpected character '%c' identifier, number or keyword expected"
-#define JSON_ERROR_6 "value conversion error"
-#define JSON_ERROR_7 "uninitialized elements in array"
-#define JSON_ERROR_8 "target object type does not support duplicate of keys"
-#define JSON_ERROR_9 "illegal value"
-#define JSON_ERROR(C) C, JSON_ERROR_##C
-
-#define JSON_OBJECT_BEGIN(Object_) \
-namespace json_ { struct Object_##Impl {
-
-/// Provides static name() method which.
-#define JSON_NAME(Name) \
-static inline const std::string & \
-name() { static const std::string N(#Name); return N;}
-
-///\brief Specifies a way to access a value of a JSON name-value pari.
-///
-/// Usage example:
-///   Object_ Val;
-///   Val[Object_::Name__] = ...
-#define JSON_ACCESS(Object_, Name_) \
-static constexpr json_::Object_##Impl::Name_ Name_ \
-= json_::Object_##Impl::Name_();
-
-/// Specifies a JSON name-value pair. Instead of a concrete value its type should
-/// be specified.
-#define JSON_VALUE(Name_, Type_) \
-struct Name_ { JSON_NAME(Name_) using ValueType = Type_; };
-
-/// Defines structure of a sub-object.
-#define JSON_OBJECT(Object_, ...) \
-  using Base = bcl::StaticMap<__VA_ARGS__>; }; } \
-struct Object_ : public json_::Object_##Impl::Base {
-
-/// Defines structure of a top-level object.
-#define JSON_OBJECT_ROOT(Object_, ...) \
-  using Base = bcl::StaticMap<__VA_ARGS__>; }; } \
-struct Object_ : \
-  public json_::Object_##Impl::Base, public ::json::Object { \
-  JSON_NAME(Object_)
-
-/// Initializes object with a list of values.
-#define JSON_INIT(Object_, ...) json_::Object_##Impl::Base(__VA_ARGS__)
-
-/// Initializes top-level object.
-#define JSON_INIT_ROOT ::json::Object(name())
-
-/// Type of a value with name Name_ in a name-value pair inside object Object_.
-#define JSON_VALUE_TYPE(Object_, Name_) \
-json_::Object_##Impl::Name_::ValueType
-
-/// Ends description of JSON-object.
-#define JSON_OBJECT_END(Object_) };
-
-/// Specifies that a JSON-object should be parsed/unparsed in a default way.
-#define JSON_DEFAULT_TRAITS(namespace_, Object_) \
-namespace json { \
-template<> struct Traits<namespace_ Object_> : \
-  public Traits<namespace_ json_::Object_##Impl::Base> {}; \
-}
-
-namespace json {
-/// This is a base class for all JSON objects which can be obtained when
-/// a string represented JSON is parsed.
-///
-/// \attention All JSON objects must inherit this class and implement a static
-/// method `static ObjectName name()`.
-class Object {
-public:
-  /// Identifier of an object.
-  typedef std::string ObjectName;
-
-  /// Default constructor.
-  explicit Object(const ObjectName &Name) : mName(Name) {}
-
-  /// Virtual destructor.
-  virtual ~Object() {}
-
-  Object(const Object &) = default;
-  Object & operator=(const Object &) = default;
-  Object(Object &&) = default;
-  Object & operator=(Object &&) = default;
-
-  /// Returns identifier of an object.
-  const ObjectName & getName() const noexcept { return mName; }
-
-  /// Returns true if this object has a specified type Ty.
-  template<class Ty> bool is() const { return Ty::name() == mName; }
-
-  /// \brief Casts object to a specified type.
-  ///
-  /// \pre This object must have a specified type, otherwise behavior
-  /// is undefined.
-  template<class Ty> Ty & as() { return static_cast<Ty &>(*this); }
-
-  /// \brief Casts object to a specified type.
-  ///
-  /// \pre This object must have a specified type, otherwise behavior
-  /// is undefined.
-  template<class Ty> const Ty & as() const {
-    return static_cast<const Ty &>(*this);
-  }
-private:
-  ObjectName mName;
-};
-
-/// Type of tokens which may occur in a JSON string.
-enum class Token : char {
-  LEFT_BRACKET = '[',
-  RIGHT_BRACKET = ']',
-  LEFT_BRACE = '{',
-  RIGHT_BRACE = '}',
-  COMMA = ',',
-  COLON = ':',
-  QUOTE = '"',
-  ESCAPE = '\\',
-  DOT = '.',
-  PLUS = '+',
-  MINUS = '-',
-  NUMBER = 'n',
-  IDENTIFIER = 'i',
-  KEYWORD = 'k',
-  INVALID = '\0',
-};
-
-/// List of keywords which may occur in a JSON string.
-enum class Keyword : uint8_t {
-  TRUE = 0,
-  FALSE,
-  NO_VALUE,
-};
-
-/// List of keywords which may occur in a JSON string.
-const char *const KeywordTable[] = {"true", "false", "null"};
-
-inline std::string_view toString(Keyword K) noexcept {
-  assert(0 <= static_cast<std::underlying_type_t<Keyword>>(K) &&
-         static_cast<std::underlying_type_t<Keyword>>(K) <
-             sizeof KeywordTable / sizeof KeywordTable[0] &&
-         "Unknown keyword!");
-  return KeywordTable[static_cast<std::underlying_type_t<Keyword>>(K)];
-}
-
-/// Representation of a JSON string.
-typedef std::string String;
-
-/// Position in a JSON string.
-typedef std::string::size_type Position;
-
-/// This is a lexer for a JSON string.
-class Lexer: private bcl::Uncopyable {
-  /// Checks whether a specified character Ch is a quote.
-  static inline bool isQuote(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::QUOTE);
-  }
-
-  /// Checks whether a specified character Ch is escape ('\').
-  static inline bool isEscape(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::ESCAPE);
-  }
-
-  /// Checks whether a specified character Ch is dot.
-  static inline bool isDot(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::DOT);
-  }
-
-  /// Checks whether a specified character Ch identifies a sign of a number.
-  static inline bool isSign(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::MINUS) ||
-      Ch == static_cast<char>(Token::PLUS);
-  }
-
-  /// Checks whether a specified character Ch is a left brace.
-  static inline bool isLeftBrace(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::LEFT_BRACE);
-  }
-
-  /// Checks whether a specified character Ch is a right brace.
-  static inline bool isRightBrace(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::RIGHT_BRACE);
-  }
-
-  /// Checks whether a specified character Ch is a left bracket.
-  static inline bool isLeftBracket(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::LEFT_BRACKET);
-  }
-
-  /// Checks whether a specified character Ch is a right bracket.
-  static inline bool isRightBracket(char Ch) noexcept {
-    return Ch == static_cast<char>(Token::RIGHT_BRACKET);
-  }
-
-  /// State of a lexer.
-  struct State {
-    State(Position S, Position E, Position N, Token T, bool IsInt) :
-      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt) {}
-
-    Position mStart = 0;
-    Position mEnd = 0;
-    Position mNext = 0;
-    Token mToken;
-    bool mIsIntegral = false;
-  };
-
-public:
-  /// Constructs a lexer for a specified JSON string.
-  explicit Lexer(const String &JSON) : mJSON(JSON), mErrors("json error") {}
-
-  /// Goes to a next token in a JSON string.
-  ///
-  /// The token is represented by characters in a range [start(), end()].
-  /// To access a character following the token use next().
-  /// \return `true` if JSON string has been successfully traversed. If errors
-  /// have been occurred they will be stored in errors() container and this
-  /// returns `false`.
-  bool goToNext() {
-    for (; mNext < mJSON.size() && std::isspace(mJSON[mNext]); ++mNext);
-    mToken = Token::INVALID;
-    if (mNext >= mJSON.size()) {
-      mErrors.insert(JSON_ERROR(1), mNext);
-      mStart = mEnd = mNext = mJSON.size();
-      return false;
-    }
-    mStart = mEnd = mNext;
-    if (isQuote(mJSON[mNext])) {
-      for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (isEscape(mJSON[mNext])) {
-          ++mNext;
-        } else if (isQuote(mJSON[mNext])) {
-          mEnd = mNext++;
-          mToken = Token::IDENTIFIER;
-          return true;
-        }
-      }
-      mErrors.insert(JSON_ERROR(1), mStart);
-      mStart = mEnd = mNext = mJSON.size();
-      return false;
-    } else if (std::isdigit(mJSON[mNext]) || isSign(mJSON[mNext])) {
-      mToken = Token::NUMBER;
-      mIsIntegral = true;
-      for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (std::isdigit(mJSON[mNext]))
-          continue;
-        if (isDot(mJSON[mNext])) {
-          if (!mIsIntegral)
-            break;
-          mIsIntegral = false;
-        } else {
-          break;
-        }
-      }
-      mNext = mNext < mJSON.size() ? mNext : mJSON.size();
-      mEnd = mNext - 1;
-      return true;
-    } else if (std::isalpha(mJSON[mNext])) {
-      if (auto K{[this](std::string_view S) {
-            for (std::size_t I = 0,
-                             EI = sizeof KeywordTable / sizeof KeywordTable[0];
-                 I < EI; ++I) {
-              std::string_view Current{KeywordTable[I]};
-              if (S.substr(0, Current.size()) == Current) {
-                mNext = mStart + Current.size();
-                mEnd = mNext - 1;
-                mToken = Token::KEYWORD;
-                mKeyword = static_cast<Keyword>(I);
-                return true;
-              }
-            }
-            return false;
-          }(mJSON.data() + mNext)})
-        return true;
-    }
-    mEnd = mNext;
-    mToken = static_cast<Token>(mJSON[mStart]);
-    if (is(Token::NUMBER) || is(Token::IDENTIFIER) || is(Token::KEYWORD))
-      mToken = Token::INVALID;
-    ++mNext;
-    return true;
-  }
-
-  /// \brief Checks that current token is a special character Ch.
-  ///
-  /// \return If a current token is not a special character Ch this method
-  /// returns false and add appropriate error in the errors collection.
-  bool checkSpecial(Token Ch) {
-    if (is(Ch))
-      return true;
-    mErrors.insert(JSON_ERROR(2), mStart, mJSON[mStart], Ch);
-    return false;
-  }
-
-  /// \brief Checks that current token is an identifier.
-  ///
-  /// \return If a current token is not an identifier this method
-  /// returns false and add appropriate error in the errors collection.
-  bool checkIdentifier() {
-    if (is(Token::IDENTIFIER))
-      return true;
-    mErrors.insert(JSON_ERROR(4), mStart, mJSON[mStart]);
-    return false;
-  }
-
-  /// \brief Checks that current token is an identifier, a number or a keywrod
-  /// ('true', 'false', 'null').
-  ///
-  ///
-  /// \return If a current token is not an identifier and a number this method
-  /// returns false and add appropriate error in the errors collection.
-  bool checkValue() {
-    if (is(Token::IDENTIFIER) || is(Token::NUMBER) ||
-        isKeyword(Keyword::TRUE) || isKeyword(Keyword::FALSE) ||
-        isKeyword(Keyword::NO_VALUE))
-      return true;
-    mErrors.insert(JSON_ERROR(5), mStart, mJSON[mStart]);
-    return false;
-  }
-
-  /// Skips all characters in a JSON string between braces or brackets,
-  /// return false if some errors have been occurred.
-  bool skipInternal() {
-    Token Last;
-    if (is(Token::LEFT_BRACKET))
-      Last = Token::RIGHT_BRACKET;
-    else if (checkSpecial(Token::LEFT_BRACE))
-      Last = Token::RIGHT_BRACE;
-    else
-      return false;
-    int Level = 0;
-    while (goToNext()) {
-      if ((isRightBrace(mJSON[mStart]) || isRightBracket(mJSON[mStart])) &&
-          Level-- == 0)
-        return checkSpecial(Last);
-      if (isLeftBrace(mJSON[mStart]) || isLeftBracket(mJSON[mStart]))
-        ++Level;
-    }
-    return false;
-  }
-
-  /// Resets current lexer position.
-  void resetPosition() noexcept {
-    mStart = mEnd = mNext = 0;
-    mToken = Token::INVALID;
-  }
-
-  /// Sets lexer position and parses the first token at the new position.
-  void setPosition(Position Start) {
-    mStart = mEnd = mNext = Start;
-    mToken = Token::INVALID;
-    goToNext();
-  }
-
-  /// Saves the current position in an internal stack, it can be restored with
-  /// restorePosition() method.
-  void storePosition() {
-    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral));
-  }
-
-  /// Restores the last stored position. If there is no stored positions do
-  /// nothing.
-  void restorePosition() {
-    if (mStates.empty())
-      return;
-    mStart = mStates.top().mStart;
-    mEnd = mStates.top().mEnd;
-    mNext = mStates.top().mNext;
-    mToken = mStates.top().mToken;
-    mIsIntegral = mStates.top().mIsIntegral;
-  }
-
-  /// \brief Returns start position of a current token in the JSON string.
-  Position start() const noexcept { return mStart; }
-
-  /// \brief Returns end position of a current token in the JSON string.
-  Position end() const noexcept { return mEnd; }
-
-  /// Returns position of a character following a current token in the
-  // JSON string.
-  Position next() const noexcept { return mNext; }
-
-  /// Returns true if a current token is equal to a specified one.
-  bool is(Token Token) const noexcept { return mToken == Token; }
-
-  /// Returns true if a current token is an integral number.
-  bool isIntegral() const noexcept {
-    return mToken == Token::NUMBER && mIsIntegral;
-  }
-
-  /// Returns true if a current token is an floating point number.
-  bool isFloatingPoint() const noexcept {
-    return mToken == Token::NUMBER && !mIsIntegral;
-  }
-
-  /// Return true if a current token is a specified keyword.
-  bool isKeyword(Keyword K) const noexcept {
-    return is(Token::KEYWORD) && mKeyword == K;
-  }
-
-  /// Returns container of errors.
-  bcl::Diagnostic & errors() noexcept { return mErrors; }
-
-  /// Returns container of errors.
-  const bcl::Diagnostic & errors() const noexcept { return mErrors; }
-
-  /// Returns true if errors have been occurred, internal errors are
-  /// also considered.
-  bool hasErrors() const {
-    return !errors().empty() || errors().internal_size() > 0;
-  }
-
-  /// Discards limiting quotes of the current token, if it is an identifier, or
-  /// does nothing.
-  std::pair<Position, Position> discardQuote() const noexcept {
-    return is(Token::IDENTIFIER) ?
-      std::make_pair(start() + 1, end() - 1) :
-      std::make_pair(start(), end());
-  }
-
-  /// Returns a JSON string.
-  const String & json() const noexcept { return mJSON; }
-
-private:
-  String mJSON;
-  bcl::Diagnostic mErrors;
-  Position mStart = 0;
-  Position mEnd = 0;
-  Position mNext = 0;
-  Token mToken;
-  bool mIsIntegral = false;
-  Keyword mKeyword = Keyword::NO_VALUE;
-  std::stack<State> mStates;
-};
-
-/// \brief This implements methods to convert value in a JSON string to
-/// specified type and to assign it to a specified destination.
-///
-/// This class should be specialized by different types. There are some
-/// default specialization for simple types for other types conversion
-/// must be specialized manually.
-///
-///
-/// The following static methods should be implemented:
-/// - static bool parse(Ty &, Lexer &) -
-///     Converts value from a JSON string to a type Ty and stores it
-///     in to a specified destination.
-///     Lexer parameter points to the first value token.
-///     This returns true on success.
-/// - static bool parse(Ty &, Lexer &, std::pair<Position, Position>) -
-///     Converts value from a JSON string to a type Ty and stores it
-///     in to a specified destination.
-///     Lexer parameter points to the first value token.
-///     If value is represented as a map {...} then the last parameter is
-///     a position of a value key in a JSON string
-///     (first and end character is quotes). In case of arrays [] the last
-///     parameter is a pair of (0, number), where number is a number of
-///     currently evaluated element of the array.
-///     This returns true on success.
-/// - static void unparse(String &JSON, const Ty &) -
-///     Converts value to string and stores it ina JSON string.
-///
-/// This last parse method is necessary to evaluate compound types, i.e. types
-/// with values represented as {"K1":V1, ..., "KN":VN} or [V1, ..., VN].
-/// The following implementation is recommended. The parse(Ty &, Lexer &) method
-/// will be invoked to convert compound value to Ty and store it in to the
-/// destination specified by the first parameter. In case of compound type this
-/// method invokes Parser<>::traverse() method to traverses all pair "KI":VI
-/// (or only VI in case of arrays) and invokes for each pair the method
-/// parse(Ty *, Lexer &, std::pair<Position, Position>).
-/// The last parameter will be a position of "KI" or a number of currently
-/// evaluated element of array.
-template<class Ty> struct Traits {
-  typedef typename Ty::UnknownTraitsError ValueType;
-};
-
-/// \brief This implements methods to convert value in a JSON string to
-/// specified cell in a static map.
-///
-/// This class can be specialized by different keys in a static map.
-/// By default this uses implementation of Traits for a type of
-/// data stored in a cell. Note that some specialization can traverse
-/// tokens in a JSON string. For example, see specialization for pointers or
-/// bcl::StaticMap.
-template<class CellKey> struct CellTraits {
-  typedef typename CellKey::ValueType ValueType;
-  inline static bool parse(ValueType &Dest, Lexer &Lex)
-      noexcept(
-        noexcept(Traits<ValueType>::parse(Dest, Lex))) {
-    return Traits<ValueType>::parse(Dest, Lex);
-  }
-  inline static void unparse(String &JSON, const ValueType &Obj)
-      noexcept(
-        noexcept(Traits<ValueType>::unparse(JSON, Obj))) {
-    Traits<ValueType>::unparse(JSON, Obj);
-  }
-  inline static typename std::result_of<
-    decltype(&CellKey::name)()>::type name()
-      noexcept(noexcept(CellKey::name())) {
-    return CellKey::name();
-  }
-};
-
-/// \brief This class parses a string which represents JSON and converts it to
-/// an appropriate representation.
-///
-/// \tparam Objects List of JSON objects supported by parser. Each object
-/// should inherited bcl::StaticMap and json::Object.
-template<class... Objects> class Parser {
-  /// List of supported JSON objects.
-  typedef bcl::TypeList<Objects...> ObjectTypeList;
-
-  /// \brief This parses a specified JSON string and converts it to
-  /// a specified type.
-  ///
-  /// There are two ways to use this functor. If a target type is known it is
-  /// possible to use static method parse(), otherwise this functor can be
-  /// passed to a bcl::TypeList::for_each() method. In the last case
-  /// bcl::TypeList should comprise different target types and appropriate type
-  /// will be determined by name. Note that in this case all target type must
-  /// propose a static `Object::ObjectName name()` method.
-  class ParseFunctor {
-  public:
-    /// Converts JSON string to a specified Ty.
-    template<class Ty> static bool parse(Ty &Obj, Lexer &Lex) {
-      Lex.resetPosition();
-      Lex.goToNext();
-      if (!Traits<Ty>::parse(Obj, Lex)) {
-        Lex.errors().insert(JSON_ERROR(6), Lex.start());
-        return false;
-      }
-      if (Lex.json().find_first_not_of(" \t\n\v\f\r", Lex.next()) !=
-          String::npos) {
-        Lex.goToNext();
-        if (Lex.checkSpecial(Token::COMMA))
-          Lex.errors().insert(JSON_ERROR(6), Lex.start());
-        return false;
-      }
-      return true;
-    }
-
-    /// Creates functor to convert JSON string to a type with a specified name.
-    ParseFunctor(Object::ObjectName Name, Lexer &Lex) :
-      mName(Name), mLex(Lex) {}
-
-    /// Converts JSON string to a specified Ty if it has an appropriate name.
-    template<class Ty> void operator()() {
-      if (Ty::name() != mName)
-        return;
-      auto Obj = std::unique_ptr<Ty>(new Ty);
-      if (!parse(*Obj, mLex))
-        return;
-      mObject = std::move(Obj);
-    }
-
-    /// Returns unique pointer to created object or nullptr.
-    std::unique_ptr<Object> stealObject() noexcept {
-      return std::move(mObject);
-    }
-
-  private:
-    Object::ObjectName mName;
-    Lexer &mLex;
-    std::unique_ptr<Object> mObject;
-  };
-
-  /// \brief This unparses JSON object to a JSON string.
-  ///
-  /// There are two ways to use this functor. If type of an object is known it
-  /// is possible to use static method unparse(), otherwise this functor can be
-  /// passed to a bcl::TypeList::for_each() method. In the last case
-  /// bcl::TypeList should comprise different target types and appropriate type
-  /// will be determined by name. Note that in this case all target type must
-  /// propose a static `Object::ObjectName name()` method.
-  class UnparseFunctor {
-  public:
-    /// Unparses JSON object of a specified type.
-    template<class Ty> static String unparse(const Ty &Obj) {
-      String JSON;
-      Traits<Ty>::unparse(JSON, Obj);
-      return JSON;
-    }
-
-    /// Creates functor to unparse a specified JSON object.
-    explicit UnparseFunctor(const Object &Obj, const char *NameKey)
-      : mObj(Obj), mNameKey(NameKey) {
-      assert(NameKey && "Identifier of a JSON object must not be null!");
-    }
-
-    /// Unparses JSON object if it has a specified type Ty.
-    template<class Ty> void operator()() {
-      if (!mObj.is<Ty>())
-        return;
-      mString = unparse(mObj.as<Ty>());
-      assert(mString.front() == '{' &&
-        "The first character in a JSON string must be '{'");
-      assert(mString.back() == '}' &&
-        "The last character in a JSON string must be '}'");
-      std::string Name("\"");
-      Name += mNameKey;
-      Name += "\":\"";
-      Name += mObj.getName() + "\"";
-      if (mString.find(':') != String::npos)
-        Name += ',';
-      mString.insert(1, Name);
-    }
-
-    /// Returns unparsed object.
-    const String & getString() const noexcept { return mString; }
-  private:
-    String mString;
-    const Object &mObj;
-    const char *mNameKey;
-  };
-
-public:
-  /// \brief Traverses all pairs of keys and value in a string bounded with
-  /// left and right braces.
-  ///
-  /// This is a utility method which is used to parse JSON string. It should be
-  /// used to add support for additional value conversions.
-  /// \tparam CT This is specialization of CellTraits or Traits
-  /// templates. For each pair of keys and values the method CT::parse() will be
-  /// called.
-  /// \tparam Ty This is a type of JSON object where the converted values
-  /// must be stored.
-  /// \param [in, out] Dest JSON object which is used to store converted value.
-  /// \param [in, out] Lex Lexer which should point to a Token::LEFT_BRACE or
-  /// Token::LEFT_BRACKET tokens. The method will traverse tokens to
-  /// the Token::RIGHT_BRACE or Token::RIGHT_BRACKET.
-  /// \return True on success or false if some errors have been occurred. Such
-  /// errors can be found in Lex.errors() container.
-  template<class CT, class Ty>
-  static bool traverse(Ty &Dest, Lexer &Lex) {
-    Token Last;
-    if (Lex.is(Token::LEFT_BRACKET))
-      Last = Token::RIGHT_BRACKET;
-    else if (Lex.checkSpecial(Token::LEFT_BRACE))
-      Last = Token::RIGHT_BRACE;
-    else
-      return false;
-    Position Count = 0;
-    if (!Lex.goToNext())
-      return false;
-    // It may be empty container, so it is checked here.
-    // This is not the end of string so do not check that
-    // mLex.next() >= mLex.json().size().
-    if (Lex.is(Last))
-      return true;
-    for (;;) {
-      std::pair<Position, Position> Key(0, Count++);
-      if (Last == Token::RIGHT_BRACE) {
-        if (!Lex.checkIdentifier())
-          return false;
-        Key = std::make_pair(Lex.start(), Lex.end());
-        if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
-            !Lex.goToNext())
-          return false;
-      }
-      if (!Lex.is(Token::LEFT_BRACE) && !Lex.is(Token::LEFT_BRACKET) &&
-          !Lex.checkValue())
-        return false;
-      if (!CT::parse(Dest, Lex, Key))
-        return false;
-      if (!Lex.goToNext())
-        return false;
-      // This is not the end of string so do not check that
-      // mLex.next() >= mLex.json().size().
-      if (Lex.is(Last))
-        return true;
-      if (!Lex.checkSpecial(Token::COMMA))
-        return false;
-      if (!Lex.goToNext())
-        return false;
-    }
-  }
-
-  /// \brief Determines number of keys in array representation.
-  ///
-  /// This is a utility method.
-  /// Array is represented using the following JSON strings:
-  /// {"0":V0, ..., "N":VN} or [V0, ..., VN].
-  /// \returns At first, a number of indexes secondly the maximum index occurred
-  /// in array representation and the last one value identifies whether some
-  /// errors have been occurred (false if any error has been occurred).
-  /// For empty arrays the second value in the tuple id undefined.
-  static std::tuple<Position, Position, bool> numberOfKeys(Lexer &Lex);
-
-  /// \brief Unparses a specified JSON object to a JSON string.
-  ///
-  /// NameKey parameter is a key for a field which marks JSON object identifier
-  /// in a JSON string.
-  static String unparse(const Object &Obj, const char *NameKey = "name") {
-    assert(NameKey && "Identifier of a JSON object must not be null!");
-    UnparseFunctor F(Obj, NameKey);
-    ObjectTypeList::for_each_type(F);
-    return F.getString();
-  }
-
-  /// \brief Unparses a specified JSON object to a JSON string.
-  ///
-  /// The specified JSON object will be previously converted to json::Object
-  /// and then it will be unparsed. This is convenient to add identifier of
-  /// the object (NameKey) to a JSON string. This identifier will be
-  /// automatically added for json::Object only.
-  ///
-  /// NameKey parameter is a key for a field which marks JSON object identifier
-  /// in a JSON string.
-  template<class Ty>
-  static String unparseAsObject(const Ty &Obj, const char *NameKey = "name") {
-    return unparse(static_cast<const Object &>(Obj), NameKey);
-  }
-
-  /// Unparses a specified JSON object to a JSON string.
-  template<class Ty,
-    class = typename std::enable_if<
-      !std::is_same<typename std::decay<Ty>::type, Object>::value>::type>
-    static String unparse(const Ty &Obj) {
-    return UnparseFunctor::unparse(Obj);
-  }
-
-  /// \brief Constructs a lexer for a specified JSON string.
-  ///
-  /// NameKey parameter is a key for a field which marks JSON object identifier
-  /// in a JSON string.
-  explicit Parser(const String &JSON, const char *NameKey = "name")
-    : mLex(JSON), mNameKey(NameKey) {
-    assert(NameKey && "Identifier of a JSON object must not be null!");
-  }
-
-  /// Parses JSON string and returns appropriate JSON object or
-  /// nullptr if errors have occurred.
-  std::unique_ptr<Object> parse() {
-    if (!parseName())
-      return nullptr;
-    ParseFunctor F(
-      mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1), mLex);
-    ObjectTypeList::for_each_type(F);
-    auto Obj = F.stealObject();
-    if (!Obj && !hasErrors())
-      mLex.errors().insert(JSON_ERROR(3), mNameStart, getNameKey());
-    return Obj;
-  }
-
-  /// Parses JSON string and converts it to a specified type,
-  /// returns true on success.
-  template<class Ty> bool parse(Ty &Obj) {
-    return ParseFunctor::parse(Obj, mLex);
-  }
-
-  /// Key stored in a JSON string which marks identifier of an JSON object.
-  const char *getNameKey() noexcept {
-    return mNameKey;
-  }
-
-  /// Returns container of errors.
-  const bcl::Diagnostic & errors() const noexcept { return mLex.errors(); }
-
-  /// Returns true if errors have been occurred, internal errors are
-  /// also considered.
-  bool hasErrors() const { return mLex.hasErrors(); }
-
-private:
-  /// \brief Determines identifier to build appropriate JSONObject object.
-  ///
-  /// \post If this method returns true identifier is represented by characters
-  /// in the range [mNameStart, mNameEnd].
-  /// \return True in success, false if some errors have been occurred.
-  bool parseName() {
-    mLex.resetPosition();
-    if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
-      return false;
-    while (mLex.goToNext()) {
-      if (!mLex.checkIdentifier())
-        return false;
-      bool IsName = (mLex.json().compare(
-        mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
-      if (!mLex.goToNext() || !mLex.checkSpecial(Token::COLON) ||
-          !mLex.goToNext())
-        return false;
-      if (IsName) {
-        if (!mLex.checkIdentifier())
-          return false;
-        mNameStart = mLex.start();
-        mNameEnd = mLex.end();
-        return true;
-      }
-      if ((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) ?
-          !mLex.skipInternal() : !mLex.checkValue())
-        return false;
-      if (!mLex.goToNext())
-        return false;
-      if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
-        break;
-      if (!mLex.checkSpecial(Token::COMMA))
-        return false;
-      }
-    mLex.errors().insert(JSON_ERROR(3), mLex.json().size(), getNameKey());
-    return false;
-  }
-private:
-  Lexer mLex;
-  Position mNameStart = 0;
-  Position mNameEnd = 0;
-  const char *mNameKey;
-};
-
-template<> struct Traits<std::string> {
-  inline static String unescape(const String &Str) {
-    if (Str.size() < 2)
-      return Str;
-    std::string Res;
-    Res.reserve(Str.length());
-    auto I = Str.begin(), EI = Str.end();
-    while (I != EI) {
-      if (*I != '\\' || I + 1 == EI) {
-        Res += *I;
-        ++I;
-        continue;
-      }
-      switch (*(++I)) {
-        case 'n': Res += "\n"; break;
-        case 't': Res += "\t"; break;
-        case 'v': Res += "\v"; break;
-        case 'f': Res += "\f"; break;
-        case 'r': Res += "\r"; break;
-        case '"': case '\\': Res += *I; break;
-        default: continue;
-      }
-      ++I;
-    }
-    return Res;
-  }
-  inline static Position escape(String &JSON, Position Pos) {
-    switch (JSON[Pos]) {
-      case '\n': JSON.replace(Pos, 1, "n"); break;
-      case '\t': JSON.replace(Pos, 1, "t"); break;
-      case '\v': JSON.replace(Pos, 1, "v"); break;
-      case '\f': JSON.replace(Pos, 1, "f"); break;
-      case '\r': JSON.replace(Pos, 1, "r"); break;
-      case '"': case '\\': break;
-      default: return Pos;
-    }
-    JSON.insert(Pos, "\\");
-    return Pos + 1;
-  }
-  inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
-    if (!Lex.is(Token::IDENTIFIER) && !Lex.is(Token::NUMBER) &&
-        !Lex.is(Token::KEYWORD))
-      return false;
-    try {
-      auto Value = Lex.discardQuote();
-      Dest = unescape(
-        Lex.json().substr(Value.first, Value.second - Value.first + 1));
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, const std::string &Obj) {
-    auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
-    for (; I < JSON.size() - 1; ++I)
-      I = escape(JSON, I);
-  }
-};
-
-template<> struct Traits<char> {
-  inline static bool parse(char &Dest, Lexer &Lex) noexcept {
-    std::string Tmp;
-    if (!Traits<std::string>::parse(Tmp, Lex) || Tmp.size() != 1)
-      return false;
-    Dest = Tmp.front();
-    return true;
-  }
-  inline static void unparse(String &JSON, char Obj) {
-    auto I = JSON.size() + 1;
-    JSON += '"';
-    JSON += Obj;
-    JSON += '"';
-    Traits<std::string>::escape(JSON, I);
-  }
-};
-
-template<> struct Traits<int> {
-  inline static bool parse(int &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoi(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, int Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<long> {
-  inline static bool parse(long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stol(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, long Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<long long> {
-  inline static bool parse(long long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoll(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, long long Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<unsigned> {
-  inline static bool parse(unsigned &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      auto Value = std::stoul(Str);
-      Dest = static_cast<unsigned>(Value);
-      return Dest == Value && Str.find('-') == std::string::npos;
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, unsigned Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<unsigned long> {
-  inline static bool parse(unsigned long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoul(Str);
-      return Str.find('-') == std::string::npos;
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, unsigned long Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<unsigned long long> {
-  inline static bool parse(unsigned long long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoull(Str);
-      return Str.find('-') == std::string::npos;
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, unsigned long long Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<float> {
-  inline static bool parse(float &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stof(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, float Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<double> {
-  inline static bool parse(double &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stod(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, double Obj) {
-    JSON += std::to_string(Obj);
-  }
-};
-
-template<> struct Traits<bool> {
-  inline static bool parse(bool &Dest, Lexer &Lex) noexcept {
-    try {
-      if (Lex.isKeyword(Keyword::TRUE)) {
-        return Dest = true;
-      } else if (Lex.isKeyword(Keyword::FALSE)) {
-        return !(Dest = false);
-      }
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = Str == toString(Keyword::TRUE);
-      return (Str == toString(Keyword::TRUE) ||
-              Str == toString(Keyword::FALSE));
-    }
-    catch (...) {
-      return false;
-    }
-  }
-  inline static void unparse(String &JSON, bool Obj) {
-    JSON += Obj ? toString(Keyword::TRUE) : toString(Keyword::FALSE);
-  }
-};
-
-template<> struct Traits<char *> {
-  inline static bool parse(char *&Dest, Lexer &Lex) {
-    char *TmpDest = nullptr;
-    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
-      try {
-        Position MaxIdx, Count;
-        bool Ok;
-        std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
-        if (!Ok)
-          return false;
-        if (Count != 0) {
-          if (Count < MaxIdx + 1) {
-            /// User of JSON serializer can not determine if there is some
-            /// uninitialized elements in an array without manual parsing of
-            /// a JSON string. So do not parse such arrays. This array
-            /// should be parsed as a map.
-            Lex.errors().insert(JSON_ERROR(7), Lex.start());
-            throw 0;
-          } else if (Count > MaxIdx + 1) {
-            Lex.errors().insert(JSON_ERROR(8), Lex.start());
-
-            throw 0;
-          }
-          TmpDest = new char[MaxIdx + 1];
-        }
-        // Note, in case of empty array traverse also should be called to move
-        // lexer position to the end of this array.
-        if (!Parser<>::traverse<Traits<char *>>(TmpDest, Lex))
-          throw 0;
-      }
-      catch (...) {
-        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
-        return false;
-      }
-    } else {
-      try {
-        std::string Unescaped;
-        if (!Traits<std::string>::parse(Unescaped, Lex))
-          return false;
-        TmpDest = new char[Unescaped.length() + 1];
-        Unescaped.copy(TmpDest, Unescaped.length());
-        TmpDest[Unescaped.length()] = '\0';
-      }
-      catch (...) {
-        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
-        return false;
-      }
-    }
-    Dest = TmpDest;
-    return true;
-  }
-  inline static bool parse(char *&Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    if (Key.first != 0) {
-      // Note that Idx will be successfully converted because this check has
-      // been performed when memory for the Dest array has been allocated.
-      // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(Traits<std::string>::unescape(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
-      return Traits<char>::parse(Dest[Idx], Lex);
-    } else {
-      return Traits<char>::parse(Dest[Key.second], Lex);
-    }
-  }
-  inline static void unparse(String &JSON, const char *Obj) {
-    if (!Obj)
-      return;
-    auto I = JSON.size() + 1;
-    JSON += "\"";
-    JSON += Obj;
-    JSON += "\"";
-    for (; I < JSON.size() - 1; ++I)
-      I = Traits<std::string>::escape(JSON, I);
-  }
-};
-
-template<class Ty> struct Traits<Ty *> {
-  inline static bool parse(Ty *&Dest, Lexer &Lex) {
-    Ty *TmpDest = nullptr;
-    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
-      try {
-        Position MaxIdx, Count;
-        bool Ok;
-        std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
-        if (!Ok)
-          return false;
-        if (Count != 0) {
-          if (Count < MaxIdx + 1) {
-            /// User of JSON serializer can not determine if there is some
-            /// uninitialized elements in an array without manual parsing of
-            /// a JSON string. So do not parse such arrays. This array
-            /// should be parsed as a map.
-            Lex.errors().insert(JSON_ERROR(7), Lex.start());
-            throw 0;
-          } else if (Count > MaxIdx + 1) {
-            Lex.errors().insert(JSON_ERROR(8), Lex.start());
-
-            throw 0;
-          }
-          TmpDest = new Ty[MaxIdx + 1];
-        }
-        // Note, in case of empty array traverse also should be called to move
-        // lexer position to the end of this array.
-        if (!Parser<>::traverse<Traits<Ty *>>(TmpDest, Lex))
-          throw 0;
-      }
-      catch (...) {
-        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
-        return false;
-      }
-    } else {
-      try {
-        auto Value = Lex.discardQuote();
-        TmpDest = new Ty;
-        if (!Traits<Ty>::parse(*TmpDest, Lex))
-          throw 0;
-      }
-      catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
-        return false;
-      }
-    }
-    Dest = TmpDest;
-    return true;
-  }
-  inline static bool parse(Ty *&Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    if (Key.first != 0) {
-      // Note that Idx will be successfully converted because this check has
-      // been performed when memory for the Dest array has been allocated.
-      // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(Traits<std::string>::unescape(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
-      return Traits<Ty>::parse(Dest[Idx], Lex);
-    } else {
-      return Traits<Ty>::parse(Dest[Key.second], Lex);
-    }
-  }
-  inline static void unparse(String &JSON, const Ty* Obj) {
-    if (Obj)
-      Traits<Ty>::unparse(JSON, *Obj);
-  }
-};
-
-template<class Ty> struct Traits<const Ty *> {
-  inline static bool parse(const Ty *&Dest, Lexer &Lex) {
-    Ty *TmpDest;
-    if (Traits<Ty *>::parse(TmpDest, Lex)) {
-      Dest = TmpDest;
-      return true;
-    }
-    return false;
-  }
-  inline static void unparse(String &JSON, const Ty* Obj) {
-      Traits<Ty *>::unparse(JSON, Obj);
-  }
-};
-
-template<class Ty, class Allocator>
-struct Traits<std::vector<Ty, Allocator>> {
-  inline static bool parse(std::vector<Ty, Allocator> &Dest, Lexer &Lex) {
-    Position MaxIdx, Count;
-    bool Ok;
-    std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
-    if (!Ok)
-      return false;
-    if (Count != 0) {
-      if (Count < MaxIdx + 1) {
-        /// User of JSON serializer can not determine if there is some
-        /// uninitialized elements in an array without manual parsing of
-        /// a JSON string. So do not parse such arrays. This array
-        /// should be parsed as a map.
-        Lex.errors().insert(JSON_ERROR(7), Lex.start());
-        return false;
-      } else if (Count > MaxIdx + 1) {
-        Lex.errors().insert(JSON_ERROR(8), Lex.start());
-        return false;
-      }
-    }
-    Dest.resize(Count);
-    // Note, in case of empty array traverse also should be called to move
-    // lexer position to the end of this array.
-    return Parser<>::
-      traverse<Traits<std::vector<Ty, Allocator>>>(Dest, Lex);
-  }
-  inline static bool parse(std::vector<Ty, Allocator> &Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    if (Key.first != 0) {
-      // Note that Idx will be successfully converted because this check has
-      // been performed when memory for the Dest array has been allocated.
-      // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(Traits<std::string>::unescape(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
-      return Traits<Ty>::parse(Dest[Idx], Lex);
-    } else {
-      return Traits<Ty>::parse(Dest[Key.second], Lex);
-    }
-  }
-  inline static void unparse(String &JSON,
-      const std::vector<Ty, Allocator> &Obj) {
-    typedef std::vector<Ty, Allocator> VecTy;
-    if (!Obj.empty()) {
-      std::vector<String> Values(Obj.size());
-      bool HasEmpty = false;
-      for (typename VecTy::size_type I = 0; I < Obj.size(); ++I) {
-        Traits<typename VecTy::value_type>::unparse(Values[I], Obj[I]);
-        HasEmpty = HasEmpty || Values[I].empty();
-      }
-      if (HasEmpty) {
-        JSON += '{';
-        for (typename VecTy::size_type I = 0; I < Obj.size(); ++I) {
-          if (Values[I].empty())
-            continue;
-          JSON += "\"";
-          Traits<unsigned long long>::unparse(JSON, I);
-          JSON += "\":" + Values[I] + ",";
-        }
-        if (JSON.back() == ',')
-          JSON.erase(JSON.size() - 1);
-        JSON += '}';
-      } else {
-        JSON += '[';
-        for (auto &V : Values)
-          JSON += V + ',';
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
-        JSON += ']';
-      }
-    } else {
-      JSON += "[]";
-    }
-  }
-};
-
-template<class KeyTy, class Compare, class Allocator>
-struct Traits<std::set<KeyTy, Compare, Allocator>> {
-  typedef std::set<KeyTy, Compare, Allocator> SetTy;
-  inline static bool parse(SetTy &Dest, Lexer &Lex) {
-    if (!Lex.checkSpecial(Token::LEFT_BRACKET))
-      return false;
-    return Parser<>::traverse<Traits<SetTy>>(Dest, Lex);
-  }
-  inline static bool parse(SetTy &Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    KeyTy KeyValue;
-    if (!Traits<KeyTy>::parse(KeyValue, Lex))
-      return false;
-    auto Pair = Dest.insert(std::move(KeyValue));
-    if (!Pair.second) {
-      Lex.errors().insert(JSON_ERROR(8), Lex.start());
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, const SetTy &Obj) {
-    JSON += '[';
-    if (!Obj.empty()) {
-      auto I = Obj.begin(), EI = Obj.end();
-      for (--EI; I != EI; ++I) {
-        String Key;
-        Traits<KeyTy>::unparse(Key, *I);
-        if (!Key.empty())
-          JSON += Key + ',';
-      }
-      String Key;
-      Traits<KeyTy>::unparse(Key, *I);
-      if (!Key.empty())
-        JSON += Key;
-      else if (JSON.back() == ',')
-        JSON.erase(JSON.size() - 1);
-    }
-    JSON += ']';
-  }
-};
-
-template<class KeyTy, class Ty, class Compare, class Allocator>
-struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
-  typedef std::map<KeyTy, Ty, Compare, Allocator> MapTy;
-  inline static bool parse(MapTy &Dest, Lexer &Lex) {
-    return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
-  }
-  inline static bool parse(MapTy &Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    Lex.storePosition();
-    Lex.setPosition(Key.first);
-    KeyTy KeyValue;
-    bool IsKey = Traits<KeyTy>::parse(KeyValue, Lex);
-    Lex.restorePosition();
-    if (!IsKey)
-      return false;
-    auto Pair = Dest.emplace(KeyValue, Ty());
-    if (!Pair.second) {
-      Lex.errors().insert(JSON_ERROR(8), Lex.start());
-      return false;
-    }
-    if (!Traits<Ty>::parse(Pair.first->second, Lex)) {
-      Dest.erase(Pair.first);
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, const MapTy &Obj) {
-    JSON += '{';
-    if (!Obj.empty()) {
-      auto I = Obj.begin(), EI = Obj.end();
-      for (--EI; I != EI; ++I) {
-        String Value;
-        Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
-        if (!Value.empty()) {
-          String Id;
-          Traits<typename MapTy::key_type>::unparse(Id, I->first);
-          Id = bcl::quote(std::move(Id));
-          JSON += Id + ':'+ Value + ',';
-        }
-      }
-      String Value;
-      Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
-      if (!Value.empty()) {
-        String Id;
-        Traits<typename MapTy::key_type>::unparse(Id, I->first);
-        Id = bcl::quote(std::move(Id));
-        JSON += Id + ':' + Value;
-      } else if (JSON.back() == ',') {
-        JSON.erase(JSON.size() - 1);
-      }
-    }
-    JSON += '}';
-  }
-};
-
-template<class KeyTy, class Ty, class Compare, class Allocator>
-struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
-  typedef std::multimap<KeyTy, Ty, Compare, Allocator> MapTy;
-  inline static bool parse(MapTy &Dest, Lexer &Lex) {
-    return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
-  }
-  inline static bool parse(MapTy &Dest, Lexer &Lex,
-    std::pair<Position, Position> Key) {
-    Lex.storePosition();
-    Lex.setPosition(Key.first);
-    KeyTy KeyValue;
-    bool IsKey = Traits<KeyTy>::parse(KeyValue, Lex);
-    Lex.restorePosition();
-    if (!IsKey)
-      return false;
-    auto Itr = Dest.emplace(KeyValue, Ty());
-    if (Itr == Dest.end())
-      return false;
-    if (!Traits<Ty>::parse(Itr->second, Lex)) {
-      Dest.erase(Itr);
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, const MapTy &Obj) {
-    JSON += '{';
-    if (!Obj.empty()) {
-      auto I = Obj.begin(), EI = Obj.end();
-      for (--EI; I != EI; ++I) {
-        String Value;
-        Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
-        if (!Value.empty()) {
-          String Id;
-          Traits<typename MapTy::key_type>::unparse(Id, I->first);
-          Id = bcl::quote(std::move(Id));
-          JSON += Id + ':' + Value + ',';
-        }
-      }
-      String Value;
-      Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
-      if (!Value.empty()) {
-        String Id;
-        Traits<typename MapTy::key_type>::unparse(Id, I->first);
-        Id = bcl::quote(std::move(Id));
-        JSON += Id + ':' + Value;
-      } else if (JSON.back() == ',') {
-        JSON.erase(JSON.size() - 1);
-      }
-    }
-    JSON += '}';
-  }
-};
-
-namespace detail {
-/// This functor parses a value which starts with the last token extracted
-/// from a JSON string, converts it to an appropriate type and assigns
-/// to an appropriate field in a JSON object implemented as a bcl::StaticMap.
-class ParseCellFunctor {
-public:
-  /// \brief Creates this functor to parse a value associated with
-  /// a specified key.
-  ///
-  /// The Key parameter is necessary to identify destination which should be set
-  /// on the parsed value.
-  ParseCellFunctor(std::pair<Position, Position> Key, Lexer &Lex) : mLex(Lex),
-    mKey(Key), mHasError(false) {}
-
-  /// \brief Parses a value specified by the last token evaluated by the
-  /// lexer, converts it to an appropriate type and assigns to a currently
-  /// evaluated key determined in constructor.
-  ///
-  /// Note that the current token may be beginning of a compound value,
-  /// for example '{'.
-  template<class CellTy> void operator()(CellTy *Cell) {
-    typedef typename CellTy::CellKey CellKey;
-    if (mLex.json().compare(
-          mKey.first + 1, mKey.second - mKey.first - 1 ,
-          CellTraits<CellKey>::name()) != 0)
-      return;
-    mIsFound = true;
-    mHasError = !CellTraits<CellKey>::parse(
-      Cell->template value<CellKey>(), mLex);
-  }
-
-  /// Returns true if errors have been occurred during conversion.
-  bool hasError() const noexcept { return mHasError; }
-
-  /// Returns true if there is a field with the specified key.
-  bool isFound() const noexcept { return mIsFound; }
-private:
-  Lexer &mLex;
-  std::pair<Position, Position> mKey;
-  bool mHasError;
-  bool mIsFound = false;
-};
-
-/// This functor unparses JSON object represented as a bcl::StaticMap. It should
-/// be called for each cell in the map.
-class UnparseCellFunctor {
-public:
-  /// Creates functor which stores unparsed data in a specified JSON string.
-  explicit UnparseCellFunctor(String &JSON) : mIsFirst(true), mJSON(JSON) {}
-
-  /// Unparses a specified cell if it has a value.
-  template<class CellTy> void operator()(CellTy *Cell) {
-    typedef typename CellTy::CellKey CellKey;
-    String Value;
-    CellTraits<CellKey>::unparse(Value, Cell->template value<CellKey>());
-    if (Value.empty())
-      return;
-    if (!mIsFirst)
-      mJSON += ',';
-    else
-      mIsFirst = false;
-    Traits<
-      typename std::decay<
-        typename std::result_of<
-          decltype(&CellTraits<CellKey>::name)()>::type>::type>::
-      unparse(mJSON, CellTraits<CellKey>::name());
-    mJSON += ':' + Value;
-  }
-private:
-  bool mIsFirst;
-  String &mJSON;
-};
-}
-
-template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
-  inline static bool parse(bcl::StaticMap<Args...> &Dest, Lexer &Lex) {
-    if (!Lex.checkSpecial(Token::LEFT_BRACE))
-      return false;
-    return Parser<>::
-      traverse<Traits<bcl::StaticMap<Args...>>>(Dest, Lex);
-  }
-  inline static bool parse(bcl::StaticMap<Args...> &Dest, Lexer &Lex,
-      std::pair<Position, Position> Key) {
-    detail::ParseCellFunctor Parse(Key, Lex);
-    Dest.for_each(Parse);
-    if (!Parse.isFound() &&
-        (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)))
-      return Lex.skipInternal();
-    return !Parse.hasError();
-  }
-  inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
-    detail::UnparseCellFunctor Unparse(JSON);
-    JSON += '{';
-    Obj.for_each(Unparse);
-    JSON += '}';
-  }
-};
-
-template<class... Objects> std::tuple<Position, Position, bool>
-Parser<Objects...>::numberOfKeys(Lexer &Lex) {
-  Lex.storePosition();
-  Position MaxIdx = 0;
-  Position Count = 0;
-  std::set<unsigned long long> Indexes;
-  Token Last;
-  if (Lex.is(Token::LEFT_BRACKET))
-    Last = Token::RIGHT_BRACKET;
-  else if (Lex.checkSpecial(Token::LEFT_BRACE))
-    Last = Token::RIGHT_BRACE;
-  else
-    return std::make_tuple(0, 0, false);
-  if (!Lex.goToNext())
-    return std::make_tuple(0, 0, false);
-  if (Lex.is(Last)) {
-    Lex.restorePosition();
-    return std::make_tuple(0, 0, true);
-  }
-  for (;;) {
-    ++Count;
-    if (Last == Token::RIGHT_BRACE) {
-      if (!Lex.checkIdentifier())
-        return std::make_tuple(0, 0, false);
-      unsigned long long Idx;
-      if (!Traits<unsigned long long>::parse(Idx, Lex))
-        return std::make_tuple(0, 0, false);
-      if (!Indexes.insert(Idx).second) {
-        Lex.errors().insert(JSON_ERROR(8), Lex.start());
-        return std::make_tuple(0, 0, false);
-      }
-      MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
-      if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
-          !Lex.goToNext())
-        return std::make_tuple(0, 0, false);
-    }
-    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
-      if (!Lex.skipInternal())
-        return std::make_tuple(0, 0, false);
-    } else if (!Lex.checkValue()) {
-      return std::make_tuple(0, 0, false);
-    }
-    if (!Lex.goToNext())
-      return std::make_tuple(0, 0, false);
-    if (Lex.is(Last))
-      break;
-    if (!Lex.checkSpecial(Token::COMMA))
-      return std::make_tuple(0, 0, false);
-    if (!Lex.goToNext())
-      return std::make_tuple(0, 0, false);
-  }
-  Lex.restorePosition();
-  return std::make_tuple(
-    Count, Last == Token::RIGHT_BRACE ? MaxIdx : Count - 1, true);
-}
-
-template<> struct Traits<bcl::Diagnostic> {
-  inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex) {
-    return Parser<>::
-      traverse<Traits<bcl::Diagnostic>>(Dest, Lex);
-  }
-  inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
-    std::pair<Position, Position>) {
-    std::string Msg;
-    if (!Traits<std::string>::parse(Msg, Lex))
-      return false;
-    auto KindSize = std::strlen(Dest.getKind());
-    std::size_t Code;
-    std::uintmax_t Pos;
-    int Text = -1;
-    if (Msg.compare(0, KindSize, Dest.getKind()) != 0 ||
-        std::sscanf(Msg.c_str() + KindSize, " C%zu(%ju):%n",
-                    &Code, &Pos, &Text) != 2 ||
-        Text < 0 || Msg[KindSize + Text] != ' ' ||
-        !Dest.insert(Code, "%s", Pos, Msg.c_str() + KindSize + Text + 1)) {
-      Lex.errors().insert(JSON_ERROR(9), Lex.start());
-      return false;
-    }
-    return true;
-  }
-  inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
-    JSON += '[';
-    if (!Obj.empty()) {
-      auto I = Obj.begin(), EI = Obj.end();
-      bcl::Diagnostic::size_type Idx = 0;
-      for (--EI; I != EI; ++I, ++Idx) {
-        Traits<bcl::Diagnostic::value_type>::unparse(JSON, *I);
-        JSON += ',';
-      }
-      Traits<bcl::Diagnostic::value_type>::unparse(JSON, *I);
-    }
-    JSON += ']';
-  }
-};
-
-/// Specialization of JSON serialization traits for std::optional type.
-///
-/// Note that 'T' must be default constructible and copy assignable.
-template<class T> struct Traits<std::optional<T>> {
-  static_assert(std::is_default_constructible<T>::value,
-    "Underlining type must be default constructible!");
-  static_assert(std::is_copy_assignable<T>::value,
-    "Underlining type must be copy assignable!");
-  static bool parse(std::optional<T> &Dest, ::json::Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      if (Lex.isKeyword(Keyword::NO_VALUE) ||
-          !std::is_convertible<T, std::string>::value &&
-              Traits<std::string>::parse(Str, Lex) &&
-              Str == toString(Keyword::NO_VALUE)) {
-        Dest.reset();
-      } else {
-        T Tmp;
-        if (!Traits<T>::parse(Tmp, Lex))
-          return false;
-        Dest = std::move(Tmp);
-      }
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
-  }
-  static void unparse(String &JSON, const std::optional<T> &Obj) {
-    if (Obj.has_value())
-      Traits<T>::unparse(JSON, *Obj);
-    else
-      JSON += toString(Keyword::NO_VALUE);
-  }
-};
-}
-
-//===- Definition of macros which simplifies definition of a JSON-object --===//
-#include "JsonObjectMacros.h"
-
-#endif// TSAR_REQUESTS_H
+//===--- Json.h ------------- JSON String Serializer ------------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file implements functionality to parse string contains data in JSON
+// format and convert this string to an appropriate high-level representation.
+// Let us call this string JSON string and appropriate high-level
+// representation JSON object. Backward conversion is also supported. That
+// means that JSON object can be unparsed to a JSON string.
+//
+// The main functionality is available from json::Parser class. Different types
+// are supported, for example, scalar types (int, long, float, etc.),
+// character strings (char *, std::string), arrays (Ty *), some classes
+// (bcl::Diagnostic) and other.
+//
+// Some special supported type is bcl::StaticMap. To convert some JSON string
+// to this type it is necessary to declare appropriate type previously.
+//
+// If JSON objects have special static method name which returns an identifier
+// of each object in a string format and if this identifier is used in
+// JSON string, the json::Parser<...>::parse() method can determine an
+// appropriate JSON object in objects specified as a parameters for Parser
+// template. This method returns json::Object. Note that to make available this
+// search JSON objects should inherit json::Object.
+//
+// To implement conversions for other types or separate cells in bcl::StaticMap
+// it is possible to specialize json::Traits and json::CellTraits
+// templates. If there is not built-in static method name() in a cell in some
+// bcl::StaticMap it is possible to implement it in json::CellTraits
+// specialization.
+//
+// If some errors occurred conversion methods should implement garbage
+// collection.
+//
+// To build JSON string for a JSON object json::Parser<...>::unparse() method
+// can be used. Note that parse() treats pointer as array or scalar depending
+// on the to context but unparse() treats pointer always as an array, except
+// pointers to char (char *). This is due to there is no any way to determine
+// size of array.
+//
+//===----------------------------------------------------------------------===//
+//
+// Now let us see some usage example.
+//
+// 1. The simplest example is:
+// \code
+//   json::Parser<> P(R"j({"0":1, "1":2})j");
+//   int * Array;
+//   P.parse(Array);
+//   for (int I = 0; I < 2; ++I)
+//     std::cout << Array[I] << ' ';
+// \endcode
+// An output is: 1 2.
+//
+// 2. The following code is parsed JSON string "{\"Name\": "Jon", \"Age\": 1}"
+// and prints it to STDOUT. Use Human Obj; Obj[Human::Name] to access a name.
+// \code
+//   JSON_OBJECT_BEGIN(Human)
+//   JSON_OBJECT_PAIR_2(Human, Name, std::string, Age, unsigned)
+//   JSON_OBJECT_END(Human)
+//   JSON_DEFAULT_TRAITS(::, Human)
+//
+//   json::Parser<> P(R"j({"Name": "Jon", "Age": 1})j");
+//   Human O;
+//   if (P.parse<Human>(O)) {
+//     std::cout << O[Human::Name] << ":" << O[Human::Age] << std::endl;
+//
+// 3. If JSON string contains identifier a parse can determine how to parse
+// a specified string. Identifier is a pair of "name" and a value,
+// for example "Human" in a JSON string.
+// \code
+//   JSON_OBJECT_BEGIN(Human)
+//   JSON_OBJECT_ROOT_PAIR_2(Human, Name, std::string, Age, unsigned)
+//     Human() : JSON_INIT_ROOT {}
+//   JSON_OBJECT_END(Human)
+//   JSON_DEFAULT_TRAITS(::, Human)
+//
+//   JSON_OBJECT_BEGIN(Dog)
+//   JSON_OBJECT_ROOT_PAIR(Dog, Name, std::string)
+//   JSON_OBJECT_END(Dog)
+//   JSON_DEFAULT_TRAITS(::, Dog)
+//
+//   json::Parser<Humna, Dog> P(R"j({"name": "Human", "Name": "Jon", "Age": 1})j");
+//   auto O = P.parse();
+//   if (O && O.is<Human>()) {
+//     Human &OH = O->as<Humna>();
+//     std::cout << OH[Human::Name] << OH[Human::Age] << std::endl;
+//   }
+// \endcode
+// Note, that JSON_OBJECT_ROOT_PAIR should be used instead of JSON_OBJECT_PAIR.
+// It is also necessary to add at least default constructor and use
+// JSON_INIT_ROOT in constructor definition.
+//
+// 4. It is also possible to add other constructors and typedefs for value types
+// and define an object in a namespace:
+// \code
+// namespace People {
+//   JSON_OBJECT_BEGIN(Human)
+//   JSON_OBJECT_ROOT_PAIR_2(Human, Name, Age)
+//     Human(const std::string &N, unsigned A) :
+//       JSON_INIT(Human, N, A), JSON_INIT_ROOT {}
+//     using NameTy = JSON_VALUE_TYPE(Human, Name);
+//     using AgeTy = JSON_VALUE_TYPE(Human, Age);
+//   JSON_OBJECT_END(::, Human)
+// }
+// JSON_DEFAULT_TRAITS(People::, Human)
+// \endcode
+//
+// 5. If there were errors while a string has been parsed it is possible to
+// investigate these errors.
+// \code
+//   if (!P.parse<Human>(O)) {
+//     for (auto &Err : P.errors())
+//       std::cerr << Err << "\n";
+//     if (P.errors().internal_size() > 0)
+//       std::cerr << "json error: " << P.errors().internal_size() <<
+//       " internal errors\n";
+//   }
+// 6. To unparse JSON object O use the following code:
+// \code
+//   // Do not add identifier ("name": "Human") to the result.
+//   // This works in case of sub-object (JSON_OBJECT_PAIR was used instead of
+//   // JSON_OBJECT_ROOT_PAIR) and in case of top-level objects.
+//   Human O;
+//   json::Parser<Human>::unparse(O);
+//
+//   // Add identifier to the result. This works only in case of top-level
+//   // objects.
+//   Human O;
+//   json::Parser<Human>::unparseAsObject(O);
+//
+//   // Add identifier to the result. This works only in case of top-level
+//   // objects.
+//   Human OH;
+//   Object &O = OH;
+//   Parser<Human>::unparse(O);
+// \endcode
+//
+// 7. If you want to have more opportunities to customize JSON-object definition
+// it is possible to define new object in the following way:
+// \code
+//   // Let us begin description of a JSON-object 'Human' in a global namespace.
+//   JSON_OBJECT_BEGIN(Human)
+//     // The object contains two name-value pairs which represents human name
+//     // and its age. Here we specify type of a value in each pair.
+//     JSON_VALUE(Name, std::string)
+//     JSON_VALUE(Age, unsigned)
+//
+//     // Now, we specify list of all name-value pairs which should be stored
+//     // in JSON. We use JSON_OBJECT_ROOT to indicate that the current object
+//     // is top-level object. If we want to use this object as a sub-object
+//     // only we can use JSON_OBJECT instead.
+//     JSON_OBJECT_ROOT(Human, Name, Age)
+//
+//     // Now, we specify name-value pairs which can be accessed in C++ code in
+//     // the following way Obj[Human::Name] where 'Obj' has type 'Human'.
+//     JSON_ACCESS(Human, Name)
+//     JSON_ACCESS(Human, Age)
+//
+//     // Arbitrary C++ code can be written here. It becomes a part of
+//     // the Human class. For example, it is possible to add constructor.
+//     // Attention, JSON_INIT_ROOT must be always used in case of
+//     // top-level objects! It is necessary to use it in any constructors
+//     // of a top-level objects (including default).
+//     // So, top-level object can not have an implicit default constructor.
+//     // Hence, a simplest way to define constructor of a top-level object is
+//     // 'Human() : JSON_INIT_ROOT {}'.
+//     // Attention, do not use JSON_INIT_ROOT in case of sub-objects!
+//     Human(const std::string &N, unsigned A) :
+//       JSON_INIT(N, A), JSON_INIT_ROOT {}
+//
+//     // It is also possible to use type of a value in a name-value pair.
+//     using NameTy = JSON_VALUE_TYPE(Human, Name);
+//     using AgeTy = JSON_VALUE_TYPE(Human, Age);
+//
+//   // Here, we finalize description of objects.
+//   JSON_OBJECT_END(Human)
+//   // An finally, it is necessary to describe how the object should be
+//   // parsed/unparsed. Here we use default capabilities, however, it could be
+//   // also customized manually.
+//   JSON_DEFAULT_TRAITS(::, Human)
+// \endcode
+//
+// 8. It is also possible to define JSON-object manually.
+// \code
+//   namespace detail {
+//   struct ExampleObject {
+//     struct Text {
+//       static inline const std::string & name() {
+//         static const std::string N("Text");
+//         return N;
+//       }
+//       using ValueType = const char *;
+//     };
+//   };
+//   }
+//   struct ExampleObject : public bcl::StaticMap<detail::ExampleObject::Text> {
+//     static constexpr detail::ExampleObject::Text Text =
+//       detail::ExampleObject::Text();
+//   };
+//   template<> struct json::Traits<ExampleObject> :
+//     public json::Traits<bcl::StaticMap<::detail::ExampleObject::Text>> {};
+// \endcode
+// The previous code defines some JSON object ExmpaleObject with a single field
+// Text.
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_JSON_H
+#define BCL_JSON_H
+
+#include "cell.h"
+#include "Diagnostic.h"
+#include "utility.h"
+#include <cctype>
+#include <map>
+#include <memory>
+#include <optional>
+#include <set>
+#include <stack>
+#include <string>
+#include <string_view>
+#include <tuple>
+#include <vector>
+
+#define JSON_ERROR_1 "unexpected end of string"
+#define JSON_ERROR_2 "unexpected character '%c' expected '%c'"
+#define JSON_ERROR_3 "unknown json string, identifier '%s' is not found"
+#define JSON_ERROR_4 "unexpected character '%c' identifier expected"
+#define JSON_ERROR_5 "unexpected character '%c' identifier, number or keyword expected"
+#define JSON_ERROR_6 "value conversion error"
+#define JSON_ERROR_7 "uninitialized elements in array"
+#define JSON_ERROR_8 "target object type does not support duplicate of keys"
+#define JSON_ERROR_9 "illegal value"
+#define JSON_ERROR(C) C, JSON_ERROR_##C
+
+#define JSON_OBJECT_BEGIN(Object_) \
+namespace json_ { struct Object_##Impl {
+
+/// Provides static name() method which.
+#define JSON_NAME(Name) \
+static inline const std::string & \
+name() { static const std::string N(#Name); return N;}
+
+///\brief Specifies a way to access a value of a JSON name-value pari.
+///
+/// Usage example:
+///   Object_ Val;
+///   Val[Object_::Name__] = ...
+#define JSON_ACCESS(Object_, Name_) \
+static constexpr json_::Object_##Impl::Name_ Name_ \
+= json_::Object_##Impl::Name_();
+
+/// Specifies a JSON name-value pair. Instead of a concrete value its type should
+/// be specified.
+#define JSON_VALUE(Name_, Type_) \
+struct Name_ { JSON_NAME(Name_) using ValueType = Type_; };
+
+/// Defines structure of a sub-object.
+#define JSON_OBJECT(Object_, ...) \
+  using Base = bcl::StaticMap<__VA_ARGS__>; }; } \
+struct Object_ : public json_::Object_##Impl::Base {
+
+/// Defines structure of a top-level object.
+#define JSON_OBJECT_ROOT(Object_, ...) \
+  using Base = bcl::StaticMap<__VA_ARGS__>; }; } \
+struct Object_ : \
+  public json_::Object_##Impl::Base, public ::json::Object { \
+  JSON_NAME(Object_)
+
+/// Initializes object with a list of values.
+#define JSON_INIT(Object_, ...) json_::Object_##Impl::Base(__VA_ARGS__)
+
+/// Initializes top-level object.
+#define JSON_INIT_ROOT ::json::Object(name())
+
+/// Type of a value with name Name_ in a name-value pair inside object Object_.
+#define JSON_VALUE_TYPE(Object_, Name_) \
+json_::Object_##Impl::Name_::ValueType
+
+/// Ends description of JSON-object.
+#define JSON_OBJECT_END(Object_) };
+
+/// Specifies that a JSON-object should be parsed/unparsed in a default way.
+#define JSON_DEFAULT_TRAITS(namespace_, Object_) \
+namespace json { \
+template<> struct Traits<namespace_ Object_> : \
+  public Traits<namespace_ json_::Object_##Impl::Base> {}; \
+}
+
+namespace json {
+/// This is a base class for all JSON objects which can be obtained when
+/// a string represented JSON is parsed.
+///
+/// \attention All JSON objects must inherit this class and implement a static
+/// method `static ObjectName name()`.
+class Object {
+public:
+  /// Identifier of an object.
+  typedef std::string ObjectName;
+
+  /// Default constructor.
+  explicit Object(const ObjectName &Name) : mName(Name) {}
+
+  /// Virtual destructor.
+  virtual ~Object() {}
+
+  Object(const Object &) = default;
+  Object & operator=(const Object &) = default;
+  Object(Object &&) = default;
+  Object & operator=(Object &&) = default;
+
+  /// Returns identifier of an object.
+  const ObjectName & getName() const noexcept { return mName; }
+
+  /// Returns true if this object has a specified type Ty.
+  template<class Ty> bool is() const { return Ty::name() == mName; }
+
+  /// \brief Casts object to a specified type.
+  ///
+  /// \pre This object must have a specified type, otherwise behavior
+  /// is undefined.
+  template<class Ty> Ty & as() { return static_cast<Ty &>(*this); }
+
+  /// \brief Casts object to a specified type.
+  ///
+  /// \pre This object must have a specified type, otherwise behavior
+  /// is undefined.
+  template<class Ty> const Ty & as() const {
+    return static_cast<const Ty &>(*this);
+  }
+private:
+  ObjectName mName;
+};
+
+/// Type of tokens which may occur in a JSON string.
+enum class Token : char {
+  LEFT_BRACKET = '[',
+  RIGHT_BRACKET = ']',
+  LEFT_BRACE = '{',
+  RIGHT_BRACE = '}',
+  COMMA = ',',
+  COLON = ':',
+  QUOTE = '"',
+  ESCAPE = '\\',
+  DOT = '.',
+  PLUS = '+',
+  MINUS = '-',
+  NUMBER = 'n',
+  IDENTIFIER = 'i',
+  KEYWORD = 'k',
+  INVALID = '\0',
+};
+
+/// List of keywords which may occur in a JSON string.
+enum class Keyword : uint8_t {
+  TRUE = 0,
+  FALSE,
+  NO_VALUE,
+};
+
+/// List of keywords which may occur in a JSON string.
+const char *const KeywordTable[] = {"true", "false", "null"};
+
+inline std::string_view toString(Keyword K) noexcept {
+  assert(0 <= static_cast<std::underlying_type_t<Keyword>>(K) &&
+         static_cast<std::underlying_type_t<Keyword>>(K) <
+             sizeof KeywordTable / sizeof KeywordTable[0] &&
+         "Unknown keyword!");
+  return KeywordTable[static_cast<std::underlying_type_t<Keyword>>(K)];
+}
+
+/// Representation of a JSON string.
+typedef std::string String;
+
+/// Position in a JSON string.
+typedef std::string::size_type Position;
+
+/// This is a lexer for a JSON string.
+class Lexer: private bcl::Uncopyable {
+  /// Checks whether a specified character Ch is a quote.
+  static inline bool isQuote(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::QUOTE);
+  }
+
+  /// Checks whether a specified character Ch is escape ('\').
+  static inline bool isEscape(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::ESCAPE);
+  }
+
+  /// Checks whether a specified character Ch is dot.
+  static inline bool isDot(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::DOT);
+  }
+
+  /// Checks whether a specified character Ch identifies a sign of a number.
+  static inline bool isSign(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::MINUS) ||
+      Ch == static_cast<char>(Token::PLUS);
+  }
+
+  /// Checks whether a specified character Ch is a left brace.
+  static inline bool isLeftBrace(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::LEFT_BRACE);
+  }
+
+  /// Checks whether a specified character Ch is a right brace.
+  static inline bool isRightBrace(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::RIGHT_BRACE);
+  }
+
+  /// Checks whether a specified character Ch is a left bracket.
+  static inline bool isLeftBracket(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::LEFT_BRACKET);
+  }
+
+  /// Checks whether a specified character Ch is a right bracket.
+  static inline bool isRightBracket(char Ch) noexcept {
+    return Ch == static_cast<char>(Token::RIGHT_BRACKET);
+  }
+
+  /// State of a lexer.
+  struct State {
+    State(Position S, Position E, Position N, Token T, bool IsInt) :
+      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt) {}
+
+    Position mStart = 0;
+    Position mEnd = 0;
+    Position mNext = 0;
+    Token mToken;
+    bool mIsIntegral = false;
+  };
+
+public:
+  /// Constructs a lexer for a specified JSON string.
+  explicit Lexer(const String &JSON) : mJSON(JSON), mErrors("json error") {}
+
+  /// Goes to a next token in a JSON string.
+  ///
+  /// The token is represented by characters in a range [start(), end()].
+  /// To access a character following the token use next().
+  /// \return `true` if JSON string has been successfully traversed. If errors
+  /// have been occurred they will be stored in errors() container and this
+  /// returns `false`.
+  bool goToNext() {
+    for (; mNext < mJSON.size() && std::isspace(mJSON[mNext]); ++mNext);
+    mToken = Token::INVALID;
+    if (mNext >= mJSON.size()) {
+      mErrors.insert(JSON_ERROR(1), mNext);
+      mStart = mEnd = mNext = mJSON.size();
+      return false;
+    }
+    mStart = mEnd = mNext;
+    if (isQuote(mJSON[mNext])) {
+      for (++mNext; mNext < mJSON.size(); ++mNext) {
+        if (isEscape(mJSON[mNext])) {
+          ++mNext;
+        } else if (isQuote(mJSON[mNext])) {
+          mEnd = mNext++;
+          mToken = Token::IDENTIFIER;
+          return true;
+        }
+      }
+      mErrors.insert(JSON_ERROR(1), mStart);
+      mStart = mEnd = mNext = mJSON.size();
+      return false;
+    } else if (std::isdigit(mJSON[mNext]) || isSign(mJSON[mNext])) {
+      mToken = Token::NUMBER;
+      mIsIntegral = true;
+      for (++mNext; mNext < mJSON.size(); ++mNext) {
+        if (std::isdigit(mJSON[mNext]))
+          continue;
+        if (isDot(mJSON[mNext])) {
+          if (!mIsIntegral)
+            break;
+          mIsIntegral = false;
+        } else {
+          break;
+        }
+      }
+      mNext = mNext < mJSON.size() ? mNext : mJSON.size();
+      mEnd = mNext - 1;
+      return true;
+    } else if (std::isalpha(mJSON[mNext])) {
+      if (auto K{[this](std::string_view S) {
+            for (std::size_t I = 0,
+                             EI = sizeof KeywordTable / sizeof KeywordTable[0];
+                 I < EI; ++I) {
+              std::string_view Current{KeywordTable[I]};
+              if (S.substr(0, Current.size()) == Current) {
+                mNext = mStart + Current.size();
+                mEnd = mNext - 1;
+                mToken = Token::KEYWORD;
+                mKeyword = static_cast<Keyword>(I);
+                return true;
+              }
+            }
+            return false;
+          }(mJSON.data() + mNext)})
+        return true;
+    }
+    mEnd = mNext;
+    mToken = static_cast<Token>(mJSON[mStart]);
+    if (is(Token::NUMBER) || is(Token::IDENTIFIER) || is(Token::KEYWORD))
+      mToken = Token::INVALID;
+    ++mNext;
+    return true;
+  }
+
+  /// \brief Checks that current token is a special character Ch.
+  ///
+  /// \return If a current token is not a special character Ch this method
+  /// returns false and add appropriate error in the errors collection.
+  bool checkSpecial(Token Ch) {
+    if (is(Ch))
+      return true;
+    mErrors.insert(JSON_ERROR(2), mStart, mJSON[mStart], Ch);
+    return false;
+  }
+
+  /// \brief Checks that current token is an identifier.
+  ///
+  /// \return If a current token is not an identifier this method
+  /// returns false and add appropriate error in the errors collection.
+  bool checkIdentifier() {
+    if (is(Token::IDENTIFIER))
+      return true;
+    mErrors.insert(JSON_ERROR(4), mStart, mJSON[mStart]);
+    return false;
+  }
+
+  /// \brief Checks that current token is an identifier, a number or a keywrod
+  /// ('true', 'false', 'null').
+  ///
+  ///
+  /// \return If a current token is not an identifier and a number this method
+  /// returns false and add appropriate error in the errors collection.
+  bool checkValue() {
+    if (is(Token::IDENTIFIER) || is(Token::NUMBER) ||
+        isKeyword(Keyword::TRUE) || isKeyword(Keyword::FALSE) ||
+        isKeyword(Keyword::NO_VALUE))
+      return true;
+    mErrors.insert(JSON_ERROR(5), mStart, mJSON[mStart]);
+    return false;
+  }
+
+  /// Skips all characters in a JSON string between braces or brackets,
+  /// return false if some errors have been occurred.
+  bool skipInternal() {
+    Token Last;
+    if (is(Token::LEFT_BRACKET))
+      Last = Token::RIGHT_BRACKET;
+    else if (checkSpecial(Token::LEFT_BRACE))
+      Last = Token::RIGHT_BRACE;
+    else
+      return false;
+    int Level = 0;
+    while (goToNext()) {
+      if ((isRightBrace(mJSON[mStart]) || isRightBracket(mJSON[mStart])) &&
+          Level-- == 0)
+        return checkSpecial(Last);
+      if (isLeftBrace(mJSON[mStart]) || isLeftBracket(mJSON[mStart]))
+        ++Level;
+    }
+    return false;
+  }
+
+  /// Resets current lexer position.
+  void resetPosition() noexcept {
+    mStart = mEnd = mNext = 0;
+    mToken = Token::INVALID;
+  }
+
+  /// Sets lexer position and parses the first token at the new position.
+  void setPosition(Position Start) {
+    mStart = mEnd = mNext = Start;
+    mToken = Token::INVALID;
+    goToNext();
+  }
+
+  /// Saves the current position in an internal stack, it can be restored with
+  /// restorePosition() method.
+  void storePosition() {
+    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral));
+  }
+
+  /// Restores the last stored position. If there is no stored positions do
+  /// nothing.
+  void restorePosition() {
+    if (mStates.empty())
+      return;
+    mStart = mStates.top().mStart;
+    mEnd = mStates.top().mEnd;
+    mNext = mStates.top().mNext;
+    mToken = mStates.top().mToken;
+    mIsIntegral = mStates.top().mIsIntegral;
+  }
+
+  /// \brief Returns start position of a current token in the JSON string.
+  Position start() const noexcept { return mStart; }
+
+  /// \brief Returns end position of a current token in the JSON string.
+  Position end() const noexcept { return mEnd; }
+
+  /// Returns position of a character following a current token in the
+  // JSON string.
+  Position next() const noexcept { return mNext; }
+
+  /// Returns true if a current token is equal to a specified one.
+  bool is(Token Token) const noexcept { return mToken == Token; }
+
+  /// Returns true if a current token is an integral number.
+  bool isIntegral() const noexcept {
+    return mToken == Token::NUMBER && mIsIntegral;
+  }
+
+  /// Returns true if a current token is an floating point number.
+  bool isFloatingPoint() const noexcept {
+    return mToken == Token::NUMBER && !mIsIntegral;
+  }
+
+  /// Return true if a current token is a specified keyword.
+  bool isKeyword(Keyword K) const noexcept {
+    return is(Token::KEYWORD) && mKeyword == K;
+  }
+
+  /// Returns container of errors.
+  bcl::Diagnostic & errors() noexcept { return mErrors; }
+
+  /// Returns container of errors.
+  const bcl::Diagnostic & errors() const noexcept { return mErrors; }
+
+  /// Returns true if errors have been occurred, internal errors are
+  /// also considered.
+  bool hasErrors() const {
+    return !errors().empty() || errors().internal_size() > 0;
+  }
+
+  /// Discards limiting quotes of the current token, if it is an identifier, or
+  /// does nothing.
+  std::pair<Position, Position> discardQuote() const noexcept {
+    return is(Token::IDENTIFIER) ?
+      std::make_pair(start() + 1, end() - 1) :
+      std::make_pair(start(), end());
+  }
+
+  /// Returns a JSON string.
+  const String & json() const noexcept { return mJSON; }
+
+private:
+  String mJSON;
+  bcl::Diagnostic mErrors;
+  Position mStart = 0;
+  Position mEnd = 0;
+  Position mNext = 0;
+  Token mToken;
+  bool mIsIntegral = false;
+  Keyword mKeyword = Keyword::NO_VALUE;
+  std::stack<State> mStates;
+};
+
+/// \brief This implements methods to convert value in a JSON string to
+/// specified type and to assign it to a specified destination.
+///
+/// This class should be specialized by different types. There are some
+/// default specialization for simple types for other types conversion
+/// must be specialized manually.
+///
+///
+/// The following static methods should be implemented:
+/// - static bool parse(Ty &, Lexer &) -
+///     Converts value from a JSON string to a type Ty and stores it
+///     in to a specified destination.
+///     Lexer parameter points to the first value token.
+///     This returns true on success.
+/// - static bool parse(Ty &, Lexer &, std::pair<Position, Position>) -
+///     Converts value from a JSON string to a type Ty and stores it
+///     in to a specified destination.
+///     Lexer parameter points to the first value token.
+///     If value is represented as a map {...} then the last parameter is
+///     a position of a value key in a JSON string
+///     (first and end character is quotes). In case of arrays [] the last
+///     parameter is a pair of (0, number), where number is a number of
+///     currently evaluated element of the array.
+///     This returns true on success.
+/// - static void unparse(String &JSON, const Ty &) -
+///     Converts value to string and stores it ina JSON string.
+///
+/// This last parse method is necessary to evaluate compound types, i.e. types
+/// with values represented as {"K1":V1, ..., "KN":VN} or [V1, ..., VN].
+/// The following implementation is recommended. The parse(Ty &, Lexer &) method
+/// will be invoked to convert compound value to Ty and store it in to the
+/// destination specified by the first parameter. In case of compound type this
+/// method invokes Parser<>::traverse() method to traverses all pair "KI":VI
+/// (or only VI in case of arrays) and invokes for each pair the method
+/// parse(Ty *, Lexer &, std::pair<Position, Position>).
+/// The last parameter will be a position of "KI" or a number of currently
+/// evaluated element of array.
+template<class Ty> struct Traits {
+  typedef typename Ty::UnknownTraitsError ValueType;
+};
+
+/// \brief This implements methods to convert value in a JSON string to
+/// specified cell in a static map.
+///
+/// This class can be specialized by different keys in a static map.
+/// By default this uses implementation of Traits for a type of
+/// data stored in a cell. Note that some specialization can traverse
+/// tokens in a JSON string. For example, see specialization for pointers or
+/// bcl::StaticMap.
+template<class CellKey> struct CellTraits {
+  typedef typename CellKey::ValueType ValueType;
+  inline static bool parse(ValueType &Dest, Lexer &Lex)
+      noexcept(
+        noexcept(Traits<ValueType>::parse(Dest, Lex))) {
+    return Traits<ValueType>::parse(Dest, Lex);
+  }
+  inline static void unparse(String &JSON, const ValueType &Obj)
+      noexcept(
+        noexcept(Traits<ValueType>::unparse(JSON, Obj))) {
+    Traits<ValueType>::unparse(JSON, Obj);
+  }
+  inline static typename std::result_of<
+    decltype(&CellKey::name)()>::type name()
+      noexcept(noexcept(CellKey::name())) {
+    return CellKey::name();
+  }
+};
+
+/// \brief This class parses a string which represents JSON and converts it to
+/// an appropriate representation.
+///
+/// \tparam Objects List of JSON objects supported by parser. Each object
+/// should inherited bcl::StaticMap and json::Object.
+template<class... Objects> class Parser {
+  /// List of supported JSON objects.
+  typedef bcl::TypeList<Objects...> ObjectTypeList;
+
+  /// \brief This parses a specified JSON string and converts it to
+  /// a specified type.
+  ///
+  /// There are two ways to use this functor. If a target type is known it is
+  /// possible to use static method parse(), otherwise this functor can be
+  /// passed to a bcl::TypeList::for_each() method. In the last case
+  /// bcl::TypeList should comprise different target types and appropriate type
+  /// will be determined by name. Note that in this case all target type must
+  /// propose a static `Object::ObjectName name()` method.
+  class ParseFunctor {
+  public:
+    /// Converts JSON string to a specified Ty.
+    template<class Ty> static bool parse(Ty &Obj, Lexer &Lex) {
+      Lex.resetPosition();
+      Lex.goToNext();
+      if (!Traits<Ty>::parse(Obj, Lex)) {
+        Lex.errors().insert(JSON_ERROR(6), Lex.start());
+        return false;
+      }
+      if (Lex.json().find_first_not_of(" \t\n\v\f\r", Lex.next()) !=
+          String::npos) {
+        Lex.goToNext();
+        if (Lex.checkSpecial(Token::COMMA))
+          Lex.errors().insert(JSON_ERROR(6), Lex.start());
+        return false;
+      }
+      return true;
+    }
+
+    /// Creates functor to convert JSON string to a type with a specified name.
+    ParseFunctor(Object::ObjectName Name, Lexer &Lex) :
+      mName(Name), mLex(Lex) {}
+
+    /// Converts JSON string to a specified Ty if it has an appropriate name.
+    template<class Ty> void operator()() {
+      if (Ty::name() != mName)
+        return;
+      auto Obj = std::unique_ptr<Ty>(new Ty);
+      if (!parse(*Obj, mLex))
+        return;
+      mObject = std::move(Obj);
+    }
+
+    /// Returns unique pointer to created object or nullptr.
+    std::unique_ptr<Object> stealObject() noexcept {
+      return std::move(mObject);
+    }
+
+  private:
+    Object::ObjectName mName;
+    Lexer &mLex;
+    std::unique_ptr<Object> mObject;
+  };
+
+  /// \brief This unparses JSON object to a JSON string.
+  ///
+  /// There are two ways to use this functor. If type of an object is known it
+  /// is possible to use static method unparse(), otherwise this functor can be
+  /// passed to a bcl::TypeList::for_each() method. In the last case
+  /// bcl::TypeList should comprise different target types and appropriate type
+  /// will be determined by name. Note that in this case all target type must
+  /// propose a static `Object::ObjectName name()` method.
+  class UnparseFunctor {
+  public:
+    /// Unparses JSON object of a specified type.
+    template<class Ty> static String unparse(const Ty &Obj) {
+      String JSON;
+      Traits<Ty>::unparse(JSON, Obj);
+      return JSON;
+    }
+
+    /// Creates functor to unparse a specified JSON object.
+    explicit UnparseFunctor(const Object &Obj, const char *NameKey)
+      : mObj(Obj), mNameKey(NameKey) {
+      assert(NameKey && "Identifier of a JSON object must not be null!");
+    }
+
+    /// Unparses JSON object if it has a specified type Ty.
+    template<class Ty> void operator()() {
+      if (!mObj.is<Ty>())
+        return;
+      mString = unparse(mObj.as<Ty>());
+      assert(mString.front() == '{' &&
+        "The first character in a JSON string must be '{'");
+      assert(mString.back() == '}' &&
+        "The last character in a JSON string must be '}'");
+      std::string Name("\"");
+      Name += mNameKey;
+      Name += "\":\"";
+      Name += mObj.getName() + "\"";
+      if (mString.find(':') != String::npos)
+        Name += ',';
+      mString.insert(1, Name);
+    }
+
+    /// Returns unparsed object.
+    const String & getString() const noexcept { return mString; }
+  private:
+    String mString;
+    const Object &mObj;
+    const char *mNameKey;
+  };
+
+public:
+  /// \brief Traverses all pairs of keys and value in a string bounded with
+  /// left and right braces.
+  ///
+  /// This is a utility method which is used to parse JSON string. It should be
+  /// used to add support for additional value conversions.
+  /// \tparam CT This is specialization of CellTraits or Traits
+  /// templates. For each pair of keys and values the method CT::parse() will be
+  /// called.
+  /// \tparam Ty This is a type of JSON object where the converted values
+  /// must be stored.
+  /// \param [in, out] Dest JSON object which is used to store converted value.
+  /// \param [in, out] Lex Lexer which should point to a Token::LEFT_BRACE or
+  /// Token::LEFT_BRACKET tokens. The method will traverse tokens to
+  /// the Token::RIGHT_BRACE or Token::RIGHT_BRACKET.
+  /// \return True on success or false if some errors have been occurred. Such
+  /// errors can be found in Lex.errors() container.
+  template<class CT, class Ty>
+  static bool traverse(Ty &Dest, Lexer &Lex) {
+    Token Last;
+    if (Lex.is(Token::LEFT_BRACKET))
+      Last = Token::RIGHT_BRACKET;
+    else if (Lex.checkSpecial(Token::LEFT_BRACE))
+      Last = Token::RIGHT_BRACE;
+    else
+      return false;
+    Position Count = 0;
+    if (!Lex.goToNext())
+      return false;
+    // It may be empty container, so it is checked here.
+    // This is not the end of string so do not check that
+    // mLex.next() >= mLex.json().size().
+    if (Lex.is(Last))
+      return true;
+    for (;;) {
+      std::pair<Position, Position> Key(0, Count++);
+      if (Last == Token::RIGHT_BRACE) {
+        if (!Lex.checkIdentifier())
+          return false;
+        Key = std::make_pair(Lex.start(), Lex.end());
+        if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
+            !Lex.goToNext())
+          return false;
+      }
+      if (!Lex.is(Token::LEFT_BRACE) && !Lex.is(Token::LEFT_BRACKET) &&
+          !Lex.checkValue())
+        return false;
+      if (!CT::parse(Dest, Lex, Key))
+        return false;
+      if (!Lex.goToNext())
+        return false;
+      // This is not the end of string so do not check that
+      // mLex.next() >= mLex.json().size().
+      if (Lex.is(Last))
+        return true;
+      if (!Lex.checkSpecial(Token::COMMA))
+        return false;
+      if (!Lex.goToNext())
+        return false;
+    }
+  }
+
+  /// \brief Determines number of keys in array representation.
+  ///
+  /// This is a utility method.
+  /// Array is represented using the following JSON strings:
+  /// {"0":V0, ..., "N":VN} or [V0, ..., VN].
+  /// \returns At first, a number of indexes secondly the maximum index occurred
+  /// in array representation and the last one value identifies whether some
+  /// errors have been occurred (false if any error has been occurred).
+  /// For empty arrays the second value in the tuple id undefined.
+  static std::tuple<Position, Position, bool> numberOfKeys(Lexer &Lex);
+
+  /// \brief Unparses a specified JSON object to a JSON string.
+  ///
+  /// NameKey parameter is a key for a field which marks JSON object identifier
+  /// in a JSON string.
+  static String unparse(const Object &Obj, const char *NameKey = "name") {
+    assert(NameKey && "Identifier of a JSON object must not be null!");
+    UnparseFunctor F(Obj, NameKey);
+    ObjectTypeList::for_each_type(F);
+    return F.getString();
+  }
+
+  /// \brief Unparses a specified JSON object to a JSON string.
+  ///
+  /// The specified JSON object will be previously converted to json::Object
+  /// and then it will be unparsed. This is convenient to add identifier of
+  /// the object (NameKey) to a JSON string. This identifier will be
+  /// automatically added for json::Object only.
+  ///
+  /// NameKey parameter is a key for a field which marks JSON object identifier
+  /// in a JSON string.
+  template<class Ty>
+  static String unparseAsObject(const Ty &Obj, const char *NameKey = "name") {
+    return unparse(static_cast<const Object &>(Obj), NameKey);
+  }
+
+  /// Unparses a specified JSON object to a JSON string.
+  template<class Ty,
+    class = typename std::enable_if<
+      !std::is_same<typename std::decay<Ty>::type, Object>::value>::type>
+    static String unparse(const Ty &Obj) {
+    return UnparseFunctor::unparse(Obj);
+  }
+
+  /// \brief Constructs a lexer for a specified JSON string.
+  ///
+  /// NameKey parameter is a key for a field which marks JSON object identifier
+  /// in a JSON string.
+  explicit Parser(const String &JSON, const char *NameKey = "name")
+    : mLex(JSON), mNameKey(NameKey) {
+    assert(NameKey && "Identifier of a JSON object must not be null!");
+  }
+
+  /// Parses JSON string and returns appropriate JSON object or
+  /// nullptr if errors have occurred.
+  std::unique_ptr<Object> parse() {
+    if (!parseName())
+      return nullptr;
+    ParseFunctor F(
+      mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1), mLex);
+    ObjectTypeList::for_each_type(F);
+    auto Obj = F.stealObject();
+    if (!Obj && !hasErrors())
+      mLex.errors().insert(JSON_ERROR(3), mNameStart, getNameKey());
+    return Obj;
+  }
+
+  /// Parses JSON string and converts it to a specified type,
+  /// returns true on success.
+  template<class Ty> bool parse(Ty &Obj) {
+    return ParseFunctor::parse(Obj, mLex);
+  }
+
+  /// Key stored in a JSON string which marks identifier of an JSON object.
+  const char *getNameKey() noexcept {
+    return mNameKey;
+  }
+
+  /// Returns container of errors.
+  const bcl::Diagnostic & errors() const noexcept { return mLex.errors(); }
+
+  /// Returns true if errors have been occurred, internal errors are
+  /// also considered.
+  bool hasErrors() const { return mLex.hasErrors(); }
+
+private:
+  /// \brief Determines identifier to build appropriate JSONObject object.
+  ///
+  /// \post If this method returns true identifier is represented by characters
+  /// in the range [mNameStart, mNameEnd].
+  /// \return True in success, false if some errors have been occurred.
+  bool parseName() {
+    mLex.resetPosition();
+    if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
+      return false;
+    while (mLex.goToNext()) {
+      if (!mLex.checkIdentifier())
+        return false;
+      bool IsName = (mLex.json().compare(
+        mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
+      if (!mLex.goToNext() || !mLex.checkSpecial(Token::COLON) ||
+          !mLex.goToNext())
+        return false;
+      if (IsName) {
+        if (!mLex.checkIdentifier())
+          return false;
+        mNameStart = mLex.start();
+        mNameEnd = mLex.end();
+        return true;
+      }
+      if ((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) ?
+          !mLex.skipInternal() : !mLex.checkValue())
+        return false;
+      if (!mLex.goToNext())
+        return false;
+      if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
+        break;
+      if (!mLex.checkSpecial(Token::COMMA))
+        return false;
+      }
+    mLex.errors().insert(JSON_ERROR(3), mLex.json().size(), getNameKey());
+    return false;
+  }
+private:
+  Lexer mLex;
+  Position mNameStart = 0;
+  Position mNameEnd = 0;
+  const char *mNameKey;
+};
+
+template<> struct Traits<std::string> {
+  inline static String unescape(const String &Str) {
+    if (Str.size() < 2)
+      return Str;
+    std::string Res;
+    Res.reserve(Str.length());
+    auto I = Str.begin(), EI = Str.end();
+    while (I != EI) {
+      if (*I != '\\' || I + 1 == EI) {
+        Res += *I;
+        ++I;
+        continue;
+      }
+      switch (*(++I)) {
+        case 'n': Res += "\n"; break;
+        case 't': Res += "\t"; break;
+        case 'v': Res += "\v"; break;
+        case 'f': Res += "\f"; break;
+        case 'r': Res += "\r"; break;
+        case '"': case '\\': Res += *I; break;
+        default: continue;
+      }
+      ++I;
+    }
+    return Res;
+  }
+  inline static Position escape(String &JSON, Position Pos) {
+    switch (JSON[Pos]) {
+      case '\n': JSON.replace(Pos, 1, "n"); break;
+      case '\t': JSON.replace(Pos, 1, "t"); break;
+      case '\v': JSON.replace(Pos, 1, "v"); break;
+      case '\f': JSON.replace(Pos, 1, "f"); break;
+      case '\r': JSON.replace(Pos, 1, "r"); break;
+      case '"': case '\\': break;
+      default: return Pos;
+    }
+    JSON.insert(Pos, "\\");
+    return Pos + 1;
+  }
+  inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
+    if (!Lex.is(Token::IDENTIFIER) && !Lex.is(Token::NUMBER) &&
+        !Lex.is(Token::KEYWORD))
+      return false;
+    try {
+      auto Value = Lex.discardQuote();
+      Dest = unescape(
+        Lex.json().substr(Value.first, Value.second - Value.first + 1));
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, const std::string &Obj) {
+    auto I = JSON.size() + 1;
+    JSON += '"' + Obj + '"';
+    for (; I < JSON.size() - 1; ++I)
+      I = escape(JSON, I);
+  }
+};
+
+template<> struct Traits<char> {
+  inline static bool parse(char &Dest, Lexer &Lex) noexcept {
+    std::string Tmp;
+    if (!Traits<std::string>::parse(Tmp, Lex) || Tmp.size() != 1)
+      return false;
+    Dest = Tmp.front();
+    return true;
+  }
+  inline static void unparse(String &JSON, char Obj) {
+    auto I = JSON.size() + 1;
+    JSON += '"';
+    JSON += Obj;
+    JSON += '"';
+    Traits<std::string>::escape(JSON, I);
+  }
+};
+
+template<> struct Traits<int> {
+  inline static bool parse(int &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stoi(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, int Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<long> {
+  inline static bool parse(long &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stol(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, long Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<long long> {
+  inline static bool parse(long long &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stoll(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, long long Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<unsigned> {
+  inline static bool parse(unsigned &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      auto Value = std::stoul(Str);
+      Dest = static_cast<unsigned>(Value);
+      return Dest == Value && Str.find('-') == std::string::npos;
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, unsigned Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<unsigned long> {
+  inline static bool parse(unsigned long &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stoul(Str);
+      return Str.find('-') == std::string::npos;
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, unsigned long Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<unsigned long long> {
+  inline static bool parse(unsigned long long &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stoull(Str);
+      return Str.find('-') == std::string::npos;
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, unsigned long long Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<float> {
+  inline static bool parse(float &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stof(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, float Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<double> {
+  inline static bool parse(double &Dest, Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = std::stod(Str);
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, double Obj) {
+    JSON += std::to_string(Obj);
+  }
+};
+
+template<> struct Traits<bool> {
+  inline static bool parse(bool &Dest, Lexer &Lex) noexcept {
+    try {
+      if (Lex.isKeyword(Keyword::TRUE)) {
+        return Dest = true;
+      } else if (Lex.isKeyword(Keyword::FALSE)) {
+        return !(Dest = false);
+      }
+      std::string Str;
+      Traits<std::string>::parse(Str, Lex);
+      Dest = Str == toString(Keyword::TRUE);
+      return (Str == toString(Keyword::TRUE) ||
+              Str == toString(Keyword::FALSE));
+    }
+    catch (...) {
+      return false;
+    }
+  }
+  inline static void unparse(String &JSON, bool Obj) {
+    JSON += Obj ? toString(Keyword::TRUE) : toString(Keyword::FALSE);
+  }
+};
+
+template<> struct Traits<char *> {
+  inline static bool parse(char *&Dest, Lexer &Lex) {
+    char *TmpDest = nullptr;
+    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
+      try {
+        Position MaxIdx, Count;
+        bool Ok;
+        std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
+        if (!Ok)
+          return false;
+        if (Count != 0) {
+          if (Count < MaxIdx + 1) {
+            /// User of JSON serializer can not determine if there is some
+            /// uninitialized elements in an array without manual parsing of
+            /// a JSON string. So do not parse such arrays. This array
+            /// should be parsed as a map.
+            Lex.errors().insert(JSON_ERROR(7), Lex.start());
+            throw 0;
+          } else if (Count > MaxIdx + 1) {
+            Lex.errors().insert(JSON_ERROR(8), Lex.start());
+
+            throw 0;
+          }
+          TmpDest = new char[MaxIdx + 1];
+        }
+        // Note, in case of empty array traverse also should be called to move
+        // lexer position to the end of this array.
+        if (!Parser<>::traverse<Traits<char *>>(TmpDest, Lex))
+          throw 0;
+      }
+      catch (...) {
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
+        return false;
+      }
+    } else {
+      try {
+        std::string Unescaped;
+        if (!Traits<std::string>::parse(Unescaped, Lex))
+          return false;
+        TmpDest = new char[Unescaped.length() + 1];
+        Unescaped.copy(TmpDest, Unescaped.length());
+        TmpDest[Unescaped.length()] = '\0';
+      }
+      catch (...) {
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
+        return false;
+      }
+    }
+    Dest = TmpDest;
+    return true;
+  }
+  inline static bool parse(char *&Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    if (Key.first != 0) {
+      // Note that Idx will be successfully converted because this check has
+      // been performed when memory for the Dest array has been allocated.
+      // This also implies that Dest[Idx] can not produce out of range exception.
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
+      return Traits<char>::parse(Dest[Idx], Lex);
+    } else {
+      return Traits<char>::parse(Dest[Key.second], Lex);
+    }
+  }
+  inline static void unparse(String &JSON, const char *Obj) {
+    if (!Obj)
+      return;
+    auto I = JSON.size() + 1;
+    JSON += "\"";
+    JSON += Obj;
+    JSON += "\"";
+    for (; I < JSON.size() - 1; ++I)
+      I = Traits<std::string>::escape(JSON, I);
+  }
+};
+
+template<class Ty> struct Traits<Ty *> {
+  inline static bool parse(Ty *&Dest, Lexer &Lex) {
+    Ty *TmpDest = nullptr;
+    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
+      try {
+        Position MaxIdx, Count;
+        bool Ok;
+        std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
+        if (!Ok)
+          return false;
+        if (Count != 0) {
+          if (Count < MaxIdx + 1) {
+            /// User of JSON serializer can not determine if there is some
+            /// uninitialized elements in an array without manual parsing of
+            /// a JSON string. So do not parse such arrays. This array
+            /// should be parsed as a map.
+            Lex.errors().insert(JSON_ERROR(7), Lex.start());
+            throw 0;
+          } else if (Count > MaxIdx + 1) {
+            Lex.errors().insert(JSON_ERROR(8), Lex.start());
+
+            throw 0;
+          }
+          TmpDest = new Ty[MaxIdx + 1];
+        }
+        // Note, in case of empty array traverse also should be called to move
+        // lexer position to the end of this array.
+        if (!Parser<>::traverse<Traits<Ty *>>(TmpDest, Lex))
+          throw 0;
+      }
+      catch (...) {
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
+        return false;
+      }
+    } else {
+      try {
+        auto Value = Lex.discardQuote();
+        TmpDest = new Ty;
+        if (!Traits<Ty>::parse(*TmpDest, Lex))
+          throw 0;
+      }
+      catch (...) {
+        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        return false;
+      }
+    }
+    Dest = TmpDest;
+    return true;
+  }
+  inline static bool parse(Ty *&Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    if (Key.first != 0) {
+      // Note that Idx will be successfully converted because this check has
+      // been performed when memory for the Dest array has been allocated.
+      // This also implies that Dest[Idx] can not produce out of range exception.
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
+      return Traits<Ty>::parse(Dest[Idx], Lex);
+    } else {
+      return Traits<Ty>::parse(Dest[Key.second], Lex);
+    }
+  }
+  inline static void unparse(String &JSON, const Ty* Obj) {
+    if (Obj)
+      Traits<Ty>::unparse(JSON, *Obj);
+  }
+};
+
+template<class Ty> struct Traits<const Ty *> {
+  inline static bool parse(const Ty *&Dest, Lexer &Lex) {
+    Ty *TmpDest;
+    if (Traits<Ty *>::parse(TmpDest, Lex)) {
+      Dest = TmpDest;
+      return true;
+    }
+    return false;
+  }
+  inline static void unparse(String &JSON, const Ty* Obj) {
+      Traits<Ty *>::unparse(JSON, Obj);
+  }
+};
+
+template<class Ty, class Allocator>
+struct Traits<std::vector<Ty, Allocator>> {
+  inline static bool parse(std::vector<Ty, Allocator> &Dest, Lexer &Lex) {
+    Position MaxIdx, Count;
+    bool Ok;
+    std::tie(Count, MaxIdx, Ok) = Parser<>::numberOfKeys(Lex);
+    if (!Ok)
+      return false;
+    if (Count != 0) {
+      if (Count < MaxIdx + 1) {
+        /// User of JSON serializer can not determine if there is some
+        /// uninitialized elements in an array without manual parsing of
+        /// a JSON string. So do not parse such arrays. This array
+        /// should be parsed as a map.
+        Lex.errors().insert(JSON_ERROR(7), Lex.start());
+        return false;
+      } else if (Count > MaxIdx + 1) {
+        Lex.errors().insert(JSON_ERROR(8), Lex.start());
+        return false;
+      }
+    }
+    Dest.resize(Count);
+    // Note, in case of empty array traverse also should be called to move
+    // lexer position to the end of this array.
+    return Parser<>::
+      traverse<Traits<std::vector<Ty, Allocator>>>(Dest, Lex);
+  }
+  inline static bool parse(std::vector<Ty, Allocator> &Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    if (Key.first != 0) {
+      // Note that Idx will be successfully converted because this check has
+      // been performed when memory for the Dest array has been allocated.
+      // This also implies that Dest[Idx] can not produce out of range exception.
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
+      return Traits<Ty>::parse(Dest[Idx], Lex);
+    } else {
+      return Traits<Ty>::parse(Dest[Key.second], Lex);
+    }
+  }
+  inline static void unparse(String &JSON,
+      const std::vector<Ty, Allocator> &Obj) {
+    typedef std::vector<Ty, Allocator> VecTy;
+    if (!Obj.empty()) {
+      std::vector<String> Values(Obj.size());
+      bool HasEmpty = false;
+      for (typename VecTy::size_type I = 0; I < Obj.size(); ++I) {
+        Traits<typename VecTy::value_type>::unparse(Values[I], Obj[I]);
+        HasEmpty = HasEmpty || Values[I].empty();
+      }
+      if (HasEmpty) {
+        JSON += '{';
+        for (typename VecTy::size_type I = 0; I < Obj.size(); ++I) {
+          if (Values[I].empty())
+            continue;
+          JSON += "\"";
+          Traits<unsigned long long>::unparse(JSON, I);
+          JSON += "\":" + Values[I] + ",";
+        }
+        if (JSON.back() == ',')
+          JSON.erase(JSON.size() - 1);
+        JSON += '}';
+      } else {
+        JSON += '[';
+        for (auto &V : Values)
+          JSON += V + ',';
+        assert(JSON.back() == ',' && "A delimiter must be a comma!");
+        JSON.erase(JSON.size() - 1);
+        JSON += ']';
+      }
+    } else {
+      JSON += "[]";
+    }
+  }
+};
+
+template<class KeyTy, class Compare, class Allocator>
+struct Traits<std::set<KeyTy, Compare, Allocator>> {
+  typedef std::set<KeyTy, Compare, Allocator> SetTy;
+  inline static bool parse(SetTy &Dest, Lexer &Lex) {
+    if (!Lex.checkSpecial(Token::LEFT_BRACKET))
+      return false;
+    return Parser<>::traverse<Traits<SetTy>>(Dest, Lex);
+  }
+  inline static bool parse(SetTy &Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    KeyTy KeyValue;
+    if (!Traits<KeyTy>::parse(KeyValue, Lex))
+      return false;
+    auto Pair = Dest.insert(std::move(KeyValue));
+    if (!Pair.second) {
+      Lex.errors().insert(JSON_ERROR(8), Lex.start());
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, const SetTy &Obj) {
+    JSON += '[';
+    if (!Obj.empty()) {
+      auto I = Obj.begin(), EI = Obj.end();
+      for (--EI; I != EI; ++I) {
+        String Key;
+        Traits<KeyTy>::unparse(Key, *I);
+        if (!Key.empty())
+          JSON += Key + ',';
+      }
+      String Key;
+      Traits<KeyTy>::unparse(Key, *I);
+      if (!Key.empty())
+        JSON += Key;
+      else if (JSON.back() == ',')
+        JSON.erase(JSON.size() - 1);
+    }
+    JSON += ']';
+  }
+};
+
+template<class KeyTy, class Ty, class Compare, class Allocator>
+struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
+  typedef std::map<KeyTy, Ty, Compare, Allocator> MapTy;
+  inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
+  }
+  inline static bool parse(MapTy &Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    Lex.storePosition();
+    Lex.setPosition(Key.first);
+    KeyTy KeyValue;
+    bool IsKey = Traits<KeyTy>::parse(KeyValue, Lex);
+    Lex.restorePosition();
+    if (!IsKey)
+      return false;
+    auto Pair = Dest.emplace(KeyValue, Ty());
+    if (!Pair.second) {
+      Lex.errors().insert(JSON_ERROR(8), Lex.start());
+      return false;
+    }
+    if (!Traits<Ty>::parse(Pair.first->second, Lex)) {
+      Dest.erase(Pair.first);
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, const MapTy &Obj) {
+    JSON += '{';
+    if (!Obj.empty()) {
+      auto I = Obj.begin(), EI = Obj.end();
+      for (--EI; I != EI; ++I) {
+        String Value;
+        Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
+        if (!Value.empty()) {
+          String Id;
+          Traits<typename MapTy::key_type>::unparse(Id, I->first);
+          Id = bcl::quote(std::move(Id));
+          JSON += Id + ':'+ Value + ',';
+        }
+      }
+      String Value;
+      Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
+      if (!Value.empty()) {
+        String Id;
+        Traits<typename MapTy::key_type>::unparse(Id, I->first);
+        Id = bcl::quote(std::move(Id));
+        JSON += Id + ':' + Value;
+      } else if (JSON.back() == ',') {
+        JSON.erase(JSON.size() - 1);
+      }
+    }
+    JSON += '}';
+  }
+};
+
+template<class KeyTy, class Ty, class Compare, class Allocator>
+struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
+  typedef std::multimap<KeyTy, Ty, Compare, Allocator> MapTy;
+  inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
+  }
+  inline static bool parse(MapTy &Dest, Lexer &Lex,
+    std::pair<Position, Position> Key) {
+    Lex.storePosition();
+    Lex.setPosition(Key.first);
+    KeyTy KeyValue;
+    bool IsKey = Traits<KeyTy>::parse(KeyValue, Lex);
+    Lex.restorePosition();
+    if (!IsKey)
+      return false;
+    auto Itr = Dest.emplace(KeyValue, Ty());
+    if (Itr == Dest.end())
+      return false;
+    if (!Traits<Ty>::parse(Itr->second, Lex)) {
+      Dest.erase(Itr);
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, const MapTy &Obj) {
+    JSON += '{';
+    if (!Obj.empty()) {
+      auto I = Obj.begin(), EI = Obj.end();
+      for (--EI; I != EI; ++I) {
+        String Value;
+        Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
+        if (!Value.empty()) {
+          String Id;
+          Traits<typename MapTy::key_type>::unparse(Id, I->first);
+          Id = bcl::quote(std::move(Id));
+          JSON += Id + ':' + Value + ',';
+        }
+      }
+      String Value;
+      Traits<typename MapTy::mapped_type>::unparse(Value, I->second);
+      if (!Value.empty()) {
+        String Id;
+        Traits<typename MapTy::key_type>::unparse(Id, I->first);
+        Id = bcl::quote(std::move(Id));
+        JSON += Id + ':' + Value;
+      } else if (JSON.back() == ',') {
+        JSON.erase(JSON.size() - 1);
+      }
+    }
+    JSON += '}';
+  }
+};
+
+namespace detail {
+/// This functor parses a value which starts with the last token extracted
+/// from a JSON string, converts it to an appropriate type and assigns
+/// to an appropriate field in a JSON object implemented as a bcl::StaticMap.
+class ParseCellFunctor {
+public:
+  /// \brief Creates this functor to parse a value associated with
+  /// a specified key.
+  ///
+  /// The Key parameter is necessary to identify destination which should be set
+  /// on the parsed value.
+  ParseCellFunctor(std::pair<Position, Position> Key, Lexer &Lex) : mLex(Lex),
+    mKey(Key), mHasError(false) {}
+
+  /// \brief Parses a value specified by the last token evaluated by the
+  /// lexer, converts it to an appropriate type and assigns to a currently
+  /// evaluated key determined in constructor.
+  ///
+  /// Note that the current token may be beginning of a compound value,
+  /// for example '{'.
+  template<class CellTy> void operator()(CellTy *Cell) {
+    typedef typename CellTy::CellKey CellKey;
+    if (mLex.json().compare(
+          mKey.first + 1, mKey.second - mKey.first - 1 ,
+          CellTraits<CellKey>::name()) != 0)
+      return;
+    mIsFound = true;
+    mHasError = !CellTraits<CellKey>::parse(
+      Cell->template value<CellKey>(), mLex);
+  }
+
+  /// Returns true if errors have been occurred during conversion.
+  bool hasError() const noexcept { return mHasError; }
+
+  /// Returns true if there is a field with the specified key.
+  bool isFound() const noexcept { return mIsFound; }
+private:
+  Lexer &mLex;
+  std::pair<Position, Position> mKey;
+  bool mHasError;
+  bool mIsFound = false;
+};
+
+/// This functor unparses JSON object represented as a bcl::StaticMap. It should
+/// be called for each cell in the map.
+class UnparseCellFunctor {
+public:
+  /// Creates functor which stores unparsed data in a specified JSON string.
+  explicit UnparseCellFunctor(String &JSON) : mIsFirst(true), mJSON(JSON) {}
+
+  /// Unparses a specified cell if it has a value.
+  template<class CellTy> void operator()(CellTy *Cell) {
+    typedef typename CellTy::CellKey CellKey;
+    String Value;
+    CellTraits<CellKey>::unparse(Value, Cell->template value<CellKey>());
+    if (Value.empty())
+      return;
+    if (!mIsFirst)
+      mJSON += ',';
+    else
+      mIsFirst = false;
+    Traits<
+      typename std::decay<
+        typename std::result_of<
+          decltype(&CellTraits<CellKey>::name)()>::type>::type>::
+      unparse(mJSON, CellTraits<CellKey>::name());
+    mJSON += ':' + Value;
+  }
+private:
+  bool mIsFirst;
+  String &mJSON;
+};
+}
+
+template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
+  inline static bool parse(bcl::StaticMap<Args...> &Dest, Lexer &Lex) {
+    if (!Lex.checkSpecial(Token::LEFT_BRACE))
+      return false;
+    return Parser<>::
+      traverse<Traits<bcl::StaticMap<Args...>>>(Dest, Lex);
+  }
+  inline static bool parse(bcl::StaticMap<Args...> &Dest, Lexer &Lex,
+      std::pair<Position, Position> Key) {
+    detail::ParseCellFunctor Parse(Key, Lex);
+    Dest.for_each(Parse);
+    if (!Parse.isFound() &&
+        (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)))
+      return Lex.skipInternal();
+    return !Parse.hasError();
+  }
+  inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
+    detail::UnparseCellFunctor Unparse(JSON);
+    JSON += '{';
+    Obj.for_each(Unparse);
+    JSON += '}';
+  }
+};
+
+template<class... Objects> std::tuple<Position, Position, bool>
+Parser<Objects...>::numberOfKeys(Lexer &Lex) {
+  Lex.storePosition();
+  Position MaxIdx = 0;
+  Position Count = 0;
+  std::set<unsigned long long> Indexes;
+  Token Last;
+  if (Lex.is(Token::LEFT_BRACKET))
+    Last = Token::RIGHT_BRACKET;
+  else if (Lex.checkSpecial(Token::LEFT_BRACE))
+    Last = Token::RIGHT_BRACE;
+  else
+    return std::make_tuple(0, 0, false);
+  if (!Lex.goToNext())
+    return std::make_tuple(0, 0, false);
+  if (Lex.is(Last)) {
+    Lex.restorePosition();
+    return std::make_tuple(0, 0, true);
+  }
+  for (;;) {
+    ++Count;
+    if (Last == Token::RIGHT_BRACE) {
+      if (!Lex.checkIdentifier())
+        return std::make_tuple(0, 0, false);
+      unsigned long long Idx;
+      if (!Traits<unsigned long long>::parse(Idx, Lex))
+        return std::make_tuple(0, 0, false);
+      if (!Indexes.insert(Idx).second) {
+        Lex.errors().insert(JSON_ERROR(8), Lex.start());
+        return std::make_tuple(0, 0, false);
+      }
+      MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
+      if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
+          !Lex.goToNext())
+        return std::make_tuple(0, 0, false);
+    }
+    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)) {
+      if (!Lex.skipInternal())
+        return std::make_tuple(0, 0, false);
+    } else if (!Lex.checkValue()) {
+      return std::make_tuple(0, 0, false);
+    }
+    if (!Lex.goToNext())
+      return std::make_tuple(0, 0, false);
+    if (Lex.is(Last))
+      break;
+    if (!Lex.checkSpecial(Token::COMMA))
+      return std::make_tuple(0, 0, false);
+    if (!Lex.goToNext())
+      return std::make_tuple(0, 0, false);
+  }
+  Lex.restorePosition();
+  return std::make_tuple(
+    Count, Last == Token::RIGHT_BRACE ? MaxIdx : Count - 1, true);
+}
+
+template<> struct Traits<bcl::Diagnostic> {
+  inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex) {
+    return Parser<>::
+      traverse<Traits<bcl::Diagnostic>>(Dest, Lex);
+  }
+  inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
+    std::pair<Position, Position>) {
+    std::string Msg;
+    if (!Traits<std::string>::parse(Msg, Lex))
+      return false;
+    auto KindSize = std::strlen(Dest.getKind());
+    std::size_t Code;
+    std::uintmax_t Pos;
+    int Text = -1;
+    if (Msg.compare(0, KindSize, Dest.getKind()) != 0 ||
+        std::sscanf(Msg.c_str() + KindSize, " C%zu(%ju):%n",
+                    &Code, &Pos, &Text) != 2 ||
+        Text < 0 || Msg[KindSize + Text] != ' ' ||
+        !Dest.insert(Code, "%s", Pos, Msg.c_str() + KindSize + Text + 1)) {
+      Lex.errors().insert(JSON_ERROR(9), Lex.start());
+      return false;
+    }
+    return true;
+  }
+  inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
+    JSON += '[';
+    if (!Obj.empty()) {
+      auto I = Obj.begin(), EI = Obj.end();
+      bcl::Diagnostic::size_type Idx = 0;
+      for (--EI; I != EI; ++I, ++Idx) {
+        Traits<bcl::Diagnostic::value_type>::unparse(JSON, *I);
+        JSON += ',';
+      }
+      Traits<bcl::Diagnostic::value_type>::unparse(JSON, *I);
+    }
+    JSON += ']';
+  }
+};
+
+/// Specialization of JSON serialization traits for std::optional type.
+///
+/// Note that 'T' must be default constructible and copy assignable.
+template<class T> struct Traits<std::optional<T>> {
+  static_assert(std::is_default_constructible<T>::value,
+    "Underlining type must be default constructible!");
+  static_assert(std::is_copy_assignable<T>::value,
+    "Underlining type must be copy assignable!");
+  static bool parse(std::optional<T> &Dest, ::json::Lexer &Lex) noexcept {
+    try {
+      std::string Str;
+      if (Lex.isKeyword(Keyword::NO_VALUE) ||
+          !std::is_convertible<T, std::string>::value &&
+              Traits<std::string>::parse(Str, Lex) &&
+              Str == toString(Keyword::NO_VALUE)) {
+        Dest.reset();
+      } else {
+        T Tmp;
+        if (!Traits<T>::parse(Tmp, Lex))
+          return false;
+        Dest = std::move(Tmp);
+      }
+    }
+    catch (...) {
+      return false;
+    }
+    return true;
+  }
+  static void unparse(String &JSON, const std::optional<T> &Obj) {
+    if (Obj.has_value())
+      Traits<T>::unparse(JSON, *Obj);
+    else
+      JSON += toString(Keyword::NO_VALUE);
+  }
+};
+}
+
+//===- Definition of macros which simplifies definition of a JSON-object --===//
+#include "JsonObjectMacros.h"
+
+#endif// TSAR_REQUESTS_H
diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 74e35eb..52823a4 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -1,308 +1,308 @@
-//===--- RedirectIO.h ----- Input/Output Redirection ------------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file proposes redirection functionality for input/output operations.
-// This is similar to using '>' in command line. For example, to implement
-// ./a.out 2>data.err in the code of 'a' the RedirectIO can be used as follows:
-//
-// // a.cpp
-// #include <bcl/RedirectIO.h>
-// int main() {
-//   bcl::RedirectIO R(STDERR_FILENO, "data.err");
-//   // now all writings in stderr will be redirected to "data.err"
-// }
-//
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_REDIRECT_IO_H
-#define BCL_REDIRECT_IO_H
-
-#include "Diagnostic.h"
-#include "utility.h"
-#include <assert.h>
-#include <cctype>
-#include <cerrno>
-#include <cstdio>
-#include <cstring>
-#include <string>
-
-#if defined(_MSC_VER)
-# include <io.h>
-# define dup2 _dup2
-#define fileno _fileno
-#ifndef STDIN_FILENO
-# define STDIN_FILENO 0
-#endif
-#ifndef STDOUT_FILENO
-# define STDOUT_FILENO 1
-#endif
-#ifndef STDERR_FILENO
-# define STDERR_FILENO 2
-#endif
-#elif defined(__CYGWIN__)
-# include <io.h>
-#else
-# include <unistd.h>
-#endif
-
-namespace bcl {
-// This proposes redirection functionality for input/output operations.
-class RedirectIO {
-public:
-  /// The target file for redirection will be opened according to this mode.
-  enum class Mode : char {
-    Rewrite = 'w',
-    Append = 'a',
-    Read = 'r',
-  };
-
-  /// \brief Default constructor, nothing will be redirected.
-  ///
-  /// Note that only move operations are available, copy constructor and
-  /// assignment are deleted.
-  RedirectIO() : mFile(nullptr) {}
-
-  /// \brief Redirect file with handle descriptor From to a file with a name To.
-  ///
-  /// The To file will be opened in a mode according to a specified node M.
-  /// In case of Mode::Rewrite the file will be opened in mode "w+" and
-  /// in case of Mode::Append the file will be opened in mode "a+".
-  /// In case of Mode::Read the file will be opened in mode "r+.
-  /// In case of errors the file will not be opened and description of errors
-  /// becomes available from errors() container.
-  RedirectIO(int From, const std::string &To, Mode M = Mode::Rewrite) :
-    mErrors(new bcl::Diagnostic("redirect error")),
-    mFile(nullptr), mFromHandle(From), mToName(To) {
-    const char ModeStr[3] = { static_cast<char>(M), '+', '\0' };
-    mFile = std::fopen(To.data(), ModeStr);
-    if (!mFile) {
-      storeErrNo("fopen");
-      return;
-    }
-    if (dup2(fileno(mFile), mFromHandle) == -1) {
-      storeErrNo("dup2");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      mFile = nullptr;
-      return;
-    }
-    if (M == Mode::Append) {
-      // This is necessary to move position to the end of the file,
-      // otherwise a result of ftell() points to the beginning of the file.
-      while (fgetc(mFile) != EOF);
-      if (!std::feof(mFile)) {
-        storeErrNo("fgetc");
-        if (fclose(mFile) != 0)
-          storeErrNo("fclose");
-        mFile = nullptr;
-        return;
-      }
-    }
-    mDiffStart = mDiffPos = std::ftell(mFile);
-    if (mDiffPos == -1) {
-      storeErrNo("ftell");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      mFile = nullptr;
-      return;
-    }
-  }
-
-  /// Destructor closes a target file but redirected descriptor stays open and
-  /// redirection is still performed.
-  ~RedirectIO() {
-    // Note that when move operation is executed destructor also called,
-    // to determine this case let us use mayRedirected().
-    // This is possible because mErrors will be unset when move is performed.
-    if (!mayRedirected() || !mFile)
-      return;
-    if (fclose(mFile) != 0)
-      storeErrNo("fclose");
-    mFile = nullptr;
-  }
-
-  RedirectIO(const RedirectIO &) = delete;
-  RedirectIO & operator=(const RedirectIO &) = delete;
-  /// Moves redirection to this object, nothing is redirected by RHS after that.
-  RedirectIO(RedirectIO &&RHS) : RedirectIO() { swap(RHS); }
-
-  /// Moves redirection to this object, a target file of a previous redirection
-  /// will be closed and nothing is redirected by RHS after that.
-  RedirectIO & operator=(RedirectIO &&RHS) {
-    if (this != &RHS) {
-      RedirectIO Tmp(std::move(RHS));
-      swap(Tmp);
-    }
-    return *this;
-  }
-
-  /// \brief Returns true if redirection is active, note that in case of errors
-  /// this also returns true.
-  ///
-  /// \return This returns false only if default constructor has been used
-  /// to create a RedirectIO object.
-  bool mayRedirected() const noexcept { return mErrors != nullptr; }
-
-  /// Returns container of errors.
-  const bcl::Diagnostic & errors() const noexcept {
-    assert(mayRedirected() && "Redirection has not been activated (default constructor was used)!");
-    return *mErrors;
-  }
-
-  /// Returns true if errors have been occurred, internal errors are
-  /// also considered.
-  bool hasErrors() const {
-    return mayRedirected() &&
-      (!errors().empty() || errors().internal_size() > 0);
-  }
-
-  /// Returns a name of target file for redirection.
-  const std::string & fileName() const noexcept { return mToName; }
-
-  /// \brief Returns true if some changes have been made since the last
-  /// position setting.
-  ///
-  /// \return If some errors occur this method is going to return false and
-  /// store errors description in a diagnostic container (see errors()).
-  bool isDiff() {
-    if (!mayRedirected())
-      return false;
-    // It is necessary to perform this check because fflush(NULL) flushes all
-    // opened files and this is unwanted behavior.
-    if (!mFile) {
-      storeErrNo(EINVAL, "fflush");
-      return false;
-    }
-    if (std::fflush(mFile) != 0) {
-      storeErrNo("fflush");
-      return false;
-    }
-    auto Pos = std::ftell(mFile);
-    if (Pos == -1) {
-      storeErrNo("ftell");
-      return false;
-    }
-    return Pos != mDiffPos;
-  }
-
-  /// \brief Returns changes that have been made since the last
-  /// position setting.
-  ///
-  /// \return If some errors occur this method is going to return empty string
-  /// and store errors description in a diagnostic container (see errors()).
-  /// If input is redirected this method returns data which have not been
-  /// read yet.
-  std::string diff() {
-    if (!isDiff())
-      return "";
-    auto Pos = std::ftell(mFile);
-    if (Pos == -1) {
-      storeErrNo("ftell");
-      return "";
-    }
-    if (std::fseek(mFile, mDiffPos, SEEK_SET) != 0) {
-      storeErrNo("fseek");
-      return "";
-    }
-    char Buf[100];
-    std::string Str;
-    // Note, that data may contain null characters.
-    std::size_t Size;
-    do {
-      Size = std::fread(Buf, 1, sizeof(Buf), mFile);
-      Str.append(Buf, Size);
-    } while (Size == sizeof(Buf));
-    if (!std::feof(mFile)) {
-      storeErrNo("fread");
-      if (std::fseek(mFile, Pos, SEEK_SET) != 0)
-        storeErrNo("fseek");
-      return "";
-    }
-    return Str;
-  }
-
-  /// Reset position to perform diff() comparison. Position will the same
-  /// as when a redirection has been occurred.
-  void resetDiffPos() noexcept { mDiffPos = mDiffStart; }
-
-  /// Set position to perform diff() comparison to a current position.
-  bool setDiffPos() {
-    if (!mayRedirected())
-      return false;
-    if (!mFile) {
-      storeErrNo(EINVAL, "ftell");
-      return false;
-    }
-    // The position may be changed through the redirected descriptor, so discard
-    // the one which is known to the stream.
-    if (std::fflush(mFile) != 0) {
-      storeErrNo("fflush");
-      return false;
-    }
-    auto Pos = std::ftell(mFile);
-    if (Pos == -1) {
-      storeErrNo("ftell");
-      return false;
-    }
-    mDiffPos = Pos;
-    return true;
-  }
-
-private:
-  /// Exchanges redirections of two objects.
-  void swap(RedirectIO &RHS) {
-    std::swap(mErrors, RHS.mErrors);
-    std::swap(mFromHandle, RHS.mFromHandle);
-    std::swap(mToName, RHS.mToName);
-    std::swap(mFile, RHS.mFile);
-    std::swap(mDiffPos, RHS.mDiffPos);
-    std::swap(mDiffStart, RHS.mDiffStart);
-  }
-
-  /// Stores description of error ErrNos to the errors() container.
-  ///
-  /// \param [in] Number of error. This must be one of possible errno values.
-  /// \param [in] Op This is an operation which produces an error.
-  void storeErrNo(int ErrNo, const char *Op) {
-    auto Error = std::strerror(ErrNo);
-    mErrors->insert(ErrNo, "%s: %c%s (%s)",
-      0, mToName.data(), std::tolower(Error[0]), Error + 1, Op);
-  }
-
-  /// Stores description of error available from errno macros to the errors()
-  /// container.
-  ///
-  /// \param [in] Op This is an operation which produces an error.
-  void storeErrNo(const char *Op) {
-    auto Error = std::strerror(errno);
-    mErrors->insert(errno, "%s: %c%s (%s)",
-      0, mToName.data(), std::tolower(Error[0]), Error + 1, Op);
-  }
-
-  std::unique_ptr<bcl::Diagnostic> mErrors;
-  int mFromHandle = -1;
-  std::string mToName;
-  FILE *mFile;
-  long mDiffPos = 0;
-  long mDiffStart = 0;
-};
-}
-
-#endif//BCL_REDIRECT_IO_H
+//===--- RedirectIO.h ----- Input/Output Redirection ------------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file proposes redirection functionality for input/output operations.
+// This is similar to using '>' in command line. For example, to implement
+// ./a.out 2>data.err in the code of 'a' the RedirectIO can be used as follows:
+//
+// // a.cpp
+// #include <bcl/RedirectIO.h>
+// int main() {
+//   bcl::RedirectIO R(STDERR_FILENO, "data.err");
+//   // now all writings in stderr will be redirected to "data.err"
+// }
+//
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_REDIRECT_IO_H
+#define BCL_REDIRECT_IO_H
+
+#include "Diagnostic.h"
+#include "utility.h"
+#include <assert.h>
+#include <cctype>
+#include <cerrno>
+#include <cstdio>
+#include <cstring>
+#include <string>
+
+#if defined(_MSC_VER)
+# include <io.h>
+# define dup2 _dup2
+#define fileno _fileno
+#ifndef STDIN_FILENO
+# define STDIN_FILENO 0
+#endif
+#ifndef STDOUT_FILENO
+# define STDOUT_FILENO 1
+#endif
+#ifndef STDERR_FILENO
+# define STDERR_FILENO 2
+#endif
+#elif defined(__CYGWIN__)
+# include <io.h>
+#else
+# include <unistd.h>
+#endif
+
+namespace bcl {
+// This proposes redirection functionality for input/output operations.
+class RedirectIO {
+public:
+  /// The target file for redirection will be opened according to this mode.
+  enum class Mode : char {
+    Rewrite = 'w',
+    Append = 'a',
+    Read = 'r',
+  };
+
+  /// \brief Default constructor, nothing will be redirected.
+  ///
+  /// Note that only move operations are available, copy constructor and
+  /// assignment are deleted.
+  RedirectIO() : mFile(nullptr) {}
+
+  /// \brief Redirect file with handle descriptor From to a file with a name To.
+  ///
+  /// The To file will be opened in a mode according to a specified node M.
+  /// In case of Mode::Rewrite the file will be opened in mode "w+" and
+  /// in case of Mode::Append the file will be opened in mode "a+".
+  /// In case of Mode::Read the file will be opened in mode "r+.
+  /// In case of errors the file will not be opened and description of errors
+  /// becomes available from errors() container.
+  RedirectIO(int From, const std::string &To, Mode M = Mode::Rewrite) :
+    mErrors(new bcl::Diagnostic("redirect error")),
+    mFile(nullptr), mFromHandle(From), mToName(To) {
+    const char ModeStr[3] = { static_cast<char>(M), '+', '\0' };
+    mFile = std::fopen(To.data(), ModeStr);
+    if (!mFile) {
+      storeErrNo("fopen");
+      return;
+    }
+    if (dup2(fileno(mFile), mFromHandle) == -1) {
+      storeErrNo("dup2");
+      if (fclose(mFile) != 0)
+        storeErrNo("fclose");
+      mFile = nullptr;
+      return;
+    }
+    if (M == Mode::Append) {
+      // This is necessary to move position to the end of the file,
+      // otherwise a result of ftell() points to the beginning of the file.
+      while (fgetc(mFile) != EOF);
+      if (!std::feof(mFile)) {
+        storeErrNo("fgetc");
+        if (fclose(mFile) != 0)
+          storeErrNo("fclose");
+        mFile = nullptr;
+        return;
+      }
+    }
+    mDiffStart = mDiffPos = std::ftell(mFile);
+    if (mDiffPos == -1) {
+      storeErrNo("ftell");
+      if (fclose(mFile) != 0)
+        storeErrNo("fclose");
+      mFile = nullptr;
+      return;
+    }
+  }
+
+  /// Destructor closes a target file but redirected descriptor stays open and
+  /// redirection is still performed.
+  ~RedirectIO() {
+    // Note that when move operation is executed destructor also called,
+    // to determine this case let us use mayRedirected().
+    // This is possible because mErrors will be unset when move is performed.
+    if (!mayRedirected() || !mFile)
+      return;
+    if (fclose(mFile) != 0)
+      storeErrNo("fclose");
+    mFile = nullptr;
+  }
+
+  RedirectIO(const RedirectIO &) = delete;
+  RedirectIO & operator=(const RedirectIO &) = delete;
+  /// Moves redirection to this object, nothing is redirected by RHS after that.
+  RedirectIO(RedirectIO &&RHS) : RedirectIO() { swap(RHS); }
+
+  /// Moves redirection to this object, a target file of a previous redirection
+  /// will be closed and nothing is redirected by RHS after that.
+  RedirectIO & operator=(RedirectIO &&RHS) {
+    if (this != &RHS) {
+      RedirectIO Tmp(std::move(RHS));
+      swap(Tmp);
+    }
+    return *this;
+  }
+
+  /// \brief Returns true if redirection is active, note that in case of errors
+  /// this also returns true.
+  ///
+  /// \return This returns false only if default constructor has been used
+  /// to create a RedirectIO object.
+  bool mayRedirected() const noexcept { return mErrors != nullptr; }
+
+  /// Returns container of errors.
+  const bcl::Diagnostic & errors() const noexcept {
+    assert(mayRedirected() && "Redirection has not been activated (default constructor was used)!");
+    return *mErrors;
+  }
+
+  /// Returns true if errors have been occurred, internal errors are
+  /// also considered.
+  bool hasErrors() const {
+    return mayRedirected() &&
+      (!errors().empty() || errors().internal_size() > 0);
+  }
+
+  /// Returns a name of target file for redirection.
+  const std::string & fileName() const noexcept { return mToName; }
+
+  /// \brief Returns true if some changes have been made since the last
+  /// position setting.
+  ///
+  /// \return If some errors occur this method is going to return false and
+  /// store errors description in a diagnostic container (see errors()).
+  bool isDiff() {
+    if (!mayRedirected())
+      return false;
+    // It is necessary to perform this check because fflush(NULL) flushes all
+    // opened files and this is unwanted behavior.
+    if (!mFile) {
+      storeErrNo(EINVAL, "fflush");
+      return false;
+    }
+    if (std::fflush(mFile) != 0) {
+      storeErrNo("fflush");
+      return false;
+    }
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
+      storeErrNo("ftell");
+      return false;
+    }
+    return Pos != mDiffPos;
+  }
+
+  /// \brief Returns changes that have been made since the last
+  /// position setting.
+  ///
+  /// \return If some errors occur this method is going to return empty string
+  /// and store errors description in a diagnostic container (see errors()).
+  /// If input is redirected this method returns data which have not been
+  /// read yet.
+  std::string diff() {
+    if (!isDiff())
+      return "";
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
+      storeErrNo("ftell");
+      return "";
+    }
+    if (std::fseek(mFile, mDiffPos, SEEK_SET) != 0) {
+      storeErrNo("fseek");
+      return "";
+    }
+    char Buf[100];
+    std::string Str;
+    // Note, that data may contain null characters.
+    std::size_t Size;
+    do {
+      Size = std::fread(Buf, 1, sizeof(Buf), mFile);
+      Str.append(Buf, Size);
+    } while (Size == sizeof(Buf));
+    if (!std::feof(mFile)) {
+      storeErrNo("fread");
+      if (std::fseek(mFile, Pos, SEEK_SET) != 0)
+        storeErrNo("fseek");
+      return "";
+    }
+    return Str;
+  }
+
+  /// Reset position to perform diff() comparison. Position will the same
+  /// as when a redirection has been occurred.
+  void resetDiffPos() noexcept { mDiffPos = mDiffStart; }
+
+  /// Set position to perform diff() comparison to a current position.
+  bool setDiffPos() {
+    if (!mayRedirected())
+      return false;
+    if (!mFile) {
+      storeErrNo(EINVAL, "ftell");
+      return false;
+    }
+    // The position may be changed through the redirected descriptor, so discard
+    // the one which is known to the stream.
+    if (std::fflush(mFile) != 0) {
+      storeErrNo("fflush");
+      return false;
+    }
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
+      storeErrNo("ftell");
+      return false;
+    }
+    mDiffPos = Pos;
+    return true;
+  }
+
+private:
+  /// Exchanges redirections of two objects.
+  void swap(RedirectIO &RHS) {
+    std::swap(mErrors, RHS.mErrors);
+    std::swap(mFromHandle, RHS.mFromHandle);
+    std::swap(mToName, RHS.mToName);
+    std::swap(mFile, RHS.mFile);
+    std::swap(mDiffPos, RHS.mDiffPos);
+    std::swap(mDiffStart, RHS.mDiffStart);
+  }
+
+  /// Stores description of error ErrNos to the errors() container.
+  ///
+  /// \param [in] Number of error. This must be one of possible errno values.
+  /// \param [in] Op This is an operation which produces an error.
+  void storeErrNo(int ErrNo, const char *Op) {
+    auto Error = std::strerror(ErrNo);
+    mErrors->insert(ErrNo, "%s: %c%s (%s)",
+      0, mToName.data(), std::tolower(Error[0]), Error + 1, Op);
+  }
+
+  /// Stores description of error available from errno macros to the errors()
+  /// container.
+  ///
+  /// \param [in] Op This is an operation which produces an error.
+  void storeErrNo(const char *Op) {
+    auto Error = std::strerror(errno);
+    mErrors->insert(errno, "%s: %c%s (%s)",
+      0, mToName.data(), std::tolower(Error[0]), Error + 1, Op);
+  }
+
+  std::unique_ptr<bcl::Diagnostic> mErrors;
+  int mFromHandle = -1;
+  std::string mToName;
+  FILE *mFile;
+  long mDiffPos = 0;
+  long mDiffStart = 0;
+};
+}
+
+#endif//BCL_REDIRECT_IO_H
-- 
2.43.0


From 015156b81304b776b8d2e0c4431aab352bb69dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 53/86] fix: move assignment of a connection returns nothing
 and does not close the replaced one

---
 include/bcl/IntrusiveConnection.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index ec0b611..3afd171 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -98,20 +98,14 @@ public:
   IntrusiveConnection & operator=(IntrusiveConnection &&C) {
     if (this == &C)
       return *this;
+    reject();
     mStatus = C.mStatus;
     C.mStatus = nullptr;
+    return *this;
   }
 
   /// Destructor.
-  ~IntrusiveConnection() {
-    if (!mStatus)
-      return;
-    // Status may be deleted as soon as the mutex is unlocked, so notify the
-    // receiver before.
-    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-    mStatus->mReject = true;
-    mStatus->mSendEvent.notify_one();
-  }
+  ~IntrusiveConnection() { reject(); }
 
   /// \brief Receives a request, evaluates it and sends response.
   ///
@@ -245,6 +239,17 @@ public:
   }
 
 private:
+  /// Rejects all subsequent requests.
+  void reject() {
+    if (!mStatus)
+      return;
+    // Status may be deleted as soon as the mutex is unlocked, so notify the
+    // receiver before.
+    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+    mStatus->mReject = true;
+    mStatus->mSendEvent.notify_one();
+  }
+
   Status *mStatus;
 };
 }
-- 
2.43.0


From b7c7fabe86ee5e8712dcada8dfb2f217268d382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 54/86] fix: some requests are not answered after a connection
 has been closed

---
 include/bcl/IntrusiveConnection.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 3afd171..7c8833c 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -195,10 +195,6 @@ public:
     // when CS will be deleted it is necessary to access S to send REJECT
     // response.
     S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
       std::queue<std::string> Buffer;
       std::stringstream IS(Request);
       std::string Item;
@@ -210,6 +206,11 @@ public:
       if (!Item.empty())
         Buffer.push(Item);
       while (!Buffer.empty()) {
+        if (*Reject) {
+          Buffer.pop();
+          S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+          continue;
+        }
         {
           std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
           CS->mIsReceive = true;
@@ -230,10 +231,8 @@ public:
           CS->mIsSend = false;;
         }
         S->send(Data + Delimiter);
-        if (*Reject) {
+        if (*Reject)
           delete CS;
-          break;
-        }
       }
     });
   }
-- 
2.43.0


From 2e05a23f2bc3a1e675cf608ee3d4184ae3380baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 55/86] fix: messages are sent partially, a closed connection
 ends the server

---
 lib/Socket/CSocket/CSocket.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 3f5415e..bce81c6 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -29,6 +29,7 @@
 #include <bcl/CSocket.h>
 #include <bcl/utility.h>
 #include <cassert>
+#include <cerrno>
 #include <csignal>
 #include <chrono>
 #include <future>
@@ -46,6 +47,9 @@
 # include <netdb.h>
 # include <netinet/in.h>
 # include <unistd.h>
+# ifndef MSG_NOSIGNAL
+#  define MSG_NOSIGNAL 0
+# endif
 #endif
 
 using namespace bcl;
@@ -173,7 +177,15 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 }
 
 static inline bool sendData(SocketT S, const std::string &Message) {
-  return send(S, Message.c_str(), Message.length(), 0) >= 0;
+  for (std::size_t Sent = 0; Sent < Message.length();) {
+    auto Size =
+        send(S, Message.data() + Sent, Message.length() - Sent, MSG_NOSIGNAL);
+    if (Size >= 0)
+      Sent += Size;
+    else if (errno != EINTR)
+      return false;
+  }
+  return true;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
-- 
2.43.0


From 95193bf442e6ba6b7fb14b3d4e6f4fd28391cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 56/86] fix: a signal breaks a connection which waits for data

---
 lib/Socket/CSocket/CSocket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index bce81c6..59999b6 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -190,7 +190,10 @@ static inline bool sendData(SocketT S, const std::string &Message) {
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
     char *Buffer, std::size_t BufferSize) {
-  auto ReceivedSize = recv(S, Buffer, BufferSize, 0);
+  ssize_t ReceivedSize;
+  do {
+    ReceivedSize = recv(S, Buffer, BufferSize, 0);
+  } while (ReceivedSize < 0 && errno == EINTR);
   if (ReceivedSize < 0)
     return std::make_pair(0, false);
   return std::make_pair(ReceivedSize, true);
-- 
2.43.0


From 2ae47da2a74f08fd3ed62a985b1cd646b3dd80e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 57/86] fix: assertion fails if a descriptor of a closed
 connection is used again

---
 lib/Socket/CSocket/CSocket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 59999b6..d5e50bd 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -393,9 +393,10 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     auto EngineItr = ActiveSockets.emplace(std::piecewise_construct,
       std::forward_as_tuple(ConnectionFD),
       std::forward_as_tuple()).first;
-    assert(!EngineItr->second.valid() ||
-           EngineItr->second.wait_for(std::chrono::seconds(0))
-             == std::future_status::ready && "Unable to join thread!");
+    // The same descriptor may be used again as soon as it has been closed,
+    // the thread which closed it may be still running.
+    if (EngineItr->second.valid())
+      EngineItr->second.wait();
     EngineItr->second = std::async(std::launch::async,
       engine, ConnectionFD, std::move(NewConnection));
   }
-- 
2.43.0


From 0d9c5fbf971dac7bcca3873fe68f1d0793ac3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 58/86] fix: server ends if a thread for a connection is not
 created

---
 lib/Socket/CSocket/CSocket.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index d5e50bd..1fd97e5 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -34,6 +34,7 @@
 #include <chrono>
 #include <future>
 #include <string>
+#include <system_error>
 #include <thread>
 #include <vector>
 #include <unordered_map>
@@ -397,8 +398,14 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     // the thread which closed it may be still running.
     if (EngineItr->second.valid())
       EngineItr->second.wait();
-    EngineItr->second = std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection));
+    try {
+      EngineItr->second = std::async(std::launch::async,
+        engine, ConnectionFD, net::Connection(NewConnection));
+    } catch (const std::system_error &) {
+      ActiveSockets.erase(EngineItr);
+      on(net::SocketStatus::UnknownError, NewConnection);
+      closeAndLog(ConnectionFD, NewConnection);
+    }
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From 2d88c2a95da4f32d27ba0c9469c609225317d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 59/86] fix: received data are cut at a null character

---
 lib/Socket/CSocket/CSocket.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 1fd97e5..8c822a9 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -235,7 +235,7 @@ public:
 
   int run() {
     bcl::createServer(this);
-    auto Buffer = bcl::make_unique<char[]>(mBufferSize + 1);
+    auto Buffer = bcl::make_unique<char[]>(mBufferSize);
     for (;;) {
       auto ReceivedInfo = receiveData(mConnectionFD, Buffer.get(), mBufferSize);
       if (!ReceivedInfo.second) {
@@ -247,10 +247,9 @@ public:
         closeSocket(true);
         return 0;
       }
-      Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
       for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get()));
+        Callback(std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
-- 
2.43.0


From 6ae5f07852e3f0151b43e02ed7e8590740acc64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 60/86] fix: connection is used after a message has not been
 sent at startup

---
 lib/Socket/CSocket/CSocket.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 8c822a9..67b205f 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -237,6 +237,10 @@ public:
     bcl::createServer(this);
     auto Buffer = bcl::make_unique<char[]>(mBufferSize);
     for (;;) {
+      if (mState == State::OnClose) {
+        closeSocket(false);
+        return 1;
+      }
       auto ReceivedInfo = receiveData(mConnectionFD, Buffer.get(), mBufferSize);
       if (!ReceivedInfo.second) {
         mOn(bcl::net::SocketStatus::ReceiveError, mConnection);
@@ -250,10 +254,6 @@ public:
       mOn(bcl::net::SocketStatus::Receive, mConnection);
       for (auto &Callback : mReceiveCallbacks)
         Callback(std::string(Buffer.get(), ReceivedInfo.first));
-      if (mState == State::OnClose) {
-        closeSocket(false);
-        return 1;
-      }
     }
   }
   std::string Data;
-- 
2.43.0


From 8229302f191db3fcc9dcb46f252dd732a5f5be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 61/86] fix: minimum integer is not converted to a text

---
 include/bcl/legacy/text.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/bcl/legacy/text.h b/include/bcl/legacy/text.h
index 97d53e0..aade76b 100644
--- a/include/bcl/legacy/text.h
+++ b/include/bcl/legacy/text.h
@@ -53,20 +53,21 @@ namespace Base
         if ( value == 0)
             return L"0";
 
+        unsigned int rest = value;
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            rest = -rest;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned int tmp = rest; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; rest > 0; rest /= 10, index--)
+            buffer[ index] = rest % 10 + '0';
 
         return buffer;
     }
@@ -94,20 +95,21 @@ namespace Base
         if ( value == 0)
             return "0";
 
+        unsigned int rest = value;
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            rest = -rest;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned int tmp = rest; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; rest > 0; rest /= 10, index--)
+            buffer[ index] = rest % 10 + '0';
 
         return buffer; 
     }
-- 
2.43.0


From 878d69bce0de529fe07c74ff6a55c6d595b2ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 62/86] fix: number of errors of an application is never
 defined

---
 include/bcl/legacy/exception.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/legacy/exception.h b/include/bcl/legacy/exception.h
index 8e1e3f4..7b72f1c 100644
--- a/include/bcl/legacy/exception.h
+++ b/include/bcl/legacy/exception.h
@@ -567,6 +567,11 @@ namespace Base
         return Detail::ErrorCountInList< typename ErrorDecl_::ValueType >( );
     }
 
+    template< class Application_ > inline ErrorCode CountOfAppErrors( )
+    {
+        return Detail::ErrorCountInList< typename Application_::Errors >( );
+    }
+
     template< class ErrorId_, class Application_ > inline ErrorCode CodeOfError( )
     {
         return Detail::CodeOfErrorImp< ErrorId_, 
-- 
2.43.0


From 529117f866a50b0d8f6756ffd663b6791e459e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 63/86] fix: merge of two empty legacy collections of cells
 does not compile

---
 include/bcl/legacy/cell_legacy.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/bcl/legacy/cell_legacy.h b/include/bcl/legacy/cell_legacy.h
index 7876f7d..20652dd 100644
--- a/include/bcl/legacy/cell_legacy.h
+++ b/include/bcl/legacy/cell_legacy.h
@@ -348,6 +348,13 @@ namespace Base
         typedef Right_ Result;
     };
 
+    //! Объединяет две последовательности ячеек.
+    template< > struct MergeCell< Utility::Null, Utility::Null >
+    {
+        //! Резлультат объединения.
+        typedef Utility::Null Result;
+    };
+
     //! Высвобождает память, если ячека содержит указатель.
     struct ClearCellFunctor
     {
-- 
2.43.0


From cc891f92828e6643f9c42ec6521eedb769b9eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 64/86] fix: functor which copies legacy cells to a destination
 does not compile

---
 include/bcl/legacy/cell_legacy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/cell_legacy.h b/include/bcl/legacy/cell_legacy.h
index 20652dd..d5bd33d 100644
--- a/include/bcl/legacy/cell_legacy.h
+++ b/include/bcl/legacy/cell_legacy.h
@@ -459,7 +459,7 @@ namespace Base
         typedef To_ To; //!< Назначение копирования.
 
         //! Создает функционал.
-        CopyFromCellFunctor( const To *to) : m_to( to) { ASSERT( m_to); }
+        CopyFromCellFunctor( To *to) : m_to( to) { ASSERT( m_to); }
 
         //! Выполняет копирование данных из заданной ячейки.
         template< class Cell_ > inline void operator( )( Cell_ *cell)
@@ -484,7 +484,7 @@ namespace Base
         template< class Cell_ > inline void CopyFrom( Cell_ *, Utility::False) { }
 
     private:
-        const To *m_to; //!< Назначение копирования.
+        To *m_to; //!< Назначение копирования.
     };
 }
 
-- 
2.43.0


From 215e22c5b1d60413296aa3c2e23d7ad07a3a4402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 65/86] fix: visit of a static tree does not compile

---
 include/bcl/legacy/tree.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bcl/legacy/tree.h b/include/bcl/legacy/tree.h
index d0c8d34..b5cbe91 100644
--- a/include/bcl/legacy/tree.h
+++ b/include/bcl/legacy/tree.h
@@ -173,6 +173,12 @@ namespace Base
         ValueType m_value; //!< Значение хранимое в ячейке.
     };
 
+    //! Перегрузка для случая, когда поддерево отсутствует.
+    template< class Functor_ > void Visit( Utility::Null &, Functor_ &) { }
+
+    //! Перегрузка для случая, когда поддерево отсутствует.
+    template< class Functor_ > void Visit( const Utility::Null &, Functor_ &) { }
+
     //! Выполняет функционал над всеми вершинами дерева.
     /*! \tparam Root_ Корень дерева.
         \tparam Functor_ Функционал который должен быть выполнен.
-- 
2.43.0


From fc69bce77634edd139dacfa0ad42fe4e3116cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 66/86] fix: static trees with a single subtree of a node do
 not compile

---
 include/bcl/legacy/tree.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/bcl/legacy/tree.h b/include/bcl/legacy/tree.h
index b5cbe91..b9ff46c 100644
--- a/include/bcl/legacy/tree.h
+++ b/include/bcl/legacy/tree.h
@@ -58,29 +58,31 @@ namespace Base
     };
 
     //! Дуга от вершины к левому поддереву.
-    /*! \tparam Left_ Корень левого поддерева.
+    /*! \tparam Id_ Идентификатор вершины, из которой выходит дуга.
+        \tparam Left_ Корень левого поддерева.
     */
-    template< class Left_ > class LeftBranchImp : public Left_
+    template< class Id_, class Left_ > class LeftBranchImp : public Left_
     { 
     protected:
         //! Создает дугу.
-        LeftBranchImp< Left_ >( ) { }
+        LeftBranchImp( ) { }
 
         //! Создает дугу.
-        LeftBranchImp< Left_ >( const Left_ &left) : Left_( left) { }
+        LeftBranchImp( const Left_ &left) : Left_( left) { }
     };
 
     //! Дуга от вершины к правому поддереву.
-    /*! \tparam Right_ Корень правого поддерева.
+    /*! \tparam Id_ Идентификатор вершины, из которой выходит дуга.
+        \tparam Right_ Корень правого поддерева.
     */
-    template< class Right_ > class RightBranchImp : public Right_ 
+    template< class Id_, class Right_ > class RightBranchImp : public Right_ 
     { 
     protected:
         //! Создает дугу.
-        RightBranchImp< Right_ >( ) { }
+        RightBranchImp( ) { }
 
         //! Создает дугу.
-        RightBranchImp< Right_ >( const Right_ &right) : Right_( right) { }
+        RightBranchImp( const Right_ &right) : Right_( right) { }
     };
 
     //! Статическое дерево.
@@ -90,8 +92,8 @@ namespace Base
     */
     template< class Id_, class Left_ = Utility::Null, class Right_ = Utility::Null >
     class Node : 
-        public LeftBranchImp< Left_ >, 
-        public RightBranchImp< Right_ >, 
+        public LeftBranchImp< Id_, Left_ >, 
+        public RightBranchImp< Id_, Right_ >, 
         public virtual Utility::If< Utility::IsReference< typename Id_::ValueType >,
                                     Utility::Unassignable,
                                     Utility::Copyable >::Result
@@ -101,10 +103,10 @@ namespace Base
         typedef typename Id::ValueType ValueType; //!< Тип значений, хранимых в корне.
 
         typedef Left_ Left; //!< Левое поддерево.
-        typedef LeftBranchImp< Left > LeftBranch; //!< Дуга к левому поддереву.
+        typedef LeftBranchImp< Id, Left > LeftBranch; //!< Дуга к левому поддереву.
 
         typedef Right_ Right; //!< Правое поддерево.
-        typedef RightBranchImp< Right > RightBranch; //!< Дуга к правому поддереву.
+        typedef RightBranchImp< Id, Right > RightBranch; //!< Дуга к правому поддереву.
 
         typedef Node< Id, Left, Right > Root; //!< Корень дерева.
 
-- 
2.43.0


From 781255c8b718778c7ab314ae6eb9e6b0f06e777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 67/86] fix: send whole message through Node.js socket if it
 contains null bytes

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 8023714..8300c22 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -70,7 +70,8 @@ public:
   void send(const std::string &Message) const override {
     const unsigned Argc = 1;
     Local<Value> Argv[Argc] = {
-        String::NewFromUtf8(mIsolate, Message.c_str()).ToLocalChecked()};
+        String::NewFromUtf8(mIsolate, Message.data(), NewStringType::kNormal,
+          static_cast<int>(Message.size())).ToLocalChecked()};
     Local<Context> Ctx = mIsolate->GetCurrentContext();
     Local<Function>::New(mIsolate, mSend)->Call(Ctx, Null(mIsolate), Argc, Argv);
   }
-- 
2.43.0


From 10b246e94ca40ca6675a6ecac901f16fdacc756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 68/86] fix: receive whole data through Node.js socket and do
 not leak it

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 8300c22..2ba3bb1 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -118,12 +118,11 @@ private:
       return;
     }
     auto Data = Local<Uint8Array>::Cast(Args[0]);
-    auto DataUtf8 = new char [Data->ByteLength() + 1];
-    Data->CopyContents(DataUtf8, Data->ByteLength());
-    DataUtf8[Data->ByteLength()] = '\0';
+    std::string DataUtf8(Data->ByteLength(), '\0');
+    Data->CopyContents(&DataUtf8[0], DataUtf8.size());
     void *UserFunc = Local<External>::Cast(Args.Data())->Value();
     auto F = static_cast<ReceiveCallback *>(UserFunc);
-    (*F)(std::string(DataUtf8));
+    (*F)(DataUtf8);
   }
 
   /// This is a wrapper of a listener specified by a user, this is binded
-- 
2.43.0


From eb24ccd9530579a24b697eec8916b8560a19daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 69/86] fix: do not abort the process if connect() has got
 wrong parameters

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 2ba3bb1..a9fe51d 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -177,9 +177,10 @@ public:
     Local<Value> Argv[Argc] = { Args[0], Args[1] };
     Local<Function> Ctor = Local<Function>::New(CurrIsolate, mCtor);
     Local<Context> Ctx = CurrIsolate->GetCurrentContext();
-    Local<Object> Instance =
-      Ctor->NewInstance(Ctx, Argc, Argv).ToLocalChecked();
-    Args.GetReturnValue().Set(Instance);
+    Local<Object> Instance;
+    // The constructor has already thrown an exception if there is no instance.
+    if (Ctor->NewInstance(Ctx, Argc, Argv).ToLocal(&Instance))
+      Args.GetReturnValue().Set(Instance);
   }
 
 private:
-- 
2.43.0


From 4375dee8a2b40b34254416a86226bf1718126b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 70/86] fix: do not release a connection until all listeners of
 'close' are invoked

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index a9fe51d..3e406f5 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -193,7 +193,12 @@ private:
   /// Start execution of a server.
   static void startServer(const FunctionCallbackInfo<Value>& Args) {
     auto* C = ObjectWrap::Unwrap<Connection>(Args.Holder());
-    C->mSocket->closed([C](bool){ C->Unref(); });
+    // This listener is invoked first. Other listeners of the same event are
+    // owned by the socket, so it must not be released until all are invoked.
+    C->mSocket->closed([C](bool) {
+      Isolate::GetCurrent()->EnqueueMicrotask(
+        [](void *C) { static_cast<Connection *>(C)->Unref(); }, C);
+    });
     createServer(C->mSocket);
   }
 
-- 
2.43.0


From 814fe3135c87eb01c4f33ee52ee1d97943be17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 71/86] fix: release functions of Node.js socket when it is
 destroyed

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 3e406f5..22e72bd 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -66,6 +66,12 @@ public:
   SocketImp(Isolate *I, Local<Function> Send, Local<Function> On) :
     mIsolate(I), mSend(I, Send), mOn(I, On) {}
 
+  /// Release functions, a persistent handle does not do it on destruction.
+  ~SocketImp() {
+    mSend.Reset();
+    mOn.Reset();
+  }
+
   /// Send a message.
   void send(const std::string &Message) const override {
     const unsigned Argc = 1;
-- 
2.43.0


From 864e7083c0e77aeaadc2a857e99066bfbacffabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 72/86] fix: do not keep each listener function of Node.js
 socket forever

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 22e72bd..727aa9b 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -86,11 +86,11 @@ public:
   /// invoked when some data are received.
   void receive(const ReceiveCallback &F) const override {
     mReceiveCallbacks.push(bcl::make_unique<ReceiveCallback>(F));
-    Local<FunctionTemplate> Tpl =
-      FunctionTemplate::New(mIsolate, receiveWrapper,
-        External::New(mIsolate, mReceiveCallbacks.top().get()));
     Local<Context> Ctx = mIsolate->GetCurrentContext();
-    Local<Function> JSF = Tpl->GetFunction(Ctx).ToLocalChecked();
+    // Do not use a template, the engine never releases functions which have
+    // been created from it.
+    Local<Function> JSF = Function::New(Ctx, receiveWrapper,
+      External::New(mIsolate, mReceiveCallbacks.top().get())).ToLocalChecked();
     const unsigned Argc = 2;
     Local<Value> Argv[Argc] = {
         String::NewFromUtf8(mIsolate, "data").ToLocalChecked(), JSF};
@@ -101,11 +101,11 @@ public:
   /// invoked when some data are received.
   void closed(const ClosedCallback &F) const override {
     mClosedCallbacks.push(bcl::make_unique<ClosedCallback>(F));
-    Local<FunctionTemplate> Tpl =
-      FunctionTemplate::New(mIsolate, closedWrapper,
-        External::New(mIsolate, mClosedCallbacks.top().get()));
     Local<Context> Ctx = mIsolate->GetCurrentContext();
-    Local<Function> JSF = Tpl->GetFunction(Ctx).ToLocalChecked();
+    // Do not use a template, the engine never releases functions which have
+    // been created from it.
+    Local<Function> JSF = Function::New(Ctx, closedWrapper,
+      External::New(mIsolate, mClosedCallbacks.top().get())).ToLocalChecked();
     const unsigned Argc = 2;
     Local<Value> Argv[Argc] = {
         String::NewFromUtf8(mIsolate, "close").ToLocalChecked(), JSF};
-- 
2.43.0


From 244937cb5c428c4943bb254c008405eac3cce94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 73/86] fix: header with nullable values does not compile

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 67a0ca4..0e980f5 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -29,8 +29,8 @@
 
 namespace Utility
 {
-    using DataBase::Text;
-    using DataBase::Char;
+    using Base::Text;
+    using Base::Char;
 
     //! Класс-обертка для значений заданного типа.
     /*! \tparam Type_ Тип значения.
-- 
2.43.0


From fe5dc41b61bf64e262cc5bb6e7654f4bcec1fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 74/86] fix: nullable pointer is equal to undefined value if it
 is not null

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 0e980f5..8964a0a 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -271,10 +271,10 @@ namespace Utility
         operator const Type & ( ) const { return m_value; }        
 
         //! Оператор сравнения с неопределенным значением.
-        bool operator==( Null) { return m_value; }      
+        bool operator==( Null) { return !m_value; }      
 
         //! Оператор сравнения с неопределенным значением.
-        bool operator==( Null) const { return m_value; }      
+        bool operator==( Null) const { return !m_value; }      
 
         //! Оператор сравнения с неопределенным значением.
         bool operator!=( Null) { return m_value; }      
-- 
2.43.0


From 7716d7772b0450a0573120b134ac91a8239ad748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 75/86] fix: equal nullable values are not less or equal

---
 include/bcl/legacy/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 8964a0a..590ec56 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -439,7 +439,7 @@ namespace Utility
     {
         if ( left == undef || right == undef)
                 return false;
-        return static_cast< const Left_ & >( left) < static_cast< const Right_ & >( right);
+        return static_cast< const Left_ & >( left) <= static_cast< const Right_ & >( right);
     }
     //! Оператор сравнения двух классов-оберток.
     /*! Выполняет сравнение на больше двух классов-оберток, 
-- 
2.43.0


From c90e45a7b2b579eff8a34781e4452a7864dce89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 76/86] fix: comparisons of a nullable value with a value
 return nothing

---
 include/bcl/legacy/value.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 590ec56..f94758c 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -572,7 +572,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) < right;
+        return static_cast< const Left_ & >( left) < right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -586,7 +586,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) <= right;
+        return static_cast< const Left_ & >( left) <= right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -600,7 +600,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) > right;
+        return static_cast< const Left_ & >( left) > right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -614,7 +614,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) >= right;
+        return static_cast< const Left_ & >( left) >= right;
     }
 
     //! Оператор сравнения с неопределенным значением.    
-- 
2.43.0


From 202144968d5dd2c90466b13270cb39a4265a4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 77/86] fix: copy of an undefined value reads memory which is
 not initialized

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index f94758c..b6b5f59 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -137,10 +137,10 @@ namespace Utility
 
     public:
         //! Конструктор умолчания, создает неопределенное значение.
-        Value( ) : m_defined( false){ }
+        Value( ) : m_value( ), m_defined( false){ }
 
         //! Конструктор копирования, неопределенного значения.
-        Value( Null) : m_defined( false) { }        
+        Value( Null) : m_value( ), m_defined( false) { }        
 
         //! Конструктор копирования на основе хранимого значения.
         Value( const Type &value) : 
-- 
2.43.0


From b5759f6388e91c66e143e212d8f5e08032e80b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 78/86] fix: JSON_OBJECT_ROOT_PAIR does not accept types with
 commas

---
 include/bcl/JsonObjectMacros.h   | 2 +-
 scripts/json_object_macro_gen.pl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/JsonObjectMacros.h b/include/bcl/JsonObjectMacros.h
index 7c2255a..5d878a3 100644
--- a/include/bcl/JsonObjectMacros.h
+++ b/include/bcl/JsonObjectMacros.h
@@ -298,7 +298,7 @@
   JSON_ACCESS_30(Object_, Name_1_, Name_2_, Name_3_, Name_4_, Name_5_, Name_6_, Name_7_, Name_8_, Name_9_, Name_10_, Name_11_, Name_12_, Name_13_, Name_14_, Name_15_, Name_16_, Name_17_, Name_18_, Name_19_, Name_20_, Name_21_, Name_22_, Name_23_, Name_24_, Name_25_, Name_26_, Name_27_, Name_28_, Name_29_, Name_30_)
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \
-  JSON_VALUE(Name_, Type_) \
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \
   JSON_OBJECT_ROOT(Object_, Name_) \
   JSON_ACCESS(Object_, Name_)
 #define JSON_OBJECT_ROOT_PAIR_2(Object_, Name_1_, Type_1_, Name_2_, Type_2_) \
diff --git a/scripts/json_object_macro_gen.pl b/scripts/json_object_macro_gen.pl
index bdb06be..b93d50f 100644
--- a/scripts/json_object_macro_gen.pl
+++ b/scripts/json_object_macro_gen.pl
@@ -70,7 +70,7 @@ EOS
 print <<EOS;
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \\
-  JSON_VALUE(Name_, Type_) \\
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \\
   JSON_OBJECT_ROOT(Object_, Name_) \\
   JSON_ACCESS(Object_, Name_)
 EOS
-- 
2.43.0


From b5f3d6e5c1b35ade7783b39a83e98adbd8e16281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 79/86] fix: printed values of computed monomials have a type
 of columns

---
 include/bcl/Equation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 32c4d28..a6a1423 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -563,7 +563,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
     OS << "--- discarded ---\n";
@@ -581,7 +581,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
   }
-- 
2.43.0


From 2e586ec6d93965ec0b51cf7657a4330f865dce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 80/86] fix: coefficients of a reversed solution are computed
 in a type of columns

---
 include/bcl/Equation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index a6a1423..168a4f6 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -485,7 +485,8 @@ public:
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       std::swap(Divisors[0], Divisors[I]);
       auto Production = std::accumulate(
-        Divisors.begin() + 1, Divisors.end(), 1, std::multiplies<ColumnT>());
+        Divisors.begin() + 1, Divisors.end(), ValueT(1),
+        std::multiplies<ValueT>());
       auto &S = mSolution[I];
       Production *= (S.RHS.Value * Production  <  0) ? -1 : 1;
       S.LHS.Value *= Production;
-- 
2.43.0


From fb5b8608deef6f954db010ea03ad04983bf45e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 81/86] fix: the least constant of a solution is stored in a
 type of columns

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 168a4f6..88df425 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -502,7 +502,7 @@ public:
   /// computed solution have non-negative free terms.
   template <class ColumnInfoT>
   void solutioWithPositiveConstant(ColumnInfoT &Info) {
-    ColumnT Min = 0;
+    ValueT Min = 0;
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       if (mSolution[I].Constant < Min)
         Min = mSolution[I].Constant;
-- 
2.43.0


From dc986528933a200cb080f6e16eec6bdb9ad2fb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 82/86] fix: restored positions of the lexer are not removed
 from its stack

---
 include/bcl/Json.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 6b14977..aa087be 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -609,6 +609,7 @@ public:
     mNext = mStates.top().mNext;
     mToken = mStates.top().mToken;
     mIsIntegral = mStates.top().mIsIntegral;
+    mStates.pop();
   }
 
   /// \brief Returns start position of a current token in the JSON string.
@@ -1770,7 +1771,8 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
 
 template<class... Objects> std::tuple<Position, Position, bool>
 Parser<Objects...>::numberOfKeys(Lexer &Lex) {
-  Lex.storePosition();
+  // Do not store this position, it must not stay in the lexer on errors.
+  auto Start = Lex.start();
   Position MaxIdx = 0;
   Position Count = 0;
   std::set<unsigned long long> Indexes;
@@ -1784,7 +1786,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
   if (!Lex.goToNext())
     return std::make_tuple(0, 0, false);
   if (Lex.is(Last)) {
-    Lex.restorePosition();
+    Lex.setPosition(Start);
     return std::make_tuple(0, 0, true);
   }
   for (;;) {
@@ -1819,7 +1821,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
     if (!Lex.goToNext())
       return std::make_tuple(0, 0, false);
   }
-  Lex.restorePosition();
+  Lex.setPosition(Start);
   return std::make_tuple(
     Count, Last == Token::RIGHT_BRACE ? MaxIdx : Count - 1, true);
 }
-- 
2.43.0


From 96e030a9f738f3b887e252442c028d40e8cc4636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 83/86] fix: a restored position of the lexer has another
 keyword

---
 include/bcl/Json.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index aa087be..28143bd 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -436,14 +436,16 @@ class Lexer: private bcl::Uncopyable {
 
   /// State of a lexer.
   struct State {
-    State(Position S, Position E, Position N, Token T, bool IsInt) :
-      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt) {}
+    State(Position S, Position E, Position N, Token T, bool IsInt, Keyword K) :
+      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt),
+      mKeyword(K) {}
 
     Position mStart = 0;
     Position mEnd = 0;
     Position mNext = 0;
     Token mToken;
     bool mIsIntegral = false;
+    Keyword mKeyword = Keyword::NO_VALUE;
   };
 
 public:
@@ -596,7 +598,8 @@ public:
   /// Saves the current position in an internal stack, it can be restored with
   /// restorePosition() method.
   void storePosition() {
-    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral));
+    mStates.emplace(
+      State(mStart, mEnd, mNext, mToken, mIsIntegral, mKeyword));
   }
 
   /// Restores the last stored position. If there is no stored positions do
@@ -609,6 +612,7 @@ public:
     mNext = mStates.top().mNext;
     mToken = mStates.top().mToken;
     mIsIntegral = mStates.top().mIsIntegral;
+    mKeyword = mStates.top().mKeyword;
     mStates.pop();
   }
 
-- 
2.43.0


From cad6ecbcfee8263176530789b145fba68550d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 84/86] fix: a token of a new lexer is not initialized

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 28143bd..b38294b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -673,7 +673,7 @@ private:
   Position mStart = 0;
   Position mEnd = 0;
   Position mNext = 0;
-  Token mToken;
+  Token mToken = Token::INVALID;
   bool mIsIntegral = false;
   Keyword mKeyword = Keyword::NO_VALUE;
   std::stack<State> mStates;
-- 
2.43.0


From 4b68f7e32c04cd78e52c0d5534d88e3cde478bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 85/86] fix: a failing allocation leaves a queue with an
 invalid storage

---
 include/bcl/transparent_queue.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index fcfb692..1b0bbba 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -28,6 +28,7 @@
 
 #include <assert.h>
 #include <cstring>
+#include <memory>
 #include <queue>
 
 namespace bcl {
@@ -69,6 +70,8 @@ public:
   TransparentQueue & operator=(const TransparentQueue &TQ) {
     if (this == &TQ)
       return *this;
+    // This queue must not be changed if there is no memory for a copy.
+    auto Copy = TQ.mIsSingle ? nullptr : new Container(*TQ.mQueue);
     if (!mIsSingle)
       delete mQueue;
     mIsSingle = TQ.mIsSingle;
@@ -76,7 +79,7 @@ public:
     if (mIsSingle)
       mValue = TQ.mValue;
     else
-      mQueue = new Container(*TQ.mQueue);
+      mQueue = Copy;
     return *this;
   }
 
@@ -120,10 +123,7 @@ public:
         mValue = V;
         return;
       }
-      mIsSingle = false;
-      auto Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
+      grow();
     }
     mQueue->push(V);
   }
@@ -173,10 +173,7 @@ public:
         mIsEmpty = false;
         return;
       }
-      mIsSingle = false;
-      Ty *Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
+      grow();
     }
     mQueue->emplace(Args...);
   }
@@ -263,6 +260,16 @@ public:
   }
 
 private:
+  /// Moves a single element to a new container, this queue is not changed if
+  /// there is no memory for this container.
+  void grow() {
+    assert(mIsSingle && !mIsEmpty && "There must be a single element!");
+    std::unique_ptr<Container> Queue(new Container());
+    Queue->push(mValue);
+    mQueue = Queue.release();
+    mIsSingle = false;
+  }
+
   struct {
     bool mIsSingle : 1;
     bool mIsEmpty : 1;
-- 
2.43.0


From e22d4f25b3c538ec1acecb9232781a16cd84e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:00 +0000
Subject: [PATCH 86/86] fix: an element of a queue cannot be emplaced into this
 queue

---
 include/bcl/transparent_queue.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 1b0bbba..472617b 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -167,15 +167,8 @@ public:
 
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
-    if (mIsSingle) {
-      if (mIsEmpty) {
-        mValue = value_type{std::forward<ArgTy>(Args)...};
-        mIsEmpty = false;
-        return;
-      }
-      grow();
-    }
-    mQueue->emplace(Args...);
+    // Arguments may refer to elements of this queue, so use them at first.
+    push(value_type{std::forward<ArgTy>(Args)...});
   }
 
   /// \brief Exchanges the contents of the queue with those of other.
-- 
2.43.0

