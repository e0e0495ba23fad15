From c447f8356b994dfe9be2290c75984523138f3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 01/23] fix: keep operand order of the multiply in mxm A'B' and
 mxv A'u

The kernels compute the transposed product and called mult(b, a); for a
non-commutative multiply operator (Minus, First, Second, ...) the result was
wrong.  The optimized A'B' kernels also truncated B's values to A's scalar type.
---
 .../optimized_sequential/sparse_helpers.hpp   | 36 +++++++++++++++++++
 .../optimized_sequential/sparse_mxm_ATBT.hpp  | 30 ++++++++--------
 .../optimized_sequential/sparse_mxv.hpp       |  2 +-
 .../platforms/sequential/sparse_helpers.hpp   | 36 +++++++++++++++++++
 .../platforms/sequential/sparse_mxm.hpp       |  6 ++--
 .../platforms/sequential/sparse_mxv.hpp       |  2 +-
 6 files changed, 92 insertions(+), 20 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 831714b..95cc16d 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -1408,6 +1408,42 @@ namespace grb
             GRB_LOG_FN_END("axpy");
         }
 
+        // *******************************************************************
+        /// Same as axpy() except that the scalar is the right operand of the
+        /// multiplication:
+        ///
+        /// c += b[:]*a
+        template<typename CScalarT,
+                 typename SemiringT,
+                 typename AScalarT,
+                 typename BScalarT>
+        void axpy_rev(
+            std::vector<std::tuple<IndexType, CScalarT>>       &c,
+            SemiringT                                           semiring,
+            AScalarT                                            a,
+            std::vector<std::tuple<IndexType, BScalarT>> const &b)
+        {
+            auto c_it = c.begin();
+
+            for (auto&& [j, b_j] : b)
+            {
+                auto t_j(semiring.mult(b_j, a));
+
+                // scan through C_row to find insert/merge point
+                if (advance_and_check_tuple_iterator(c_it, c.end(), j))
+                {
+                    std::get<1>(*c_it) = semiring.add(std::get<1>(*c_it), t_j);
+                    ++c_it;
+                }
+                else
+                {
+                    c_it = c.insert(c_it,
+                                    std::make_tuple(j, static_cast<CScalarT>(t_j)));
+                    ++c_it;
+                }
+            }
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index b212a57..5d1ffaf 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -72,12 +72,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -232,12 +232,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -331,12 +331,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -428,12 +428,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -526,12 +526,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
index 9014a7a..7988ec6 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
@@ -142,7 +142,7 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy_rev(t, op, u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 831714b..95cc16d 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -1408,6 +1408,42 @@ namespace grb
             GRB_LOG_FN_END("axpy");
         }
 
+        // *******************************************************************
+        /// Same as axpy() except that the scalar is the right operand of the
+        /// multiplication:
+        ///
+        /// c += b[:]*a
+        template<typename CScalarT,
+                 typename SemiringT,
+                 typename AScalarT,
+                 typename BScalarT>
+        void axpy_rev(
+            std::vector<std::tuple<IndexType, CScalarT>>       &c,
+            SemiringT                                           semiring,
+            AScalarT                                            a,
+            std::vector<std::tuple<IndexType, BScalarT>> const &b)
+        {
+            auto c_it = c.begin();
+
+            for (auto&& [j, b_j] : b)
+            {
+                auto t_j(semiring.mult(b_j, a));
+
+                // scan through C_row to find insert/merge point
+                if (advance_and_check_tuple_iterator(c_it, c.end(), j))
+                {
+                    std::get<1>(*c_it) = semiring.add(std::get<1>(*c_it), t_j);
+                    ++c_it;
+                }
+                else
+                {
+                    c_it = c.insert(c_it,
+                                    std::make_tuple(j, static_cast<CScalarT>(t_j)));
+                    ++c_it;
+                }
+            }
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index f34cbdf..a8b6b8e 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -281,8 +281,8 @@ namespace grb
                 {
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, op, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, op, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -290,7 +290,7 @@ namespace grb
                 {
                     IndexType j(std::get<0>(t));
 
-                    T[j].emplace_back(i, static_cast<CScalarType>(std::get<1>(t)));
+                    T[j].emplace_back(i, std::get<1>(t));
                 }
             }
 
diff --git a/src/graphblas/platforms/sequential/sparse_mxv.hpp b/src/graphblas/platforms/sequential/sparse_mxv.hpp
index 9014a7a..7988ec6 100644
--- a/src/graphblas/platforms/sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxv.hpp
@@ -142,7 +142,7 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy_rev(t, op, u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
-- 
2.43.0


From 4d50992e5ac231880561728865f515c890860c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 02/23] fix: optimized mxm A*B' left stale output rows for
 empty rows of A

---
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 67c86bf..9358a5a 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -70,12 +70,11 @@ namespace grb
             for (IndexType i = 0; i < A.nrows(); ++i)
             {
                 C_row.clear();
-                if (A[i].empty()) continue;
 
                 // fill row i of T
                 for (IndexType j = 0; j < B.nrows(); ++j)
                 {
-                    if (B[j].empty()) continue;
+                    if (A[i].empty() || B[j].empty()) continue;
 
                     TScalarType t_ij;
 
-- 
2.43.0


From 88ccd5bff67464e507402ea53628071712bb58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 03/23] fix: optimized mxm with C==B and accum rounded the
 product to C's type before accumulating

---
 .../platforms/optimized_sequential/sparse_mxm_AB.hpp        | 6 ++++--
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
index 5a2956a..4c82a01 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
@@ -443,8 +443,10 @@ namespace grb
 
             if ((void*)&C == (void*)&B)
             {
-                // create temporary to prevent overwrite of inputs
-                LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
+                // create temporary to prevent overwrite of inputs; the product
+                // stays in the semiring's domain until it is accumulated
+                using TScalarType = typename SemiringT::result_type;
+                LilSparseMatrix<TScalarType> Ctmp(C.nrows(), C.ncols());
                 AB_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
                 for (IndexType i = 0; i < C.nrows(); ++i)
                 {
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 9358a5a..6e330fd 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -483,8 +483,10 @@ namespace grb
 
             if ((void*)&C == (void*)&B)
             {
-                // create temporary to prevent overwrite of inputs
-                LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
+                // create temporary to prevent overwrite of inputs; the product
+                // stays in the semiring's domain until it is accumulated
+                using TScalarType = typename SemiringT::result_type;
+                LilSparseMatrix<TScalarType> Ctmp(C.nrows(), C.ncols());
                 ABT_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
                 for (IndexType i = 0; i < C.nrows(); ++i)
                 {
-- 
2.43.0


From f0b04f0b5408ea477682ffeac78fe979cfe8a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 04/23] fix: assign of a constant with unsorted or duplicate
 indices corrupted the output

---
 .../optimized_sequential/sparse_assign.hpp    | 41 ++++++++++---------
 .../platforms/sequential/sparse_assign.hpp    | 41 ++++++++++---------
 2 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 94880b4..639d6b3 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -216,6 +216,20 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //********************************************************************
+        // The indices of a sequence in increasing order and without duplicates
+        template <typename SequenceT>
+        std::vector<IndexType> sortedUniqueIndices(SequenceT const &indices)
+        {
+            std::vector<IndexType> sorted;
+            for (auto it = indices.begin(); it != indices.end(); ++it)
+                sorted.push_back(*it);
+
+            std::sort(sorted.begin(), sorted.end());
+            sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
+            return sorted;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -251,23 +265,13 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
+            // rows of T must be in increasing order without duplicates
+            auto const sorted_rows(sortedUniqueIndices(row_indices));
+            auto const sorted_cols(sortedUniqueIndices(col_indices));
 
             assignConstant(T, val,
-                           row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           sorted_rows.begin(), sorted_rows.end(),
+                           sorted_cols.begin(), sorted_cols.end());
         }
 
         //=====================================================================
@@ -509,10 +513,9 @@ namespace grb
 
             std::vector<std::tuple<IndexType, ValueT> > t;
 
-            // Set all in T
-            auto seq = setupIndices(indices, w.size());
-            for (auto it = seq.begin(); it != seq.end(); ++it)
-                t.emplace_back(*it, val);
+            // Set all in T (in increasing order and only once each)
+            for (auto idx : sortedUniqueIndices(setupIndices(indices, w.size())))
+                t.emplace_back(idx, val);
 
             GRB_LOG_VERBOSE("t: " << t);
 
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 94880b4..639d6b3 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -216,6 +216,20 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //********************************************************************
+        // The indices of a sequence in increasing order and without duplicates
+        template <typename SequenceT>
+        std::vector<IndexType> sortedUniqueIndices(SequenceT const &indices)
+        {
+            std::vector<IndexType> sorted;
+            for (auto it = indices.begin(); it != indices.end(); ++it)
+                sorted.push_back(*it);
+
+            std::sort(sorted.begin(), sorted.end());
+            sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
+            return sorted;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -251,23 +265,13 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
+            // rows of T must be in increasing order without duplicates
+            auto const sorted_rows(sortedUniqueIndices(row_indices));
+            auto const sorted_cols(sortedUniqueIndices(col_indices));
 
             assignConstant(T, val,
-                           row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           sorted_rows.begin(), sorted_rows.end(),
+                           sorted_cols.begin(), sorted_cols.end());
         }
 
         //=====================================================================
@@ -509,10 +513,9 @@ namespace grb
 
             std::vector<std::tuple<IndexType, ValueT> > t;
 
-            // Set all in T
-            auto seq = setupIndices(indices, w.size());
-            for (auto it = seq.begin(); it != seq.end(); ++it)
-                t.emplace_back(*it, val);
+            // Set all in T (in increasing order and only once each)
+            for (auto idx : sortedUniqueIndices(setupIndices(indices, w.size())))
+                t.emplace_back(idx, val);
 
             GRB_LOG_VERBOSE("t: " << t);
 
-- 
2.43.0


From ff62a618effd77aa6f622d3a8232bd740b1555fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 05/23] fix: building a vector from duplicate indices
 overcounted its stored values

---
 .../optimized_sequential/BitmapSparseVector.hpp       | 11 ++++++++---
 .../platforms/sequential/BitmapSparseVector.hpp       | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7b31755..e2b4dec 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -159,8 +159,11 @@ namespace grb
                     }
 
                     m_vals[i] = values[idx];
-                    m_bitmap[i] = true;
-                    ++m_nvals;
+                    if (m_bitmap[i] == false)
+                    {
+                        ++m_nvals;
+                        m_bitmap[i] = true;
+                    }
                 }
             }
 
@@ -340,6 +343,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -358,12 +362,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7b31755..e2b4dec 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -159,8 +159,11 @@ namespace grb
                     }
 
                     m_vals[i] = values[idx];
-                    m_bitmap[i] = true;
-                    ++m_nvals;
+                    if (m_bitmap[i] == false)
+                    {
+                        ++m_nvals;
+                        m_bitmap[i] = true;
+                    }
                 }
             }
 
@@ -340,6 +343,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -358,12 +362,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
-- 
2.43.0


From dfdc506c909aa54c2895d0d781025fa8f6e5c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 06/23] fix: a vector constructed from one value reported no
 stored values

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp   | 6 +++++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index e2b4dec..5b6e00f 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index e2b4dec..5b6e00f 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
-- 
2.43.0


From ee32e558eb17259a85526395ccfe1b3f7d842a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 07/23] fix: assigning a source larger than the output through
 AllIndices wrote out of bounds

---
 src/graphblas/detail/checks.hpp | 17 +++++++++++++++++
 src/graphblas/operations.hpp    | 10 ++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/graphblas/detail/checks.hpp b/src/graphblas/detail/checks.hpp
index 84a920e..0feb042 100644
--- a/src/graphblas/detail/checks.hpp
+++ b/src/graphblas/detail/checks.hpp
@@ -323,4 +323,21 @@ namespace grb
     {
     }
 
+    // ================================================
+
+    // When assigning to AllIndices the source must fit in the destination.
+    // (Otherwise, the number and content of the indices are checked instead.)
+    template <typename S>
+    void check_source_fits_dest(IndexType, IndexType, const S &seq,
+                                const std::string &msg)
+    {
+    }
+
+    inline void check_source_fits_dest(IndexType src_dim, IndexType dst_dim,
+                                       const AllIndices &seq,
+                                       const std::string &msg)
+    {
+        check_index_val_leq(src_dim, dst_dim, "source <= destination", msg);
+    }
+
 } // end namespace grb
diff --git a/src/graphblas/operations.hpp b/src/graphblas/operations.hpp
index e879fbc..42362d2 100644
--- a/src/graphblas/operations.hpp
+++ b/src/graphblas/operations.hpp
@@ -502,6 +502,8 @@ namespace grb
         check_size_size(w, mask, "assign(std vec): w.size != mask.size");
         check_size_nindices(u, indices,
                             "assign(std vec): u.size != |indicies|");
+        check_source_fits_dest(u.size(), w.size(), indices,
+                               "assign(std vec): u.size > w.size");
 
         backend::assign(get_internal_vector(w),
                         get_internal_vector(mask),
@@ -545,6 +547,10 @@ namespace grb
                              "assign(std mat): A.nrows != |row_indices|");
         check_ncols_nindices(A, col_indices,
                              "assign(std mat): A.ncols != |col_indices|");
+        check_source_fits_dest(A.nrows(), C.nrows(), row_indices,
+                               "assign(std mat): A.nrows > C.nrows");
+        check_source_fits_dest(A.ncols(), C.ncols(), col_indices,
+                               "assign(std mat): A.ncols > C.ncols");
 
         backend::assign(get_internal_matrix(C),
                         get_internal_matrix(Mask),
@@ -584,6 +590,8 @@ namespace grb
         check_size_nrows(mask, C, "assign(col): C.nrows != mask.size");
         check_size_nindices(u, row_indices,
                             "assign(col): u.size != |row_indices|");
+        check_source_fits_dest(u.size(), C.nrows(), row_indices,
+                               "assign(col): u.size > C.nrows");
         check_index_within_ncols(col_index, C,
                                  "assign(col): col_index >= C.ncols");
 
@@ -624,6 +632,8 @@ namespace grb
         check_size_ncols(mask, C, "assign(row): C.ncols != Mask.ncols");
         check_size_nindices(u, col_indices,
                             "assign(row): u.size != |col_indices|");
+        check_source_fits_dest(u.size(), C.ncols(), col_indices,
+                               "assign(row): u.size > C.ncols");
         check_index_within_nrows(row_index, C,
                                  "assign(col): row_index >= C.nrows");
 
-- 
2.43.0


From d8a99b44604e02b4f380dc036223bf65024b42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:00 +0000
Subject: [PATCH 08/23] fix: element-wise operations with a transposed second
 operand converted it to the first's type

---
 .../platforms/optimized_sequential/sparse_ewiseadd.hpp          | 2 +-
 .../platforms/optimized_sequential/sparse_ewisemult.hpp         | 2 +-
 src/graphblas/platforms/sequential/sparse_ewiseadd.hpp          | 2 +-
 src/graphblas/platforms/sequential/sparse_ewisemult.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
-- 
2.43.0


From 12e372d56e66dfe25cae779261023a171ac5ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:57 +0000
Subject: [PATCH 09/23] fix: apsp took a vertex's self loop as its distance to
 itself

The self distance of 0 was combined with the diagonal of the graph by
addition instead of minimum.
---
 src/algorithms/apsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/apsp.hpp b/src/algorithms/apsp.hpp
index ef18690..b24691d 100644
--- a/src/algorithms/apsp.hpp
+++ b/src/algorithms/apsp.hpp
@@ -61,7 +61,7 @@ namespace algorithms
         auto Distances(grb::scaled_identity<grb::Matrix<T>>(num_vertices, 0));
         grb::eWiseAdd(Distances,
                       grb::NoMask(), grb::NoAccumulate(),
-                      grb::Plus<T>(),
+                      grb::Min<T>(),
                       Distances,
                       graph);
         grb::Matrix<T> col_k(num_vertices, 1);
-- 
2.43.0


From 9802f6929e890c60492ccf42f29261d468644c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 10/23] fix: filtered_sssp dropped newly reached vertices at
 distance zero

The value of an entry found only in new_dist was taken as its flag, so a
first distance of 0 (zero-weight edges, or weights that cancel) was
discarded together with everything reached through it.
---
 src/algorithms/sssp.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/algorithms/sssp.hpp b/src/algorithms/sssp.hpp
index 29d24e6..e01494c 100644
--- a/src/algorithms/sssp.hpp
+++ b/src/algorithms/sssp.hpp
@@ -236,13 +236,18 @@ namespace algorithms
                      new_dist, graph);
             //grb::print_vector(std::cout, new_dist, "new dist");
 
-            // new_dist_flags<new_dist> = new_dist .< dist
-            // (works even if new_dist has a stored zero
-            grb::eWiseAdd(new_dist_flags,
-                          grb::structure(new_dist),
-                          grb::NoAccumulate(),
-                          grb::LessThan<T>(),
-                          new_dist, dist, grb::REPLACE);
+            // new_dist_flags<new_dist> = new_dist .< dist, where a vertex
+            // without a distance yet counts as infinitely far away
+            // (works even if new_dist has a stored zero)
+            grb::assign(new_dist_flags,
+                        grb::structure(new_dist),
+                        grb::NoAccumulate(),
+                        true, grb::AllIndices(), grb::REPLACE);
+            grb::eWiseMult(new_dist_flags,
+                           grb::NoMask(),
+                           grb::Second<bool>(),
+                           grb::LessThan<T>(),
+                           new_dist, dist);
             //grb::print_vector(std::cout, new_dist_flags, "new dist flags");
 
             // clear out any non-contributing paths
-- 
2.43.0


From cec01d032dddc4a8853525ba18ecdcb640598fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:31 +0000
Subject: [PATCH 11/23] fix: sssp_delta_step lost paths through zero-weight
 edges

A value mask and an element-wise union made a request of distance 0 look
like no improvement, so vertices first reached at distance 0 were never
expanded.
---
 src/algorithms/sssp.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/algorithms/sssp.hpp b/src/algorithms/sssp.hpp
index e01494c..cfaa501 100644
--- a/src/algorithms/sssp.hpp
+++ b/src/algorithms/sssp.hpp
@@ -401,15 +401,17 @@ namespace algorithms
                 // Don't tBi = 0
                 // tBi.clear();
 
-                // Note that the following ("masked less than") only
-                // works if the new distances are never zero.
-                // TODO: NEED STRUCTURE ONLY MASK here
-                // tless<tReq> = tReq .< t
-                grb::eWiseAdd(tless,
-                              tReq,
-                              grb::NoAccumulate(),
-                              grb::LessThan<T>(),
-                              tReq, t, grb::REPLACE);
+                // tless<tReq> = tReq .< t, where a vertex without a distance
+                // yet counts as infinitely far away
+                grb::assign(tless,
+                            grb::structure(tReq),
+                            grb::NoAccumulate(),
+                            true, grb::AllIndices(), grb::REPLACE);
+                grb::eWiseMult(tless,
+                               grb::NoMask(),
+                               grb::Second<bool>(),
+                               grb::LessThan<T>(),
+                               tReq, t);
                 //grb::print_vector(std::cerr, tless, "tless<tReq> = tReq .< t");
 
                 // tBi<tless> = i*delta <= tReq < (i+1)*delta
-- 
2.43.0


From ee621b0845770d22a3d810e87938d4a4612fbcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 12/23] fix: k_truss2 dropped edges in no triangle even when k
 is 2

Such an edge had no entry in the support matrix at all, so it failed the
test support >= 0.
---
 src/algorithms/k_truss.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/k_truss.hpp b/src/algorithms/k_truss.hpp
index 673e56a..11ed628 100644
--- a/src/algorithms/k_truss.hpp
+++ b/src/algorithms/k_truss.hpp
@@ -295,9 +295,12 @@ namespace algorithms
         {
             num_edges = new_num_edges;
 
-            // Compute the support of each edge
-            // S<A,-> = (A' +.* A) = (A' * A) .* A
-            grb::mxm(Support, A, grb::NoAccumulate(),
+            // Compute the support of each edge (zero when in no triangle)
+            // S = 0 .* A;  S<A> += (A' +.* A) = (A' * A) .* A
+            grb::assign(Support, grb::structure(A), grb::NoAccumulate(),
+                        0, grb::AllIndices(), grb::AllIndices(),
+                        grb::REPLACE);
+            grb::mxm(Support, A, grb::Plus<grb::IndexType>(),
                      grb::ArithmeticSemiring<AType>(),
                      grb::transpose(A), A, grb::REPLACE);
             //grb::print_matrix(std::cout, Support, "Support");
-- 
2.43.0


From d4eae6b996f612721df71a7fab4dda28a232d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 13/23] fix: maxflow_ford_fulk gave up after as many
 augmentations as edges

Augmenting along shortest paths can take more augmentations than the
graph has edges; the result was then less than the maximum flow.
---
 src/algorithms/maxflow.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/maxflow.hpp b/src/algorithms/maxflow.hpp
index cca03d1..7d9d09a 100644
--- a/src/algorithms/maxflow.hpp
+++ b/src/algorithms/maxflow.hpp
@@ -339,9 +339,10 @@ namespace algorithms
         //grb::print_matrix(std::cerr, R, "R");
         //grb::print_matrix(std::cerr, graph, "graph");
 
+        // Shortest augmenting paths need fewer than |V||E| augmentations
         grb::IndexType count(0);
         while (maxflow_bfs(R, source, sink, index_ramp, M) &&
-               count++ < graph.nvals())
+               count++ < num_nodes*graph.nvals())
         {
             //std::cerr << "----------- Iteration: " << count << " -----------\n";
             //grb::print_matrix(std::cerr, M, "M (path)");
-- 
2.43.0


From 39ccade24e846b04d4a5603c12d31ca3e53acff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:16 +0000
Subject: [PATCH 14/23] fix: BC_appendixB4 let an existing BC vector leak into
 the dependencies of the next source

---
 src/algorithms/appendix_algorithms.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index 6612c5a..f4f5a4c 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -207,12 +207,13 @@ namespace algorithms
 
         // BC computation phase
         grb::Vector<float> t1(n), t2(n), t3(n), t4(n);
+        grb::Vector<float> update(n);  // contribution of this source
 
         for (int i = d-1; i > 0; --i) {
             grb::assign(t1, grb::NoMask(), grb::NoAccumulate(),
                         1.f, grb::AllIndices());
             grb::eWiseAdd(t1, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<float>(), t1, delta);
+                          grb::Plus<float>(), t1, update);
             grb::extract(t2, grb::NoMask(), grb::NoAccumulate(),
                          grb::transpose(sigma), grb::AllIndices(), i);
             grb::eWiseMult(t2, grb::NoMask(), grb::NoAccumulate(),
@@ -223,9 +224,12 @@ namespace algorithms
                          grb::transpose(sigma), grb::AllIndices(), i-1);
             grb::eWiseMult(t4, grb::NoMask(), grb::NoAccumulate(),
                            grb::Times<float>(), t4, t3);
-            grb::eWiseAdd(delta, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<float>(), delta, t4);
+            grb::eWiseAdd(update, grb::NoMask(), grb::NoAccumulate(),
+                          grb::Plus<float>(), update, t4);
         }
+
+        grb::eWiseAdd(delta, grb::NoMask(), grb::NoAccumulate(),
+                      grb::Plus<float>(), delta, update);
     }
 
     //************************************************************************
-- 
2.43.0


From fcb422189f94046604b3e99f2a9826b784cc10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:16 +0000
Subject: [PATCH 15/23] fix: BC_update_appendixB5 threw for any batch size
 other than the number of vertices

---
 src/algorithms/appendix_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index f4f5a4c..145647d 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -286,7 +286,7 @@ namespace algorithms
 
         // ==================== BFS phase ====================
         while (Frontier.nvals() > 0) {
-            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(nsver, n));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]), grb::NoMask(), grb::NoAccumulate(),
                        grb::Identity<int32_t, bool>(), Frontier);
 
-- 
2.43.0


From 5bdddd5491af34622e53115785825a85aeee0912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 16/23] fix: page_rank kept stale ranks and never stopped on
 vertices without incoming edges

---
 src/algorithms/page_rank.hpp | 39 +++++++++---------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/src/algorithms/page_rank.hpp b/src/algorithms/page_rank.hpp
index ba0b628..37505fc 100644
--- a/src/algorithms/page_rank.hpp
+++ b/src/algorithms/page_rank.hpp
@@ -95,10 +95,8 @@ namespace algorithms
                    m);
         //grb::print_matrix(std::cout, m, "Scaled Graph");
 
-        auto add_scaled_teleport =
-            std::bind(grb::Plus<RealT>(),
-                      std::placeholders::_1,
-                      (1.0 - damping_factor)/static_cast<T>(rows));
+        // what every vertex receives in every iteration
+        RealT const teleport = (1.0 - damping_factor)/static_cast<RealT>(rows);
 
         grb::assign(page_rank,
                     grb::NoMask(),
@@ -116,21 +114,18 @@ namespace algorithms
             //print_vector(std::cout, page_rank, "rank");
 
             // Compute the new rank: [1 x M][M x N] = [1 x N]
+            // rank*m + teleport, where the teleport also reaches the
+            // vertices that have no incoming edges.
+            grb::assign(new_rank,
+                        grb::NoMask(),
+                        grb::NoAccumulate(),
+                        teleport,
+                        grb::AllIndices());
             grb::vxm(new_rank,
                      grb::NoMask(),
-                     grb::Second<RealT>(),
+                     grb::Plus<RealT>(),
                      grb::ArithmeticSemiring<RealT>(),
                      page_rank, m);
-            //print_vector(std::cout, new_rank, "step 1:");
-
-            // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
-            // rank*(m + scaling_mat*teleport): [1 x 1][1 x M] + [1 x N] = [1 x M]
-            //use apply:
-            grb::apply(new_rank,
-                       grb::NoMask(),
-                       grb::NoAccumulate(),
-                       add_scaled_teleport,
-                       new_rank);
             //grb::print_vector(std::cout, new_rank, "new_rank");
 
             // Test for convergence - compute squared error
@@ -160,19 +155,5 @@ namespace algorithms
                 break;
             }
         }
-
-        // for any elements missing from page rank vector we need to set
-        // to scaled teleport.
-        grb::assign(new_rank,
-                    grb::NoMask(),
-                    grb::NoAccumulate(),
-                    (1.0 - damping_factor) / static_cast<T>(rows),
-                    grb::AllIndices());
-        grb::eWiseAdd(page_rank,
-                      grb::complement(page_rank),
-                      grb::NoAccumulate(),
-                      grb::Plus<RealT>(),
-                      page_rank,
-                      new_rank);
     }
 } // algorithms
-- 
2.43.0


From 9be21a2cd59dc668eebbaca38e4fb65c8ef7517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 17/23] fix: markov_cluster's expansion dropped every entry
 outside the graph's own pattern

---
 src/algorithms/cluster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/cluster.hpp b/src/algorithms/cluster.hpp
index d6a6784..fa3d9ed 100644
--- a/src/algorithms/cluster.hpp
+++ b/src/algorithms/cluster.hpp
@@ -480,7 +480,7 @@ namespace algorithms
             for (grb::IndexType k = 0; k < (e - 1); ++k)
             {
                 grb::mxm(Apower,
-                         Apower, grb::NoAccumulate(),
+                         grb::NoMask(), grb::NoAccumulate(),
                          grb::ArithmeticSemiring<RealT>(),
                          Apower, Anorm, grb::REPLACE);
             }
-- 
2.43.0


From 79f412020ce5de224c12fd65d6d4ab278586d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 18/23] fix: Louvain clustering never returned when a vertex
 had no community to move to

---
 src/algorithms/cluster_louvain.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/cluster_louvain.hpp b/src/algorithms/cluster_louvain.hpp
index 306787d..cc00edc 100644
--- a/src/algorithms/cluster_louvain.hpp
+++ b/src/algorithms/cluster_louvain.hpp
@@ -216,8 +216,14 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, t, "t = (q == kappa), with zeros removed");
 
+                    // without any candidate the vertex stays where it is
+                    if (t.nvals() == 0)
+                    {
+                        t = S_row;
+                    }
+
                     // break ties if necessary
-                    while (t.nvals() != 1)
+                    while (t.nvals() > 1)
                     {
                         //std::cout << "breaking ties: t.nvals() = "
                         //          << t.nvals() << std::endl;
@@ -456,8 +462,14 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, t, "t = (q == kappa), with zeros removed");
 
+                    // without any candidate the vertex stays where it is
+                    if (t.nvals() == 0)
+                    {
+                        t = S_row;
+                    }
+
                     // break ties if necessary
-                    while (t.nvals() != 1)
+                    while (t.nvals() > 1)
                     {
                         //std::cout << "breaking ties: t.nvals() = "
                         //          << t.nvals() << std::endl;
-- 
2.43.0


From f04e3d8aab0a3929c7aadf13f7ce43a47d5c95b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:38 +0000
Subject: [PATCH 19/23] fix: the text of every exception pointed into a
 destroyed string

---
 src/graphblas/exceptions.hpp | 84 ++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/graphblas/exceptions.hpp b/src/graphblas/exceptions.hpp
index fa75ef9..3606eb0 100644
--- a/src/graphblas/exceptions.hpp
+++ b/src/graphblas/exceptions.hpp
@@ -47,17 +47,17 @@ namespace grb
     {
     public:
         IndexOutOfBoundsException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("IndexOutOfBoundsException: " + msg) {}
 
-        IndexOutOfBoundsException() {}
+        IndexOutOfBoundsException() : m_message("IndexOutOfBoundsException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("IndexOutOfBoundsException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
-        std::string m_message;
+    private:
+        std::string m_message;   // the text what() returns
     };
 
     //************************************************************************
@@ -65,17 +65,17 @@ namespace grb
     {
     public:
         PanicException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("PanicException: " + msg) {}
 
-        PanicException() {}
+        PanicException() : m_message("PanicException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("PanicException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
-        std::string m_message;
+    private:
+        std::string m_message;   // the text what() returns
     };
 
     //************************************************************************
@@ -87,17 +87,17 @@ namespace grb
     {
     public:
         InvalidValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidValueException: " + msg) {}
 
-        InvalidValueException() {}
+        InvalidValueException() : m_message("InvalidValueException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("InvalidValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
-        std::string m_message;
+    private:
+        std::string m_message;   // the text what() returns
     };
 
     //************************************************************************
@@ -105,17 +105,17 @@ namespace grb
     {
     public:
         InvalidIndexException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidIndexException: " + msg) {}
 
-        InvalidIndexException() {}
+        InvalidIndexException() : m_message("InvalidIndexException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("InvalidIndexException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
-        std::string m_message;
+    private:
+        std::string m_message;   // the text what() returns
     };
 
     //************************************************************************
@@ -123,20 +123,20 @@ namespace grb
     {
     public:
         DimensionException(std::string const &msg)
-            : m_message(msg)
+            : m_message("DimensionException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! DimensionException: " << msg);
         }
 
-        DimensionException(){}
+        DimensionException() : m_message("DimensionException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("DimensionException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
-        std::string m_message;
+    private:
+        std::string m_message;   // the text what() returns
     };
 
     //************************************************************************
@@ -144,20 +144,20 @@ namespace grb
     {
     public:
         OutputNotEmptyException(std::string const &msg)
-            : m_message(msg)
+            : m_message("OutputNotEmptyException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! OutputNotEmptyException: " << msg);
         }
 
-        OutputNotEmptyException(){}
+        OutputNotEmptyException() : m_message("OutputNotEmptyException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("OutputNotEmptyException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
-        std::string m_message;
+    private:
+        std::string m_message;   // the text what() returns
     };
 
     //************************************************************************
@@ -165,16 +165,16 @@ namespace grb
     {
     public:
         NoValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("NoValueException: " + msg) {}
 
-        NoValueException() {}
+        NoValueException() : m_message("NoValueException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("NoValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
-        std::string m_message;
+    private:
+        std::string m_message;   // the text what() returns
     };
 }
-- 
2.43.0


From b0fbb20178364c6a2785c4c273c7ed1223d072a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 20/23] fix: normalize_cols threw for every matrix that is not
 square

---
 src/graphblas/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphblas/matrix_utils.hpp b/src/graphblas/matrix_utils.hpp
index 2acaa4d..4840561 100644
--- a/src/graphblas/matrix_utils.hpp
+++ b/src/graphblas/matrix_utils.hpp
@@ -177,7 +177,7 @@ namespace grb
     {
         using T = typename MatrixT::ScalarType;
 
-        grb::Vector<T> w(A.nrows());
+        grb::Vector<T> w(A.ncols());
         grb::reduce(w,
                     grb::NoMask(), grb::NoAccumulate(),
                     grb::Plus<T>(),
-- 
2.43.0


From 9aa8e114dc5a3e1fd37dedef9e01a63ef4ffeb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:36 +0000
Subject: [PATCH 21/23] fix: the transpose of a transpose view computed a
 single transpose

---
 src/graphblas/operations.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/graphblas/operations.hpp b/src/graphblas/operations.hpp
index 42362d2..4a14768 100644
--- a/src/graphblas/operations.hpp
+++ b/src/graphblas/operations.hpp
@@ -1166,6 +1166,17 @@ namespace grb
         return TransposeView<MatrixT>(A);
     }
 
+    /**
+     * @brief  The transpose of a transposed matrix is the matrix itself.
+     * @param[in]  view  The transposed view to transpose
+     *
+     */
+    template<typename MatrixT>
+    inline MatrixT const &transpose(TransposeView<MatrixT> const &view)
+    {
+        return view.m_mat;
+    }
+
     //************************************************************************
     /**
      * @brief  Return a view that uses only the structure of a matrix mask.
-- 
2.43.0


From 86ee2e5b5954d5dfa9e87a00b79c687af63c2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 22/23] fix: batch betweenness (trans v2) must follow shortest
 paths of more than ten edges

---
 src/algorithms/bc.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index 8688448..acd547f 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -124,9 +124,7 @@ namespace algorithms
         std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
 
-        // For testing purpose we only allow 10 iterations so it doesn't
-        // get into an infinite loop
-        while (Frontier.nvals() > 0 && d < 10)
+        while (Frontier.nvals() > 0)
         {
             GRB_BC_LOG("------- BFS iteration " << d << " --------");
 
-- 
2.43.0


From 511f6645816a603f919c40da1a293c3ea05c8f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 23/23] fix: betweenness centrality must not overflow its
 shortest-path counts

---
 src/algorithms/appendix_algorithms.hpp | 24 +++++------
 src/algorithms/bc.hpp                  | 60 +++++++++++++-------------
 2 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index 145647d..7fffacd 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -180,15 +180,15 @@ namespace algorithms
                        grb::IndexType  src)
     {
         grb::IndexType const n(A.nrows());
-        grb::Matrix<int32_t> sigma(n, n);
+        grb::Matrix<double> sigma(n, n);
 
-        grb::Vector<int32_t> q(n);  // wavefront/frontier
+        grb::Vector<double> q(n);  // wavefront/frontier
         q.setElement(src, 1);
 
-        grb::Vector<int32_t> p(q);  // path
+        grb::Vector<double> p(q);  // path
 
         grb::vxm(q, grb::complement(p), grb::NoAccumulate(),
-                 grb::ArithmeticSemiring<int32_t>(), q, A, grb::REPLACE);
+                 grb::ArithmeticSemiring<double>(), q, A, grb::REPLACE);
 
         // BFS phase
         grb::IndexType d(0);        // depth
@@ -197,9 +197,9 @@ namespace algorithms
             grb::assign(sigma, grb::NoMask(), grb::NoAccumulate(),
                         q, d, grb::AllIndices());
             grb::eWiseAdd(p, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<int32_t>(), p, q);
+                          grb::Plus<double>(), p, q);
             grb::vxm(q, grb::complement(p), grb::NoAccumulate(),
-                     grb::ArithmeticSemiring<int32_t>(), q, A, grb::REPLACE);
+                     grb::ArithmeticSemiring<double>(), q, A, grb::REPLACE);
 
 
             ++d;
@@ -266,13 +266,13 @@ namespace algorithms
         // NumSP holds # of shortest paths to each vertex from each src.
         // Initialized to source vertices
         // NumSP[s[i],i] = 1 where 0 <= i < nsver; implied zero elsewhere
-        grb::Matrix<int32_t> NumSP(n, nsver);
-        NumSP.build(src, GrB_ALL_nsver, std::vector<int32_t>(nsver, 1));
+        grb::Matrix<double> NumSP(n, nsver);
+        NumSP.build(src, GrB_ALL_nsver, std::vector<double>(nsver, 1));
 
 
         // The current frontier for all BFS's (from all roots)
         // Initialized to out neighbors of each source node in src
-        grb::Matrix<int32_t> Frontier(n, nsver);
+        grb::Matrix<double> Frontier(n, nsver);
 
         grb::extract(Frontier, grb::complement(NumSP), grb::NoAccumulate(),
                      grb::transpose(A), grb::AllIndices(), src, grb::REPLACE);
@@ -288,12 +288,12 @@ namespace algorithms
         while (Frontier.nvals() > 0) {
             Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]), grb::NoMask(), grb::NoAccumulate(),
-                       grb::Identity<int32_t, bool>(), Frontier);
+                       grb::Identity<double, bool>(), Frontier);
 
             grb::eWiseAdd(NumSP, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<int32_t>(), NumSP, Frontier);
+                          grb::Plus<double>(), NumSP, Frontier);
             grb::mxm(Frontier, grb::complement(NumSP), grb::NoAccumulate(),
-                     grb::ArithmeticSemiring<int32_t>(),
+                     grb::ArithmeticSemiring<double>(),
                      grb::transpose(A), Frontier, grb::REPLACE);
             ++d;
         }
diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index acd547f..3a18c18 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -98,7 +98,7 @@ namespace algorithms
 
         // The current frontier for all BFS's (from all roots)
         // It is initialized to the out neighbors of the specified roots
-        grb::Matrix<int32_t> Frontier(nsver, n);     // F is nsver x n (rows)
+        grb::Matrix<double> Frontier(nsver, n);     // F is nsver x n (rows)
         grb::extract(Frontier,
                      grb::NoMask(),
                      grb::NoAccumulate(),
@@ -110,14 +110,14 @@ namespace algorithms
         // NumSP holds number of shortest paths to a vertex from a given root
         // NumSP is initialized with the each starting root in 's':
         // NumSP[i,s[i]] = 1 where 0 <= i < nsver; implied zero elsewhere
-        grb::Matrix<int32_t> NumSP(nsver, n);
+        grb::Matrix<double> NumSP(nsver, n);
         grb::IndexArrayType GrB_ALL_nsver;     // fill with sequence
         GrB_ALL_nsver.reserve(nsver);
         for (grb::IndexType idx = 0; idx < nsver; ++idx)
         {
             GrB_ALL_nsver.push_back(idx); // tilln
         }
-        NumSP.build(GrB_ALL_nsver, s, std::vector<int32_t>(nsver, 1));
+        NumSP.build(GrB_ALL_nsver, s, std::vector<double>(nsver, 1));
 
         // ==================== BFS phase ====================
         GRB_BC_LOG("======= START BFS phase ======");
@@ -141,7 +141,7 @@ namespace algorithms
             grb::eWiseAdd(NumSP,
                           grb::NoMask(),
                           grb::NoAccumulate(),
-                          grb::Plus<int32_t>(),
+                          grb::Plus<double>(),
                           NumSP,
                           Frontier);
             GRB_BC_LOG("NumSP " << NumSP);
@@ -150,7 +150,7 @@ namespace algorithms
             grb::mxm(Frontier,
                      grb::complement(NumSP),
                      grb::NoAccumulate(),
-                     grb::ArithmeticSemiring<int32_t>(),
+                     grb::ArithmeticSemiring<double>(),
                      Frontier,
                      A,
                      grb::REPLACE);
@@ -332,7 +332,7 @@ namespace algorithms
 
         // The current frontier for all BFS's (from all roots)
         // It is initialized to the out neighbors of the specified roots
-        grb::Matrix<int32_t> Frontier(nsver, n);     // F is nsver x n (rows)
+        grb::Matrix<double> Frontier(nsver, n);     // F is nsver x n (rows)
         grb::extract(Frontier,
                      grb::NoMask(),
                      grb::NoAccumulate(),
@@ -343,14 +343,14 @@ namespace algorithms
         // NumSP holds number of shortest paths to a vertex from a given root
         // NumSP is initialized with the each starting root in 's':
         // NumSP[i,s[i]] = 1 where 0 <= i < nsver; implied zero elsewhere
-        grb::Matrix<int32_t> NumSP(nsver, n);
+        grb::Matrix<double> NumSP(nsver, n);
         grb::IndexArrayType GrB_ALL_nsver;     // fill with sequence
         GrB_ALL_nsver.reserve(nsver);
         for (grb::IndexType idx = 0; idx < nsver; ++idx)
         {
             GrB_ALL_nsver.push_back(idx);
         }
-        NumSP.build(GrB_ALL_nsver, s, std::vector<int32_t>(nsver, 1));
+        NumSP.build(GrB_ALL_nsver, s, std::vector<double>(nsver, 1));
 
         // ==================== BFS phase ====================
         std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
@@ -361,20 +361,20 @@ namespace algorithms
             Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(nsver, n));
             grb::apply(*(Sigmas[d]),
                        grb::NoMask(), grb::NoAccumulate(),
-                       grb::Identity<int32_t, bool>(),
+                       grb::Identity<double, bool>(),
                        Frontier);
 
             // P = F + P
             grb::eWiseAdd(NumSP,
                           grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<int32_t>(),
+                          grb::Plus<double>(),
                           NumSP, Frontier);
 
             // F<!P> = F +.* A
             grb::mxm(Frontier,
                      grb::complement(NumSP),
                      grb::NoAccumulate(),
-                     grb::ArithmeticSemiring<int32_t>(),
+                     grb::ArithmeticSemiring<double>(),
                      Frontier, A, grb::REPLACE);
 
             ++d;
@@ -501,7 +501,7 @@ namespace algorithms
 
         // The current frontier for all BFS's (from all roots)
         // It is initialized to the out neighbors of the specified roots
-        grb::Matrix<int32_t> Frontier(n, nsver);         // F is n x nsver
+        grb::Matrix<double> Frontier(n, nsver);         // F is n x nsver
         grb::IndexArrayType GrB_ALL_nsver;     // fill with sequence
         GrB_ALL_nsver.reserve(nsver);
         for (grb::IndexType idx = 0; idx < nsver; ++idx)
@@ -517,8 +517,8 @@ namespace algorithms
         // NumSP holds number of shortest paths to a vertex from a given root
         // NumSP is initialized with the each starting root in 's':
         // NumSP[s[i],i] = 1 where 0 <= i < nsver; implied zero elsewhere
-        grb::Matrix<int32_t> NumSP(n, nsver);
-        NumSP.build(s, GrB_ALL_nsver, std::vector<int32_t>(nsver, 1));
+        grb::Matrix<double> NumSP(n, nsver);
+        NumSP.build(s, GrB_ALL_nsver, std::vector<double>(nsver, 1));
 
         // ==================== BFS phase ====================
         std::vector<grb::Matrix<bool>* > Sigmas;
@@ -528,20 +528,20 @@ namespace algorithms
             Sigmas.push_back(new grb::Matrix<bool>(n, nsver));
             grb::apply(*(Sigmas[d]),
                        grb::NoMask(), grb::NoAccumulate(),
-                       grb::Identity<int32_t, bool>(),
+                       grb::Identity<double, bool>(),
                        Frontier);
 
             // P = F + P
             grb::eWiseAdd(NumSP,
                           grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<int32_t>(),
+                          grb::Plus<double>(),
                           NumSP, Frontier);
 
             // F<!P> = A' +.* F
             grb::mxm(Frontier,
                      grb::complement(NumSP),
                      grb::NoAccumulate(),
-                     grb::ArithmeticSemiring<int32_t>(),
+                     grb::ArithmeticSemiring<double>(),
                      grb::transpose(A),
                      Frontier,
                      grb::REPLACE); // Replace?
@@ -677,7 +677,7 @@ namespace algorithms
         // The current frontier for all BFS's (from all roots)
         // It is initialized with the each starting root in 's':
         // F[s[i],i] = 1 where 0 <= i < nsver; implied zero elsewhere
-        grb::Matrix<int32_t> Frontier(n, nsver);         // F is n x nsver
+        grb::Matrix<double> Frontier(n, nsver);         // F is n x nsver
         grb::IndexArrayType GrB_ALL_nsver;     // fill with sequence
         GrB_ALL_nsver.reserve(nsver);
         for (grb::IndexType idx = 0; idx < nsver; ++idx)
@@ -685,11 +685,11 @@ namespace algorithms
             GrB_ALL_nsver.push_back(idx);
         }
 
-        Frontier.build(s, GrB_ALL_nsver, std::vector<int32_t>(nsver, 1));
+        Frontier.build(s, GrB_ALL_nsver, std::vector<double>(nsver, 1));
 
         // NumSP holds number of shortest paths to a vertex from a given root
         // NumSP is initialized to a copy of Frontier. NumSP is n x nsver
-        grb::Matrix<int32_t> NumSP(Frontier);
+        grb::Matrix<double> NumSP(Frontier);
 
         // ==================== BFS phase ====================
         std::vector<grb::Matrix<bool>* > Sigmas;
@@ -700,7 +700,7 @@ namespace algorithms
             grb::mxm(Frontier,
                      grb::complement(NumSP),
                      grb::NoAccumulate(),
-                     grb::ArithmeticSemiring<int32_t>(),
+                     grb::ArithmeticSemiring<double>(),
                      grb::transpose(A),
                      Frontier,
                      grb::REPLACE);
@@ -710,14 +710,14 @@ namespace algorithms
             grb::apply(*(Sigmas[d]),
                        grb::NoMask(),
                        grb::NoAccumulate(),
-                       grb::Identity<int32_t, bool>(),
+                       grb::Identity<double, bool>(),
                        Frontier);
 
             // P = F + P
             grb::eWiseAdd(NumSP,
                           grb::NoMask(),
                           grb::NoAccumulate(),
-                          grb::Plus<int32_t>(),
+                          grb::Plus<double>(),
                           NumSP, Frontier);
 
             ++d;
@@ -854,7 +854,7 @@ namespace algorithms
 
         // P holds number of shortest paths to a vertex from a given root
         // P[i,src_nodes[i]] = 1 where 0 <= i < nsver; implied zero elsewher
-        grb::Matrix<int32_t> P(p, N);         // P is pxN
+        grb::Matrix<double> P(p, N);         // P is pxN
         grb::IndexArrayType GrB_ALL_p;     // fill with sequence
         GrB_ALL_p.reserve(p);
         for (grb::IndexType idx = 0; idx < p; ++idx)
@@ -862,11 +862,11 @@ namespace algorithms
             GrB_ALL_p.push_back(idx);
         }
 
-        P.build(GrB_ALL_p, src_nodes, std::vector<int32_t>(p, 1));
+        P.build(GrB_ALL_p, src_nodes, std::vector<double>(p, 1));
 
         // F is the current frontier for all BFS's (from all roots)
         // It is initialized with the out neighbors for each root
-        grb::Matrix<int32_t> F(p, N);
+        grb::Matrix<double> F(p, N);
         grb::extract(F,
                      grb::NoMask(),
                      grb::NoAccumulate(),
@@ -875,25 +875,25 @@ namespace algorithms
                      grb::AllIndices());
 
         // ==================== BFS phase ====================
-        std::vector<std::unique_ptr<grb::Matrix<int32_t>>> Sigmas;
+        std::vector<std::unique_ptr<grb::Matrix<double>>> Sigmas;
         int32_t d = 0;
         while (F.nvals() > 0)
         {
             // Sigma[d] = F
-            Sigmas.emplace_back(std::make_unique<grb::Matrix<int32_t>>(F));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<double>>(F));
 
             // P = F + P
             grb::eWiseAdd(P,
                           grb::NoMask(),
                           grb::NoAccumulate(),
-                          grb::Plus<int32_t>(),
+                          grb::Plus<double>(),
                           F, P);
 
             // F<!P> = F +.* A
             grb::mxm(F,                                    // C
                      grb::complement(P),             // M
                      grb::NoAccumulate(),            // accum
-                     grb::ArithmeticSemiring<int32_t>(), // op
+                     grb::ArithmeticSemiring<double>(), // op
                      F,                                    // A
                      graph,                                // B
                      grb::REPLACE);                                // replace
-- 
2.43.0

