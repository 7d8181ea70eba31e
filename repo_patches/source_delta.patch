From 56003206bc18873f6f5199b84c6e446f5db824c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 01/21] fix: keep multiply's operand order (and B's type) in
 mxv with A' and mxm with A'B'

---
 .../optimized_sequential/sparse_helpers.hpp   | 40 +++++++++++++++++++
 .../optimized_sequential/sparse_mxm_ATBT.hpp  | 30 +++++++-------
 .../optimized_sequential/sparse_mxv.hpp       |  2 +-
 .../platforms/sequential/sparse_helpers.hpp   | 40 +++++++++++++++++++
 .../platforms/sequential/sparse_mxm.hpp       |  6 +--
 .../platforms/sequential/sparse_mxv.hpp       |  2 +-
 6 files changed, 100 insertions(+), 20 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 831714b..dbdf457 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -1408,6 +1408,46 @@ namespace grb
             GRB_LOG_FN_END("axpy");
         }
 
+        // *******************************************************************
+        /// Same as axpy() with the operands of multiply in the other order:
+        ///
+        /// c += b[:]*a_ik
+        ///
+        /// @note similar to dot_rev(): for use when the right hand operand
+        ///       of the product is the one that is held fixed.
+        template<typename CScalarT,
+                 typename SemiringT,
+                 typename AScalarT,
+                 typename BScalarT>
+        void axpy_rev(
+            std::vector<std::tuple<IndexType, CScalarT>>       &c,
+            SemiringT                                           semiring,
+            AScalarT                                            a,
+            std::vector<std::tuple<IndexType, BScalarT>> const &b)
+        {
+            GRB_LOG_FN_BEGIN("axpy_rev");
+            auto c_it = c.begin();
+
+            for (auto&& [j, b_j] : b)
+            {
+                auto t_j(semiring.mult(b_j, a));
+
+                // scan through C_row to find insert/merge point
+                if (advance_and_check_tuple_iterator(c_it, c.end(), j))
+                {
+                    std::get<1>(*c_it) = semiring.add(std::get<1>(*c_it), t_j);
+                    ++c_it;
+                }
+                else
+                {
+                    c_it = c.insert(c_it,
+                                    std::make_tuple(j, static_cast<CScalarT>(t_j)));
+                    ++c_it;
+                }
+            }
+            GRB_LOG_FN_END("axpy_rev");
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index b212a57..5d1ffaf 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -72,12 +72,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -232,12 +232,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -331,12 +331,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -428,12 +428,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -526,12 +526,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
index 9014a7a..7988ec6 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
@@ -142,7 +142,7 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy_rev(t, op, u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 831714b..dbdf457 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -1408,6 +1408,46 @@ namespace grb
             GRB_LOG_FN_END("axpy");
         }
 
+        // *******************************************************************
+        /// Same as axpy() with the operands of multiply in the other order:
+        ///
+        /// c += b[:]*a_ik
+        ///
+        /// @note similar to dot_rev(): for use when the right hand operand
+        ///       of the product is the one that is held fixed.
+        template<typename CScalarT,
+                 typename SemiringT,
+                 typename AScalarT,
+                 typename BScalarT>
+        void axpy_rev(
+            std::vector<std::tuple<IndexType, CScalarT>>       &c,
+            SemiringT                                           semiring,
+            AScalarT                                            a,
+            std::vector<std::tuple<IndexType, BScalarT>> const &b)
+        {
+            GRB_LOG_FN_BEGIN("axpy_rev");
+            auto c_it = c.begin();
+
+            for (auto&& [j, b_j] : b)
+            {
+                auto t_j(semiring.mult(b_j, a));
+
+                // scan through C_row to find insert/merge point
+                if (advance_and_check_tuple_iterator(c_it, c.end(), j))
+                {
+                    std::get<1>(*c_it) = semiring.add(std::get<1>(*c_it), t_j);
+                    ++c_it;
+                }
+                else
+                {
+                    c_it = c.insert(c_it,
+                                    std::make_tuple(j, static_cast<CScalarT>(t_j)));
+                    ++c_it;
+                }
+            }
+            GRB_LOG_FN_END("axpy_rev");
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index f34cbdf..a8b6b8e 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -281,8 +281,8 @@ namespace grb
                 {
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, op, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, op, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -290,7 +290,7 @@ namespace grb
                 {
                     IndexType j(std::get<0>(t));
 
-                    T[j].emplace_back(i, static_cast<CScalarType>(std::get<1>(t)));
+                    T[j].emplace_back(i, std::get<1>(t));
                 }
             }
 
diff --git a/src/graphblas/platforms/sequential/sparse_mxv.hpp b/src/graphblas/platforms/sequential/sparse_mxv.hpp
index 9014a7a..7988ec6 100644
--- a/src/graphblas/platforms/sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxv.hpp
@@ -142,7 +142,7 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy_rev(t, op, u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
-- 
2.43.0


From e997ef4da29e0c0f7a055f10ed612d71bcd600d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 02/21] fix: mxm with B' must clear output rows whose row of A
 is empty

---
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 67c86bf..d0b2d5e 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -70,10 +70,9 @@ namespace grb
             for (IndexType i = 0; i < A.nrows(); ++i)
             {
                 C_row.clear();
-                if (A[i].empty()) continue;
 
-                // fill row i of T
-                for (IndexType j = 0; j < B.nrows(); ++j)
+                // fill row i of T (nothing to compute if A[i] is empty)
+                for (IndexType j = 0; (j < B.nrows()) && !A[i].empty(); ++j)
                 {
                     if (B[j].empty()) continue;
 
-- 
2.43.0


From e02161ba854adbe08e91228e44b092160aa3ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 03/21] fix: constant assign with unsorted or repeated indices
 must leave sorted, duplicate-free rows

---
 .../optimized_sequential/sparse_assign.hpp    | 44 +++++++++++--------
 .../platforms/sequential/sparse_assign.hpp    | 44 +++++++++++--------
 2 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 94880b4..9b7159c 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <utility>
 #include <vector>
@@ -216,6 +217,22 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //********************************************************************
+        // The indices of a sequence in increasing order, without duplicates
+        template <typename SequenceT>
+        std::vector<IndexType> sortedUniqueIndices(SequenceT const &seq)
+        {
+            std::vector<IndexType> indices(seq.size());
+            for (IndexType ix = 0; ix < indices.size(); ++ix)
+            {
+                indices[ix] = seq[ix];
+            }
+            std::sort(indices.begin(), indices.end());
+            indices.erase(std::unique(indices.begin(), indices.end()),
+                          indices.end());
+            return indices;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -251,23 +268,13 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
-
+            // rows of a LilSparseMatrix must be in increasing column order with
+            // no duplicates
+            auto const sorted_rows(sortedUniqueIndices(row_indices));
+            auto const sorted_cols(sortedUniqueIndices(col_indices));
             assignConstant(T, val,
-                           row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           sorted_rows.begin(), sorted_rows.end(),
+                           sorted_cols.begin(), sorted_cols.end());
         }
 
         //=====================================================================
@@ -510,9 +517,8 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
-            for (auto it = seq.begin(); it != seq.end(); ++it)
-                t.emplace_back(*it, val);
+            for (auto ix : sortedUniqueIndices(setupIndices(indices, w.size())))
+                t.emplace_back(ix, val);
 
             GRB_LOG_VERBOSE("t: " << t);
 
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 94880b4..9b7159c 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <utility>
 #include <vector>
@@ -216,6 +217,22 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //********************************************************************
+        // The indices of a sequence in increasing order, without duplicates
+        template <typename SequenceT>
+        std::vector<IndexType> sortedUniqueIndices(SequenceT const &seq)
+        {
+            std::vector<IndexType> indices(seq.size());
+            for (IndexType ix = 0; ix < indices.size(); ++ix)
+            {
+                indices[ix] = seq[ix];
+            }
+            std::sort(indices.begin(), indices.end());
+            indices.erase(std::unique(indices.begin(), indices.end()),
+                          indices.end());
+            return indices;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -251,23 +268,13 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
-
+            // rows of a LilSparseMatrix must be in increasing column order with
+            // no duplicates
+            auto const sorted_rows(sortedUniqueIndices(row_indices));
+            auto const sorted_cols(sortedUniqueIndices(col_indices));
             assignConstant(T, val,
-                           row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           sorted_rows.begin(), sorted_rows.end(),
+                           sorted_cols.begin(), sorted_cols.end());
         }
 
         //=====================================================================
@@ -510,9 +517,8 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
-            for (auto it = seq.begin(); it != seq.end(); ++it)
-                t.emplace_back(*it, val);
+            for (auto ix : sortedUniqueIndices(setupIndices(indices, w.size())))
+                t.emplace_back(ix, val);
 
             GRB_LOG_VERBOSE("t: " << t);
 
-- 
2.43.0


From 301b1e4cf489d4d23268f8b85fba730cec95f1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 04/21] fix: assign with AllIndices must reject operands of
 different size

---
 src/graphblas/detail/checks.hpp | 17 +++++++++++++++++
 src/graphblas/operations.hpp    | 10 ++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/graphblas/detail/checks.hpp b/src/graphblas/detail/checks.hpp
index 84a920e..f518ef9 100644
--- a/src/graphblas/detail/checks.hpp
+++ b/src/graphblas/detail/checks.hpp
@@ -323,4 +323,21 @@ namespace grb
     {
     }
 
+    // ================================================
+    // AllIndices stands for every index of an object of size n_all, so the
+    // object on the other side must have size n_other == n_all.
+
+    template <typename S>
+    void check_all_indices(const S &seq, IndexType n_all, IndexType n_other,
+                           const std::string &msg)
+    {
+    }
+
+    inline void check_all_indices(const grb::AllIndices &seq,
+                                  IndexType n_all, IndexType n_other,
+                                  const std::string &msg)
+    {
+        check_val_equals(n_all, n_other, "size != size (AllIndices)", msg);
+    }
+
 } // end namespace grb
diff --git a/src/graphblas/operations.hpp b/src/graphblas/operations.hpp
index e879fbc..ea202cb 100644
--- a/src/graphblas/operations.hpp
+++ b/src/graphblas/operations.hpp
@@ -502,6 +502,8 @@ namespace grb
         check_size_size(w, mask, "assign(std vec): w.size != mask.size");
         check_size_nindices(u, indices,
                             "assign(std vec): u.size != |indicies|");
+        check_all_indices(indices, w.size(), u.size(),
+                          "assign(std vec): w.size != u.size");
 
         backend::assign(get_internal_vector(w),
                         get_internal_vector(mask),
@@ -545,6 +547,10 @@ namespace grb
                              "assign(std mat): A.nrows != |row_indices|");
         check_ncols_nindices(A, col_indices,
                              "assign(std mat): A.ncols != |col_indices|");
+        check_all_indices(row_indices, C.nrows(), A.nrows(),
+                          "assign(std mat): C.nrows != A.nrows");
+        check_all_indices(col_indices, C.ncols(), A.ncols(),
+                          "assign(std mat): C.ncols != A.ncols");
 
         backend::assign(get_internal_matrix(C),
                         get_internal_matrix(Mask),
@@ -584,6 +590,8 @@ namespace grb
         check_size_nrows(mask, C, "assign(col): C.nrows != mask.size");
         check_size_nindices(u, row_indices,
                             "assign(col): u.size != |row_indices|");
+        check_all_indices(row_indices, C.nrows(), u.size(),
+                          "assign(col): C.nrows != u.size");
         check_index_within_ncols(col_index, C,
                                  "assign(col): col_index >= C.ncols");
 
@@ -624,6 +632,8 @@ namespace grb
         check_size_ncols(mask, C, "assign(row): C.ncols != Mask.ncols");
         check_size_nindices(u, col_indices,
                             "assign(row): u.size != |col_indices|");
+        check_all_indices(col_indices, C.ncols(), u.size(),
+                          "assign(row): C.ncols != u.size");
         check_index_within_nrows(row_index, C,
                                  "assign(col): row_index >= C.nrows");
 
-- 
2.43.0


From 77659df048477f9bf662b4c2f63659769ed28832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 05/21] fix: eWiseAdd/eWiseMult with B' must transpose into a
 matrix of B's type

---
 .../platforms/optimized_sequential/sparse_ewiseadd.hpp          | 2 +-
 .../platforms/optimized_sequential/sparse_ewisemult.hpp         | 2 +-
 src/graphblas/platforms/sequential/sparse_ewiseadd.hpp          | 2 +-
 src/graphblas/platforms/sequential/sparse_ewisemult.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
-- 
2.43.0


From fafd421704d8fa8a9e2ac4602b06505f5a16405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 06/21] fix: vector filled with a value must count its stored
 values and reject size zero

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp   | 6 +++++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7b31755..7f44395 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7b31755..7f44395 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
-- 
2.43.0


From ead8ecf3f43050ea9f9ac72a441f9147f00a6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 07/21] fix: Vector::build with repeated indices must not count
 a position twice

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp     | 4 +++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7f44395..4b25969 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -344,6 +344,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -362,12 +363,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7f44395..4b25969 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -344,6 +344,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -362,12 +363,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
-- 
2.43.0


From c775bb14fdbe8966a84f46c997d94d1453b9c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 08/21] fix: Matrix::build with an index out of bounds must not
 store part of the tuples

---
 .../platforms/optimized_sequential/LilSparseMatrix.hpp | 10 ++++++++++
 src/graphblas/platforms/sequential/LilSparseMatrix.hpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
index 2efb6a0..1e30869 100644
--- a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
@@ -178,6 +178,16 @@ namespace grb
                 /// @todo should this function call clear?
                 //clear();
 
+                // check all indices before anything is stored
+                for (IndexType ix = 0; ix < n; ++ix)
+                {
+                    if ((i_it[ix] >= m_num_rows) || (j_it[ix] >= m_num_cols))
+                    {
+                        throw IndexOutOfBoundsException(
+                            "build: index out of bounds");
+                    }
+                }
+
                 /// @todo DOING SOMETHING REALLY STUPID RIGHT NOW
                 for (IndexType ix = 0; ix < n; ++ix)
                 {
diff --git a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
index 2efb6a0..1e30869 100644
--- a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
@@ -178,6 +178,16 @@ namespace grb
                 /// @todo should this function call clear?
                 //clear();
 
+                // check all indices before anything is stored
+                for (IndexType ix = 0; ix < n; ++ix)
+                {
+                    if ((i_it[ix] >= m_num_rows) || (j_it[ix] >= m_num_cols))
+                    {
+                        throw IndexOutOfBoundsException(
+                            "build: index out of bounds");
+                    }
+                }
+
                 /// @todo DOING SOMETHING REALLY STUPID RIGHT NOW
                 for (IndexType ix = 0; ix < n; ++ix)
                 {
-- 
2.43.0


From 67e5fa597588639f684fcbe4777fb58b041d4f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 09/21] fix: normalize_cols of a matrix that is not square

---
 src/graphblas/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphblas/matrix_utils.hpp b/src/graphblas/matrix_utils.hpp
index 2acaa4d..4840561 100644
--- a/src/graphblas/matrix_utils.hpp
+++ b/src/graphblas/matrix_utils.hpp
@@ -177,7 +177,7 @@ namespace grb
     {
         using T = typename MatrixT::ScalarType;
 
-        grb::Vector<T> w(A.nrows());
+        grb::Vector<T> w(A.ncols());
         grb::reduce(w,
                     grb::NoMask(), grb::NoAccumulate(),
                     grb::Plus<T>(),
-- 
2.43.0


From 2471674f96e29b613763939bbd9b95dc6de157fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 10/21] fix: exceptions' what() must not return a pointer into
 a destroyed string

---
 src/graphblas/exceptions.hpp | 56 ++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/graphblas/exceptions.hpp b/src/graphblas/exceptions.hpp
index fa75ef9..d99796b 100644
--- a/src/graphblas/exceptions.hpp
+++ b/src/graphblas/exceptions.hpp
@@ -47,16 +47,16 @@ namespace grb
     {
     public:
         IndexOutOfBoundsException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("IndexOutOfBoundsException: " + msg) {}
 
-        IndexOutOfBoundsException() {}
+        IndexOutOfBoundsException() : m_message("IndexOutOfBoundsException: ") {}
 
-    private:
         const char* what() const throw()
         {
-            return ("IndexOutOfBoundsException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -65,16 +65,16 @@ namespace grb
     {
     public:
         PanicException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("PanicException: " + msg) {}
 
-        PanicException() {}
+        PanicException() : m_message("PanicException: ") {}
 
-    private:
         const char* what() const throw()
         {
-            return ("PanicException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -87,16 +87,16 @@ namespace grb
     {
     public:
         InvalidValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidValueException: " + msg) {}
 
-        InvalidValueException() {}
+        InvalidValueException() : m_message("InvalidValueException: ") {}
 
-    private:
         const char* what() const throw()
         {
-            return ("InvalidValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -105,16 +105,16 @@ namespace grb
     {
     public:
         InvalidIndexException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidIndexException: " + msg) {}
 
-        InvalidIndexException() {}
+        InvalidIndexException() : m_message("InvalidIndexException: ") {}
 
-    private:
         const char* what() const throw()
         {
-            return ("InvalidIndexException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -123,19 +123,19 @@ namespace grb
     {
     public:
         DimensionException(std::string const &msg)
-            : m_message(msg)
+            : m_message("DimensionException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! DimensionException: " << msg);
         }
 
-        DimensionException(){}
+        DimensionException() : m_message("DimensionException: ") {}
 
-    private:
         const char* what() const throw()
         {
-            return ("DimensionException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -144,19 +144,19 @@ namespace grb
     {
     public:
         OutputNotEmptyException(std::string const &msg)
-            : m_message(msg)
+            : m_message("OutputNotEmptyException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! OutputNotEmptyException: " << msg);
         }
 
-        OutputNotEmptyException(){}
+        OutputNotEmptyException() : m_message("OutputNotEmptyException: ") {}
 
-    private:
         const char* what() const throw()
         {
-            return ("OutputNotEmptyException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -165,16 +165,16 @@ namespace grb
     {
     public:
         NoValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("NoValueException: " + msg) {}
 
-        NoValueException() {}
+        NoValueException() : m_message("NoValueException: ") {}
 
-    private:
         const char* what() const throw()
         {
-            return ("NoValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 }
-- 
2.43.0


From d02c78d1646bb968baa4bdeb8437631cd19833d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 11/21] fix: parent BFS kept vertex indices in the graph's and
 the root vector's scalar type

---
 src/algorithms/bfs.hpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/algorithms/bfs.hpp b/src/algorithms/bfs.hpp
index 0dc78a6..1ec2f8a 100644
--- a/src/algorithms/bfs.hpp
+++ b/src/algorithms/bfs.hpp
@@ -112,7 +112,7 @@ namespace algorithms
      * @param[in]  graph        N x N adjacency matrix of the graph on which to
      *                          perform a BFS. (NOT the transpose).  The value
      *                          1 should indicate an edge.
-     * @param[in]  wavefront    N-vector, initial wavefront/root to use in the
+     * @param[in]  roots        N-vector, initial wavefront/root to use in the
      *                          calculation. It should have a
      *                          single value set to '1' corresponding to the
      *                          root.
@@ -123,10 +123,12 @@ namespace algorithms
               typename WavefrontVectorT,
               typename ParentListVectorT>
     void bfs(MatrixT const          &graph,
-             WavefrontVectorT        wavefront,   // copy is intentional
+             WavefrontVectorT        roots,
              ParentListVectorT      &parent_list)
     {
-        using T = typename MatrixT::ScalarType;
+        // the wavefront carries indices: neither the graph's nor the root
+        // vector's scalar type need be able to hold them.
+        using T = grb::IndexType;
         grb::IndexType const N(graph.nrows());
 
         // assert parent_list is N-vector
@@ -144,13 +146,13 @@ namespace algorithms
         grb::eWiseMult(parent_list,
                        grb::NoMask(), grb::NoAccumulate(),
                        grb::First<grb::IndexType>(),
-                       index_ramp, wavefront);
+                       index_ramp, roots);
 
-        // convert all stored values to their column index
-        grb::eWiseMult(parent_list,
+        grb::Vector<T> wavefront(N);
+        grb::eWiseMult(wavefront,
                        grb::NoMask(), grb::NoAccumulate(),
                        grb::First<grb::IndexType>(),
-                       index_ramp, parent_list);
+                       index_ramp, roots);
 
         while (wavefront.nvals() > 0)
         {
@@ -189,7 +191,7 @@ namespace algorithms
      * @param[in]  graph        N x N adjacency matrix of the graph on which to
      *                          perform a BFS. (NOT the transpose).  The value
      *                          1 should indicate an edge,
-     * @param[in]  wavefronts   R x N, initial wavefront(s)/root(s) to use in the
+     * @param[in]  roots        R x N, initial wavefront(s)/root(s) to use in the
      *                          calculation. Each row (1) corresponds to a
      *                          different BFS traversal and (2) should have a
      *                          single value set to '1' corresponding to the
@@ -201,10 +203,12 @@ namespace algorithms
               typename WavefrontMatrixT,
               typename ParentListMatrixT>
     void bfs_batch(MatrixT const          &graph,
-                   WavefrontMatrixT        wavefronts,   // copy is intentional
+                   WavefrontMatrixT        roots,
                    ParentListMatrixT      &parent_list)
     {
-        using T = typename MatrixT::ScalarType;
+        // the wavefronts carry indices: neither the graph's nor the root
+        // matrix's scalar type need be able to hold them.
+        using T = grb::IndexType;
         grb::IndexType const N(graph.nrows());
 
         // assert parent_list is RxN
@@ -222,7 +226,13 @@ namespace algorithms
         grb::mxm(parent_list,
                  grb::NoMask(), grb::NoAccumulate(),
                  grb::MinSecondSemiring<T>(),
-                 wavefronts, index_ramp);
+                 roots, index_ramp);
+
+        grb::Matrix<T> wavefronts(roots.nrows(), N);
+        grb::mxm(wavefronts,
+                 grb::NoMask(), grb::NoAccumulate(),
+                 grb::MinSecondSemiring<T>(),
+                 roots, index_ramp);
 
         while (wavefronts.nvals() > 0)
         {
-- 
2.43.0


From 89bbcf1f60a7d6da2d897155454a174dc62e0136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 12/21] fix: apsp took the weight of a self loop as the
 distance of a vertex to itself

---
 src/algorithms/apsp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/apsp.hpp b/src/algorithms/apsp.hpp
index ef18690..a3c335e 100644
--- a/src/algorithms/apsp.hpp
+++ b/src/algorithms/apsp.hpp
@@ -59,9 +59,10 @@ namespace algorithms
         }
 
         auto Distances(grb::scaled_identity<grb::Matrix<T>>(num_vertices, 0));
+        // Min: a self loop never shortens the empty path
         grb::eWiseAdd(Distances,
                       grb::NoMask(), grb::NoAccumulate(),
-                      grb::Plus<T>(),
+                      grb::Min<T>(),
                       Distances,
                       graph);
         grb::Matrix<T> col_k(num_vertices, 1);
-- 
2.43.0


From a2ed0aa6ca2b44120328e8785ec131463c829068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 13/21] fix: filtered_sssp dropped new distances of zero

---
 src/algorithms/sssp.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/algorithms/sssp.hpp b/src/algorithms/sssp.hpp
index 29d24e6..96ec2e7 100644
--- a/src/algorithms/sssp.hpp
+++ b/src/algorithms/sssp.hpp
@@ -236,13 +236,18 @@ namespace algorithms
                      new_dist, graph);
             //grb::print_vector(std::cout, new_dist, "new dist");
 
-            // new_dist_flags<new_dist> = new_dist .< dist
-            // (works even if new_dist has a stored zero
-            grb::eWiseAdd(new_dist_flags,
-                          grb::structure(new_dist),
-                          grb::NoAccumulate(),
-                          grb::LessThan<T>(),
-                          new_dist, dist, grb::REPLACE);
+            // new_dist_flags<new_dist> = new_dist .< dist, and true where
+            // there is no dist yet (even if new_dist has a stored zero there)
+            grb::apply(new_dist_flags,
+                       grb::NoMask(),
+                       grb::NoAccumulate(),
+                       [](T const &) { return true; },
+                       new_dist);
+            grb::eWiseMult(new_dist_flags,
+                           grb::NoMask(),
+                           grb::Second<bool>(),
+                           grb::LessThan<T>(),
+                           new_dist, dist);
             //grb::print_vector(std::cout, new_dist_flags, "new dist flags");
 
             // clear out any non-contributing paths
-- 
2.43.0


From c5863c97e05b9022e405ebc1465ce8f5f52ae88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 14/21] fix: sssp_delta_step dropped new distances of zero

---
 src/algorithms/sssp.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/algorithms/sssp.hpp b/src/algorithms/sssp.hpp
index 96ec2e7..e6fe011 100644
--- a/src/algorithms/sssp.hpp
+++ b/src/algorithms/sssp.hpp
@@ -401,15 +401,18 @@ namespace algorithms
                 // Don't tBi = 0
                 // tBi.clear();
 
-                // Note that the following ("masked less than") only
-                // works if the new distances are never zero.
-                // TODO: NEED STRUCTURE ONLY MASK here
-                // tless<tReq> = tReq .< t
-                grb::eWiseAdd(tless,
-                              tReq,
-                              grb::NoAccumulate(),
-                              grb::LessThan<T>(),
-                              tReq, t, grb::REPLACE);
+                // tless<tReq> = tReq .< t, and true where there is no t yet
+                // (even if tReq has a stored zero there)
+                grb::apply(tless,
+                           grb::NoMask(),
+                           grb::NoAccumulate(),
+                           [](T const &) { return true; },
+                           tReq);
+                grb::eWiseMult(tless,
+                               grb::NoMask(),
+                               grb::Second<bool>(),
+                               grb::LessThan<T>(),
+                               tReq, t);
                 //grb::print_vector(std::cerr, tless, "tless<tReq> = tReq .< t");
 
                 // tBi<tless> = i*delta <= tReq < (i+1)*delta
-- 
2.43.0


From e698116d7e2e99d01bed695566e4a17edcb3da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 15/21] fix: BC_update (appendix B.5) gave its frontier copies
 transposed dimensions

---
 src/algorithms/appendix_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index 6612c5a..a4894f2 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -282,7 +282,7 @@ namespace algorithms
 
         // ==================== BFS phase ====================
         while (Frontier.nvals() > 0) {
-            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(nsver, n));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]), grb::NoMask(), grb::NoAccumulate(),
                        grb::Identity<int32_t, bool>(), Frontier);
 
-- 
2.43.0


From 41fe6f3cb5fc7f0e55fc08b04754c937ce4da1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 16/21] fix: betweenness (batch_alt_trans_v2) ignored vertices
 more than ten hops away

---
 src/algorithms/bc.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index 8688448..acd547f 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -124,9 +124,7 @@ namespace algorithms
         std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
 
-        // For testing purpose we only allow 10 iterations so it doesn't
-        // get into an infinite loop
-        while (Frontier.nvals() > 0 && d < 10)
+        while (Frontier.nvals() > 0)
         {
             GRB_BC_LOG("------- BFS iteration " << d << " --------");
 
-- 
2.43.0


From 3684364371ac0730ed836f9d34eb85daa926486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 17/21] fix: get_cluster_assignments took the number of
 clusters for the number of vertices

---
 src/algorithms/cluster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/cluster.hpp b/src/algorithms/cluster.hpp
index d6a6784..9d447f4 100644
--- a/src/algorithms/cluster.hpp
+++ b/src/algorithms/cluster.hpp
@@ -59,7 +59,8 @@ namespace algorithms
     {
         using T = typename MatrixT::ScalarType;
 
-        grb::IndexType num_nodes(cluster_matrix.nrows());
+        // one column per vertex
+        grb::IndexType num_nodes(cluster_matrix.ncols());
 
         grb::IndexType nnz = cluster_matrix.nvals();
         grb::IndexArrayType cluster_ids(nnz), vertex_ids(nnz);
-- 
2.43.0


From baf56c68fdd62ff2859a2732ef30e32939ca5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 18/21] fix: page_rank mishandled vertices without in-edges and
 integral graphs

---
 src/algorithms/page_rank.hpp | 40 ++++++++++--------------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/algorithms/page_rank.hpp b/src/algorithms/page_rank.hpp
index ba0b628..d4c4ecc 100644
--- a/src/algorithms/page_rank.hpp
+++ b/src/algorithms/page_rank.hpp
@@ -95,10 +95,7 @@ namespace algorithms
                    m);
         //grb::print_matrix(std::cout, m, "Scaled Graph");
 
-        auto add_scaled_teleport =
-            std::bind(grb::Plus<RealT>(),
-                      std::placeholders::_1,
-                      (1.0 - damping_factor)/static_cast<T>(rows));
+        RealT const scaled_teleport((1.0 - damping_factor)/static_cast<RealT>(rows));
 
         grb::assign(page_rank,
                     grb::NoMask(),
@@ -115,22 +112,21 @@ namespace algorithms
             //          << std::endl;
             //print_vector(std::cout, page_rank, "rank");
 
+            // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
+            // rank*(m + scaling_mat*teleport): [1 x 1][1 x M] + [1 x N] = [1 x M]
+            // every vertex, with or without in-edges, gets the teleport term
+            grb::assign(new_rank,
+                        grb::NoMask(),
+                        grb::NoAccumulate(),
+                        scaled_teleport,
+                        grb::AllIndices());
+
             // Compute the new rank: [1 x M][M x N] = [1 x N]
             grb::vxm(new_rank,
                      grb::NoMask(),
-                     grb::Second<RealT>(),
+                     grb::Plus<RealT>(),
                      grb::ArithmeticSemiring<RealT>(),
                      page_rank, m);
-            //print_vector(std::cout, new_rank, "step 1:");
-
-            // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
-            // rank*(m + scaling_mat*teleport): [1 x 1][1 x M] + [1 x N] = [1 x M]
-            //use apply:
-            grb::apply(new_rank,
-                       grb::NoMask(),
-                       grb::NoAccumulate(),
-                       add_scaled_teleport,
-                       new_rank);
             //grb::print_vector(std::cout, new_rank, "new_rank");
 
             // Test for convergence - compute squared error
@@ -160,19 +156,5 @@ namespace algorithms
                 break;
             }
         }
-
-        // for any elements missing from page rank vector we need to set
-        // to scaled teleport.
-        grb::assign(new_rank,
-                    grb::NoMask(),
-                    grb::NoAccumulate(),
-                    (1.0 - damping_factor) / static_cast<T>(rows),
-                    grb::AllIndices());
-        grb::eWiseAdd(page_rank,
-                      grb::complement(page_rank),
-                      grb::NoAccumulate(),
-                      grb::Plus<RealT>(),
-                      page_rank,
-                      new_rank);
     }
 } // algorithms
-- 
2.43.0


From ebd99f13c5e5fe96728a34d7b44ff7cd5251b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 19/21] fix: maxflow_ford_fulk stopped after as many
 augmentations as there are edges

---
 src/algorithms/maxflow.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/maxflow.hpp b/src/algorithms/maxflow.hpp
index cca03d1..c836067 100644
--- a/src/algorithms/maxflow.hpp
+++ b/src/algorithms/maxflow.hpp
@@ -340,8 +340,9 @@ namespace algorithms
         //grb::print_matrix(std::cerr, graph, "graph");
 
         grb::IndexType count(0);
+        // shortest augmenting paths: at most |V||E| of them
         while (maxflow_bfs(R, source, sink, index_ramp, M) &&
-               count++ < graph.nvals())
+               count++ < num_nodes * graph.nvals())
         {
             //std::cerr << "----------- Iteration: " << count << " -----------\n";
             //grb::print_matrix(std::cerr, M, "M (path)");
-- 
2.43.0


From e5d3820cabc3f10f6d4ac3e3643bf4b4dd41e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 20/21] fix: markov_cluster's expansion dropped the flow to
 vertices that are not neighbours

The power expansion is documented to compute Anorm^e but used the matrix
itself as mask, so that e.g. two vertices joined by an edge (no self loops)
came out as an empty matrix.
---
 src/algorithms/cluster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/cluster.hpp b/src/algorithms/cluster.hpp
index 9d447f4..a5ff7f9 100644
--- a/src/algorithms/cluster.hpp
+++ b/src/algorithms/cluster.hpp
@@ -481,7 +481,7 @@ namespace algorithms
             for (grb::IndexType k = 0; k < (e - 1); ++k)
             {
                 grb::mxm(Apower,
-                         Apower, grb::NoAccumulate(),
+                         grb::NoMask(), grb::NoAccumulate(),
                          grb::ArithmeticSemiring<RealT>(),
                          Apower, Anorm, grb::REPLACE);
             }
-- 
2.43.0


From 3c6764f5aa348de41f1e62957f3ad3a2f6323fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 21/21] fix: louvain clustering hung on a vertex without other
 vertices to join

A vertex whose only edge is a self loop (masked version), or the only vertex
with edges, has no candidate community; the tie-breaking loop then never ended.
---
 src/algorithms/cluster_louvain.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algorithms/cluster_louvain.hpp b/src/algorithms/cluster_louvain.hpp
index 306787d..614cc73 100644
--- a/src/algorithms/cluster_louvain.hpp
+++ b/src/algorithms/cluster_louvain.hpp
@@ -216,6 +216,12 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, t, "t = (q == kappa), with zeros removed");
 
+                    // no other vertex to join: stay in own community
+                    if (t.nvals() == 0)
+                    {
+                        t = S_row;
+                    }
+
                     // break ties if necessary
                     while (t.nvals() != 1)
                     {
@@ -456,6 +462,12 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, t, "t = (q == kappa), with zeros removed");
 
+                    // no other vertex to join: stay in own community
+                    if (t.nvals() == 0)
+                    {
+                        t = S_row;
+                    }
+
                     // break ties if necessary
                     while (t.nvals() != 1)
                     {
-- 
2.43.0

