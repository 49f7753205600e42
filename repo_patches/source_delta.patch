From dbb945c864339f900162fe403be50c8f75a0cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 001/103] fix: apply the column permutation of the full
 pivoting LU in the right direction

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 3a68700..4e38b6f 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -353,7 +353,7 @@ namespace Ani{
         std::copy(X, X + N*M, B);
         for (int l = 0; l < M; ++l)
             for (int i = 0; i < N; ++i)
-                X[i + N*l] = B[q[i] + N*l];
+                X[q[i] + N*l] = B[i + N*l];
     }
 
     /// @brief Solve the problem AX = B for sqaure dense matrix using LU decomposition
-- 
2.43.0


From e8572ab81d765838a059521bc255e9694ab82818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 002/103] fix: do not swap out of range rows when the full
 pivoting LU meets a zero block

---
 anifem++/fem/geometry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 4e38b6f..4db00bd 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -286,6 +286,8 @@ namespace Ani{
                         pi = i;
                         pj = j;
                     }
+            if (pi < 0) //the rest of the matrix is zero
+                break;
             //Swap Row
             std::swap(p[k], p[pi]);
             for (int j = 0; j < N; j++)
-- 
2.43.0


From 8e7932378ee50c7a2837f1759e310fdfa000f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 003/103] fix: let fullPivLU_inverse without Eigen overwrite
 its argument as documented

---
 anifem++/fem/geometry.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 4db00bd..768ec69 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -400,10 +400,17 @@ namespace Ani{
         Map<MatrixX<Scalar>> Invm(Inv, N, N);
         Invm = Am.fullPivLu().inverse();
 #else         
-        std::fill(Inv, Inv + N*N, 0);
-        for (int i = 0; i < N; ++i)
-            Inv[i+i*N] = 1;
-        fullPivLU_solve(A, Inv, N, N, Inv, mem, imem);
+        Scalar* Am = mem;
+        int *p = imem, *q = imem + N;
+        Scalar* Bm = mem + N*N;
+        std::copy(A, A + N*N, Am); // Inv may coincide with A
+        std::fill(Bm, Bm + N*N, 0);
+        for (int i = 0; i < N; ++i){
+            Bm[i+i*N] = 1;
+            p[i] = q[i] = i;
+        }
+        fullPivLU(Am, N, p, q);
+        LU_solve(Am, N, p, q, Bm, Inv, N);
 #endif
     }
 
-- 
2.43.0


From b068b3d989520364632ece8f4eab93f135c9ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 004/103] fix: report the points of the P0, P3 and CR1 degrees
 of freedom where the functionals are

---
 anifem++/fem/operators.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 7429522..ef146ae 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -732,10 +732,8 @@ namespace Ani{
         static inline void at(int odf, const ScalarType *nodes, ScalarType *coord){
             assert(odf == 0 && "FEM_P0 have only 1 odf");
             (void) odf;
-            for (int i = 0; i < 4; ++i)
-                for (int k = 0; k < 3; ++k)
-                    coord[k] += nodes[3 * i + k];
-            for (int k = 0; k < 3; ++k) coord[k] /= 4;
+            for (int k = 0; k < 3; ++k)
+                coord[k] = (nodes[k] + nodes[3 + k] + nodes[6 + k] + nodes[9 + k]) / 4;
         }
     };
 
@@ -773,8 +771,8 @@ namespace Ani{
             if (odf < 4)
                 std::copy(nodes + 3 * odf, nodes + 3 * odf + 3, coord);
             else if (odf >= 16) {
-                odf -= 15;
-                int i1 = (odf == 4), i2 = 1 + (odf > 2), i3 = 3 - (odf == 1);
+                odf -= 16;
+                int i1 = odf, i2 = (odf + 1) % 4, i3 = (odf + 2) % 4;
                 for (int i = 0; i < 3; ++i)
                     coord[i] = (nodes[3 * i1 + i] + nodes[3 * i2 + i] + nodes[3 * i3 + i]) / 3;
             } else {
@@ -797,7 +795,7 @@ namespace Ani{
         template<typename ScalarType = double>
         static inline void at(int odf, const ScalarType  *nodes, ScalarType  *coord){
             for (int i = 0; i < 3; ++i)
-                coord[i] = (nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)] + nodes[i + 3*((odf + 3) % 4)]) / 3;
+                coord[i] = (nodes[i + 3*odf] + nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)]) / 3;
         }
     };
 
-- 
2.43.0


From 1539792bf9e5e18db1a74c344c28c7787004b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 005/103] fix: make the points of degrees of freedom of
 composed compile-time spaces compile

---
 anifem++/fem/operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index ef146ae..afdcd2d 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -841,7 +841,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
@@ -871,7 +871,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
-- 
2.43.0


From 407b05c7cee9e6e27b8f87a9f59a687eea26ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 006/103] fix: make the symbolic bases of P3, ND0 and RT0 agree
 with their value operators

---
 anifem++/fem/expr_interface.h          |  4 ++--
 anifem++/fem/spaces/nedelec_0.h        | 12 ++++++------
 anifem++/fem/spaces/poly_3.h           | 10 ++++------
 anifem++/fem/spaces/raviant_thomas_0.h | 13 +++++++------
 4 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 12034ac..e37bb2a 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -34,8 +34,8 @@ namespace Ani{
         virtual BaseExpr& set_sub_matrix(const BaseExpr& val, std::size_t i_start, long i_inc, std::size_t j_start, long j_inc) = 0;
         virtual BaseExpr& set_horzcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_vertcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
-        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, size1(), 0, 1); }
-        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, size2()); }
+        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, val.size1(), 0, 1); }
+        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, val.size2()); }
         virtual BaseExpr& set_scal_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end, const double* coefs) = 0;
         virtual BaseExpr& set_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_sum(const BaseExpr& a, const BaseExpr& b){ const BaseExpr* arr[2]{&a, &b}; return set_sum(arr, arr+2); }
diff --git a/anifem++/fem/spaces/nedelec_0.h b/anifem++/fem/spaces/nedelec_0.h
index 5a460fc..17f40a5 100644
--- a/anifem++/fem/spaces/nedelec_0.h
+++ b/anifem++/fem/spaces/nedelec_0.h
@@ -229,15 +229,15 @@ namespace Ani{
     struct Basis<FemFix<FEM_ND0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)}));
+            auto V = det3x3(vertcat({grad_lmb.row(0), grad_lmb.row(1), grad_lmb.row(2)}));
             static const unsigned char IPR[4*6] = {0,1,2,3, 0,2,3,1, 0,3,1,2, 1,2,0,3, 1,3,2,0, 2,3,0,1};
             for (int i = 0; i < 6; ++i){
-                auto l0 = grad_lmb.col(IPR[6*i+0]).T();
-                auto l1 = grad_lmb.col(IPR[6*i+1]).T();
-                auto l2 = grad_lmb.col(IPR[6*i+2]).T();
-                auto l3 = grad_lmb.col(IPR[6*i+3]).T();
+                auto l0 = grad_lmb.row(IPR[4*i+0]);
+                auto l1 = grad_lmb.row(IPR[4*i+1]);
+                auto l2 = grad_lmb.row(IPR[4*i+2]);
+                auto l3 = grad_lmb.row(IPR[4*i+3]);
                 auto e = norm(cross(l2, l3) / V);
-                phi[i] = 6*e*(lmb(IPR[6*i+0], 0)*l1 - lmb(IPR[6*i+1], 0)*l0);
+                phi[i] = e*(lmb(IPR[4*i+0], 0)*l1 - lmb(IPR[4*i+1], 0)*l0);
             } 
         }
     };
diff --git a/anifem++/fem/spaces/poly_3.h b/anifem++/fem/spaces/poly_3.h
index 74557ac..28405c1 100644
--- a/anifem++/fem/spaces/poly_3.h
+++ b/anifem++/fem/spaces/poly_3.h
@@ -185,12 +185,10 @@ namespace Ani{
                     *phi = 4.5 * lmb(j, 0) * lmb(k, 0) * (3*lmb(id, 0) - 1);
                     ++phi;
                 }   
-            for (int j = 0; j < 4; ++j)
-            for (int k = j+1; k < 4; ++k)
-                for (int l = k+1; l < 4; ++l){
-                    *phi = 27 * lmb(j, 0) * lmb(k, 0) * lmb(l, 0); 
-                    ++phi;
-                }
+            for (int j = 0; j < 4; ++j){
+                *phi = 27 * lmb(j, 0) * lmb((j+1)%4, 0) * lmb((j+2)%4, 0); 
+                ++phi;
+            }
         }
     };
 
diff --git a/anifem++/fem/spaces/raviant_thomas_0.h b/anifem++/fem/spaces/raviant_thomas_0.h
index 1d330b6..71e18a7 100644
--- a/anifem++/fem/spaces/raviant_thomas_0.h
+++ b/anifem++/fem/spaces/raviant_thomas_0.h
@@ -236,13 +236,14 @@ namespace Ani{
     struct Basis<FemFix<FEM_RT0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = abs(det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)})));
-            for (int i = 0; i < 4; ++i)
-                phi[i] = norm(grad_lmb.col((i+3)%4))/V * (
-                        lmb((i+0)%4, 0)*cross( grad_lmb.col((i+1)%4).T(), grad_lmb.col((i+2)%4).T() ) + 
-                        lmb((i+1)%4, 0)*cross( grad_lmb.col((i+2)%4).T(), grad_lmb.col((i+0)%4).T() ) +
-                        lmb((i+2)%4, 0)*cross( grad_lmb.col((i+0)%4).T(), grad_lmb.col((i+1)%4).T() )
+            for (int i = 0; i < 4; ++i){
+                auto V = det3x3(vertcat({grad_lmb.row(i), grad_lmb.row((i+1)%4), grad_lmb.row((i+2)%4)}));
+                phi[i] = norm(grad_lmb.row((i+3)%4))/V * (
+                        lmb((i+0)%4, 0)*cross( grad_lmb.row((i+1)%4), grad_lmb.row((i+2)%4) ) + 
+                        lmb((i+1)%4, 0)*cross( grad_lmb.row((i+2)%4), grad_lmb.row((i+0)%4) ) +
+                        lmb((i+2)%4, 0)*cross( grad_lmb.row((i+0)%4), grad_lmb.row((i+1)%4) )
                         ); 
+            }
         }
     };
 
-- 
2.43.0


From a5aec742053c8905a91df7888e82ed6cb55ea627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 007/103] fix: clear the results of all cells of a batch before
 summing degrees of freedom

---
 anifem++/fem/operations/core.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 4948cac..b3adc25 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -70,7 +70,7 @@ namespace Ani{
 #ifdef WITH_EIGEN
         if (not_use_eigen){
 #endif
-            std::fill(R, R + ARow * BCol, 0);
+            std::fill(R, R + ARow * BCol * fuse, 0);
             for (IndexType0 r = 0; r < fuse; ++r)
                 for (IndexType1 j = 0; j < nRow; ++j)
                     for (IndexType2 ib = 0; ib < ARow; ++ib) 
-- 
2.43.0


From 9941926d9fa9cbfd9efa81f55d3ace27f27fce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 008/103] fix: apply operators of composed spaces to degrees of
 freedom for several points and cells

---
 anifem++/fem/operations/core.inl | 76 ++++++++------------------------
 1 file changed, 19 insertions(+), 57 deletions(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index b3adc25..44ddcea 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -91,6 +91,22 @@ namespace Ani{
 #endif
     }
 
+    /// Multiply block-band matrix of operator values on vectors of degrees of freedom:
+    /// R[i + dim*(n + q*r)] = sum_j V[i + dim*(n + q*(j + nf*r))] * dofs[j + nf*r]
+    template<typename BandMtxType, typename Scalar>
+    inline void fusive_band_A_mul_B(const BandMtxType& V, std::size_t nparts, std::size_t fuse, std::size_t q, std::size_t dim, std::size_t nf, const Scalar* dofs, Scalar* R){
+        std::fill(R, R + dim*q*fuse, 0);
+        for (std::size_t r = 0; r < fuse; ++r)
+            for (std::size_t db = 0; db < nparts; ++db){
+                const std::size_t st_row = V.stRow[db], ldim = V.stRow[db+1] - V.stRow[db];
+                const std::size_t st_col = V.stCol[db], lnf = V.stCol[db+1] - V.stCol[db];
+                for (std::size_t j = 0; j < lnf; ++j)
+                    for (std::size_t n = 0; n < q; ++n)
+                        for (std::size_t i = 0; i < ldim; ++i)
+                            R[st_row + i + dim*(n + q*r)] += V.data[db].data[i + ldim*(n + q*(j + lnf*r))] * dofs[st_col + j + nf*r];
+            }
+    }
+
     template<typename ScalarType>
     void getBaryCoord(
                   const ScalarType* XY0/*[3]*/, const ScalarType* XY1/*[3]*/,
@@ -381,25 +397,7 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         if (nparts == 1) {
             fusive_A_mul_B(opU.nRow <= 8 || nf <= 16, mem.f, nf, Vm.data[0].data, opU.nRow, dofs.data, 1, opU.data);
         } else {
-            double* tmp_opU = (mem.q <= 1) ? opU.data : mem.extraR.data;
-            for (std::size_t db = 0; db < nparts; ++db)
-                for (std::size_t r = 0; r < mem.f; ++r){
-                    auto VmRow = Vm.stRow[db+1] - Vm.stRow[db];
-                    auto VmCol = (Vm.stCol[db+1] - Vm.stCol[db])/mem.f;
-                    double* lVm = Vm.data[db].data + mem.q*VmRow * VmCol * r; 
-                    const double* ldofs = dofs.data + r*dofs.nRow + Vm.stCol[db];
-                    double* lopU = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
-                }
-            if (mem.q > 1) {
-                for (std::size_t n = 0; n < mem.q; ++n)
-                for (std::size_t db = 0; db < nparts; ++db){
-                    auto ldim = Vm.stRow[db+1] - Vm.stRow[db];
-                    double* from = tmp_opU + Vm.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dim*n + Vm.stRow[db];
-                    std::copy(from, from + ldim, to);
-                }
-            }    
+            fusive_band_A_mul_B(Vm, nparts, mem.f, mem.q, dim, nf, dofs.data, opU.data);
         }
     }
 
@@ -490,25 +488,7 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         if (nparts == 1) {
             fusive_A_mul_B(dimA * mem.q <= 8 || nfA <= 16, mem.f, nfA, U.data[0].data, dimA * mem.q, const_cast<double*>(dofs.data), 1, opU.data);
         } else {
-            double* tmp_opU = (mem.q <= 1) ? opU.data : mem.extraR.data;
-            for (std::size_t db = 0; db < nparts; ++db)
-                for (std::size_t r = 0; r < mem.f; ++r){
-                    auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
-                    double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
-                    const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
-                    double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
-                }
-            if (mem.q > 1) {
-                for (std::size_t n = 0; n < mem.q; ++n)
-                for (std::size_t db = 0; db < nparts; ++db){
-                    auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dimA*n + U.stRow[db];
-                    std::copy(from, from + ldim, to);
-                }
-            }     
+            fusive_band_A_mul_B(U, nparts, mem.f, mem.q, dimA, nfA, dofs.data, opU.data);
         }
 #ifdef OPTIMIZER_TIMERS_FEM3DTET
         Inter_end1 = std::chrono::high_resolution_clock::now();
@@ -536,25 +516,7 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         if (nparts == 1) {
             fusive_A_mul_B(dimA * mem.q <= 8 || nfA <= 16, mem.f, nfA, U.data[0].data, dimA * mem.q, const_cast<double*>(dofs.data), 1, mem.V.data);
         } else {
-            double* tmp_opU = (mem.q <= 1) ? mem.V.data : mem.extraR.data;
-            for (std::size_t db = 0; db < nparts; ++db)
-                for (std::size_t r = 0; r < mem.f; ++r){
-                    auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
-                    double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
-                    const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
-                    double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
-                }
-            if (mem.q > 1) {
-                for (std::size_t n = 0; n < mem.q; ++n)
-                for (std::size_t db = 0; db < nparts; ++db){
-                    auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = mem.V.data + dimA*n + U.stRow[db];
-                    std::copy(from, from + ldim, to);
-                }
-            }    
+            fusive_band_A_mul_B(U, nparts, mem.f, mem.q, dimA, nfA, dofs.data, mem.V.data);
         }
 #ifdef OPTIMIZER_TIMERS_FEM3DTET
         Inter_end1 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 073e9134044d6f904456c4540585a603e9724749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 009/103] fix: take the order of a FemCom operator from the
 orders of its parts

OrderCounter recursed into DimCounter, so the order was the maximum of the
order of the first part and the number of components of the others.
---
 anifem++/fem/operators.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 2010796..0647c90 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -51,7 +51,7 @@ namespace Ani{
         struct OrderCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
 
         template<int SUM, int OP, class T, class... Types>
-        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, DimCounter<SUM, OP, Types...>::value)>{};
+        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, OrderCounter<SUM, OP, Types...>::value)>{};
         
         template<int SUM, int OP>
         struct NfaCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
-- 
2.43.0


From 92b47d476e3f62289cc0104f9e70d46ab002fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 010/103] fix: compare the number of components of vector
 spaces

---
 anifem++/fem/fem_space.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8945733..8ac09f5 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -405,6 +405,7 @@ namespace Ani{
     bool VectorFemSpace::operator==(const BaseFemSpace& other) const {
         if (gatherType() != other.gatherType()) return false;
         auto& o = *static_cast<const VectorFemSpace*>(&other);
+        if (dim() != o.dim()) return false;
         return (o.m_base.get() == m_base.get()) || (o.m_base && m_base && *o.m_base == *m_base); 
     }
     void VectorFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
-- 
2.43.0


From f63784b7808f982b80e7c60518d70d78876b77aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 011/103] fix: report the order of DIV and CURL of spaces
 composed of scalar elements

Scalar elements reported order 0, and the composed spaces take the maximum
over their parts.
---
 anifem++/fem/spaces/common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/spaces/common.h b/anifem++/fem/spaces/common.h
index 0b37036..458e7b1 100644
--- a/anifem++/fem/spaces/common.h
+++ b/anifem++/fem/spaces/common.h
@@ -156,8 +156,8 @@ namespace Ani{
             return OpMemoryRequirements(); 
         }
         
-        uint orderDIV() const override { return ImplOP<true>::template OrderT<DIV>::value; }
-        uint orderCURL() const override { return ImplOP<true>::template OrderT<CURL>::value; }
+        uint orderDIV() const override { return Operator<IDEN, FemFix<FEM_TYPE>>::Dim::value == 3 ? static_cast<uint>(ImplOP<true>::template OrderT<DIV>::value) : BaseFemSpace::orderDIV(); }
+        uint orderCURL() const override { return Operator<IDEN, FemFix<FEM_TYPE>>::Dim::value == 3 ? static_cast<uint>(ImplOP<true>::template OrderT<CURL>::value) : BaseFemSpace::orderCURL(); }
     };
 };
 
-- 
2.43.0


From 541d49f580782bd81e1c3b74ac70e18b02c2dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 012/103] fix: reject linearly dependent unions also when the
 inverse is not finite

Without Eigen the inverse of a singular matrix holds NaN, which std::max and
the comparison with the tolerance let through.
---
 anifem++/fem/fem_space.cpp | 5 +++--
 anifem++/fem/operators.inl | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8ac09f5..5d917b4 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -1145,11 +1145,12 @@ namespace Ani{
                 for (uint j = 0; j < nf; ++j)
                     s += A(i, j) * B(j, k);
                 double target = (i == k) ? 1.0 : 0.0;
-                max_err = std::max(max_err, std::abs(s - target));
+                const double err = std::abs(s - target);
+                if (err > max_err || std::isnan(err)) max_err = err;
                 max_g = std::max(max_g, std::abs(B(i, k)));
             }
             const double tol = 1e-8;
-            if (max_err > tol * (1.0 + max_g))
+            if (!(max_err <= tol * (1.0 + max_g)))
                 throw std::runtime_error("UnionFemSpace: input bases or interpolating functionals are linearly dependent (Gram matrix is singular)");
         }
 
diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 0647c90..115487c 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -380,11 +380,12 @@ namespace Ani{
                         for (int j = 0; j < NF; ++j)
                             s += A(i, j) * B(j, k);
                         double target = (i == k) ? 1.0 : 0.0;
-                        max_err = std::max(max_err, std::abs(s - target));
+                        const double err = std::abs(s - target);
+                        if (err > max_err || std::isnan(err)) max_err = err;
                         max_g = std::max(max_g, std::abs(B(i, k)));
                     }
                     const double tol = 1e-8;
-                    if (max_err > tol * (1.0 + max_g))
+                    if (!(max_err <= tol * (1.0 + max_g)))
                         throw std::runtime_error("FemUnionT: input bases or interpolating functionals are linearly dependent (Gram matrix is singular)");
                 }
 
-- 
2.43.0


From 27aafa502992c914cc197de9277eda22132f1113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 013/103] fix: set the determinant when preparing a
 compile-time union of spaces

Operator<IDEN, RT0> reads it, so FemUnionT with RT0 dereferenced a null pointer.
---
 anifem++/fem/operators.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 115487c..23732e3 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -347,13 +347,14 @@ namespace Ani{
                 double XYZa[3 * 4]{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1};
                 Tetra<const double> XYZ(XYZa + 0, XYZa + 3, XYZa + 6, XYZa + 9);
                 AniMemory<double, int> mem;
+                double one = 1;
                 std::array<double, 4> xyl{1, 0, 0, 0};
                 mem.XYP.Init(XYZa, 3 * 4);
                 mem.PSI.Init(XYZa + 3, 3 * 3);
                 mem.XYG.Init(nullptr, 3);
-                mem.DET.Init(nullptr, 0);
+                mem.DET.Init(&one, 1);
                 mem.XYL.Init(xyl.data(), 4);
-                mem.WG.Init(nullptr, 0);
+                mem.WG.Init(&one, 1);
                 mem.U.Init(dmem.data(), reqUsz);
                 mem.extraR.Init(dmem.data() + reqUsz, reqExtraR);
                 mem.q = 1;
-- 
2.43.0


From 71f50cff959138b264ff9ab388482d1b6e75bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 014/103] fix: PerSelection tensors are called with the index
 of their tetrahedron

---
 anifem++/fem/diff_tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/diff_tensor.h b/anifem++/fem/diff_tensor.h
index b01feb4..9dad606 100644
--- a/anifem++/fem/diff_tensor.h
+++ b/anifem++/fem/diff_tensor.h
@@ -679,7 +679,7 @@ namespace Ani{
                         for (IndexType n = 0; n < q; ++n){
                             auto locD = args.mem.DIFF.data + idim*jdim*(n + q*r);
                             std::array<Scalar, 3> x{args.mem.XYG.data[3*(n + r*q)], args.mem.XYG.data[3*(n + r*q)+1], args.mem.XYG.data[3*(n + r*q)+2]};
-                            Dfnc(x, locD, {jdim, idim}, args.user_data, 0);
+                            Dfnc(x, locD, {jdim, idim}, args.user_data, r);
                         }
 
                     for (IndexType r = 0; r < f; ++r) {
-- 
2.43.0


From e4f172f0198b0d7f3cb028b510f85862bda661c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 015/103] fix: DIV of a product space keeps its matrix
 descriptors reserved

applyDIV of products that mix scalar and vector parts left busy_mtx_parts unset, so
the second operator of an elemental computation overwrote the block description of
the first one, and did not set the beginning of its row and column ranges.
---
 anifem++/fem/fem_space.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 5d917b4..efd3eea 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -766,8 +766,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyDIV_1x2(AniMemoryX<> &mem, ArrayView<> &U) const{
@@ -823,8 +824,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyIDEN(AniMemoryX<> &mem, ArrayView<> &U) const {
-- 
2.43.0


From 64b444e19036b534ffd7fe61b6b59ddd97bf741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 016/103] fix: room for D*grad before the product with normals
 in memoryless fem3DfaceN

The stack version of fem3DfaceN keeps three components per value of D*OpA(u) but
had room for one, so large operators at high quadrature orders overwrote the next
buffer.
---
 anifem++/fem/fem_memory.h            | 7 ++++---
 anifem++/fem/operations/int_face.inl | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 723e03c..9285385 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -221,12 +221,13 @@ namespace Ani{
 
     ///internal structure to allocate on stack memory required for computing of fem elemental matrix
     ///@see fem3Dtet
-    template<typename ScalarType = double, int FUSION = 1, int MAX_NGAUSS = 24>
+    ///@tparam NDIM is number of components kept per value of D*OpA(u) before the product with normal, 3 if there is such a product
+    template<typename ScalarType = double, int FUSION = 1, int MAX_NGAUSS = 24, int NDIM = 1>
     struct MemoryLegacy {
         using Scalar = ScalarType;
         Scalar U_d[9 * MAX_NGAUSS * 30 * FUSION];
         Scalar V_d[9 * MAX_NGAUSS * 30 * FUSION];
-        Scalar DU_d[9 * MAX_NGAUSS * 30 * FUSION];
+        Scalar DU_d[NDIM * 9 * MAX_NGAUSS * 30 * FUSION];
         Scalar Diff_d[9 * MAX_NGAUSS * 30 * FUSION];
         Scalar extra[3 * 20 * MAX_NGAUSS * FUSION];
         Scalar XYG_d[3 * MAX_NGAUSS * FUSION];
@@ -245,7 +246,7 @@ namespace Ani{
             AniMem am;
             am.U = typename AniMem::ArrayR(U_d, 9 * MAX_NGAUSS * 30 * FUSION);
             am.V = typename AniMem::ArrayR(V_d, 9 * MAX_NGAUSS * 30 * FUSION);
-            am.DU = typename AniMem::ArrayR(DU_d, 9 * MAX_NGAUSS * 30 * FUSION);
+            am.DU = typename AniMem::ArrayR(DU_d, NDIM * 9 * MAX_NGAUSS * 30 * FUSION);
             am.DIFF = typename AniMem::ArrayR(Diff_d, 9 * MAX_NGAUSS * 30 * FUSION);
             am.extraR = typename AniMem::ArrayR(extra, 3 * 20 * MAX_NGAUSS * FUSION);
             am.XYG = typename AniMem::ArrayR(XYG_d, 3 * MAX_NGAUSS * FUSION);
diff --git a/anifem++/fem/operations/int_face.inl b/anifem++/fem/operations/int_face.inl
index a3ebf4c..6654a90 100644
--- a/anifem++/fem/operations/int_face.inl
+++ b/anifem++/fem/operations/int_face.inl
@@ -51,7 +51,7 @@ namespace Ani{
     void
     fem3DfaceN(const TetrasT& XYZ,
               int face_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
-        MemoryLegacy<ScalarType, FUSION> ml;
+        MemoryLegacy<ScalarType, FUSION, 24, DotWithNormalHelper<true>::nD::value> ml;
         auto mem = ml.template getAniMemory<IndexType>();
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-- 
2.43.0


From 444fa25ee5d353bca247d6c568a7f2e297719509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 017/103] fix: memoryless fem3DapplyL/X refuse more points than
 they have room for

The check compared the number of points with four times the size of the stack
buffers, so 25 to 96 points silently overwrote them.
---
 anifem++/fem/operations/eval.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index f47d291..77c2c3d 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -49,7 +49,7 @@ namespace Ani{
         __internal_check_fem3DapplyL(XY0, XY1, XY2, XY3, f, q, nfa, dim, dofs, opU);            
         if (f > FUSION)
             throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));    
-        if (q > MAXPNTNUM*4)
+        if (q > MAXPNTNUM)
            throw std::runtime_error("This version of the function not supported more than " + std::to_string(MAXPNTNUM) + " points");
     }
 
-- 
2.43.0


From ff391a91d93abe8548581d5b91bb368fe87a0784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 018/103] fix: ComplexDofMap selections skip components and
 parts without d.o.f.s

---
 anifem++/fem/tetdofmap.cpp | 65 +++++++++++++++++---------------------
 anifem++/fem/tetdofmap.inl | 64 +++++++++++++++++--------------------
 2 files changed, 58 insertions(+), 71 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index b8d1df5..f827f10 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -706,15 +706,17 @@ void DofT::ComplexDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOr
         EndByGeomSparsity(lo);
         return;
     } else {
-        for (int num = 0; num < NGEOM_TYPES; ++num){
-            auto etype = NumToGeomType(num);
-            auto gdim = GeomTypeDim(etype);
-            auto pos = sp.beginPos(gdim);
-            if (!pos.isValid()) continue;
-            for (uint dim = 0; dim < m_spaces.size(); ++dim) if (m_spaces[dim]->DefinedOn(etype)){
-                m_spaces[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                return;
+        for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+            TetGeomSparsity ss;
+            ss.set(pos.elem_dim, pos.elem_num);
+            for (uint dim = 0; dim < m_spaces.size(); ++dim){
+                LocalOrder ll, lend;
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                if (ll != lend){
+                    lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                    return;
+                }
             }
         }
         EndByGeomSparsity(lo);
@@ -735,8 +737,7 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
             return;
         } else {
-            ++dim;
-            if (dim != m_spaces.size()){
+            while (++dim < m_spaces.size()){
                 m_spaces[dim]->EndByGeomSparsity(lend);
                 m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                 if (ll != lend){
@@ -752,34 +753,26 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
         TetGeomSparsity ss;
         auto gdim = GeomTypeDim(lo.etype);
         ss.set(gdim, lo.nelem);
-        LocalOrder lgo = ll;
-        m_spaces[dim]->IncrementByGeomSparsity(ss, lgo, preferGeomOrdering);
-        // if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-        if (lgo != lend){
-            if (lgo.etype != lo.etype) num = GeomTypeToNum(lgo.etype);
-            lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
+        m_spaces[dim]->IncrementByGeomSparsity(ss, ll, preferGeomOrdering);
+        while (ll == lend && ++dim < m_spaces.size()){
+            m_spaces[dim]->EndByGeomSparsity(lend);
+            m_spaces[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+        }
+        if (ll != lend){
+            num = GeomTypeToNum(ll.etype);
+            lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
             return;
         } else {
-            do { ++dim; } while( dim < m_spaces.size() && !m_spaces[dim]->DefinedOn(ll.etype));
-            if (dim != m_spaces.size()){
-                ll.leid = 0;
-                LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                num = GeomTypeToNum(ll.etype);
-                auto id = m_spaces[dim]->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], id.second.stype, id.second.lsid);
-                return;
-            } else {
-                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                if (!next_pos.isValid()) { 
-                    EndByGeomSparsity(lo); 
-                    return; 
-                }
-                ss = sp;
-                for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                return;
+            auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+            if (!next_pos.isValid()) { 
+                EndByGeomSparsity(lo); 
+                return; 
             }
+            ss = sp;
+            for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+            for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+            BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+            return;
         }
     }
 }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6fd22d5..510b46d 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -748,15 +748,17 @@ namespace FemComDetails{
             EndByGeomSparsity(lo);
             return;
         } else {
-            for (uint num = 0; num < NGEOM_TYPES; ++num){
-                auto etype = NumToGeomType(num);
-                auto gdim = GeomTypeDim(etype);
-                auto pos = sp.beginPos(gdim);
-                if (!pos.isValid()) continue;
-                for (uint dim = 0; dim < s.size(); ++dim) if (s[dim]->DefinedOn(etype)){
-                    s[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                    lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                    return;
+            for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+                TetGeomSparsity ss;
+                ss.set(pos.elem_dim, pos.elem_num);
+                for (uint dim = 0; dim < s.size(); ++dim){
+                    LocalOrder ll, lend;
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                    if (ll != lend){
+                        lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                        return;
+                    }
                 }
             }
             EndByGeomSparsity(lo);
@@ -779,8 +781,7 @@ namespace FemComDetails{
                 lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                 return;
             } else {
-                ++dim;
-                if (dim != s.size()){
+                while (++dim < s.size()){
                     s[dim]->EndByGeomSparsity(lend);
                     s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                     if (ll != lend){
@@ -796,33 +797,26 @@ namespace FemComDetails{
             TetGeomSparsity ss;
             auto gdim = GeomTypeDim(lo.etype);
             ss.set(gdim, lo.nelem);
-            LocalOrder lgo = ll;
-            s[dim]->IncrementByGeomSparsity(ss, lgo, preferGeomOrdering);
-            // if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-            if (lgo != lend){
-                if (lgo.etype != lo.etype) num = GeomTypeToNum(lgo.etype);
-                lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
+            s[dim]->IncrementByGeomSparsity(ss, ll, preferGeomOrdering);
+            while (ll == lend && ++dim < s.size()){
+                s[dim]->EndByGeomSparsity(lend);
+                s[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+            }
+            if (ll != lend){
+                num = GeomTypeToNum(ll.etype);
+                lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                 return;
             } else {
-                do { ++dim; } while( dim < s.size() && !s[dim]->DefinedOn(ll.etype));
-                if (dim != s.size()){
-                    ll.leid = 0;
-                    LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                    num = GeomTypeToNum(ll.etype);
-                    lo = LocalOrder(s[dim]->TetDofID(lgo) + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                    return;
-                } else {
-                    auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                    if (!next_pos.isValid()) { 
-                        EndByGeomSparsity(lo); 
-                        return; 
-                    }
-                    ss = sp;
-                    for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                    for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                    BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                    return;
+                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+                if (!next_pos.isValid()) { 
+                    EndByGeomSparsity(lo); 
+                    return; 
                 }
+                ss = sp;
+                for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+                for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+                return;
             }
         }
     }
-- 
2.43.0


From 2e49cad9fbc6439556621529e62cb97d5dab469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 019/103] fix: VectorDofMap: place to number of d.o.f. and
 selections for several d.o.f.s per element

---
 anifem++/fem/tetdofmap.cpp | 30 +++++++++++-------------------
 anifem++/fem/tetdofmap.h   |  1 +
 anifem++/fem/tetdofmap.inl | 33 ++++++++++++++-------------------
 3 files changed, 26 insertions(+), 38 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index f827f10..9915a93 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -440,13 +440,13 @@ DofT::LocalOrder DofT::VectorDofMap::LocalOrderOnTet(TetOrder dof_id) const  {
 }
 uint DofT::VectorDofMap::TetDofID(LocGeomOrder dof_id) const{ 
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     return component * nOdf + base->TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
 }
 std::pair<uint, DofT::LocSymOrder> DofT::VectorDofMap::TetDofIDExt(LocGeomOrder dof_id) const{
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     auto id = base->TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     return {component * nOdf + id.first, id.second};
@@ -470,6 +470,12 @@ std::shared_ptr<DofT::BaseDofMap> DofT::VectorDofMap::GetSubDofMap(const int* ex
     } else 
         return nullptr;
 }
+void DofT::VectorDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
+    if (m_dim)
+        base->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+    else
+        EndByGeomSparsity(lo);
+}
 void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
     assert(isValidIndex(lo) && "Wrong index");
     int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(lo.etype);
@@ -513,23 +519,9 @@ void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loca
         } else {
             ++dim;
             if (dim != static_cast<uint>(m_dim)){
-                LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                if (lo.etype == EDGE_ORIENT){
-                    auto eodf = base->NumDof(EDGE_UNORIENT);
-                    if (eodf > 0){
-                        lgo.etype = EDGE_UNORIENT;
-                        lOdf = eodf;
-                    }
-                }
-                else if (lo.etype == FACE_ORIENT){
-                    auto fodf = base->NumDof(FACE_UNORIENT);
-                    if (fodf > 0){
-                        lgo.etype = FACE_UNORIENT;
-                        lOdf = fodf;
-                    }
-                }
-                auto id = base->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                base->BeginByGeomSparsity(ss, ll, true);
+                lOdf = base->NumDof(ll.etype);
+                lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                 return;
             } else {
                 dim = 0;
diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 1e91d0c..d8784b5 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -644,6 +644,7 @@ namespace Ani{
             bool operator==(const BaseDofMap& other) const override;
             std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMap>(*this); }
             
+            void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             ComponentTetOrder ComponentID(TetOrder dof_id) const { return {dof_id, dof_id % base->NumDofOnTet(), dof_id / base->NumDofOnTet()}; }
             ComponentElemOrder ComponentID(ElemOrder dof_id) const { auto nd = base->NumDof(dof_id.etype); return {dof_id.etype, dof_id.gid, dof_id.gid % nd, dof_id.gid / nd};  }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 510b46d..ff0817c 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -385,6 +385,7 @@ namespace FemComDetails{
         void GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const override;
         std::shared_ptr<BaseDofMap> GetSubDofMap(const int* ext_dims, int ndims) override;
         bool operator==(const BaseDofMap& other) const override;
+        void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
         void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
 
         std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMapCImpl<true, DofMapT>>(*this); }
@@ -402,14 +403,14 @@ namespace FemComDetails{
     template<typename DofMapT>
     uint VectorDofMapCImpl<true, DofMapT>::TetDofID(LocGeomOrder dof_id) const{
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         return component * nOdf + m_base.TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     }
     template<typename DofMapT>
     std::pair<uint, LocSymOrder> VectorDofMapCImpl<true, DofMapT>::TetDofIDExt(LocGeomOrder dof_id) const {
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         auto id = m_base.TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
         return {component * nOdf + id.first, id.second};
@@ -446,6 +447,14 @@ namespace FemComDetails{
         return m_base == a.m_base;
     }
 
+    template<typename DofMapT>
+    void VectorDofMapCImpl<true, DofMapT>::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
+        if (m_dim)
+            m_base.BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+        else
+            EndByGeomSparsity(lo);
+    }
+
     template<typename DofMapT>
     void VectorDofMapCImpl<true, DofMapT>::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
         assert(isValidIndex(lo) && "Wrong index");
@@ -490,23 +499,9 @@ namespace FemComDetails{
             } else {
                 ++dim;
                 if (dim != static_cast<uint>(m_dim)){
-                    LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                    if (lo.etype == EDGE_ORIENT){
-                        auto eodf = m_base.NumDof(EDGE_UNORIENT);
-                        if (eodf > 0){
-                            lgo.etype = EDGE_UNORIENT;
-                            lOdf = eodf;
-                        }
-                    }
-                    else if (lo.etype == FACE_ORIENT){
-                        auto fodf = m_base.NumDof(FACE_UNORIENT);
-                        if (fodf > 0){
-                            lgo.etype = FACE_UNORIENT;
-                            lOdf = fodf;
-                        }
-                    }
-                    auto id = m_base.TetDofIDExt(lgo);
-                    lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                    m_base.BeginByGeomSparsity(ss, ll, true);
+                    lOdf = m_base.NumDof(ll.etype);
+                    lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                     return;
                 } else {
                     dim = 0;
-- 
2.43.0


From 421b50bbd4f9890699cb218e1194187cd803efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 020/103] fix: BaseDofMap::isValidIndex(LocalOrder, true)
 rejects every index

---
 anifem++/fem/tetdofmap.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index ff0817c..d073ab7 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -33,7 +33,8 @@ inline bool BaseDofMap::isValidIndex(LocalOrder dof_id, bool with_sym_order) con
     auto r = isValidIndex(dof_id.getTetOrder()) && isValidIndex(dof_id.getGeomOrder());
     if (r && with_sym_order){
         auto m = SymComponents(dof_id.etype);
-        r = ((m | DofSymmetries::MASK_UNDEF) || dof_id.lsid >= DofSymmetries::symmetries_amount(dof_id.etype)) ? false : (m | (1 << dof_id.stype));
+        r = dof_id.stype < DofSymmetries::symmetries_amount(dof_id.etype) && (m & (1 << dof_id.stype)) 
+            && dof_id.lsid < DofSymmetries::symmetry_volume(dof_id.etype, dof_id.stype);
     } 
     return r; 
 }
-- 
2.43.0


From f9a5036f353b56f7eae060a9748b5b3dedefda78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 021/103] fix: LocGeomOrder::isValid compares the d.o.f. number
 instead of the element number with the number of elements

---
 anifem++/fem/tetdofmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index d8784b5..3bbf35f 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -99,7 +99,7 @@ namespace Ani{
             uchar nelem;    ///< number of geometrical element on the tetrahedron (from 0 to 3 for NODE or FACE, from 0 to 6 for EDGE, always 0 for CELL)
             LocGeomOrder(): leid(uint(-1)), etype(UNDEF), nelem(0) {}
             LocGeomOrder(uchar etype, uchar nelem, uint leid): leid{leid}, etype{etype}, nelem{nelem} {} 
-            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && leid < GeomTypeTetElems(etype); }
+            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && nelem < GeomTypeTetElems(etype); }
             bool operator==(const LocGeomOrder& a) const { return etype == a.etype && nelem == a.nelem && leid == a.leid; }
             bool operator!=(const LocGeomOrder& a) const { return !(*this == a); }
         };
-- 
2.43.0


From 324b31cd81e136da238df2eac5feb0ffaa7788a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 022/103] fix: complement of TetGeomSparsity has bits of
 elements that do not exist

---
 anifem++/fem/tetdofmap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index d073ab7..6001674 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -25,7 +25,7 @@ inline TetGeomSparsity operator^(TetGeomSparsity a, TetGeomSparsity b){
 inline TetGeomSparsity operator~(TetGeomSparsity a){ 
     TetGeomSparsity res; 
     for (uchar d = 0; d < 4; ++d) 
-        res.elems[d] = ~a.elems[d];
+        res.elems[d] = TetGeomSparsity().set(d).elems[d] & ~a.elems[d];
     return res;
 }
 
-- 
2.43.0


From 9f2cdb6d028def3d77a640f41480b853d2c50b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 023/103] fix: ComplexDofMapC::set counts d.o.f.s of a
 component set again twice

---
 anifem++/fem/tetdofmap.inl | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6001674..461837e 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -596,19 +596,20 @@ namespace FemComDetails{
     template<typename... DofMapT> 
     template<std::size_t I>
     ComplexDofMapCImpl<true, DofMapT...>& ComplexDofMapCImpl<true, DofMapT...>::set(const typename std::tuple_element<I, Base>::type& v){ 
+        auto& cur = std::get<I>(static_cast<Base&>(*this));
         for (uint t = 0; t < NGEOM_TYPES; ++t) {
             auto etype = NumToGeomType(t);
-            uint nd = v.NumDof(etype);
-            uint ndt = v.NumDofOnTet(etype);
+            uint nd = v.NumDof(etype), nd_prev = m_spaceNumDof[t][I+1] - m_spaceNumDof[t][I];
+            uint ndt = v.NumDofOnTet(etype), ndt_prev = m_spaceNumDofTet[t][I+1] - m_spaceNumDofTet[t][I];
             for (uint i = I; i < Size::value; ++i){
-                m_spaceNumDofTet[t][i+1] += ndt;
-                m_spaceNumDof[t][i+1] += nd;
+                m_spaceNumDofTet[t][i+1] += ndt - ndt_prev;
+                m_spaceNumDof[t][i+1] += nd - nd_prev;
             }
         }
-        uint ndts = v.NumDofOnTet();
+        uint ndts = v.NumDofOnTet(), ndts_prev = m_spaceNumDofsTet[I+1] - m_spaceNumDofsTet[I];
         for (uint i = I; i < Size::value; ++i)
-            m_spaceNumDofsTet[i+1] += ndts;
-        std::get<I>(static_cast<Base&>(*this)) = v;
+            m_spaceNumDofsTet[i+1] += ndts - ndts_prev;
+        cur = v;
         return *this;
     }
 
-- 
2.43.0


From a4630b93d24d21989edc5659a1e9e1cec69b81a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 024/103] fix: comparison of compile-time d.o.f. maps of
 different types

---
 anifem++/fem/tetdofmap.inl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 461837e..651336b 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -443,9 +443,9 @@ namespace FemComDetails{
     template<typename DofMapT>
     bool VectorDofMapCImpl<true, DofMapT>::operator==(const BaseDofMap& o) const{
         if (o.ActualType() != ActualType()) return false;
-        auto& a = static_cast<const VectorDofMapCImpl<true, DofMapT>&>(o);
-        if (m_dim != a.m_dim) return false;
-        return m_base == a.m_base;
+        auto* a = dynamic_cast<const VectorDofMapCImpl<true, DofMapT>*>(&o);
+        if (!a || m_dim != a->m_dim) return false;
+        return m_base == a->m_base;
     }
 
     template<typename DofMapT>
@@ -726,8 +726,8 @@ namespace FemComDetails{
     template<typename... DofMapT>
     bool ComplexDofMapCImpl<true, DofMapT...>::operator==(const BaseDofMap& o) const {
         if (o.ActualType() != ActualType()) return false;
-        auto& a = static_cast<const ComplexDofMapCImpl<true, DofMapT...>&>(o);
-        return Getter<0, Size::value>::isSame(*this, a);
+        auto* a = dynamic_cast<const ComplexDofMapCImpl<true, DofMapT...>*>(&o);
+        return a && Getter<0, Size::value>::isSame(*this, *a);
     }
     template<typename... DofMapT>
     void ComplexDofMapCImpl<true, DofMapT...>::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const {
-- 
2.43.0


From f30e9c48989b7223d7d9cf30f37919bad754e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:53 +0000
Subject: [PATCH 025/103] fix: UniteDofMap comparison (and so products of maps)
 ignores symmetry groups

---
 anifem++/fem/tetdofmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 9915a93..a1c2672 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -415,7 +415,7 @@ void DofT::UniteDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Local
 bool DofT::UniteDofMap::operator==(const BaseDofMap& o) const {
     if (o.ActualType() != ActualType()) return false;
     auto& a = static_cast<const UniteDofMap&>(o);
-    return m_shiftDof == a.m_shiftDof; //&& m_shiftTetDof == a.m_shiftTetDof
+    return m_shiftDof == a.m_shiftDof && m_symmetries.m_sym == a.m_symmetries.m_sym; //&& m_shiftTetDof == a.m_shiftTetDof
 }
 
 std::array<uint, DofT::NGEOM_TYPES> DofT::VectorDofMap::NumDofs() const  { 
-- 
2.43.0


From dd5b60eaeb4adfd029ad931111b12d62b6d62f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:53 +0000
Subject: [PATCH 026/103] fix: VectorDofMapC of zero dimension is defined on
 elements of its base

---
 anifem++/fem/tetdofmap.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 651336b..901af4c 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -375,8 +375,8 @@ namespace FemComDetails{
         std::array<uint, NGEOM_TYPES> NumDofs() const override{ auto r = m_base.NumDofs(); for(auto& x: r) x *= m_dim; return r; }
         std::array<uint, NGEOM_TYPES> NumDofsOnTet() const override { auto r = m_base.NumDofsOnTet(); for(auto& x: r) x *= m_dim; return r; }
         uint TypeOnTet(uint dof) const override { return m_base.TypeOnTet(dof % m_base.NumDofOnTet()); }
-        bool DefinedOn(uchar etype) const override { return m_base.DefinedOn(etype); }
-        uint GetGeomMask() const override { return m_base.GetGeomMask(); }
+        bool DefinedOn(uchar etype) const override { return m_dim ? m_base.DefinedOn(etype) : false; }
+        uint GetGeomMask() const override { return m_dim ? m_base.GetGeomMask() : UNDEF; }
         uint NestedDim() const override { return m_dim; }
 
         LocalOrder LocalOrderOnTet(TetOrder dof_id) const override;
-- 
2.43.0


From 004c553cc2f83139887d01dbca6f6d60a0fbe613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 027/103] fix: S4 action mixes up d.o.f.s with several d.o.f.s
 of one symmetry group per element and on faces 2, 3

---
 anifem++/fem/tetdofmap.inl | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 901af4c..a756a13 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -213,7 +213,7 @@ inline SymmetryTypeKey symmetry_type_key(const LocalOrder& lo){
     return key;
 }
 inline bool same_geom_sym(const LocalOrder& a, const LocalOrder& b){
-    return a.etype == b.etype && a.nelem == b.nelem && a.stype == b.stype && a.lsid == b.lsid;
+    return a.etype == b.etype && a.nelem == b.nelem && a.stype == b.stype && a.lsid == b.lsid && (a.leid == uint(-1) || b.leid == uint(-1) || a.leid == b.leid);
 }
 inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]){
     LocalOrder r = lo;
@@ -227,10 +227,16 @@ inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]){
         uchar a = face_vertex(lo.nelem, 0), b = face_vertex(lo.nelem, 1), c = face_vertex(lo.nelem, 2);
         r.nelem = find_face_elem(sigma[a], sigma[b], sigma[c]);
     }
-    if (r.stype != uchar(-1))
-        r.lsid = DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, sigma);
+    if (r.stype != uchar(-1)){
+        // index_on_reorderd_elem gives index for the sorted vertices of element, find local index with the same one
+        const auto perm0 = identity_perm();
+        const uchar sorted_id = DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, sigma);
+        for (uchar i = 0; i < DofSymmetries::symmetry_volume(lo.etype, lo.stype); ++i)
+            if (DofSymmetries::index_on_reorderd_elem(r.etype, r.nelem, r.stype, i, perm0.data()) == sorted_id)
+                r.lsid = i;
+        if (lo.leid != uint(-1)) r.leid = lo.leid - lo.lsid + r.lsid;
+    }
     r.gid = uint(-1);
-    r.leid = uint(-1);
     return r;
 }
 inline int find_tet_dof(const BaseDofMap& map, const LocalOrder& target){
-- 
2.43.0


From 28d6c8191ab6eaa1765d10cf2cd22d39fd9657fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 028/103] fix: S4 stabilizer of the cell misses permutations
 that move the last vertex

---
 anifem++/fem/tetdofmap.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index a756a13..e47d10e 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -333,6 +333,7 @@ inline StabilizerData stabilizer_data(const LocalOrder& repr){
     } else {
         sd.generators.push_back({1, 0, 2, 3});
         sd.generators.push_back({0, 2, 1, 3});
+        sd.generators.push_back({0, 1, 3, 2});
     }
     return sd;
 }
-- 
2.43.0


From c7080ab421289b6661e01bd8e2c0c03cdbdb440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:30 +0000
Subject: [PATCH 029/103] fix: interpolateOnRegion: memory for nodes,
 barycentric coordinates off the region, dangling P0 space

---
 anifem++/fem/fem_space.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index efd3eea..473b6a0 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -82,16 +82,7 @@ namespace Ani{
     }
     PlainMemoryX<> BaseFemSpace::interpolateOnRegion_mem_req(uchar elem_type, uint max_quad_order) const{
         if (elem_type == DofT::NODE){
-            DofT::TetGeomSparsity sp;
-            sp.setNode(0);
-            PlainMemoryX<> res;
-            for (auto it = m_order.beginBySparsity(sp); it != m_order.endBySparsity(); ++it){
-                auto lres = interpolateOnDOF_mem_req(it->gid, max_quad_order);
-                res.dSize = std::max(res.dSize, lres.dSize);
-                res.iSize = std::max(res.iSize, lres.iSize);
-                res.mSize = std::max(res.mSize, lres.mSize);
-            }
-            return res;
+            return interpolateByDOFs_mem_req(max_quad_order);
         }
         uint nfa = m_order.NumDofOnTet();
         uint nquads = 0;
@@ -114,7 +105,8 @@ namespace Ani{
         PlainMemoryX<> mem_req;
         mem_req.dSize += nfa*nfa + nfa + 5*nquads;
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         PlainMemoryX<> pnt_mem0 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_NULL>>(aplIDEN, aplIDEN, nquads, 1);
         PlainMemoryX<> pnt_mem1 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(aplP0, aplIDEN, nquads, 1);
         mem_req.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(nfa*(nfa+1)/2)});
@@ -134,7 +126,8 @@ namespace Ani{
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         auto d_alloc = [&mem_req](int sz)->double*{ 
             assert(mem_req.dSize >= static_cast<std::size_t>(sz) && "Not enough real memory");
             mem_req.dSize -= sz;
@@ -158,6 +151,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -171,6 +165,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
-- 
2.43.0


From c94a7957e27bba98129d93bcdfe6147db1ef7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:11 +0000
Subject: [PATCH 030/103] fix: interpolateByRegion does not compile and leaves
 its point buffer unset

---
 anifem++/fem/operations/interpolate.inl | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/anifem++/fem/operations/interpolate.inl b/anifem++/fem/operations/interpolate.inl
index 3d14e76..5ddd0d6 100644
--- a/anifem++/fem/operations/interpolate.inl
+++ b/anifem++/fem/operations/interpolate.inl
@@ -36,8 +36,8 @@ namespace Ani{
         res.iSize += 0;
         auto pnt_mem0 = fem3DpntL_memory_requirements<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
         auto pnt_mem1 = fem3DpntL_memory_requirements<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
-        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<IndexType>(NFA*(NFA+1)/2)});
-        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<IndexType>(NFA)});
+        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(NFA*(NFA+1)/2)});
+        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<decltype(pnt_mem0.iSize)>(NFA)});
 
         return res;
     }
@@ -47,13 +47,13 @@ namespace Ani{
         DofT::TetGeomSparsity sp;
         if (elem_type == DofT::NODE){
             sp.setNode(ielem);
-            interpolateByDOFs(XYZ, func, udofs, sp, user_data, max_quad_order);
+            interpolateByDOFs<FEMTYPE>(XYZ, func, udofs, sp, user_data, max_quad_order);
             return;
         }
 
         constexpr auto NFA = Operator<IDEN, FEMTYPE>::Nfa::value;
         auto d_alloc = [&plainMemory](auto sz)->ScalarType*{ 
-            if (plainMemory.dSize > sz){
+            if (plainMemory.dSize >= static_cast<std::size_t>(sz)){
                 plainMemory.dSize -= sz;
                 auto res = plainMemory.ddata;
                 plainMemory.ddata += sz;
@@ -63,7 +63,7 @@ namespace Ani{
             return nullptr;    
         };
         auto i_alloc = [&plainMemory](auto sz)->IndexType*{ 
-            if (plainMemory.iSize > sz){
+            if (plainMemory.iSize >= static_cast<std::size_t>(sz)){
                 plainMemory.iSize -= sz;
                 auto res = plainMemory.idata;
                 plainMemory.idata += sz;
@@ -74,7 +74,7 @@ namespace Ani{
         };
         ScalarType* am = d_alloc(NFA*NFA);
         ScalarType* fm = d_alloc(NFA);
-        ScalarType* xyl = nullptr, wg = nullptr;
+        ScalarType *xyl = nullptr, *wg = nullptr;
         IndexType nquads = 0;
         switch(DofT::DimToGeomType(DofT::GeomTypeDim(elem_type))) {
             case DofT::EDGE:{
@@ -83,6 +83,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, ScalarType(0));
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -96,6 +97,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, ScalarType(0));
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
@@ -122,8 +124,8 @@ namespace Ani{
 
         DenseMatrix<ScalarType> A(am, NFA, NFA), F(fm, NFA, 1);
         ArrayView<ScalarType> XYL(xyl, nquads*4), WG(wg, nquads);
-        fem3DpntL<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, DfuncTraits<TENSOR_NULL, true>>(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, XYL, WG, TensorNull<ScalarType>, A, plainMemory, nullptr);
-        fem3DpntL<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>>(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, XYL, WG,
+        fem3DpntL<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, DfuncTraits<TENSOR_NULL, true>>(XYZ, XYL, WG, TensorNull<ScalarType>, A, plainMemory, nullptr);
+        fem3DpntL<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>>(XYZ, XYL, WG,
             [&func](const std::array<ScalarType, 3>& x, ScalarType* Dmem, TensorDims Ddims, void* user_data, int iTet)->TensorType{
                 (void) iTet;
                 func(x, Dmem, Ddims.first, user_data);
-- 
2.43.0


From 1baab0340163836ab0b52736a42130d47b4ec05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 031/103] fix: applyVectorDir writes behind its work memory
 (second column of a one-column matrix)

---
 anifem++/fem/operations/dc_on_dof.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index 40a15d3..e760006 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -82,11 +82,11 @@ namespace Ani{
                     Scalar s = 0;
                     for (uint p = 0; p < dim; ++p)
                         s += A(j, dof_id[p])*Vorth(id[k], p);
-                    C(j, 1) = s;
+                    C(j, 0) = s;
                 }
                 for (uint l = 0; l < dim; ++l)
                     for (std::size_t j = 0; j < A.nRow; ++j)
-                        A(j, dof_id[l]) -= C(j, 1)*Vorth(id[k], l);
+                        A(j, dof_id[l]) -= C(j, 0)*Vorth(id[k], l);
                 for (std::size_t j = 0; j < A.nCol; ++j)
                     A(dof_id[id[k]], j) = 0;
                 for (uint m = 0; m < dim; ++m)
-- 
2.43.0


From 8127120ad5e05eec92f2147956da301721c85d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 032/103] fix: applyVectorDir spoils prescribed values when
 several directions are prescribed

---
 anifem++/fem/operations/dc_on_dof.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index e760006..ade2e23 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -107,8 +107,9 @@ namespace Ani{
                     for (std::size_t j = 0; j < A.nRow; ++j)
                         F(j, 0) -= A(j, did)*Vorth(id[k], m)*bc[k];
                 }
-                F(dof_id[id[k]], 0) = bc[k]; 
             }
+            for (uint k = 0; k < ndc; ++k)
+                F(dof_id[id[k]], 0) = bc[k]; 
         }
         template<typename Scalar, typename RandomIt>
         inline void setVectorDirResidual(DenseMatrix <Scalar>& F, 
-- 
2.43.0


From a93792896d7ab20c4a7ce0cd5fdc9ccc85120f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 033/103] fix: interval_map lower_bound/upper_bound do not
 compile and dereference the end

---
 anifem++/interval/interval_map.inl | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 3f9629b..03b0b85 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -157,11 +157,8 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::internal_lower_bound( const Key& key ) const {
         if (m_map_list.empty()) return m_map_list.end();
         auto it_ed = m_map_list.end();
-        if (boundary_status & 2){
-            auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
-            it_ed = it;
-        }
+        if (boundary_status & 2) //< the last interval ends after any key
+            it_ed = std::prev(m_map_list.end());
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         return it;
     }
@@ -171,11 +168,8 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::internal_upper_bound( const Key& key ) const {
         if (m_map_list.empty()) return m_map_list.end();
         auto it_ed = m_map_list.end();
-        if (boundary_status & 2){
-            auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
-            it_ed = it;
-        }
+        if (boundary_status & 2) //< the last interval ends after any key
+            it_ed = std::prev(m_map_list.end());
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         if (it == it_ed) return it_ed;
         if (std::max(it->first.m_end, key) - std::min(it->first.m_end, key) == 1) 
-- 
2.43.0


From be2e8d29c3e16c3d1d64f6d982f314146b65dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 034/103] fix: interval_map loses conflicts with infinite
 intervals whose stored ends coincide

---
 anifem++/interval/interval_map.inl | 60 +++++++++---------------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 03b0b85..1587731 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -84,14 +84,7 @@ namespace Ani{
     template<typename Key, typename T, typename Compare, typename Allocator>
     std::pair<typename interval_map<Key, T, Compare, Allocator>::iterator, bool> 
         interval_map<Key, T, Compare, Allocator>::insert(key_type start_interval, infinite_t, const mapped_type& value){
-        // key_type end_interval = start_interval + 1;
-        key_type end_interval = start_interval;
-        if (!m_map_list.empty()){
-            auto v = m_map_list.back().first.m_end;
-            if (m_comp(end_interval, v))
-                end_interval = v;
-        }
-        auto r = wrap_insert(start_interval, end_interval, std::move(value), 2);
+        auto r = wrap_insert(start_interval, start_interval, value, 2);
         if (r.second) boundary_status |= 2;
         return r;
     }
@@ -99,14 +92,7 @@ namespace Ani{
     template<typename Key, typename T, typename Compare, typename Allocator>
     std::pair<typename interval_map<Key, T, Compare, Allocator>::iterator, bool> 
         interval_map<Key, T, Compare, Allocator>::insert(infinite_t, key_type end_interval, const mapped_type& value){
-        // key_type start_interval = end_interval - 1;
-        key_type start_interval = end_interval;
-        if (!m_map_list.empty()){
-            auto v = m_map_list.front().first.m_start;
-            if (m_comp(v, start_interval))
-                start_interval = v;
-        }
-        auto r = wrap_insert(start_interval, end_interval, std::move(value), 1);
+        auto r = wrap_insert(end_interval, end_interval, value, 1);
         if (r.second) boundary_status |= 1;
         return r;
     }
@@ -189,37 +175,21 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::insert(key_type start_interval, key_type end_interval, const mapped_type& value, unsigned char bnd_type){
         if (m_comp(end_interval, start_interval) || (bnd_type == 0 && start_interval == end_interval)) 
             return {m_map_list.end(), false};
-        // if (!m_comp(start_interval, end_interval)) return {m_map_list.end(), false};
-        if (boundary_status & 1)
-            m_map_list.front().first.m_start = std::min(m_map_list.front().first.m_start, start_interval, m_comp);
-        if (boundary_status & 2)
-            m_map_list.back().first.m_end = std::max(m_map_list.back().first.m_end, end_interval, m_comp);
-        
-        auto it_st = std::upper_bound(m_map_list.begin(), m_map_list.end(), start_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        if (bnd_type == 1 && start_interval == end_interval && it_st != m_map_list.begin()){
-            auto it = std::prev(it_st);
-            if (it->first.m_end == start_interval)
-                it_st = it;
-        }
-        if ((boundary_status & 2) && it_st == m_map_list.end()){ //< extra logic for case m_start = m_end if right-infinity
-            auto b = m_map_list.back().first;
-            if (b.m_end == b.m_start && b.m_end == start_interval && !(bnd_type == 1 && start_interval == end_interval))
-                it_st = std::prev(it_st);
-        }
-        auto it_st0 = it_st;
+        const bool left_inf = bnd_type & 1, right_inf = bnd_type & 2;
+        auto is_left_inf = [this](const auto& v){ return (boundary_status & 1) && &v == &m_map_list.front(); };
+        auto is_right_inf = [this](const auto& v){ return (boundary_status & 2) && &v == &m_map_list.back(); };
+        auto ends_before = [&](const auto& v){ return !is_right_inf(v) && !m_comp(start_interval, v.first.m_end); };
+        auto starts_before = [&](const auto& v){ return is_left_inf(v) || m_comp(v.first.m_start, end_interval); };
+
+        // [it_st0, it_end0) are intervals crossing the inserted one, [it_st, it_end) are also adjacent intervals with same value
+        auto it_st0 = left_inf ? m_map_list.begin() : std::partition_point(m_map_list.begin(), m_map_list.end(), ends_before);
+        auto it_end0 = right_inf ? m_map_list.end() : std::partition_point(it_st0, m_map_list.end(), starts_before);
+        auto it_st = it_st0, it_end = it_end0;
         if (it_st != m_map_list.begin()){
             auto it_prev = std::prev(it_st);
             if (it_prev->first.m_end == start_interval && it_prev->second == value)
                 it_st = it_prev;     
         }
-        auto it_end = (it_st0 != m_map_list.end()) ? 
-                    std::lower_bound(it_st0, m_map_list.end(), end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); }) : m_map_list.end();
-        if ((boundary_status & 1) && it_end == m_map_list.begin()){ //< extra logic for case m_start = m_end if left infinity
-            auto b = m_map_list.front().first;
-            if (b.m_start == b.m_end && b.m_start == end_interval)
-                it_end = std::next(it_end);
-        }
-        auto it_end0 = it_end;
         if (it_end != m_map_list.end() && it_end->first.m_start == end_interval && it_end->second == value)
             ++it_end;
         
@@ -228,8 +198,12 @@ namespace Ani{
         
         auto it = it_st;
         if (std::distance(it_st, it_end) == 0){
-            it = m_map_list.emplace(it_end, interval<key_type>{start_interval, end_interval}, std::move(value));
+            it = m_map_list.emplace(it_end, interval<key_type>{start_interval, end_interval}, value);
         } else {
+            if (left_inf || is_left_inf(*it_st)) //< the start of a left-infinite interval is not used
+                start_interval = it_st->first.m_start;
+            if (right_inf || is_right_inf(*std::prev(it_end))) //< the end of a right-infinite interval is not used
+                end_interval = std::prev(it_end)->first.m_end;
             it->first.m_start = std::min(it_st->first.m_start, start_interval, m_comp);
             it->first.m_end = std::max(std::prev(it_end)->first.m_end, end_interval, m_comp);
             m_map_list.erase(std::next(it), it_end);
-- 
2.43.0


From 0deeabe8e79cefb0e277e9111e63d7525d5513bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 035/103] fix: interval_map of the whole line does not contain
 keys before zero

---
 anifem++/interval/interval_map.inl | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 1587731..f5f6131 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -57,14 +57,7 @@ namespace Ani{
 
     template<typename Key, typename T, typename Compare, typename Allocator>
     bool interval_map<Key, T, Compare, Allocator>::contains(const key_type& key) const {
-        if (m_map_list.empty()) return false;
-        auto it_ed = m_map_list.end();
-        if (boundary_status & 2){
-            it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return true;
-        }
-        auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        return (it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start));
+        return internal_find(key) != m_map_list.end();
     }
 
     template<typename Key, typename T, typename Compare, typename Allocator>
@@ -114,13 +107,9 @@ namespace Ani{
     template<typename Key, typename T, typename Compare, typename Allocator>
     bool interval_map<Key, T, Compare, Allocator>::contains(const std::pair<interval<key_type>, mapped_type>* it, const key_type& key) const {
         if (m_map_list.empty()) return false;
-        // if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
-        //     return true;
-        if ((boundary_status & 2) && it == &(*std::prev(m_map_list.end())))
-            return !m_comp(key, it->first.m_start);
-        if ((boundary_status & 1) && it == &(*m_map_list.begin()))
-            return m_comp(key, it->first.m_end);
-        return !m_comp(key, it->first.m_start) && m_comp(key, it->first.m_end);
+        bool after_start = ((boundary_status & 1) && it == &m_map_list.front()) || !m_comp(key, it->first.m_start);
+        bool before_end = ((boundary_status & 2) && it == &m_map_list.back()) || m_comp(key, it->first.m_end);
+        return after_start && before_end;
     }
 
     template<typename Key, typename T, typename Compare, typename Allocator>
@@ -128,12 +117,10 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::internal_find(const key_type& key) const {
         if (m_map_list.empty()) return m_map_list.end();
         auto it_ed = m_map_list.end();
-        if (boundary_status & 2){
+        if (boundary_status & 2) //< the last interval ends after any key
             it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return it_ed;
-        }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); }); 
-        if ((it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start)))
+        if ((it != m_map_list.end()) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start)))
             return it;
         return m_map_list.end();
     }
-- 
2.43.0


From 0096012f664bbeca210424a3c49597bc21a7123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 036/103] fix: interval_map prints its outer bounds with
 another precision than the inner ones

---
 anifem++/interval/interval_map.inl | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index f5f6131..ad82b98 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -21,23 +21,24 @@ namespace Ani{
         std::string space;
         if (traits.ignore_symbols.find(" ") != std::string::npos)
             space = " ";
+        auto key = [&out](bool infinite, const key_type& k) -> std::ostream& { return infinite ? out : out << k; };
         auto &colon = traits.interval_delimiter, &arrow = traits.map_delimiter, &semicolon = traits.elem_delimiter;
         if (r.m_map_list.size() == 1){
             auto v = r.m_map_list.front();
             if ((r.boundary_status & 1) && (r.boundary_status & 2) && r.m_comp(v.first.m_end, v.first.m_start))
                 return out << v.first.m_start << space << colon << space << v.first.m_end << space << arrow << space << v.second;
-            return out  
-                << ((r.boundary_status & 1) ? std::string() : std::to_string(v.first.m_start)) << space << colon << space 
-                << ((r.boundary_status & 2) ? std::string() : std::to_string(v.first.m_end)) << space << arrow << space << v.second;
+            key(r.boundary_status & 1, v.first.m_start) << space << colon << space;
+            return key(r.boundary_status & 2, v.first.m_end) << space << arrow << space << v.second;
         }
         auto it_st = r.m_map_list.begin();
         auto it_end = std::prev(r.m_map_list.end());
         auto it = it_st;
-        out << ((r.boundary_status & 1) ? std::string() : std::to_string(it->first.m_start)) << space << colon << space << it->first.m_end << space << arrow << space << it->second;
+        key(r.boundary_status & 1, it->first.m_start) << space << colon << space << it->first.m_end << space << arrow << space << it->second;
         for (auto it = std::next(it_st); it < it_end; ++it)
             out << semicolon << space << it->first.m_start << space << colon << space << it->first.m_end << space << arrow << space << it->second;
         it = it_end;
-        out << semicolon << space << it->first.m_start << space << colon << space << ((r.boundary_status & 2) ? std::string() : std::to_string(it->first.m_end)) << space << arrow << space << it->second;
+        out << semicolon << space << it->first.m_start << space << colon << space;
+        key(r.boundary_status & 2, it->first.m_end) << space << arrow << space << it->second;
         return out;
     }
 
-- 
2.43.0


From 19e8d5c2bdf67dfe3f21f7ee51054e6eab0902fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 037/103] fix: parse_interval_map assumes lengths of
 delimiters, ignores count and accepts broken numbers

---
 anifem++/interval/interval_map.inl | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index ad82b98..0c7fe35 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -204,32 +204,33 @@ namespace Ani{
         std::istringstream oss(input);
         T res;
         oss >> res;
-        if (!oss.eof())
+        if (oss.fail() || oss.peek() != std::istringstream::traits_type::eof())
             throw std::runtime_error("Wrong value");
         return res;
     }
 
     template<typename T1, typename T2, typename ParseT1, typename ParseT2>
-    interval_map<T1, T2> parse_interval_map(const std::string& input, std::size_t pos, std::size_t count, const ParseT1& parse_interval_num, const ParseT2& parse_value, const ParseIvlMapTraits& traits){ 
+    interval_map<T1, T2> parse_interval_map(const std::string& text, std::size_t pos, std::size_t count, const ParseT1& parse_interval_num, const ParseT2& parse_value, const ParseIvlMapTraits& traits){ 
         // ( ((+|-)?\d+)?\s*:((+|-)?\d+)?\s*->((+|-)?\d+) ;)*
         if (traits.interval_delimiter.empty() || traits.map_delimiter.empty())
             throw std::runtime_error("Wrong parser traits");
         Ani::interval_map<T1, T2> m;
-        if (count == 0) 
+        if (pos >= text.size())
             return m;
+        const std::string input = text.substr(pos, count);
         
         auto& spaces = traits.ignore_symbols;
-        auto end = input.find_last_not_of(spaces, count - 1);
-        if (end == std::string::npos || end < pos) 
+        auto end = input.find_last_not_of(spaces);
+        if (end == std::string::npos) 
             return m;
-        auto st = input.find_first_not_of(spaces, pos);
-        pos = st;
-        while (pos < end){
+        pos = input.find_first_not_of(spaces);
+        while (pos <= end){
             auto lend = input.find(traits.elem_delimiter, pos);
             auto colon_pos = input.find(traits.interval_delimiter, pos);
             if (colon_pos == std::string::npos || colon_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.interval_delimiter + "\" separator");
-            auto arrow_pos = input.find(traits.map_delimiter, colon_pos+1);
+            auto colon_ed = colon_pos + traits.interval_delimiter.size();
+            auto arrow_pos = input.find(traits.map_delimiter, colon_ed);
             if (arrow_pos == std::string::npos || arrow_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.map_delimiter + "\" operator");
             
@@ -240,13 +241,14 @@ namespace Ani{
             else
                 left_st = std::max(colon_pos, left_ed+1);
     
-            auto right_st = colon_pos+1, right_ed = colon_pos;
-            right_st = input.find_first_not_of(spaces, colon_pos+1);
+            auto right_st = colon_ed, right_ed = colon_ed - 1;
+            right_st = input.find_first_not_of(spaces, colon_ed);
             if (right_st < arrow_pos)
                 right_ed = input.find_last_not_of(spaces, arrow_pos - 1);
             
-            auto value_st = arrow_pos+2, value_ed = arrow_pos+1;
-            value_st = input.find_first_not_of(spaces, arrow_pos+2);
+            auto arrow_ed = arrow_pos + traits.map_delimiter.size();
+            auto value_st = arrow_ed, value_ed = arrow_ed - 1;
+            value_st = input.find_first_not_of(spaces, arrow_ed);
             if (value_st == std::string::npos || value_st >= lend)
                 throw std::invalid_argument("Missing mapping value");
             value_ed = input.find_last_not_of(spaces, lend - 1);
@@ -263,7 +265,7 @@ namespace Ani{
                 default:
                     throw std::runtime_error("Reached unreacheable code");
             }
-            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend+1);
+            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend + traits.elem_delimiter.size());
         }
     
         return m;
-- 
2.43.0


From 4a0fd8e09300c5e5b50d169a7ee319473487b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 038/103] fix: operator>= of the interval iterators compares
 with less

---
 anifem++/interval/ext_array_enum.h | 4 ++--
 anifem++/interval/interval_enum.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 44ef68b..88299b3 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -83,7 +83,7 @@ public:
         bool operator < (const iterator & other) const { return id.first < other.id.first; }
         bool operator > (const iterator & other) const { return id.first > other.id.first; }
         bool operator <=(const iterator & other) const { return id.first <= other.id.first; }
-        bool operator >=(const iterator & other) const { return id.first < other.id.first; }
+        bool operator >=(const iterator & other) const { return id.first >= other.id.first; }
         reference operator*() const { return id; }
         pointer operator ->() const { return &id; }
         iterator& operator ++() { return *this = std::move(ptr->next_it(*this)); }
@@ -171,7 +171,7 @@ public:
         bool operator < (const iterator & other) const { return it2 < other.it2; }
         bool operator > (const iterator & other) const { return it2 > other.it2; }
         bool operator <=(const iterator & other) const { return it2 <= other.it2; }
-        bool operator >=(const iterator & other) const { return it2 < other.it2; }
+        bool operator >=(const iterator & other) const { return it2 >= other.it2; }
         reference operator*() const { return val; }
         pointer operator ->() const { return &val; }
         iterator& operator ++();
diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index ff67e69..1e78ebf 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -74,7 +74,7 @@ struct interval_external_memory{
         bool operator< (const const_iterator & other) const { return m_p < other.m_p; }
         bool operator> (const const_iterator & other) const { return m_p > other.m_p; }
         bool operator<=(const const_iterator & other) const { return m_p <= other.m_p; }
-        bool operator>=(const const_iterator & other) const { return m_p < other.m_p; }
+        bool operator>=(const const_iterator & other) const { return m_p >= other.m_p; }
         reference operator*() const { m_val.first = *m_p, m_val.second = *(m_p+1); return m_val; }
         pointer operator ->() const { m_val.first = *m_p, m_val.second = *(m_p+1); return &m_val; }
         value_type operator[](difference_type n) const {  return {*(m_p+2*n), *(m_p+2*n+1) }; }
-- 
2.43.0


From aa839475c71f30968723022a83832d7a11de8a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 039/103] fix: stepping back over interval iterators goes
 forward or starts from an iterator without an owner

---
 anifem++/interval/ext_array_enum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 88299b3..907aa04 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -91,7 +91,7 @@ public:
         iterator& operator --() { return *this = std::move(ptr->prev_it(*this)); }
         iterator  operator --(int) { iterator ret(*this); operator--(); return ret;}
         iterator& operator +=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
-        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
+        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first-n)); }
         friend iterator operator+(const iterator& a, difference_type n) { iterator b(a); return b+=n; }
         friend iterator operator+(difference_type n, const iterator& a) { return a + n; }
         friend iterator operator-(const iterator& a, difference_type n) { iterator b(a); return b-=n; }
@@ -113,7 +113,7 @@ public:
     bool contains(const std::array<UInt, N+1>& i) const;
     std::size_t count(const std::array<UInt, N+1>& i) const { return contains(i) ? 1 : 0; }
     iterator begin(GInt i = 0) const;
-    iterator end() const{ iterator x; x.id.first = m_size; return x; }
+    iterator end() const{ iterator x; x.ptr = this; x.id.first = m_size; return x; }
     iterator find(GInt i) const { return i < size() ? begin(i) : end(); }
     iterator find(const std::array<UInt, N+1>& i) const { return contains(i) ? begin(this->operator[](i)) : end(); }
     /// Returns an iterator to the first element not less than the given key
-- 
2.43.0


From 6c09f0b3dd734df0306f1c6e2e8930e56edab517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 040/103] fix: distance of interval iterators wraps around for
 unsigned positions

---
 anifem++/interval/interval_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index 1e78ebf..59d9d35 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -120,7 +120,7 @@ struct interval_enum{
         const_iterator& operator--();
         const_iterator  operator++(int) {const_iterator ret(*this); operator++(); return ret;}
         const_iterator  operator--(int) {const_iterator ret(*this); operator--(); return ret;}
-        difference_type operator- (const const_iterator& b) { return (m_it->first - b.m_it->first) + m_shift - b.m_shift; }
+        difference_type operator- (const const_iterator& b) { return difference_type(m_it->first + m_shift) - difference_type(b.m_it->first + b.m_shift); }
         reference operator*() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return m_val; }
         pointer operator ->() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return &m_val; }
         bool operator==(const const_iterator & other) const { return m_it == other.m_it && m_shift == other.m_shift; }
-- 
2.43.0


From b6908af77023201c929fdaf6e0d52cd98059f881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 041/103] fix: lower_bound of interval enumerations
 dereferences the end

---
 anifem++/interval/ext_array_enum.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 682d5ac..93506a7 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -745,6 +745,8 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_arra
     auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
     auto compare_arr_key = [compare_arr](const auto& a, const auto& b) { return compare_arr(a.first, b); };
 
+    if (empty())
+        return end();
     auto res = i;
     auto beta = [&id = res, n = insert_pos]() -> UInt& { return id[n]; };
     auto alpha = [&id = res, n = insert_pos](UInt k) -> UInt& { return id[k + (k >= n ? 1 : 0)]; };
@@ -828,7 +830,7 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_arra
             if (beta() >= rg_size(it->first[m])) continue;
             if (!compare_arr(it->first, jd)){
                 auto kt = std::lower_bound(jt, m_ord.end(), (it->first == jd) ? id : it->first, compare_arr);
-                if(check_ed(*kt, it->first)){
+                if(kt != m_ord.end() && check_ed(*kt, it->first)){
                     for (unsigned k = 0; k < N; ++k)
                         alpha(k) = (*kt)[k];
                     return begin(this->operator[](res));    
-- 
2.43.0


From 752b2fc6e22c5c22a77d83003976679ff4b9d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 042/103] fix: empty and zero-length ranges break the set-up of
 interval enumerations

---
 anifem++/interval/ext_array_enum.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 93506a7..2c09c0d 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -71,6 +71,13 @@ ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFun
     };
     auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
     UInt n = insert_pos, m = depends_on;
+    //arrays with empty range do not produce any elements
+    m_ord.erase(std::remove_if(m_ord.begin(), m_ord.end(), [this](const auto& a){ return rg_size(a[depends_on]) == 0; }), m_ord.end());
+    if (m_ord.empty()){
+        m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear();
+        m_size = 0;
+        return *this;
+    }
     
     std::map<std::array<UInt, N>, GInt> _r, _w, _p, _q;
     std::map<std::array<UInt, N>, std::map<GInt, GInt>> _qr; 
-- 
2.43.0


From 676a331fa3d5f98ce49e026e48b156b970326a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 043/103] fix: mapped interval enumeration uses an unset array,
 does not clear and jumps to the end

---
 anifem++/interval/ext_array_enum.h   | 2 +-
 anifem++/interval/ext_array_enum.inl | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 907aa04..ab49267 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -205,7 +205,7 @@ public:
     GInt operator[](const std::array<UInt, N+1>& i) const;
     // ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
-    void clear() { m_arr_enum.clear(); m_int_enum.clear(); }
+    void clear() { m_arr_enum.clear(); for (auto& e: m_int_enum) e.clear(); }
 };
 
 }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 2c09c0d..bd66fe4 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -898,6 +898,8 @@ typename ext_array_enum<N, NV, T1, T2, T3, T4>::iterator& ext_array_enum<N, NV,
     auto l = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
     it2 += n;
+    if (it2 == ptr->m_arr_enum.end())
+        return *this;
     auto v2 = *it2;
     it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[l]);
     val = std::move(v2);
@@ -909,6 +911,8 @@ typename ext_array_enum<N, NV, T1, T2, T3, T4>::iterator& ext_array_enum<N, NV,
     auto l = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
     it2 -= n;
+    if (it2 == ptr->m_arr_enum.end())
+        return *this;
     auto v2 = *it2;
     it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[l]);
     val = std::move(v2);
@@ -923,7 +927,7 @@ bool ext_array_enum<N, NV, T1, UInt, GInt, T4>::contains(const std::array<UInt,
     if (i[m] >= NV) return false;
     auto it1 = m_int_enum[i[m]].find_right(i[n]); 
     if (it1 == m_int_enum[i[m]].end()) return false;
-    std::array<UInt, N+1> j;
+    auto j = i;
     j[n] = it1->first;
     return m_arr_enum.contains(j);
 }
-- 
2.43.0


From b1cb0fcd297d82f6b13ce1d7685cb3dbb75debb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 044/103] fix: bounds of mapped interval enumerations do not
 compile and search in the wrong order

---
 anifem++/interval/ext_array_enum.h   |  6 +++-
 anifem++/interval/ext_array_enum.inl | 44 +++++++++++++++-------------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index ab49267..42d289a 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -200,12 +200,16 @@ public:
     iterator find(GInt i) const;
     iterator find(const std::array<UInt, N+1>& i) const ;
     iterator lower_bound(const std::array<UInt, N+1>& i) const;
-    iterator upper_bound(const std::array<UInt, N+1>& i) const { auto j = i; ++j[N]; return lower_bound(j); }
+    iterator upper_bound(const std::array<UInt, N+1>& i) const;
     // ///Straight mapping
     GInt operator[](const std::array<UInt, N+1>& i) const;
     // ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
     void clear() { m_arr_enum.clear(); for (auto& e: m_int_enum) e.clear(); }
+private:
+    /// Replace mapped value by its number (or by number of the next value), the flag is true if the value belongs to the set
+    std::pair<std::array<UInt, N+1>, bool> to_range(std::array<UInt, N+1> i) const;
+    iterator from_range(typename ExtRangeArrayEnum::iterator it2) const;
 };
 
 }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index bd66fe4..aea7cec 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -968,29 +968,33 @@ typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, N
     return iterator(this, it1, m_arr_enum.find(j));
 }
 template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
-typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, NV, T1, UInt, GInt, T4>::lower_bound(const std::array<UInt, N+1>& i) const{
+std::pair<std::array<UInt, N+1>, bool> ext_array_enum<N, NV, T1, UInt, GInt, T4>::to_range(std::array<UInt, N+1> i) const{
     auto n = m_arr_enum.insert_pos;
     auto m = m_arr_enum.depends_on + ((m_arr_enum.insert_pos <= m_arr_enum.depends_on) ? 1 : 0);
-    auto j = i;
-    if (m < n){
-        auto it1 = m_int_enum[i[m]].lower_bound_right(i[n]);
-        j[n] = (it1 == m_int_enum.end()) ? std::numeric_limits<UInt>::max() : UInt(it1->first);
-    } else {
-        int l = std::numeric_limits<int>::max();
-        typename IntervalEnum::const_iterator it1;
-        for (unsigned r = 0; r < NV; ++r){
-            auto lit = m_int_enum[r].lower_bound_right(i[n]);
-            if (lit != m_int_enum[r].end() && m_int_enum[r]->first < l){
-                l = m_int_enum[r]->first;
-                it1 = lit;
-            }
-        }
-        j[n] = (l != std::numeric_limits<int>::max()) ? l : std::numeric_limits<UInt>::max();
-    }
-    auto it2 = m_arr_enum.lower_bound(j);
+    assert(i[m] < NV && "Depensive index out of range");
+    const auto& e = m_int_enum[i[m]];
+    auto it1 = e.lower_bound_right(i[n]);
+    bool is_value = it1 != e.end() && static_cast<UInt>(it1->second) == i[n];
+    i[n] = (it1 != e.end()) ? static_cast<UInt>(it1->first) : static_cast<UInt>(e.size());
+    if (!is_value) //< any element with the next value is greater
+        std::fill(i.begin() + n + 1, i.end(), 0);
+    return {i, is_value};
+}
+template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
+typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, NV, T1, UInt, GInt, T4>::from_range(typename ExtRangeArrayEnum::iterator it2) const{
     if (it2 == m_arr_enum.end()) return end();
-    auto _it1 = m_int_enum[it2->second[m]].find_left(it2->second[n]);
-    return iterator(this, _it1, it2);
+    auto n = m_arr_enum.insert_pos;
+    auto m = m_arr_enum.depends_on + ((m_arr_enum.insert_pos <= m_arr_enum.depends_on) ? 1 : 0);
+    return iterator(this, m_int_enum[it2->second[m]].find_left(it2->second[n]), it2);
+}
+template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
+typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, NV, T1, UInt, GInt, T4>::lower_bound(const std::array<UInt, N+1>& i) const{
+    return from_range(m_arr_enum.lower_bound(to_range(i).first));
+}
+template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
+typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, NV, T1, UInt, GInt, T4>::upper_bound(const std::array<UInt, N+1>& i) const{
+    auto j = to_range(i);
+    return from_range(j.second ? m_arr_enum.upper_bound(j.first) : m_arr_enum.lower_bound(j.first));
 }
 template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
 GInt ext_array_enum<N, NV, T1, UInt, GInt, T4>::operator[](const std::array<UInt, N+1>& i) const { 
-- 
2.43.0


From a6785bf46e663f370cc655f60a503afc0a8743dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 045/103] fix: Tetra::normal_direction does not compile

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 768ec69..0350ade 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -174,7 +174,7 @@ namespace Ani{
         std::array<NCScalar, 3> normal_direction(unsigned char iopposite_node) const {
             ScalarType* X[4] = {BaseT::XY0.data, BaseT::XY1.data, BaseT::XY2.data, BaseT::XY3.data};
             auto i = iopposite_node;
-            ScalarType* p0 = X[(i+1+0)%4], p1 = X[(i+1+1)%4], p2 = X[(i+1+2)%4], p3 = X[i%4];
+            ScalarType *p0 = X[(i+1+0)%4], *p1 = X[(i+1+1)%4], *p2 = X[(i+1+2)%4], *p3 = X[i%4];
             NCScalar    a[3]{p1[0] - p0[0], p1[1] - p0[1], p1[2] - p0[2]},
                         b[3]{p2[0] - p0[0], p2[1] - p0[1], p2[2] - p0[2]},
                         c[3]{p3[0] - p0[0], p3[1] - p0[1], p3[2] - p0[2]};
-- 
2.43.0


From 796c8c7262b090d0279a6b92ea84e442c2f65de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:18 +0000
Subject: [PATCH 046/103] fix: Tetras can not be created from dense matrices
 (does not compile)

---
 anifem++/fem/geometry.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 0350ade..4772b04 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -133,8 +133,10 @@ namespace Ani{
         using MatType = DenseMatrix<ScalarType>;
         using BaseT = TetrasCommon<MatType, MatType, MatType, MatType>;
 
-        Tetras(const MatType& XY0, const MatType& XY1, const MatType& XY2, const MatType& XY3, int fusion = 1): 
-            BaseT(XY0, XY1, XY2, XY3, fusion) {}
+        Tetras(const MatType& XY0, const MatType& XY1, const MatType& XY2, const MatType& XY3): 
+            BaseT(XY0, XY1, XY2, XY3) {}
+        Tetras(const MatType& XY0, const MatType& XY1, const MatType& XY2, const MatType& XY3, int fusion): 
+            BaseT(XY0, XY1, XY2, XY3) { BaseT::fusion = fusion; }
         Tetras(ScalarType* XY0, ScalarType* XY1, ScalarType* XY2, ScalarType* XY3, int count = 1): 
             BaseT(XY0, XY1, XY2, XY3, count) {}  
         Tetras(): Tetras(nullptr, nullptr, nullptr, nullptr, 0) {}    
-- 
2.43.0


From c74cada664588a7208d8478807ced59de8ba403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 047/103] fix: fullPivLU leaves columns with small entries
 unnormalised

---
 anifem++/fem/geometry.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 4772b04..5b3ffa1 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -298,20 +298,14 @@ namespace Ani{
             std::swap(q[k], q[pj]);
             for (int i = 0; i < N; i++)
                 std::swap(A(i, k), A(i, pj));
-            Scalar max1 = 0.0;
-            for (int i = k+1; i < N; i++) 
-                max1 = std::max(max1, std::fabs(A(i, k)));    
             //END PIVOT
     
-            //check pivot size and decompose
-            if (max > 0.0 && max1 > 0.0 && max1 / max > std::numeric_limits<Scalar>::epsilon()){
-                for (int i = k+1; i < N; i++){
-                    //Column normalisation
-                    Scalar tmp = ( A(i,k) /= A(k,k) ) ;
-                    for (int j = k+1; j < N; j++){
-                        //a(ik)*a(kj) subtracted from lower right submatrix elements
-                        A(i, j) -= (tmp * A(k, j));
-                    }
+            for (int i = k+1; i < N; i++){
+                //Column normalisation
+                Scalar tmp = ( A(i,k) /= A(k,k) ) ;
+                for (int j = k+1; j < N; j++){
+                    //a(ik)*a(kj) subtracted from lower right submatrix elements
+                    A(i, j) -= (tmp * A(k, j));
                 }
             }
             //END DECOMPOSE
-- 
2.43.0


From fe934b78a8846424005a1359239bb96971f7d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 048/103] fix: householderQR without Eigen skips columns of
 small matrices

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 5b3ffa1..4a0333a 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -440,7 +440,7 @@ namespace Ani{
             for (int i = k; i < N; ++i)
                 norm += W(i, k) * W(i, k);
             norm = std::sqrt(norm);
-            if (norm <= std::numeric_limits<Scalar>::epsilon()){
+            if (norm == 0){
                 tau[k] = 0;
                 v[k] = 1;
                 for (int i = k + 1; i < N; ++i)
-- 
2.43.0


From 40afcd5983d808c2fb9c27744067f42deb94acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:58 +0000
Subject: [PATCH 049/103] fix: jacobiSVD without Eigen fails for rank-deficient
 and scaled matrices

---
 anifem++/fem/geometry.h | 282 ++++++++++++++++++----------------------
 1 file changed, 123 insertions(+), 159 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 4a0333a..dc51f79 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -501,140 +501,157 @@ namespace Ani{
 
 #ifndef WITH_EIGEN
     namespace detail {
+        /// Orthogonalize column j of the n-row matrix q to its first j orthonormal columns and normalize it
         template<typename Scalar>
-        inline int jacobi_symmetric_eigen(Scalar* sym, int n, Scalar* eval, Scalar* evecs){
-            for (int j = 0; j < n; ++j)
+        inline void orthonormalize_col(Scalar* q, int n, int j){
+            for (int pass = 0; pass < 3; ++pass){
+                for (int c = 0; c < j; ++c){
+                    Scalar dot = 0;
+                    for (int i = 0; i < n; ++i)
+                        dot += q[i + c*n] * q[i + j*n];
+                    for (int i = 0; i < n; ++i)
+                        q[i + j*n] -= dot * q[i + c*n];
+                }
+                Scalar norm = 0;
+                for (int i = 0; i < n; ++i)
+                    norm += q[i + j*n] * q[i + j*n];
+                norm = std::sqrt(norm);
                 for (int i = 0; i < n; ++i)
-                    evecs[i + j*n] = (i == j) ? 1 : 0;
+                    q[i + j*n] /= norm;
+            }
+        }
 
-            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon();
-            int err = 1;
-            for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
-                Scalar off = 0;
-                for (int p = 0; p < n; ++p)
-                    for (int q = p + 1; q < n; ++q)
-                        off += sym[p + q*n] * sym[p + q*n];
-                if (off <= tol * tol){
-                    err = 0;
-                    break;
+        /// Extend first n_done orthonormal columns of n x n matrix q to orthonormal basis
+        template<typename Scalar>
+        inline void complete_orthonormal_cols(Scalar* q, int n, int n_done){
+            for (int j = n_done; j < n; ++j){
+                // take the unit vector that is the furthest from the span of the previous columns
+                int best = 0;
+                Scalar best_proj = 2;
+                for (int i = 0; i < n; ++i){
+                    Scalar proj = 0;
+                    for (int c = 0; c < j; ++c)
+                        proj += q[i + c*n] * q[i + c*n];
+                    if (proj < best_proj)
+                        best_proj = proj, best = i;
                 }
+                for (int i = 0; i < n; ++i)
+                    q[i + j*n] = (i == best) ? 1 : 0;
+                orthonormalize_col(q, n, j);
+            }
+        }
+
+        /// One-sided Jacobi: rotate columns of n x n matrix r to make them orthogonal, v is product of the rotations
+        template<typename Scalar>
+        inline int jacobi_orthogonalize_cols(Scalar* r, int n, Scalar* v){
+            for (int j = 0; j < n; ++j)
+                for (int i = 0; i < n; ++i)
+                    v[i + j*n] = (i == j) ? 1 : 0;
 
+            const Scalar eps = std::numeric_limits<Scalar>::epsilon(), tol = n * eps;
+            Scalar noise = 0; // columns shorter than eps * |r| are zero up to rounding
+            for (int i = 0; i < n*n; ++i)
+                noise += eps * eps * r[i] * r[i];
+            for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
+                bool rotated = false;
                 for (int p = 0; p < n; ++p){
                     for (int q = p + 1; q < n; ++q){
-                        Scalar apq = sym[p + q*n];
-                        if (std::fabs(apq) <= tol)
-                            continue;
-                        Scalar app = sym[p + p*n];
-                        Scalar aqq = sym[q + q*n];
-                        Scalar theta = Scalar(0.5) * std::atan2(Scalar(2) * apq, aqq - app);
-                        Scalar c = std::cos(theta);
-                        Scalar s = std::sin(theta);
-
+                        Scalar pp = 0, qq = 0, pq = 0;
                         for (int k = 0; k < n; ++k){
-                            if (k == p || k == q)
-                                continue;
-                            Scalar gkp = sym[k + p*n];
-                            Scalar gkq = sym[k + q*n];
-                            sym[k + p*n] = sym[p + k*n] = c * gkp - s * gkq;
-                            sym[k + q*n] = sym[q + k*n] = s * gkp + c * gkq;
-                        }
-                        sym[p + p*n] = c*c*app - Scalar(2)*s*c*apq + s*s*aqq;
-                        sym[q + q*n] = s*s*app + Scalar(2)*s*c*apq + c*c*aqq;
-                        sym[p + q*n] = sym[q + p*n] = 0;
-
-                        for (int k = 0; k < n; ++k){
-                            Scalar vkp = evecs[k + p*n];
-                            Scalar vkq = evecs[k + q*n];
-                            evecs[k + p*n] = c * vkp - s * vkq;
-                            evecs[k + q*n] = s * vkp + c * vkq;
+                            pp += r[k + p*n] * r[k + p*n];
+                            qq += r[k + q*n] * r[k + q*n];
+                            pq += r[k + p*n] * r[k + q*n];
                         }
+                        if (std::fabs(pq) <= tol * std::sqrt(pp) * std::sqrt(qq) || pp <= noise || qq <= noise)
+                            continue;
+                        rotated = true;
+                        Scalar zeta = (qq - pp) / (2 * pq);
+                        Scalar t = (zeta >= 0 ? 1 : -1) / (std::fabs(zeta) + std::hypot(Scalar(1), zeta));
+                        Scalar c = 1 / std::hypot(Scalar(1), t);
+                        Scalar s = c * t;
+                        for (Scalar* m: {r, v})
+                            for (int k = 0; k < n; ++k){
+                                Scalar mp = m[k + p*n], mq = m[k + q*n];
+                                m[k + p*n] = c * mp - s * mq;
+                                m[k + q*n] = s * mp + c * mq;
+                            }
                     }
                 }
+                if (!rotated)
+                    return 0;
             }
-
-            if (err)
-                return 1;
-
-            for (int i = 0; i < n; ++i)
-                eval[i] = sym[i + i*n];
-            return 0;
+            return 1;
         }
 
         template<typename Scalar>
-        inline void sort_eigen_desc(Scalar* eval, Scalar* evecs, int n){
+        inline void sort_desc(Scalar* val, Scalar* vecs, int n){
             for (int i = 0; i < n; ++i){
                 int best = i;
                 for (int j = i + 1; j < n; ++j)
-                    if (eval[j] > eval[best])
+                    if (val[j] > val[best])
                         best = j;
                 if (best == i)
                     continue;
-                std::swap(eval[i], eval[best]);
+                std::swap(val[i], val[best]);
                 for (int k = 0; k < n; ++k)
-                    std::swap(evecs[k + i*n], evecs[k + best*n]);
+                    std::swap(vecs[k + i*n], vecs[k + best*n]);
             }
         }
 
+        /// SVD of the P x K matrix W(i, j) = A[i*rs + j*cs], P >= K, left and right are optional
         template<typename Scalar>
-        inline void complete_orthonormal_cols(Scalar* q, int n, int n_done){
-            const Scalar eps = std::numeric_limits<Scalar>::epsilon();
-            for (int j = n_done; j < n; ++j){
-                for (int i = 0; i < n; ++i)
-                    q[i + j*n] = (i == (j - n_done) % n) ? 1 : 0;
-                for (int c = 0; c < j; ++c){
-                    Scalar dot = 0;
-                    for (int i = 0; i < n; ++i)
-                        dot += q[i + c*n] * q[i + j*n];
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] -= dot * q[i + c*n];
-                }
-                Scalar norm = 0;
-                for (int i = 0; i < n; ++i)
-                    norm += q[i + j*n] * q[i + j*n];
-                norm = std::sqrt(norm);
-                if (norm <= eps){
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] = (i == (j + 1) % n) ? 1 : 0;
-                    for (int c = 0; c < j; ++c){
-                        Scalar dot = 0;
-                        for (int i = 0; i < n; ++i)
-                            dot += q[i + c*n] * q[i + j*n];
-                        for (int i = 0; i < n; ++i)
-                            q[i + j*n] -= dot * q[i + c*n];
+        inline int jacobi_svd(const Scalar* A, int rs, int cs, int P, int K, Scalar* left, Scalar* S, Scalar* right, Scalar* mem){
+            Scalar* R = mem;
+            Scalar* vecs = (right != nullptr) ? right : mem + K*K;
+            Scalar* row = mem + 2*K*K;
+
+            Scalar scale = 0;
+            for (int i = 0; i < P; ++i)
+                for (int j = 0; j < K; ++j)
+                    scale = std::max(scale, std::fabs(A[i*rs + j*cs]));
+            if (scale == 0)
+                scale = 1;
+            // W = scale * Q * R by Givens rotations
+            std::fill(R, R + K*K, Scalar(0));
+            for (int i = 0; i < P; ++i){
+                for (int j = 0; j < K; ++j)
+                    row[j] = A[i*rs + j*cs] / scale;
+                for (int j = 0; j < K; ++j){
+                    if (row[j] == 0)
+                        continue;
+                    Scalar h = std::hypot(R[j + j*K], row[j]);
+                    Scalar c = R[j + j*K] / h, s = row[j] / h;
+                    for (int k = j; k < K; ++k){
+                        Scalar a = R[j + k*K], b = row[k];
+                        R[j + k*K] = c * a + s * b;
+                        row[k] = c * b - s * a;
                     }
-                    norm = 0;
-                    for (int i = 0; i < n; ++i)
-                        norm += q[i + j*n] * q[i + j*n];
-                    norm = std::sqrt(norm);
                 }
-                if (norm > eps)
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] /= norm;
             }
-        }
-
-        template<typename Scalar>
-        inline void gram_ata(const Scalar* a, int n, int m, Scalar* g){
-            for (int j = 0; j < m; ++j){
-                for (int k = j; k < m; ++k){
-                    Scalar s = 0;
-                    for (int i = 0; i < n; ++i)
-                        s += a[i + j*n] * a[i + k*n];
-                    g[j + k*m] = g[k + j*m] = s;
-                }
+            if (jacobi_orthogonalize_cols(R, K, vecs))
+                return 1;
+            for (int j = 0; j < K; ++j){
+                S[j] = 0;
+                for (int i = 0; i < K; ++i)
+                    S[j] += R[i + j*K] * R[i + j*K];
+                S[j] = std::sqrt(S[j]) * scale;
             }
-        }
-
-        template<typename Scalar>
-        inline void gram_aat(const Scalar* a, int n, int m, Scalar* g){
-            for (int j = 0; j < n; ++j){
-                for (int k = j; k < n; ++k){
-                    Scalar s = 0;
-                    for (int i = 0; i < m; ++i)
-                        s += a[j + i*n] * a[k + i*n];
-                    g[j + k*n] = g[k + j*n] = s;
+            sort_desc(S, vecs, K);
+            if (left != nullptr){
+                const Scalar noise = P * std::numeric_limits<Scalar>::epsilon() * S[0];
+                int done = 0;
+                for (; done < K && S[done] > noise; ++done){
+                    for (int i = 0; i < P; ++i){
+                        Scalar sum = 0;
+                        for (int t = 0; t < K; ++t)
+                            sum += A[i*rs + t*cs] / scale * vecs[t + done*K];
+                        left[i + done*P] = sum;
+                    }
+                    orthonormalize_col(left, P, done);
                 }
+                complete_orthonormal_cols(left, P, done);
             }
+            return 0;
         }
     }
 #endif
@@ -673,63 +690,10 @@ namespace Ani{
         }
         return 0;
 #else
-        const Scalar eps = std::numeric_limits<Scalar>::epsilon();
-        Scalar* gram = mem;
-        Scalar* evecs_buf = mem + K*K;
-        Scalar* eval = mem + 2*K*K;
-
-        if (N >= M){
-            detail::gram_ata(A, N, M, gram);
-            Scalar* evecs = (V != nullptr) ? V : evecs_buf;
-            if (detail::jacobi_symmetric_eigen(gram, M, eval, evecs))
-                return 1;
-            detail::sort_eigen_desc(eval, evecs, M);
-            for (int i = 0; i < K; ++i)
-                S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
-
-            if (U != nullptr){
-                for (int j = 0; j < M; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < N; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < M; ++t)
-                                sum += A[i + t*N] * evecs[t + j*M];
-                            U[i + j*N] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < N; ++i)
-                            U[i + j*N] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(U, N, M);
-            }
-        } else {
-            detail::gram_aat(A, N, M, gram);
-            Scalar* evecs = (U != nullptr) ? U : evecs_buf;
-            if (detail::jacobi_symmetric_eigen(gram, N, eval, evecs))
-                return 1;
-            detail::sort_eigen_desc(eval, evecs, N);
-            for (int i = 0; i < K; ++i)
-                S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
-
-            if (V != nullptr){
-                for (int j = 0; j < N; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < M; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < N; ++t)
-                                sum += A[t + i*N] * evecs[t + j*N];
-                            V[i + j*M] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < M; ++i)
-                            V[i + j*M] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(V, M, N);
-            }
-        }
-        return 0;
+        if (N >= M)
+            return detail::jacobi_svd(A, 1, N, N, M, U, S, V, mem);
+        else
+            return detail::jacobi_svd(A, N, 1, M, N, V, S, U, mem);
 #endif
     }
 };
-- 
2.43.0


From c313a660f534e9e54ec8fec7bfe815a051664c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:58 +0000
Subject: [PATCH 050/103] fix: householderQR without Eigen loses orthogonality
 when a column underflows

---
 anifem++/fem/geometry.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index dc51f79..15e89a7 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -436,10 +436,14 @@ namespace Ani{
         std::copy(A, A + N*M, mem);
 
         for (int k = 0; k < M; ++k){
-            Scalar norm = 0;
+            Scalar scale = 0, norm = 0;
             for (int i = k; i < N; ++i)
-                norm += W(i, k) * W(i, k);
-            norm = std::sqrt(norm);
+                scale = std::max(scale, std::fabs(W(i, k)));
+            if (scale > std::numeric_limits<Scalar>::min() / std::numeric_limits<Scalar>::epsilon()){
+                for (int i = k; i < N; ++i)
+                    norm += (W(i, k) / scale) * (W(i, k) / scale);
+                norm = scale * std::sqrt(norm);
+            }
             if (norm == 0){
                 tau[k] = 0;
                 v[k] = 1;
@@ -451,10 +455,9 @@ namespace Ani{
             Scalar alpha = W(k, k);
             Scalar beta = (alpha >= 0) ? -norm : norm;
             tau[k] = (beta - alpha) / beta;
-            Scalar inv_denom = Scalar(1) / (alpha - beta);
             v[k] = 1;
             for (int i = k + 1; i < N; ++i)
-                v[i] = W(i, k) * inv_denom;
+                v[i] = W(i, k) / (alpha - beta);
 
             W(k, k) = beta;
             for (int i = k + 1; i < N; ++i)
-- 
2.43.0


From bdbcc8af33e84a80621e8a8fa5bb5cb9dedb7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:51 +0000
Subject: [PATCH 051/103] fix: DynMem hands out memory in use after parts were
 released out of order

---
 anifem++/fem/fem_memory.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 9285385..c64eeb9 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -411,6 +411,7 @@ namespace Ani{
             std::vector<DM>         mdata;
             std::size_t rbusy = 0, ibusy = 0, mbusy = 0;
             std::size_t nparts = 0; //number of memory parts where pointers from the vectors are used
+            std::size_t next_id = 0; //number that follows the number of the topmost memory part
         };
         struct MemPart{  
             PlainMemoryX<ScalarType, IndexType> m_mem;
@@ -486,7 +487,7 @@ namespace Ani{
                 if (chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
                 res.m_mem.mdata = chunk->mdata.data() + chunk->mbusy; chunk->mbusy += msize; res.m_mem.mSize = msize;
             }
-            res.m_part_id = chunk->nparts;
+            res.m_part_id = chunk->next_id++;
             chunk->nparts++;
             return res;
         }
@@ -510,10 +511,12 @@ namespace Ani{
         virtual void clearChunk(std::size_t chunk_id, std::size_t part_id, std::size_t dSize, std::size_t iSize, std::size_t mSize) {
             auto& chunk = m_chunks[chunk_id];
             chunk.nparts--;
-            if (chunk.nparts == part_id)
+            if (chunk.next_id == part_id + 1){
                 chunk.rbusy -= dSize, chunk.ibusy -= iSize, chunk.mbusy -= mSize;
+                chunk.next_id--;
+            }
             if (chunk.nparts == 0)
-                chunk.rbusy = chunk.ibusy = chunk.mbusy = 0;
+                chunk.rbusy = chunk.ibusy = chunk.mbusy = chunk.next_id = 0;
         }
     public:    
     //protected:
-- 
2.43.0


From 160997d2e0103c35858a1a2dad2c51db21ca82b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:51 +0000
Subject: [PATCH 052/103] fix: DynMemParallel::get reads the storage while
 other threads may reallocate it

---
 anifem++/fem/fem_memory_parallel.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory_parallel.h b/anifem++/fem/fem_memory_parallel.h
index 3a25f86..d7bf44e 100644
--- a/anifem++/fem/fem_memory_parallel.h
+++ b/anifem++/fem/fem_memory_parallel.h
@@ -80,7 +80,10 @@ struct DynMemParallel{
         m_unused.clear();
         m_mem.clear();
     }
-    DynMem<Real, Int>* get(Int mem_id){ return m_mem[mem_id].get(); }
+    DynMem<Real, Int>* get(Int mem_id){
+        std::lock_guard<MutexType> lock(m_mutex);
+        return m_mem[mem_id].get();
+    }
 
 
 protected:
-- 
2.43.0


From b7199f651facbdd33c6c2ff9143148c7b03d6326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:51 +0000
Subject: [PATCH 053/103] fix: parallel_for with std::thread does not compile

---
 anifem++/fem/mutex_type.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index f52d9e7..6ad5e4a 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -5,8 +5,13 @@
 #ifndef CARNUM_MUTEX_TYPE_H
 #define CARNUM_MUTEX_TYPE_H
 
-#include <thread>
+#include <algorithm>
+#include <cassert>
+#include <functional>
 #include <mutex>
+#include <thread>
+#include <utility>
+#include <vector>
 #ifdef WITH_OPENMP
 #include <omp.h>
 #endif
@@ -120,12 +125,13 @@ namespace ThreadPar{
             unsigned batch_remainder = niters % nthreads;
 
             std::vector< std::thread > work_threads(nthreads - 1);
-            for (int i = 0; i < nthreads - 1; ++i)
-                work_threads[i] = std::thread(perform_for_on_thread, i+1,
-                                beg + batch_size*i + (i < batch_remainder ? i : batch_remainder), 
-                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder), 
-                                args...);
-            perform_for_on_thread(0, f, beg + batch_size*(nthreads - 1) + batch_remainder, end, args...);
+            RandAccIterator st = beg;
+            for (int i = 0; i < nthreads - 1; ++i){
+                RandAccIterator next = st + (batch_size + (static_cast<unsigned>(i) < batch_remainder ? 1 : 0));
+                work_threads[i] = std::thread([&f, &args..., i, st, next](){ perform_for_on_thread(i+1, f, st, next, args...); });
+                st = next;
+            }
+            perform_for_on_thread(0, f, st, end, args...);
             std::for_each(work_threads.begin(), work_threads.end(), std::mem_fn(&std::thread::join));
         }
     };
-- 
2.43.0


From a03c706491ded3dcea0524515daa6a34a43c1d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 054/103] fix: indices of BiSymTensor4Rank of sizes other than
 three

---
 anifem++/autodiff/physical_tensors.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 0353d80..bfaa5f3 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -427,12 +427,12 @@ struct BiSymTensor4Rank{
     static Index index(std::size_t continuous_index) { 
         auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index); 
         auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
-        return Index(ti.i, ti.j, tj.i, tj.i); 
+        return Index(ti.i, ti.j, tj.i, tj.j); 
     }
     static std::size_t continuous_index(Index id){ 
-        auto I = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.i, id.j)), 
-             J = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.k, id.l));
-        return SymMtx<N*(N+1)/2, FT>::continuous_index(SymMtx<N*(N+1)/2, FT>::Index(I, J));
+        auto I = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.i, id.j)), 
+             J = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.k, id.l));
+        return SymMtx<N*(N+1)/2, FT>::continuous_index(typename SymMtx<N*(N+1)/2, FT>::Index(I, J));
     }
 
     std::array<FT, N*(N+1)/2 * (N*(N+1)/2 + 1) / 2> m_dat = {0};
-- 
2.43.0


From 7da4107d3f418a860af2902844a96ae7f07d0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 055/103] fix: distances of tensor iterators beyond 127
 components

---
 anifem++/autodiff/physical_tensors.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index bfaa5f3..326e48f 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -107,8 +107,8 @@ struct SymMtx{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -335,8 +335,8 @@ struct SymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -471,8 +471,8 @@ struct BiSymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
-- 
2.43.0


From 920f5601860c4ce0339e8760c43b95211e4a3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 056/103] fix: pow of a number in the power of an expression
 without derivatives

---
 anifem++/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index 2e128d1..f9758c8 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -212,7 +212,7 @@ FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec);
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 FuncVal<EX1> hypot(::std::initializer_list<EX1> vec){ return hypot(vec.begin(), vec.size()); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
-FuncVal<EX1> pow(typename EX1::Storage::ValueType a, EX1 q) { return pow(_EXParam<EX1>(a), q); }
+auto pow(typename EX1::Storage::ValueType a, EX1 q) { return pow(_EXParam<EX1>(a), q); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 FuncVal<EX1> sq(EX1 a);
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-- 
2.43.0


From bd15eb661a6658e1c8dbe25cddb0b638cf61cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:27 +0000
Subject: [PATCH 057/103] fix: second derivatives of quotients

---
 anifem++/autodiff/autodiff.h   | 11 +++++++++--
 anifem++/autodiff/autodiff.inl | 14 ++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index f9758c8..1dec707 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -153,6 +153,13 @@ using MulVal = ADVal< ADState<
                     (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)>,
                 typename EX1::Storage
                 >;  
+template<typename EX1, typename EX2, typename std::enable_if<std::is_same<typename EX1::Storage, typename EX2::Storage>::value>::type* = nullptr>
+using DivVal = ADVal< ADState<
+                    EX1::State::NotTrivialValue || EX2::State::NotTrivialValue, 
+                    EX1::State::NotTrivialDeriv || EX2::State::NotTrivialDeriv,
+                    EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv>,
+                typename EX1::Storage
+                >;  
 template<typename EX1>
 using CopVal = ADVal< typename EX1::State, typename EX1::Storage >;
 template<typename EX1>
@@ -176,7 +183,7 @@ UnionVal<EX1, EX2> operator-(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
 MulVal<EX1, EX2> operator*(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b);
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b);
 
 template<typename EX1>
 using _EXParam = Param<typename EX1::Storage>;
@@ -195,7 +202,7 @@ CopVal<EX1> operator*(typename EX1::Storage::ValueType b, EX1 a) { return _EXPar
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 CopVal<EX1> operator/(EX1 a, typename EX1::Storage::ValueType b) { return a / _EXParam<EX1>(b); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-CopVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
+FuncVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
 
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
 FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q);
diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 8219412..a857b0b 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -136,7 +136,7 @@ MulVal<EX1, EX2> operator*(EX1 a, EX2 b){
     return {dif, v, m, r};
 }
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* Dummy>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b){
     // using VT = typename EX1::Storage::ValueType; 
     using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     auto av = a(), bv = b();
@@ -154,16 +154,14 @@ MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
         }
     }
     HT r;
-    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || 
-        (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)) 
-        && dif >= 2){
-        CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)
+    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv) && dif >= 2){
+        CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)
             r -= (1/(bv*bv))*HT::TensorSymMul2(am, bm);
         CONSTIF (EX1::State::NotTrivialSecondDeriv ) r += a.DD() / bv;
-        CONSTIF (EX2::State::NotTrivialSecondDeriv ) {
+        CONSTIF (EX2::State::NotTrivialDeriv ) {
             auto c = av / (bv * bv);
-            auto rb = b.DD();
-            r += c * ( (2./bv) * HT::TensorSquare(bm) - rb );
+            r += c * ( (2./bv) * HT::TensorSquare(bm) );
+            CONSTIF (EX2::State::NotTrivialSecondDeriv ) r -= c * b.DD();
         }
     }
     return {dif, v, m, r};
-- 
2.43.0


From 624908f011d2f4f2ca8489c0626cbbecb5c05b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:27 +0000
Subject: [PATCH 058/103] fix: derivatives of powers of zero

---
 anifem++/autodiff/autodiff.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index a857b0b..e9e5050 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -176,17 +176,18 @@ FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q){
     auto v = EX1::Storage::MathOps::pow(av, q);
     CONSTIF (!EX1::State::NotTrivialDeriv)
         return {dif, v, GT(), HT()};
+    VT d1 = (dif >= 1) ? q * EX1::Storage::MathOps::pow(av, q - 1) : VT(0);
     GT am, m;
     CONSTIF (EX1::State::NotTrivialDeriv)
         if (dif >= 1){
             am = a.D();
-            m = (q * v / av) * am;
+            m = d1 * am;
         }    
     HT r;
     if (dif >= 2){
-        r += (av != VT(0) ? q * (q - 1) * v / (av*av) : VT(0)) * HT::TensorSquare(am);
+        r += (q != 1 ? q * (q - 1) * EX1::Storage::MathOps::pow(av, q - 2) : VT(0)) * HT::TensorSquare(am);
         CONSTIF (EX1::State::NotTrivialSecondDeriv )
-            r += (av != VT(0) ? q * v / av : VT(0)) * a.DD();    
+            r += d1 * a.DD();    
     } 
     return {dif, v, m, r};
 }
-- 
2.43.0


From f3d9e0f1c9dabcbddc9eab8391c69f6570ccb26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:27 +0000
Subject: [PATCH 059/103] fix: hypot of one argument and of arguments with
 different derivatives

---
 anifem++/autodiff/autodiff.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index e9e5050..a693abc 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -341,7 +341,7 @@ template<typename EX1, typename ADCheck1<EX1>::type* Dummy>
 FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
     using VT = typename EX1::Storage::ValueType; using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     if (nvec == 0) return FuncVal<EX1>();
-    if (nvec == 1) return FuncVal<EX1>(vec[0].m_dif, vec[0](), vec[0].D(), vec[0].DD());
+    if (nvec == 1) { auto r = abs(vec[0]); return FuncVal<EX1>(r.m_dif, r(), r.D(), r.DD()); }
     VT v = VT(0), v2 = VT(0);
     if (nvec == 2) v = EX1::Storage::MathOps::hypot(vec[0](), vec[1]()), v2 = vec[0]()*vec[0]() + vec[1]()*vec[1]();
     else {
@@ -349,6 +349,7 @@ FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
         v = EX1::Storage::MathOps::sqrt(v2);
     }
     unsigned char dif = vec[0].m_dif;
+    for (std::size_t i = 1; i < nvec; ++i) dif = std::max(dif, vec[i].m_dif);
     GT m;
     HT r;
     CONSTIF (EX1::State::NotTrivialDeriv){
-- 
2.43.0


From f521bb216235e834b92a4619188295ab2f00eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:29 +0000
Subject: [PATCH 060/103] fix: hypot of three and more long double arguments
 computes in double

---
 anifem++/autodiff/autodiff.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index a693abc..99080d1 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -345,7 +345,7 @@ FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
     VT v = VT(0), v2 = VT(0);
     if (nvec == 2) v = EX1::Storage::MathOps::hypot(vec[0](), vec[1]()), v2 = vec[0]()*vec[0]() + vec[1]()*vec[1]();
     else {
-        v2 = std::accumulate(vec, vec+nvec, 0.0, [](VT sum, const EX1& ex) { return sum + ex()*ex(); });
+        v2 = std::accumulate(vec, vec+nvec, VT(0), [](VT sum, const EX1& ex) { return sum + ex()*ex(); });
         v = EX1::Storage::MathOps::sqrt(v2);
     }
     unsigned char dif = vec[0].m_dif;
-- 
2.43.0


From 5739f4ac75904d3fb7b6a3404de0368236fe6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:25 +0000
Subject: [PATCH 061/103] fix: BiSymTensor4Rank<2> does not compile where the
 number of copies of a component is needed

---
 anifem++/autodiff/physical_tensors.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 326e48f..ae49c93 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -442,11 +442,9 @@ struct BiSymTensor4Rank{
 
     constexpr std::size_t rank() const { return 4U; }
     constexpr std::size_t continuous_size() const { return N*(N+1)/2 * (N*(N+1)/2 + 1) / 2; }
-    constexpr std::size_t index_duplication(std::size_t continuous_index) const { 
-        constexpr typename SymMtx<N*(N+1)/2, FT>::IndexMap a{}; 
-        constexpr typename SymMtx<N, FT>::IndexMap b{};
-        auto q = typename SymMtx<N*(N+1)/2, FT>::Index{a.imap[continuous_index], a.jmap[continuous_index]};
-        return (a.imap[continuous_index] != a.jmap[continuous_index] ? 2 : 1) * (b.imap[q.i] != b.jmap[q.i] ? 2 : 1) * (b.imap[q.j] != b.jmap[q.j] ? 2 : 1);
+    std::size_t index_duplication(std::size_t continuous_index) const { 
+        auto q = index(continuous_index);
+        return (q.i != q.k || q.j != q.l ? 2 : 1) * (q.i != q.j ? 2 : 1) * (q.k != q.l ? 2 : 1);
     }
 
     template <typename DataType = FT>
-- 
2.43.0


From 89bc723885cb04af0b78b2d837a9de51d6d4e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:23 +0000
Subject: [PATCH 062/103] fix: determinants of PhysMtx and SymMtx of sizes
 other than three

---
 anifem++/autodiff/physical_tensors.inl | 67 +++++++-------------------
 1 file changed, 17 insertions(+), 50 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.inl b/anifem++/autodiff/physical_tensors.inl
index 38d09ed..ddbd5d6 100644
--- a/anifem++/autodiff/physical_tensors.inl
+++ b/anifem++/autodiff/physical_tensors.inl
@@ -329,66 +329,33 @@ namespace Ani{
     template<std::size_t N, typename FT>
     FT PhysMtx<N, FT>::Det() const {
         using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
         PhysMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
+        std::array<bool, N> row_visited;
+        std::fill(row_visited.begin(), row_visited.end(), false);
         FT ret(1);
         for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
-            int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
-            }
-            row_visited[r] = d;
-            ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
+            // choose unvisited row with the largest value in column d
+            std::size_t r = N;
+            for (std::size_t i = 0; i < N; ++i)
+                if (!row_visited[i] && (r == N || abs(A(r, d)) < abs(A(i, d))))
+                    r = i;
+            if (A(r, d) == FT(0)) return FT(0);
+            // moving the row over each unvisited row above it changes the sign
+            for (std::size_t i = 0; i < r; ++i)
+                if (!row_visited[i]) ret = -ret;
+            row_visited[r] = true;
+            ret *= A(r, d);
+            for (std::size_t i = 0; i < N; ++i) if(!row_visited[i]) {
                 FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = 0; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
+                for (std::size_t j = d; j < N; ++j)
+                    A(i, j) = A(i, j) - coef * A(r, j);
             }
         }
         return ret;
     }
 
     template<std::size_t N, typename FT>
-    FT SymMtx<N, FT>::Det() const {
-        using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
-        SymMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
-        FT ret(1);
-        for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
-            int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
-            }
-            row_visited[r] = d;
-            ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
-                FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = i; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
-            }
-        }
-        return ret;
-    }
+    FT SymMtx<N, FT>::Det() const { return PhysMtx<N, FT>(*this).Det(); }
     template<std::size_t N, typename FT>
     inline PhysMtx<N, FT> PhysMtx<N, FT>::TensorSymMul2(const PhysArr<N, FT>& f, const PhysArr<N, FT>& s){
         PhysMtx<N, FT> r;
-- 
2.43.0


From f05e1610299b1e2c808acf6e9abe29118182c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:23 +0000
Subject: [PATCH 063/103] fix: PhysMtx<3>::Dot computes in double

---
 anifem++/autodiff/physical_tensors_3d.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors_3d.inl b/anifem++/autodiff/physical_tensors_3d.inl
index 860e0df..e7f90a9 100644
--- a/anifem++/autodiff/physical_tensors_3d.inl
+++ b/anifem++/autodiff/physical_tensors_3d.inl
@@ -380,14 +380,14 @@ inline PhysArr<3, FT> PhysMtx<3, FT>::Mul(const PhysArr<3, FT>& v) const {
 }
 template<typename FT>
 inline FT PhysMtx<3, FT>::Dot(const PhysMtx<3, FT>& b) const {
-    double r = 0;
+    FT r = FT(0);
     for(unsigned i = 0; i < 9; ++i)
         r += m_dat[i] * b.m_dat[i];
     return r;    
 }
 template<typename FT>
 inline FT PhysMtx<3, FT>::Dot(const PhysArr<3, FT>& f, const PhysArr<3, FT>& s) const {
-    double r = 0;
+    FT r = FT(0);
     for(int i = 0; i < 3; ++i)
     for(int j = 0; j < 3; ++j)
         r += f[i]*s[j] * operator()(i,j);
-- 
2.43.0


From 2ded8a8ee8b835b7fedca43ee3591ff5ffcce252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:29 +0000
Subject: [PATCH 064/103] fix: second derivatives of I1, I2 and I4fs of long
 double strains do not compile

---
 anifem++/autodiff/cauchy_strain_invariants.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/cauchy_strain_invariants.h b/anifem++/autodiff/cauchy_strain_invariants.h
index 34c7483..1bfb0aa 100644
--- a/anifem++/autodiff/cauchy_strain_invariants.h
+++ b/anifem++/autodiff/cauchy_strain_invariants.h
@@ -51,7 +51,7 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I1_ddE() { return BiSym4Tensor3D<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I1_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I1_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I1_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I1_ddE<FT>(); }
 
         /// @return I2(C) = (tr(C)^2 - tr(C^2)) / 2
         template<typename FT = double>
@@ -63,7 +63,7 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I2_ddE();
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I2_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I2_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I2_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I2_ddE<FT>(); }
 
         /// @return I3(C) = det(C)
         template<typename FT = double>
@@ -97,9 +97,9 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I4fs_ddE() { return BiSym4Tensor3D<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I4fs_ddE(std::array<FT, 3> f, std::array<FT, 3> s) { (void) f, (void) s; return C_I4fs_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I4fs_ddE(std::array<FT, 3> f, std::array<FT, 3> s) { (void) f, (void) s; return C_I4fs_ddE<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I4fs_ddE(const SymMtx3D<FT>& E, std::array<FT, 3> f, std::array<FT, 3> s) { (void) E, (void) f, (void) s; return C_I4fs_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I4fs_ddE(const SymMtx3D<FT>& E, std::array<FT, 3> f, std::array<FT, 3> s) { (void) E, (void) f, (void) s; return C_I4fs_ddE<FT>(); }
     
         /// @return I5fs(C) = f^T*C^2*s
         template<typename FT = double>
-- 
2.43.0


From d5207723b82dc2ab3c6247ec3f6b46b3234a5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:22 +0000
Subject: [PATCH 065/103] fix: C_J of long double strains computes the root in
 double

---
 anifem++/autodiff/cauchy_strain_invariants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/cauchy_strain_invariants.h b/anifem++/autodiff/cauchy_strain_invariants.h
index 1bfb0aa..9610e1f 100644
--- a/anifem++/autodiff/cauchy_strain_invariants.h
+++ b/anifem++/autodiff/cauchy_strain_invariants.h
@@ -77,7 +77,7 @@ namespace Ani{
 
         /// @return J(C) = sqrt(det(C)) = det(F)
         template<typename FT = double>
-        inline FT C_J(const SymMtx3D<FT>& E) { return sqrt(C_I3(E)); }
+        inline FT C_J(const SymMtx3D<FT>& E) { using std::sqrt; return sqrt(C_I3(E)); }
         /// @return S_J = d (J(C)) / d E_{ij}
         template<typename FT = double>
         inline SymMtx3D<FT> C_J_dE(const SymMtx3D<FT>& E) { return (SymMtx3D<FT>::Identity()+2*E).Adj() / C_J(E); }
-- 
2.43.0


From 30755786464aa210c9cb19787450d180304197d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:36 +0000
Subject: [PATCH 066/103] fix: operator>= of symbolic expressions compared with
 <=

---
 anifem++/fem/expr_interface.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/expr_interface.inl b/anifem++/fem/expr_interface.inl
index f5adc38..f9fea98 100644
--- a/anifem++/fem/expr_interface.inl
+++ b/anifem++/fem/expr_interface.inl
@@ -99,7 +99,7 @@ namespace Ani{
     APPL_OP_FULL2(operator<, lt)
     APPL_OP_FULL2(operator<=, le)
     APPL_OP_FULL2(operator>, gt)
-    APPL_OP_FULL2(operator>=, le)
+    APPL_OP_FULL2(operator>=, ge)
     APPL_OP_FULL2(operator==, eq)
     APPL_OP_FULL2(operator!=, ne)
     APPL_OP_FULL2(operator&&, and)
-- 
2.43.0


From 01d3a276e74371dfb949917c6bb96721ad241bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:36 +0000
Subject: [PATCH 067/103] fix: the index check of a symbolic expression let
 through the index behind the last row and column

---
 anifem++/fem/expr_interface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index e37bb2a..09b1c1c 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -164,7 +164,7 @@ namespace Ani{
             return *this;          
         }
         Expr operator()(std::size_t i, std::size_t j) const {
-            if (i > nrows() || j > ncols())
+            if (i >= nrows() || j >= ncols())
                 throw std::runtime_error("Sizes of expression: " + std::to_string(nrows()) + "x" + std::to_string(ncols()) 
                     + ", but requested value at (" + std::to_string(i) + ", " + std::to_string(j) + ")");
             Expr res = zeroes();
-- 
2.43.0


From f43f6b947ec4b4b9f9e8c24159621be8bd4acbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:36 +0000
Subject: [PATCH 068/103] fix: assignments of back end values to symbolic
 expressions could not be chosen by any call

---
 anifem++/fem/expr_interface.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 09b1c1c..8e530ed 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -119,7 +119,7 @@ namespace Ani{
         explicit Expr(std::shared_ptr<BaseExpr>&& expr): m_invoker(std::move(expr)) {}
         Expr& operator=(const Expr &f){ return m_invoker = f.m_invoker->makeCopy(), *this; }
         Expr& operator=(Expr &&f){ return m_invoker = std::move(f.m_invoker), *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const ExprT& x){ 
             if (m_invoker)
                 m_invoker->set_val(x);
@@ -127,9 +127,9 @@ namespace Ani{
                 m_invoker = std::move(x.makeCopy()); 
             return *this; 
         }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(std::shared_ptr<ExprT>&& x){ m_invoker = std::move(x); return *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const std::shared_ptr<ExprT>& x){ m_invoker = std::move(x->makeCopy()); return *this; }
         
         Expr& operator=(double x){ 
-- 
2.43.0


From 8b73bee59eb343edf9660fa8160a43ae19a37713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:16 +0000
Subject: [PATCH 069/103] fix: dividing a matrix multiplied by the reciprocal,
 which is zero for integers and infinite for tiny divisors

---
 anifem++/fem/fem_memory.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index c64eeb9..e4aecce 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -87,8 +87,9 @@ namespace Ani{
         }
         template<typename RT>
         DenseMatrix<ScalarType>& operator/=(RT val){
-            ScalarType inv_val = ScalarType(1) / val;
-            return (*this *= inv_val);
+            for (std::size_t i = 0; i < nRow*nCol; ++i)
+                data[i] /= val;
+            return *this;
         }
         void SetZero(){ std::fill(data, data + nRow*nCol, 0); }
         void SetEye(double c = 1) { SetZero(); for (std::size_t i = 0, cnt = std::min(nRow, nCol); i < cnt; ++i) data[i + nRow * i] = c; }
-- 
2.43.0


From 1f62e83a3df99d55681561516d0634a0e3f99ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:16 +0000
Subject: [PATCH 070/103] fix: norm of a long double matrix takes its root in
 double

---
 anifem++/fem/fem_memory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index e4aecce..0fe3159 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -109,12 +109,12 @@ namespace Ani{
                     auto val = a*A(i,j) + b*B(i,j);
                     nrm += val * val;
                 }
-            nrm = sqrt(nrm);
+            nrm = std::sqrt(nrm);
         } else {
             for (std::size_t j = 0; j < A.nCol; ++j) 
                 for (std::size_t i = 0; i < A.nRow; ++i) 
                     nrm += A(i, j) * A(i, j);
-            nrm = sqrt(nrm)*fabs(a);
+            nrm = std::sqrt(nrm)*fabs(a);
         }
         return nrm;
     }
-- 
2.43.0


From 4ace3575b8f3b242acdb9dc1ecb3c1064055aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:16 +0000
Subject: [PATCH 071/103] fix: printing a matrix without columns ran through
 the whole address space

---
 anifem++/fem/fem_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 0fe3159..5b29760 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -125,7 +125,7 @@ namespace Ani{
         oss << std::setprecision(std::numeric_limits<ScalarType>::digits10) << std::scientific;
         auto sign_shift = [](auto x) { return (x >= 0) ? " " : ""; };
         for (std::size_t i = 0; i < nRow; ++i){
-            for (std::size_t j = 0; j < nCol-1; ++j){
+            for (std::size_t j = 0; j + 1 < nCol; ++j){
                 const auto& val = (*this)(i, j);
                 oss << sign_shift(val) << val << val_sep;
             }
-- 
2.43.0


From c71142d1f6f786a3e27d2967d8f418ca1a66f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:11 +0000
Subject: [PATCH 072/103] fix: a sparsity view made as sparse counted all
 entries of the matrix

---
 anifem++/inmost_interface/func_wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 8d46bee..3260572 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -45,7 +45,7 @@ namespace Ani{
         template<typename RandAccBoolIter, typename TVal = bool>
         void fillTemplate(RandAccBoolIter beg) const;
         static MatSparsityView<Int> make_as_dense(Int sz1, Int sz2) { return MatSparsityView<Int>(DENSE, sz1*sz2, sz1, sz2, nullptr, nullptr); }
-        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, sz1*sz2, sz1, sz2, colind, row); }
+        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, nnz, sz1, sz2, colind, row); }
     };
 
     template <typename TInt = long>
-- 
2.43.0


From 7eedee599df5d93e7ce2cfd6db8c722df0872bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:11 +0000
Subject: [PATCH 073/103] fix: compressing a matrix by its sparsity in place
 could not be compiled

---
 anifem++/inmost_interface/func_wrap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 3260572..511ac91 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -38,7 +38,7 @@ namespace Ani{
         template<typename Real>
         void sparsify(const Real* from, Real* to) const;
         template<typename Real>
-        void sparsify(const Real* inplace) const { sparsify<Real>(inplace, inplace); }
+        void sparsify(Real* inplace) const { sparsify<Real>(inplace, inplace); }
         //Copy colind and row arrays of CSC format
         template<typename IntTo>
         void copyCSC(IntTo* colind, IntTo* row) const;
@@ -68,7 +68,7 @@ namespace Ani{
             { return getView().template densify<Real>(inplace); }
         template<typename Real> void sparsify(const Real* from, Real* to) const 
             { return getView().template sparsify<Real>(from, to); }
-        template<typename Real> void sparsify(const Real* inplace) const 
+        template<typename Real> void sparsify(Real* inplace) const 
             { return getView().template sparsify<Real>(inplace); }
         template<typename IntTo> void copyCSC(IntTo* colind, IntTo* row) const 
             { return getView().template copyCSC<IntTo>(colind, row); }
-- 
2.43.0


From 11d0c179d97483cf8ff98064a3f1ee8233848227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:11 +0000
Subject: [PATCH 074/103] fix: getting CSC indexes wrote through the null
 pointers it lets the caller pass

---
 anifem++/inmost_interface/func_wrap.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index 6b6a076..018f842 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -47,13 +47,14 @@ namespace Ani{
     template <typename TInt> template<typename IntTo>
     void MatSparsityView<TInt>::copyCSC(IntTo* colind, IntTo* row) const {
         if (m_tp == MatSparsityView<Int>::DENSE){
-            for (Int i = 0; i < m_sz2+1; ++i) colind[i] = i*m_sz1;
+            if (colind) for (Int i = 0; i < m_sz2+1; ++i) colind[i] = i*m_sz1;
+            if (!row) return;
             if (m_sz2 > 0) for (Int i = 0; i < m_sz1; ++i) row[i] = i;
             for (int i = 1; i < m_sz2; ++i)
                 std::copy(row, row + m_sz1, row + m_sz1*i);
         } else {
-            std::copy(m_colind, m_colind+m_sz2+1, colind);
-            std::copy(m_row, m_row+m_nnz, row);
+            if (colind) std::copy(m_colind, m_colind+m_sz2+1, colind);
+            if (row) std::copy(m_row, m_row+m_nnz, row);
         }
     }
 
-- 
2.43.0


From 7faf1be3b434f6da9a21c0c1d0461968f70eecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:11 +0000
Subject: [PATCH 075/103] fix: assigning a wrapped function mixed up the sizes
 of its working arrays

---
 anifem++/inmost_interface/func_wrap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index 018f842..f1d3abe 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -119,7 +119,7 @@ namespace Ani{
         if (this == &a) return *this;
         m_sp_in = a.m_sp_in, m_sp_out = a.m_sp_out;
         m_f = a.m_f; 
-        m_sz_w = a.m_sz_w, m_sz_w = a.m_sz_iw; 
+        m_sz_w = a.m_sz_w, m_sz_iw = a.m_sz_iw; 
         m_user_data_required = a.m_user_data_required, m_dyn_mem_required = a.m_dyn_mem_required;
         return *this;
     }
-- 
2.43.0


From 1ecb5c74752e4a0d64a0dab01f8b1ea915a9f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:11 +0000
Subject: [PATCH 076/103] fix: wrapping a function of IOData could not be
 compiled

---
 anifem++/inmost_interface/func_wrap.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index f1d3abe..736eb9f 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -126,7 +126,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMatRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol)), MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -158,7 +158,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMat(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol))},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -190,7 +190,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
-- 
2.43.0


From 6e29f008341445e5346f922f48802d613c2dbe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:11 +0000
Subject: [PATCH 077/103] fix: wrapping an element right-hand side function
 could not be compiled

---
 anifem++/inmost_interface/func_wrap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index 736eb9f..813262d 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -197,7 +197,7 @@ namespace Ani{
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F)> f, size_t nRow){
         return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ (void) w; (void) iw; (void) user_data; (void) dyn_mem; return f(args, res[0]), 0; },
-                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow))}, 0, 0, false, false };
+                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)}, 0, 0, false, false };
     }
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F, void* user_data)> f, size_t nRow){
-- 
2.43.0


From af2377ec422be736e71592a3376f78ba4be6c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:11 +0000
Subject: [PATCH 078/103] fix: a function holder could not be assigned a
 wrapped function

---
 anifem++/inmost_interface/func_wrap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 511ac91..58de90d 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -231,9 +231,9 @@ namespace Ani{
         MatFuncWrapHolder(std::shared_ptr<Base> f): m_invoker(std::move(f)) {}
         
         MatFuncWrapHolder& operator=(std::shared_ptr<Base> f){ return m_invoker = std::move(f), *this; }
-        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value>::type* U = 0>
+        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value>::type* U = nullptr>
         MatFuncWrapHolder& operator=(T&& f){ return m_invoker = std::make_shared<T>(std::move(f)), *this; }
-        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value>::type* U = 0>
+        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value>::type* U = nullptr>
         MatFuncWrapHolder& operator=(const T& f){ return m_invoker = std::make_shared<T>(f), *this; }
         MatFuncWrapHolder& operator=(const MatFuncWrapHolder&) = default;
         MatFuncWrapHolder& operator=(MatFuncWrapHolder&&) = default;
-- 
2.43.0


From 34cc888598415442eb7393789c2345586960eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:40 +0000
Subject: [PATCH 079/103] fix: the first oriented degree of freedom of an edge
 or a face was taken for a not oriented one by getFullIndex

---
 anifem++/inmost_interface/global_enumerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 3bbc4b4..88095a6 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -231,7 +231,7 @@ PGE::NaturalIndexExt PGE::getFullIndex(INMOST::Element elem, int elem_dof_id) co
     uint tvshift = 0;
     if (e_num == 1 || e_num == 2){
         auto lnumdofs = vars.NumDof(DofT::NumToGeomType(elem_num));
-        if (static_cast<int>(lnumdofs) < elem_dof_id){
+        if (static_cast<int>(lnumdofs) <= elem_dof_id){
             tshift = lnumdofs;
             ++elem_num; 
         }
@@ -281,7 +281,7 @@ PGE::NaturalIndexExt PGE::getFullIndex(INMOST::Element elem, uint var_id, int vl
     uint tshift = 0, tvshift = 0;
     if (e_num == 1 || e_num == 2){
         auto lnumdofs = vars.m_spaces[var_id]->NumDof(DofT::NumToGeomType(elem_num));
-        if (static_cast<int>(lnumdofs) < vledi){
+        if (static_cast<int>(lnumdofs) <= vledi){
             tvshift = lnumdofs;
             vledi -= lnumdofs;
             tshift = vars.NumDof(DofT::NumToGeomType(elem_num));
-- 
2.43.0


From 9b84ef5672c5191f4c687706c00a18449bf8887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:40 +0000
Subject: [PATCH 080/103] fix: SimpleEnumerator MINIBLOCKS numbered the degrees
 of freedom of an element with a step of the number of elements

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 88095a6..fc581ee 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -827,7 +827,7 @@ PGE::EnumerateIndex SimpleEnumerator::operator()(const NaturalIndex& physIndex)
         auto iodf = getFullIndex(physIndex).GetElemDofId();
         switch (m_t){
             case ANITYPE: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim]) + iodf * NumElem[edim]; break;
-            case MINIBLOCKS: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim])*getInmostMeshNumDof()[edim] + iodf * NumElem[edim]; break;
+            case MINIBLOCKS: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim])*getInmostMeshNumDof()[edim] + iodf; break;
         }
     }
 
-- 
2.43.0


From 9dee7fb30b80a8f5a5d158ee4b3195ed886997c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:40 +0000
Subject: [PATCH 081/103] fix: OrderedEnumerator refused the first index of the
 process

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index fc581ee..05d703f 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -777,7 +777,7 @@ PGE::EnumerateIndex OrderedEnumerator::index_byMap(const NaturalIndex& physIndex
 }
     
 PGE::NaturalIndex OrderedEnumerator::operator()(EnumerateIndex vi) const {
-    assert(vi.id > BegInd && "Element is GHOST");
+    assert(vi.id >= BegInd && "Element is GHOST");
     auto id = loc_emap[reverse ? (loc_emap.size() - 1 - (vi.id - BegInd)) : (vi.id - BegInd)];
     NaturalIndex res;
     res.var_id = id[perm[0]];
-- 
2.43.0


From 84c1fd5abef8b6eface505141c677bf941e132aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:14 +0000
Subject: [PATCH 082/103] fix: operator>= of the iterator by vector compared as
 operator<, its sums did not take constant iterators

---
 anifem++/inmost_interface/global_enumerator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index 70c291e..c64508b 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -120,13 +120,13 @@ public:
         bool operator < (const iteratorByVector & other) const { return m_val.eid.id < other.m_val.eid.id; }
         bool operator > (const iteratorByVector & other) const { return m_val.eid.id > other.m_val.eid.id; }
         bool operator <= (const iteratorByVector & other) const { return m_val.eid.id <= other.m_val.eid.id; }
-        bool operator >= (const iteratorByVector & other) const { return m_val.eid.id < other.m_val.eid.id; }
+        bool operator >= (const iteratorByVector & other) const { return m_val.eid.id >= other.m_val.eid.id; }
         iteratorByVector& operator += (difference_type n) { m_val.eid.id += n; m_val.nid.clear(); return *this; }
         iteratorByVector& operator -= (difference_type n) { m_val.eid.id -= n; m_val.nid.clear(); return *this; }
-        friend iteratorByVector operator+(iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b+=n; }
-        friend iteratorByVector operator+(difference_type n, iteratorByVector& a) { return a + n; }
-        friend iteratorByVector operator-(iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b-=n; }
-        difference_type operator-(const iteratorByVector& b) { return static_cast<difference_type>(m_val.eid.id - b.m_val.eid.id); }
+        friend iteratorByVector operator+(const iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b+=n; }
+        friend iteratorByVector operator+(difference_type n, const iteratorByVector& a) { return a + n; }
+        friend iteratorByVector operator-(const iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b-=n; }
+        difference_type operator-(const iteratorByVector& b) const { return static_cast<difference_type>(m_val.eid.id - b.m_val.eid.id); }
         reference operator*() const { return m_val; }
         pointer operator ->() const { return &m_val; }
         value_type operator[](difference_type n) const {  value_type res(m_val); if (n != 0) { res.eid.id += n; res.nid.clear(); } return res; }
-- 
2.43.0


From de2c7f2ed08106bfd17913a28a8c26328aab3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:14 +0000
Subject: [PATCH 083/103] fix: the iterator by geometry returned not oriented
 degrees of freedom when only oriented ones were asked for

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 05d703f..ec3728b 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -316,6 +316,7 @@ void PGE::iteratorByGeom::find_begin(){
     for (int dim = 0; dim <= 3; ++dim){
         auto etype = DofT::DimToGeomType(dim);
         if (!(sid.etype & etype)) continue; 
+        etype &= sid.etype;
         if (etype & DofT::EDGE_UNORIENT) etype = DofT::EDGE_UNORIENT;
         else if (etype & DofT::FACE_UNORIENT) etype = DofT::FACE_UNORIENT;
         j.elem_type = etype;
@@ -427,6 +428,7 @@ PGE::iteratorByGeom& PGE::iteratorByGeom::operator ++() {
     for (; dim <= 3; ++dim){
         auto etype = DofT::DimToGeomType(dim);
         if (!(sid.etype & etype)) continue;
+        etype &= sid.etype;
         if (etype & DofT::EDGE_UNORIENT) etype = DofT::EDGE_UNORIENT;
         else if (etype & DofT::FACE_UNORIENT) etype = DofT::FACE_UNORIENT;
         j.elem_type = etype;
-- 
2.43.0


From 257d07c2c3fe4688554b1578cd1a085a21c85c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:14 +0000
Subject: [PATCH 084/103] fix: move assignment of an enumerator lost the tags
 of the overwritten one

---
 anifem++/inmost_interface/global_enumerator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index c64508b..8528a52 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -310,6 +310,7 @@ struct TagOwned{
     }
     TagOwned& operator=(TagOwned&& t) noexcept{
         if (this == &t) return *this;
+        Clear();
         tag = t.tag;
         t.tag = INMOST::Tag();
         return *this;
-- 
2.43.0


From d85442075913bb55816abe9d3dae2dca2117dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:15 +0000
Subject: [PATCH 085/103] fix: setting a base enumerator of GlobEnumeration was
 overridden by its setup, setAssemblingType checked the old type

---
 anifem++/inmost_interface/global_enumerator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index 8528a52..ddb2d7a 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -407,12 +407,12 @@ struct GlobEnumeration: public IGlobEnumeration{
     template<typename T = IGlobEnumeration>
     T* base(){ return reinterpret_cast<T*>(m_invoker.get()); }
     template<typename T = IGlobEnumeration>
-    const T* base() const { return reinterpret_cast<T*>(m_invoker.get()); }
-    GlobEnumeration& setAssemblingType(ASSEMBLING_TYPE t){ if (m_t == NOSPECIFIED) throw std::runtime_error("Set NOSPECIFIED assembling type is not allowed"); return m_t = t, *this;} 
+    const T* base() const { return reinterpret_cast<const T*>(m_invoker.get()); }
+    GlobEnumeration& setAssemblingType(ASSEMBLING_TYPE t){ if (t == NOSPECIFIED) throw std::runtime_error("Set NOSPECIFIED assembling type is not allowed"); return m_t = t, *this;} 
     ASSEMBLING_TYPE getAssemblingType() const { return m_t; }
-    GlobEnumeration& setBaseEnumerator(std::shared_ptr<IGlobEnumeration> base){ return m_invoker = std::move(base), *this; }
+    GlobEnumeration& setBaseEnumerator(std::shared_ptr<IGlobEnumeration> base){ m_t = NOSPECIFIED; return m_invoker = std::move(base), *this; }
     template<typename GlobEnumerationT>
-    GlobEnumeration& setBaseEnumerator(GlobEnumerationT&& f, typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ return m_invoker = std::make_unique<GlobEnumerationT>(std::move(f)), *this; }
+    GlobEnumeration& setBaseEnumerator(GlobEnumerationT&& f, typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ m_t = NOSPECIFIED; return m_invoker = std::make_unique<GlobEnumerationT>(std::move(f)), *this; }
     template<typename GlobEnumerationT>
     GlobEnumeration& setBaseEnumerator(typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ m_t = NOSPECIFIED; return m_invoker = std::make_unique<GlobEnumerationT>(), *this; }
 
-- 
2.43.0


From 7ce82cc4c9150df7b3f4aca1d4d8098a9bd2c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 086/103] fix: the sign of oriented degrees of freedom on faces
 did not depend on the nodes of the face only

---
 anifem++/inmost_interface/ordering.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 8b4f432..e98c932 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -157,8 +157,9 @@ namespace Ani{
         } else if (etype & DofT::FACE){
             char change = 0;
             for (int k = 0; k < 3; ++k)
-                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+k+1) % 4]) ++change;
-            return change == 1;    
+                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+(k+1)%3) % 4]) ++change;
+            // nodes {elid, elid+1, elid+2} of the faces with odd number go round in the opposite direction relative to outward normal
+            return (change == 1) == (elid % 2 == 0);    
         } else if (etype & DofT::NODE)
             return true;
         else if (etype & DofT::CELL){
-- 
2.43.0


From 9f7476e119c85d6826f467c57ce82dca0269897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 087/103] fix: collectConnectivityInfo returned only four edges
 in an array of Edge

---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index e98c932..3784ad3 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -123,7 +123,7 @@ namespace Ani{
         INMOST::Mesh * m = cell.GetMeshLink();
         std::transform(hnodes, hnodes + 4, nodes, [m](INMOST::HandleType h)->INMOST::Node{ return INMOST::Node(m, h); });
         if (prepare_edges_and_faces){
-            std::transform(hedges, hedges + 4, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
+            std::transform(hedges, hedges + 6, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
             std::transform(hfaces, hfaces + 4, faces, [m](INMOST::HandleType h)->INMOST::Face{ return INMOST::Face(m, h); });
         }
     }
-- 
2.43.0


From 3a91ddf8607797a82414ea603b815803f9867f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 088/103] fix: shifts of degrees of freedom were cut to
 unsigned char on copying by enumeration

---
 anifem++/inmost_interface/global_enumerator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index ec3728b..ef875f1 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -97,7 +97,7 @@ void PGE::CopyByEnumeration(INMOST::Tag from, std::vector<INMOST::Tag> to) const
                      k_shft = vars.m_spaceNumDof[etnum][v],
                      k_sz = vars.m_spaceNumDof[etnum][v+1] - vars.m_spaceNumDof[etnum][v]; 
                         k < k_sz; ++k){
-                    unsigned char tshift = 0, tvshift = 0;
+                    unsigned tshift = 0, tvshift = 0;
                     for (int lt = etnum_lookup_prt[dim]; lt < etnum; ++lt){
                         tshift += vars.m_spaceNumDof[lt][vars.NumVars()];
                         tvshift += vars.m_spaceNumDof[lt][v+1] - vars.m_spaceNumDof[lt][v];
@@ -128,7 +128,7 @@ void PGE::CopyByEnumeration(const std::vector<INMOST::Tag>& from, INMOST::Tag to
                      k_shft = vars.m_spaceNumDof[etnum][v],
                      k_sz = vars.m_spaceNumDof[etnum][v+1] - vars.m_spaceNumDof[etnum][v]; 
                         k < k_sz; ++k){
-                    unsigned char tshift = 0, tvshift = 0;
+                    unsigned tshift = 0, tvshift = 0;
                     for (int lt = etnum_lookup_prt[dim]; lt < etnum; ++lt){
                         tshift += vars.m_spaceNumDof[lt][vars.NumVars()];
                         tvshift += vars.m_spaceNumDof[lt][v+1] - vars.m_spaceNumDof[lt][v];
@@ -172,7 +172,7 @@ void PGE::CopyVarByEnumeration(INMOST::Tag from, INMOST::Tag to, int v) const {
                     k_shft = vars.m_spaceNumDof[etnum][v],
                     k_sz = vars.m_spaceNumDof[etnum][v+1] - vars.m_spaceNumDof[etnum][v]; 
                     k < k_sz; ++k){
-                unsigned char tshift = 0, tvshift = 0;
+                unsigned tshift = 0, tvshift = 0;
                 for (int lt = etnum_lookup_prt[dim]; lt < etnum; ++lt){
                     tshift += vars.m_spaceNumDof[lt][vars.NumVars()];
                     tvshift += vars.m_spaceNumDof[lt][v+1] - vars.m_spaceNumDof[lt][v];
@@ -199,7 +199,7 @@ void PGE::CopyVarByEnumeration(const INMOST::Tag from, int v, INMOST::Tag to) co
                     k_shft = vars.m_spaceNumDof[etnum][v],
                     k_sz = vars.m_spaceNumDof[etnum][v+1] - vars.m_spaceNumDof[etnum][v]; 
                     k < k_sz; ++k){
-                unsigned char tshift = 0, tvshift = 0;
+                unsigned tshift = 0, tvshift = 0;
                 for (int lt = etnum_lookup_prt[dim]; lt < etnum; ++lt){
                     tshift += vars.m_spaceNumDof[lt][vars.NumVars()];
                     tvshift += vars.m_spaceNumDof[lt][v+1] - vars.m_spaceNumDof[lt][v];
-- 
2.43.0


From 81ac5f2eb4f0780413aa181b3da839ee85b3f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 089/103] fix: reorder_mesh_function_data ignored orientation

---
 anifem++/inmost_interface/ordering.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 3784ad3..028013e 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -358,7 +358,8 @@ namespace Ani{
         Mesh* m = ts[0].GetMeshLink();
         uint nontrivial_symmetry_geom_mask = DofT::UNDEF;
         for (uint geom_num = 0; geom_num < DofT::NGEOM_TYPES; ++geom_num)
-            if (dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0)) )
+            if ( (dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0))) || 
+                 ((DofT::NumToGeomType(geom_num) & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT)) && dmap.NumDof(DofT::NumToGeomType(geom_num)) > 0) )
                 nontrivial_symmetry_geom_mask |= DofT::NumToGeomType(geom_num);
         if (nontrivial_symmetry_geom_mask == DofT::UNDEF) return; 
         auto gmask = GeomMaskToInmostElementType(nontrivial_symmetry_geom_mask);
@@ -395,7 +396,7 @@ namespace Ani{
                 auto st_data = tv.data() + elem_data_shift[ielem_type_num];
                 for (std::size_t i = 0; i < inum_dofs[ielem_type_num]; ++i){
                     std::copy(st_data + block_sz*(abs(reord[i])-1), st_data + block_sz*abs(reord[i]), r.data() + block_sz*i);
-                    if (reord[i] < 0) std::for_each(r.data() + block_sz*i, r.data() + block_sz*(i+1), std::negate<double>());
+                    if (reord[i] < 0) std::transform(r.data() + block_sz*i, r.data() + block_sz*(i+1), r.data() + block_sz*i, std::negate<double>());
                 }
                 std::copy(r.data(), r.data() + block_sz*inum_dofs[ielem_type_num], st_data);
             }
-- 
2.43.0


From 7d541dddd57bd7cb1609f2ce07320427035cbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 090/103] fix: gathering of a component from several tags
 shifted the output by the place of the variable

---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 028013e..f7b6226 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -338,7 +338,7 @@ namespace Ani{
             int ext_dim = v;
             auto view = dmap.GetNestedDofMapView(&ext_dim, 1);
             GatherDataOnElement<OnlyIfDataAvailable, RandomIt>(var_tags[v], *view.m_base, mlink, cell, faces, edges, nodes, canonical_node_indexes, 
-                                    out + view.m_shiftOnTet, next_component, next_ncomp, local_face_index, local_edge_index, local_node_index);
+                                    out + (ncomp == 0 ? view.m_shiftOnTet : 0), next_component, next_ncomp, local_face_index, local_edge_index, local_node_index);
         }
     }
     template<bool OnlyIfDataAvailable, class RandomIt>
-- 
2.43.0


From f670ab0ab5656ab176aba0b75b3de0bf305c5a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:23 +0000
Subject: [PATCH 091/103] fix: assembling numbered symmetric degrees of freedom
 by the inverse of the permutation

---
 anifem++/inmost_interface/assembler.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index f4ad1fb..9471ced 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -160,8 +160,8 @@ bool AssemblerT<Traits>::fill_assemble_templates(
             auto reordered_lsid = DofT::DofSymmetries::index_on_reorderd_elem(tl.etype, tl.nelem, tl.stype, tl.lsid, canonical_node_indexes); 
             auto elem = INMOST::Element(m, h[edim][tl.nelem]);
             bool is_active = (elem.GetStatus() != INMOST::Element::Ghost);
-            IGlobEnumeration::NaturalIndex ind(elem, tl.etype, tl.var_id, tl.dim_id, tl.lde_id);
-            indexes[i - tl.lsid + reordered_lsid] = internals::assemble_index_encode(sign, compute_order_from_nat_index(ind).id);
+            IGlobEnumeration::NaturalIndex ind(elem, tl.etype, tl.var_id, tl.dim_id, tl.lde_id - tl.lsid + reordered_lsid);
+            indexes[i] = internals::assemble_index_encode(sign, compute_order_from_nat_index(ind).id);
             if (is_active) has_active = true;
         }
         return has_active;
-- 
2.43.0


From 24b9ce7ffb2f4ac493da5a71677fde92ea7707ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:23 +0000
Subject: [PATCH 092/103] fix: assembling used the sparsity of another function

---
 anifem++/inmost_interface/assembler.h   |  3 +++
 anifem++/inmost_interface/assembler.inl | 33 ++++++++++---------------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.h b/anifem++/inmost_interface/assembler.h
index 163aa11..0fde1d5 100644
--- a/anifem++/inmost_interface/assembler.h
+++ b/anifem++/inmost_interface/assembler.h
@@ -432,6 +432,9 @@ private:
     template<typename MatFuncT1>
     void extend_memory_for_fem_func(MatFuncT1& func);
     void resize_work_memory(int size);
+    /// Save the sparsity of the result res_id of the function if the result is not dense
+    template<typename MatFuncT1>
+    static void collect_sparsity(const MatFuncT1& func, Int res_id, std::vector<Int>& colind, std::vector<Int>& row);
     bool fill_assemble_templates(const INMOST::ElementArray<INMOST::Node>& nodes, const INMOST::ElementArray<INMOST::Edge>& edges, const INMOST::ElementArray<INMOST::Face>& faces, const INMOST::Cell& cell, std::vector<long>& indexesC, std::vector<long>& indexesR, const unsigned char* canonical_node_indexes);
     bool fill_assemble_templates(const INMOST::ElementArray<INMOST::Node>& nodes, const INMOST::ElementArray<INMOST::Edge>& edges, const INMOST::ElementArray<INMOST::Face>& faces, const INMOST::Cell& cell, std::vector<long>& indexesC, std::vector<long>& indexesR, const unsigned char* canonical_node_indexes, bool is_same_template);
     int _return_assembled_status(int nthreads);
diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 9471ced..e2f1e47 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -23,6 +23,14 @@ void AssemblerT<Traits>::extend_memory_for_fem_func(MatFuncT1& func) {
     }
 }
 
+template <typename Traits>
+template<typename MatFuncT1>
+void AssemblerT<Traits>::collect_sparsity(const MatFuncT1& func, Int res_id, std::vector<Int>& colind, std::vector<Int>& row) {
+    if (func.out_nnz(res_id) == func.out_size1(res_id) * func.out_size2(res_id)) return;
+    colind.resize(func.out_size2(res_id) + 1), row.resize(func.out_nnz(res_id));
+    func.out_csc(res_id, colind.data(), row.data());
+}
+
 template <typename Traits>
 void AssemblerT<Traits>::resize_work_memory(int size){
     if (size <= 1) m_wm.resize(std::min(std::size_t(1), m_wm.size()));
@@ -219,26 +227,6 @@ void AssemblerT<Traits>::PrepareProblem(){
     extend_memory_for_fem_func(mat_func);
     extend_memory_for_fem_func(rhs_func);
     extend_memory_for_fem_func(mat_rhs_func);
-    if (mat_func && !mat_rhs_func){
-        if (mat_func.out_nnz(0) != mat_func.out_size1(0) * mat_func.out_size2(0)) {
-            m_fd.colindA.resize(mat_func.out_size2(0) + 1), m_fd.rowA.resize(mat_func.out_nnz(0));
-            mat_func.out_csc(0, m_fd.colindA.data(), m_fd.rowA.data());
-        }
-    }
-    if (rhs_func && !mat_rhs_func){
-        if (rhs_func.out_nnz(0) != rhs_func.out_size1(0) * rhs_func.out_size2(0)) {
-            m_fd.colindF.resize(rhs_func.out_size2(0) + 1), m_fd.rowF.resize(rhs_func.out_nnz(0));
-            rhs_func.out_csc(0, m_fd.colindF.data(), m_fd.rowF.data());
-        }
-    }
-    if (mat_rhs_func){
-        if (mat_rhs_func.out_nnz(0) != mat_rhs_func.out_size1(0) * mat_rhs_func.out_size2(0)) {
-            m_fd.colindA.resize(mat_rhs_func.out_size2(0) + 1), m_fd.rowA.resize(mat_rhs_func.out_nnz(0));
-            mat_rhs_func.out_csc(0, m_fd.colindA.data(), m_fd.rowA.data());
-            m_fd.colindF.resize(mat_rhs_func.out_size2(1) + 1), m_fd.rowF.resize(mat_rhs_func.out_nnz(1));
-            mat_rhs_func.out_csc(1, m_fd.colindF.data(), m_fd.rowF.data());
-        }
-    }
     if (!rhs_func && !mat_func && !mat_rhs_func) throw std::runtime_error("Fem expression evaluator is not set");
     orderR.resize(0); orderC.resize(0);
     orderR.reserve(nRows); orderC.reserve(nRows);
@@ -316,6 +304,8 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
     if (!mat_rhs_func && (!mat_func || !rhs_func))
         throw std::runtime_error("System local evaluator is not specified");
     auto func = generate_mat_rhs_func();
+    collect_sparsity(func, 0, m_fd.colindA, m_fd.rowA);
+    collect_sparsity(func, 1, m_fd.colindF, m_fd.rowF);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -504,6 +494,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
             throw std::runtime_error("Right-hand side local evaluator is not specified");
     }
     auto func = generate_rhs_func();
+    collect_sparsity(func, 0, m_fd.colindF, m_fd.rowF);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -592,6 +583,7 @@ int AssemblerT<Traits>::AssembleTemplate(INMOST::Sparse::Matrix &matrix){
     if (!mat_func && !mat_rhs_func)
         throw std::runtime_error("Matrix local evaluator is not specified");
     auto func = generate_mat_func();
+    collect_sparsity(func, 0, m_fd.colindA, m_fd.rowA);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -711,6 +703,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
             throw std::runtime_error("Matrix local evaluator is not specified");
     }
     auto func = generate_mat_func();
+    collect_sparsity(func, 0, m_fd.colindA, m_fd.rowA);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
-- 
2.43.0


From 68cfa8442459c6fc08fbd656d92de3df05cbda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:23 +0000
Subject: [PATCH 093/103] fix: matrix or vector assembled from the function of
 the system was written to wrong memory

---
 anifem++/inmost_interface/assembler.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index e2f1e47..e35f690 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -531,6 +531,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
 
         typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
         auto tp2 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
+        if (!func.is_rhs_func) m_w.m_res[1] = m_w.m_A.data(); // the matrix is not used
         ElementalAssembler dat(&func, ElementalAssembler::RHS,
                            SparsedData<>(MatSparsityView<Int>::make_as_dense(0, 0), nullptr),
                            SparsedData<>(MatSparsityView<Int>(tp2, func.out_nnz(0), func.out_size1(0), func.out_size2(0), m_fd.colindF.data(), m_fd.rowF.data()), m_w.m_F.data()),
@@ -753,6 +754,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
 
         typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
         auto tp1 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
+        if (!func.is_mat_func) m_w.m_res[1] = m_w.m_F.data(); // the right-hand side is not used
         ElementalAssembler dat(&func, ElementalAssembler::MAT,
                            SparsedData<>(MatSparsityView<Int>(tp1, func.out_nnz(0), func.out_size1(0), func.out_size2(0), m_fd.colindA.data(), m_fd.rowA.data()), m_w.m_A.data()),
                            SparsedData<>(MatSparsityView<Int>::make_as_dense(0, 0), nullptr),
@@ -1066,12 +1068,14 @@ std::ostream& SystemFromMatRhsFWrap<MatFuncT>::print_signature(std::ostream& out
 }
 template<typename MatFuncT>
 int RhsFromSystemFWrap<MatFuncT>::operator()(const Real** args, Real** res, Real* w, Int* iw, void* user_data, Int mem_id) const{ 
+    if (!is_rhs_func) std::swap(res[0], res[1]);
     auto ret = m_f->operator()(args, res, w, iw, user_data, mem_id); 
     if (!is_rhs_func) std::swap(res[0], res[1]);
     return ret;
 }
 template<typename MatFuncT>
 int RhsFromSystemFWrap<MatFuncT>::operator()(Memory mem) const { 
+    if (!is_rhs_func) std::swap(mem.m_res[0], mem.m_res[1]);
     auto res = m_f->operator()(mem);
     if (!is_rhs_func) std::swap(mem.m_res[0], mem.m_res[1]);
     return res;
-- 
2.43.0


From 02406326c58cb110e6ca92694a71879d41ea760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:23 +0000
Subject: [PATCH 094/103] fix: memory of the functions of the matrix and the
 vector was mixed up on assembling the system

---
 anifem++/inmost_interface/assembler.inl | 6 +++---
 anifem++/inmost_interface/func_wrap.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index e35f690..0f6d112 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -1008,10 +1008,10 @@ void SystemFromMatRhsFWrap<MatFuncT>::release_memory(Int mem_id) {
 }
 template<typename MatFuncT>
 void SystemFromMatRhsFWrap<MatFuncT>::defragment_memory(Int mem_id){ 
-    auto ids = decode_id(mem_id);
-    m_mat->defragment_memory(m_rhs ? ids.first : mem_id);
+    // as in operator(), mem_id is the number of thread for both functions
+    m_mat->defragment_memory(mem_id);
     if (m_rhs)
-        m_rhs->defragment_memory(ids.second);
+        m_rhs->defragment_memory(mem_id);
 }
 template<typename MatFuncT>
 std::pair<typename SystemFromMatRhsFWrap<MatFuncT>::Int, typename SystemFromMatRhsFWrap<MatFuncT>::Int> SystemFromMatRhsFWrap<MatFuncT>::setup_and_alloc_memory_range(Int num_threads){ 
diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 58de90d..3c85965 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -262,7 +262,7 @@ namespace Ani{
 
         Int setup_and_alloc_memory() override { return m_dyn_mem_required ? m_mem.alloc() : 0; }
         void release_memory(Int mem_id) override { if (m_dyn_mem_required) m_mem.release(mem_id); }
-        std::pair<Int, Int> setup_and_alloc_memory_range(Int num_threads) override { return m_dyn_mem_required ? m_mem.alloc_range(num_threads) : std::pair<Int, Int>(-num_threads, 0); }
+        std::pair<Int, Int> setup_and_alloc_memory_range(Int num_threads) override { return m_dyn_mem_required ? m_mem.alloc_range(num_threads) : std::pair<Int, Int>(0, num_threads); }
         void release_memory_range(std::pair<Int, Int> id_range) override { if (m_dyn_mem_required) m_mem.release_range(id_range); }
         void release_all_memory() override{ if (m_dyn_mem_required) m_mem.release_all(); }
         void clear_memory() override { if (m_dyn_mem_required) m_mem.clear(); }
-- 
2.43.0


From 6020d5094c9a1b4a68908f7713726b7f3da20231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:23 +0000
Subject: [PATCH 095/103] fix: result of a cell which was not computed was not
 zero for sparse functions

---
 anifem++/inmost_interface/elemental_assembler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/elemental_assembler.cpp b/anifem++/inmost_interface/elemental_assembler.cpp
index 87e5740..2e90e2d 100644
--- a/anifem++/inmost_interface/elemental_assembler.cpp
+++ b/anifem++/inmost_interface/elemental_assembler.cpp
@@ -111,9 +111,9 @@ void ElementalAssembler::update() {
         }
     }
     if (loc_m.m_dat)
-        std::fill(loc_m.m_dat, loc_m.m_dat + loc_m.m_sp.m_nnz, 0);
+        std::fill(loc_m.m_dat, loc_m.m_dat + loc_m.m_sp.m_sz1*loc_m.m_sp.m_sz2, 0);
     if (loc_rhs.m_dat)
-        std::fill(loc_rhs.m_dat, loc_rhs.m_dat + loc_rhs.m_sp.m_nnz, 0);
+        std::fill(loc_rhs.m_dat, loc_rhs.m_dat + loc_rhs.m_sp.m_sz1*loc_rhs.m_sp.m_sz2, 0);
 }
 double* ElementalAssembler::get_nodes() { return &_nn_p[0][0]; }
 const double* ElementalAssembler::get_nodes() const { return &_nn_p[0][0]; }
-- 
2.43.0


From 3e28374fa9d6de5a9c2b006e7d5089d9f9db47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:23 +0000
Subject: [PATCH 096/103] fix: cleared GlobEnumeration kept its mesh

---
 anifem++/inmost_interface/global_enumerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index ddb2d7a..f00b16f 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -417,7 +417,7 @@ struct GlobEnumeration: public IGlobEnumeration{
     GlobEnumeration& setBaseEnumerator(typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ m_t = NOSPECIFIED; return m_invoker = std::make_unique<GlobEnumerationT>(), *this; }
 
     INMOST::Storage::integer GNodeIndex(const INMOST::Node& n) const override { return m_invoker->GNodeIndex(n); }
-    void Clear() override { if (m_invoker) m_invoker->Clear(); m_invoker.reset(); }
+    void Clear() override { if (m_invoker) m_invoker->Clear(); m_invoker.reset(); if (m_t == NOSPECIFIED) m_t = NATURAL; IGlobEnumeration::Clear(); }
     EnumerateIndex OrderC (const NaturalIndex& physIndex) const override { return m_invoker->OrderC(physIndex); }
     EnumerateIndex operator()(const NaturalIndex& physIndex) const override { return m_invoker->operator()(physIndex); }
     NaturalIndex operator()(EnumerateIndex vi) const override { return m_invoker->operator()(vi); }
-- 
2.43.0


From 9be87be2d7dc097025a62ad0aeb24c559f7ff0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:01 +0000
Subject: [PATCH 097/103] fix: adaptation could not be built without Eigen and
 took small matrices for diagonal ones

---
 anifem++/fem/geometry.h | 63 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 15e89a7..bb286bd 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -544,6 +544,69 @@ namespace Ani{
             }
         }
 
+        /// Eigenvalues and eigenvectors of symmetric n x n matrix sym, which is overwritten
+        template<typename Scalar>
+        inline int jacobi_symmetric_eigen(Scalar* sym, int n, Scalar* eval, Scalar* evecs){
+            for (int j = 0; j < n; ++j)
+                for (int i = 0; i < n; ++i)
+                    evecs[i + j*n] = (i == j) ? 1 : 0;
+
+            Scalar norm = 0;
+            for (int i = 0; i < n*n; ++i)
+                norm = std::max(norm, std::fabs(sym[i]));
+            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon() * norm;
+            int err = 1;
+            for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
+                Scalar off = 0;
+                for (int p = 0; p < n; ++p)
+                    for (int q = p + 1; q < n; ++q)
+                        off = std::max(off, std::fabs(sym[p + q*n]));
+                if (off <= tol){
+                    err = 0;
+                    break;
+                }
+
+                for (int p = 0; p < n; ++p){
+                    for (int q = p + 1; q < n; ++q){
+                        Scalar apq = sym[p + q*n];
+                        if (std::fabs(apq) <= tol)
+                            continue;
+                        Scalar app = sym[p + p*n];
+                        Scalar aqq = sym[q + q*n];
+                        Scalar theta = Scalar(0.5) * std::atan2(Scalar(2) * apq, aqq - app);
+                        Scalar c = std::cos(theta);
+                        Scalar s = std::sin(theta);
+
+                        for (int k = 0; k < n; ++k){
+                            if (k == p || k == q)
+                                continue;
+                            Scalar gkp = sym[k + p*n];
+                            Scalar gkq = sym[k + q*n];
+                            sym[k + p*n] = sym[p + k*n] = c * gkp - s * gkq;
+                            sym[k + q*n] = sym[q + k*n] = s * gkp + c * gkq;
+                        }
+                        sym[p + p*n] = c*c*app - Scalar(2)*s*c*apq + s*s*aqq;
+                        sym[q + q*n] = s*s*app + Scalar(2)*s*c*apq + c*c*aqq;
+                        sym[p + q*n] = sym[q + p*n] = 0;
+
+                        for (int k = 0; k < n; ++k){
+                            Scalar vkp = evecs[k + p*n];
+                            Scalar vkq = evecs[k + q*n];
+                            evecs[k + p*n] = c * vkp - s * vkq;
+                            evecs[k + q*n] = s * vkp + c * vkq;
+                        }
+                    }
+                }
+            }
+
+            if (err)
+                return 1;
+
+            for (int i = 0; i < n; ++i)
+                eval[i] = sym[i + i*n];
+            return 0;
+        }
+
         /// One-sided Jacobi: rotate columns of n x n matrix r to make them orthogonal, v is product of the rotations
         template<typename Scalar>
         inline int jacobi_orthogonalize_cols(Scalar* r, int n, Scalar* v){
-- 
2.43.0


From 00fd21724ced709cf82d3c672468def1b0e760e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 098/103] fix: value of a variable at a point could not be
 requested without components

---
 anifem++/utils/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/utils/utils.h b/anifem++/utils/utils.h
index fe04a80..a55393c 100644
--- a/anifem++/utils/utils.h
+++ b/anifem++/utils/utils.h
@@ -48,7 +48,7 @@ void eval_op_var_at_point(double* out, INMOST::Cell c, std::array<double, 3> x_p
 template<std::size_t N, typename Traits>
 std::array<double, N> eval_op_var_at_point(INMOST::Cell c, std::array<double, 3> x_point, const Ani::ApplyOpBase& op, Ani::AssemblerT<Traits>& discr, INMOST::Tag problem_tag, const int* component = nullptr, unsigned int ncomp = 0);
 template<std::size_t N, typename Traits>
-std::array<double, N> eval_op_var_at_point(INMOST::Cell c, std::array<double, 3> x_point, const Ani::ApplyOpBase& op, Ani::AssemblerT<Traits>& discr, INMOST::Tag problem_tag, std::initializer_list<int> components = {});
+std::array<double, N> eval_op_var_at_point(INMOST::Cell c, std::array<double, 3> x_point, const Ani::ApplyOpBase& op, Ani::AssemblerT<Traits>& discr, INMOST::Tag problem_tag, std::initializer_list<int> components);
 
 /// @brief Compute approximate integral of function over mesh domain.
 /// @return \sum_{cell \in mesh} |cell| * \sum_{q \in quad_formula} w_q * f(cell, X_q)
-- 
2.43.0


From e23a63ce71a298ca237eabc42cdc62f75fbd806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:39 +0000
Subject: [PATCH 099/103] fix: points and barycentric coordinates given to the
 integrated function used different orders of nodes

---
 anifem++/utils/utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 6ed79ec..4aaad76 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -188,7 +188,9 @@ void integrate_vector_func(double* out, unsigned dim, Mesh* m, const std::functi
         auto& mem = pools[static_cast<std::size_t>(nthread)];
         auto& lres = local_res[static_cast<std::size_t>(nthread)];
 
-        auto const& hc = m->HighConn(cell.GetHandle());
+        // barycentric coordinates refer to the same order of nodes as everywhere else
+        std::array<HandleType, 4> hc;
+        collectConnectivityInfo(cell, hc.data(), nullptr, nullptr, true, false);
         double XY_nodes[12]{};
         for (int n = 0; n < 4; ++n)
             for (int k = 0; k < 3; ++k)
-- 
2.43.0


From d566d1de4aaebe9339717ad14fc4da8526240f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:39 +0000
Subject: [PATCH 100/103] fix: state of the linear solver could not be printed
 after thousand iterations

---
 anifem++/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 4aaad76..f02fd49 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -89,8 +89,8 @@ void print_linear_solver_status(INMOST::Solver& s, const std::string& prob_name,
     else{
         if(pRank == 0) {
             std::cout << prob_name << ":\n";
-            std::string _s_its = std::to_string(s.Iterations()), s_its = "    ";
-            std::copy(_s_its.begin(), _s_its.end(), s_its.begin() + 3 - _s_its.size());
+            std::string _s_its = std::to_string(s.Iterations()), s_its(std::max<std::size_t>(4, _s_its.size() + 1), ' ');
+            std::copy(_s_its.begin(), _s_its.end(), s_its.begin() + (_s_its.size() < 3 ? 3 - _s_its.size() : 0));
 
             std::cout << "\tsolved_succesful: #lits " << s_its << " residual " << s.Residual() << ", "
                       << "preconding = " << s.PreconditionerTime() << "s, solving = " << s.IterationsTime() << "s" << std::endl;
-- 
2.43.0


From a4cb874fbc111997af735d77e154b3491b9f6c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:02 +0000
Subject: [PATCH 101/103] fix: values of degrees of freedom with nontrivial
 symmetry were read in a wrong order on evaluation and adaptation

---
 anifem++/inmost_interface/ordering.h   |  2 ++
 anifem++/inmost_interface/ordering.inl | 10 ++++++++++
 anifem++/utils/adapt_mesh.cpp          |  4 +++-
 anifem++/utils/utils.cpp               |  2 +-
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.h b/anifem++/inmost_interface/ordering.h
index 588f061..04b8f03 100644
--- a/anifem++/inmost_interface/ordering.h
+++ b/anifem++/inmost_interface/ordering.h
@@ -39,6 +39,8 @@ namespace Ani{
     template<typename TEnumerator>    
     inline std::array<unsigned char, 4> createOrderPermutation(const TEnumerator* global_node_index/*[4]*/);
     inline bool isPositivePermutationOrient(unsigned char etype, unsigned char elem_id, const unsigned char* node_permutation/*[4]*/);   
+    /// Does placement of the d.o.f.s depend on the permutation of the nodes
+    inline bool isNodePermutationRequired(const DofT::BaseDofMap& dmap);
     /// To store inmost-specific position of the d.o.f.
     struct DOFLocus{
         char sign = 1;          ///< = +/-1 
diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index f7b6226..fc2363f 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -149,6 +149,16 @@ namespace Ani{
         else node_permutation[i] = 2, node_permutation[j] = 1;
         return node_permutation;
     }
+    inline bool isNodePermutationRequired(const DofT::BaseDofMap& dmap){
+        if (dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT))
+            return true;
+        for (unsigned etnum = 0; etnum < DofT::NGEOM_TYPES; ++etnum) if (dmap.NumDof(DofT::NumToGeomType(etnum)) > 0){
+            auto smask = dmap.SymComponents(DofT::NumToGeomType(etnum));
+            if (smask == DofT::DofSymmetries::MASK_UNDEF || (smask >> 1))
+                return true;
+        }
+        return false;
+    }
     inline bool isPositivePermutationOrient(unsigned char etype, unsigned char elid, const unsigned char* node_permutation/*[4]*/){
         //assert(etype | DofT::CELL && "This function suppose cells are positive oriented and doesn't check them");
         if (etype & DofT::EDGE){
diff --git a/anifem++/utils/adapt_mesh.cpp b/anifem++/utils/adapt_mesh.cpp
index 21326d3..6fcfaae 100644
--- a/anifem++/utils/adapt_mesh.cpp
+++ b/anifem++/utils/adapt_mesh.cpp
@@ -593,7 +593,9 @@ void construct_metrics(FemSpace fem, Tag var, Tag& metrics, MetricsConstructTrai
     const auto grad_op = fem.getOP(GRAD);
     const int quad_order = std::max(1, traits.max_quad_order);
     const bool prep_ef = dmap.GetGeomMask() & (DofT::EDGE | DofT::FACE);
-    const bool need_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    const bool need_node_perm = isNodePermutationRequired(dmap);
+    if (need_node_perm && !m->HaveGlobalID(NODE))
+        m->AssignGlobalID(NODE);
 
     {
         const char* tmp_name = "___tmp_cell_absH_svals";
diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index f02fd49..4ea4a90 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -137,7 +137,7 @@ void eval_op_var_by_barycentric_points(Ani::DenseMatrix<> out/*Dim x N*/, Ani::D
     collectConnectivityInfo(c, nds.data(), eds.data(), fcs.data(), true, prep_ef);
 
     std::array<unsigned char, 4> canonical_node_indexes{0, 1, 2, 3};
-    const bool comp_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    const bool comp_node_perm = isNodePermutationRequired(dmap);
     if (comp_node_perm){
         std::array<long, 4> gni;
         for (int i = 0; i < 4; ++i)
-- 
2.43.0


From 4a82c072d3a3ec1705107064d63b59738ea30743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:28 +0000
Subject: [PATCH 102/103] fix: boundary condition of Neumann was ignored for
 spaces without degrees of freedom on faces

---
 anifem++/utils/utils.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 4ea4a90..0fa8438 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -401,13 +401,12 @@ void solve_stationary_diffusion(
         if (geom_mask & DofT::EDGE)
             for (unsigned i = 0; i < 6U; ++i) if (is_dirichlet((*p.edges)[i]))
                 data.sp.setEdge(i);
-        if (geom_mask & DofT::FACE)
-            for (unsigned i = 0; i < 4U; ++i) {
-                if (is_dirichlet((*p.faces)[i]))
-                    data.sp.setFace(i);
-                else if ((*p.faces)[i].GetMarker(bmrk))
-                    data.is_neumann |= (1 << i);
-            }
+        for (unsigned i = 0; i < 4U; ++i) {
+            if ((geom_mask & DofT::FACE) && is_dirichlet((*p.faces)[i]))
+                data.sp.setFace(i);
+            else if ((*p.faces)[i].GetMarker(bmrk))
+                data.is_neumann |= (1 << i);
+        }
         if ((geom_mask & DofT::CELL) && is_dirichlet(*p.cell) )
             data.sp.setCell();
         data.node_permutation = p.node_permutation;
-- 
2.43.0


From eef984a6d9356c8f9adbd58ee64c210b45dbd3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:40 +0000
Subject: [PATCH 103/103] fix: ratio of eigenvalues of a metric which is
 clamped already was clamped again because of rounding

---
 anifem++/utils/adapt_mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/adapt_mesh.cpp b/anifem++/utils/adapt_mesh.cpp
index 6fcfaae..abdc627 100644
--- a/anifem++/utils/adapt_mesh.cpp
+++ b/anifem++/utils/adapt_mesh.cpp
@@ -184,7 +184,9 @@ inline bool clamp_evals(SpectrumInfo& s, const MetricsConstructTraits& tr) {
     sort_eigen_asc(s.eval, s.Q);
 
     const double R = std::max(tr.M_lambda_max_rel, 1.0);
-    if (s.eval[0] > kEigenEps && s.eval[2] / s.eval[0] > R) {
+    // the clamped spectrum reaches the bound exactly, rounding must not make it be clamped once more
+    const double R_round = R * (1.0 + 1e3 * std::numeric_limits<double>::epsilon() * R);
+    if (s.eval[0] > kEigenEps && s.eval[2] / s.eval[0] > R_round) {
         const double g = std::cbrt(s.eval[0] * s.eval[1] * s.eval[2]);
         const double lo = 1.0 / std::sqrt(R);
         const double hi = std::sqrt(R);
-- 
2.43.0

