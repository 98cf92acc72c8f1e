From 75bbcc97ed57347e5e0a47fc65bfa63615b88db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:19 +0000
Subject: [PATCH 01/47] fix: return the error of the user function in
 InterpChebyshev::adapt_function instead of panicking

---
 russell_lab/src/algo/interp_chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index b990e43..c060c28 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -395,7 +395,7 @@ impl InterpChebyshev {
             let an = self.a[nn];
             if nn > 1 && f64::abs(an_prev) < tol && f64::abs(an) < tol {
                 let actual_nn = nn - 2; // -2 because the last two coefficients are zero
-                self.set_function(actual_nn, args, f).unwrap();
+                self.set_function(actual_nn, args, f)?;
                 return Ok(());
             }
             an_prev = an;
-- 
2.43.0


From 954dd54024ff3073b07b8e79a34f38d9466a4672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:19 +0000
Subject: [PATCH 02/47] fix: check_ggu returns callback errors and evaluates
 the residual at the given lambda

---
 russell_nonlin/src/system.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_nonlin/src/system.rs b/russell_nonlin/src/system.rs
index f21adc2..f419736 100644
--- a/russell_nonlin/src/system.rs
+++ b/russell_nonlin/src/system.rs
@@ -259,10 +259,10 @@ impl<'a, A> System<'a, A> {
         // analytical Gu
         let mut ggu = CooMatrix::new(self.ndim, self.ndim, self.nnz_ggu, self.sym_ggu).unwrap();
         let mut ggl = Vector::new(self.ndim);
-        (self.calc_jac)(&mut ggu, &mut ggl, l_at, &u_at, args).unwrap();
+        (self.calc_jac)(&mut ggu, &mut ggl, l_at, &u_at, args)?;
 
         // numerical Jacobian
-        let num = num_jacobian(self.ndim, 0.0, &u_at, 1.0, args, self.calc_gg.as_ref()).unwrap();
+        let num = num_jacobian(self.ndim, l_at, &u_at, 1.0, args, self.calc_gg.as_ref())?;
         let ana = ggu.as_dense();
 
         // check
-- 
2.43.0


From efff18806116fff8e834193430c6d96918a53793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:04 +0000
Subject: [PATCH 03/47] fix: restore the perturbed component when the function
 fails in numerical_jacobian

---
 russell_sparse/src/numerical_jacobian.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/numerical_jacobian.rs b/russell_sparse/src/numerical_jacobian.rs
index 936c469..274f7e7 100644
--- a/russell_sparse/src/numerical_jacobian.rs
+++ b/russell_sparse/src/numerical_jacobian.rs
@@ -173,7 +173,9 @@ where
         let original_yj = y[j];
         let delta_yj = f64::sqrt(f64::EPSILON * f64::max(THRESHOLD, f64::abs(y[j])));
         y[j] += delta_yj; // Yⱼ := yⱼ + Δyⱼ
-        function(w2, x, y, args)?; // F := f(x, y + Δy)
+        let res = function(w2, x, y, args); // F := f(x, y + Δy)
+        y[j] = original_yj; // restore yⱼ, even if the function failed
+        res?;
         let (start, endp1) = match jj.symmetric {
             Sym::YesLower => (j, ndim),
             Sym::YesUpper => (0, j + 1),
@@ -183,7 +185,6 @@ where
             let delta_fi = w2[i] - w1[i]; // Δfᵢ := Fᵢ - fᵢ
             jj.put(i, j, alpha * delta_fi / delta_yj).unwrap(); // Δfᵢ/Δyⱼ
         }
-        y[j] = original_yj; // restore yⱼ
     }
     Ok(())
 }
-- 
2.43.0


From 335feb2a1beae2d951897ee57ba0e1e10a0777dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:04 +0000
Subject: [PATCH 04/47] fix: write only nonzero values of complex CSC matrices
 to matrix market files

---
 russell_sparse/src/write_matrix_market.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_sparse/src/write_matrix_market.rs b/russell_sparse/src/write_matrix_market.rs
index b65e7f3..0f07239 100644
--- a/russell_sparse/src/write_matrix_market.rs
+++ b/russell_sparse/src/write_matrix_market.rs
@@ -258,7 +258,7 @@ impl ComplexCscMatrix {
                 for p in self.col_pointers[j]..self.col_pointers[j + 1] {
                     let i = self.row_indices[p as usize] as usize;
                     let aij = self.values[p as usize];
-                    if f64::abs(aij.re) > tol || f64::abs(aij.im) < tol {
+                    if f64::abs(aij.re) > tol || f64::abs(aij.im) > tol {
                         match self.symmetric {
                             Sym::No => write!(&mut buffer, "{} {} {:?} {:?}\n", i + 1, j + 1, aij.re, aij.im).unwrap(),
                             Sym::YesLower => {
-- 
2.43.0


From eafc5f767d5f51f2918bc364219ae6d8a3bf9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:04 +0000
Subject: [PATCH 05/47] fix: compute the left eigenvectors in
 complex_mat_gen_eigen_lr

---
 russell_lab/src/matrix/complex_mat_gen_eigen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/matrix/complex_mat_gen_eigen.rs b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
index 2572f99..52d89a6 100644
--- a/russell_lab/src/matrix/complex_mat_gen_eigen.rs
+++ b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
@@ -284,7 +284,7 @@ pub fn complex_mat_gen_eigen_lr(
     let mut info = 0;
     unsafe {
         c_zggev(
-            C_FALSE,
+            C_TRUE,
             C_TRUE,
             &m_i32,
             a.as_mut_data().as_mut_ptr(),
-- 
2.43.0


From 7a84f1e464c368b3d8be545bf9a34454fec6bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:04 +0000
Subject: [PATCH 06/47] fix: report failures of the inversion step in
 mat_inverse and complex_mat_inverse

---
 russell_lab/src/matrix/complex_mat_inverse.rs | 7 +++++++
 russell_lab/src/matrix/mat_inverse.rs         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/russell_lab/src/matrix/complex_mat_inverse.rs b/russell_lab/src/matrix/complex_mat_inverse.rs
index b63330a..96bc80b 100644
--- a/russell_lab/src/matrix/complex_mat_inverse.rs
+++ b/russell_lab/src/matrix/complex_mat_inverse.rs
@@ -203,6 +203,13 @@ pub fn complex_mat_inverse(ai: &mut ComplexMatrix, a: &ComplexMatrix) -> Result<
             &mut info,
         );
     }
+    if info < 0 {
+        println!("LAPACK ERROR (zgetri): Argument #{} had an illegal value", -info);
+        return Err("LAPACK ERROR (zgetri): An argument had an illegal value");
+    } else if info > 0 {
+        println!("LAPACK ERROR (zgetri): U({},{}) is exactly zero", info - 1, info - 1);
+        return Err("LAPACK ERROR (zgetri): The matrix is singular and its inverse could not be computed");
+    }
 
     // done
     Ok(det)
diff --git a/russell_lab/src/matrix/mat_inverse.rs b/russell_lab/src/matrix/mat_inverse.rs
index 1e07601..d87296a 100644
--- a/russell_lab/src/matrix/mat_inverse.rs
+++ b/russell_lab/src/matrix/mat_inverse.rs
@@ -249,6 +249,13 @@ pub fn mat_inverse(ai: &mut Matrix, a: &Matrix) -> Result<f64, StrError> {
             &mut info,
         );
     }
+    if info < 0 {
+        println!("LAPACK ERROR (dgetri): Argument #{} had an illegal value", -info);
+        return Err("LAPACK ERROR (dgetri): An argument had an illegal value");
+    } else if info > 0 {
+        println!("LAPACK ERROR (dgetri): U({},{}) is exactly zero", info - 1, info - 1);
+        return Err("LAPACK ERROR (dgetri): The matrix is singular and its inverse could not be computed");
+    }
 
     // done
     Ok(det)
-- 
2.43.0


From b46a843db63e71848ac430bce239dadd6313b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:03 +0000
Subject: [PATCH 07/47] fix: UMFPACK factorization failures are reported and
 leave no usable factorization

---
 russell_sparse/c_code/interface_complex_umfpack.c | 14 ++++++++++++--
 russell_sparse/c_code/interface_umfpack.c         | 14 ++++++++++++--
 russell_sparse/src/complex_solver_umfpack.rs      |  3 ++-
 russell_sparse/src/solver_umfpack.rs              |  3 ++-
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_umfpack.c b/russell_sparse/c_code/interface_complex_umfpack.c
index c14b231..49ea482 100644
--- a/russell_sparse/c_code/interface_complex_umfpack.c
+++ b/russell_sparse/c_code/interface_complex_umfpack.c
@@ -161,7 +161,9 @@ int32_t complex_solver_umfpack_factorize(struct InterfaceComplexUMFPACK *solver,
         return ERROR_NEED_INITIALIZATION;
     }
 
-    if (solver->factorization_completed == C_TRUE) {
+    // the previous factorization is no longer available
+    solver->factorization_completed = C_FALSE;
+    if (solver->numeric != NULL) {
         // free the previous numeric to avoid memory leak
         umfpack_zi_free_numeric(&solver->numeric);
     }
@@ -187,6 +189,11 @@ int32_t complex_solver_umfpack_factorize(struct InterfaceComplexUMFPACK *solver,
     // reciprocal condition number estimate
     *rcond_estimate = solver->info[UMFPACK_RCOND];
 
+    // handle failures (e.g., singular matrix)
+    if (code != UMFPACK_OK) {
+        return code;
+    }
+
     // compute determinant
     if (compute_determinant == C_TRUE) {
         code = umfpack_zi_get_determinant(determinant_coefficient_real,
@@ -194,6 +201,9 @@ int32_t complex_solver_umfpack_factorize(struct InterfaceComplexUMFPACK *solver,
                                           determinant_exponent,
                                           solver->numeric,
                                           solver->info);
+        if (code != UMFPACK_OK) {
+            return code;
+        }
     } else {
         *determinant_coefficient_real = 0.0;
         *determinant_coefficient_imag = 0.0;
@@ -202,7 +212,7 @@ int32_t complex_solver_umfpack_factorize(struct InterfaceComplexUMFPACK *solver,
 
     solver->factorization_completed = C_TRUE;
 
-    return code;
+    return SUCCESSFUL_EXIT;
 }
 
 /// @brief Computes the solution of the linear system
diff --git a/russell_sparse/c_code/interface_umfpack.c b/russell_sparse/c_code/interface_umfpack.c
index 2133ffb..ce14bef 100644
--- a/russell_sparse/c_code/interface_umfpack.c
+++ b/russell_sparse/c_code/interface_umfpack.c
@@ -158,7 +158,9 @@ int32_t solver_umfpack_factorize(struct InterfaceUMFPACK *solver,
         return ERROR_NEED_INITIALIZATION;
     }
 
-    if (solver->factorization_completed == C_TRUE) {
+    // the previous factorization is no longer available
+    solver->factorization_completed = C_FALSE;
+    if (solver->numeric != NULL) {
         // free the previous numeric to avoid memory leak
         umfpack_di_free_numeric(&solver->numeric);
     }
@@ -183,12 +185,20 @@ int32_t solver_umfpack_factorize(struct InterfaceUMFPACK *solver,
     // reciprocal condition number estimate
     *rcond_estimate = solver->info[UMFPACK_RCOND];
 
+    // handle failures (e.g., singular matrix)
+    if (code != UMFPACK_OK) {
+        return code;
+    }
+
     // compute determinant
     if (compute_determinant == C_TRUE) {
         code = umfpack_di_get_determinant(determinant_coefficient,
                                           determinant_exponent,
                                           solver->numeric,
                                           solver->info);
+        if (code != UMFPACK_OK) {
+            return code;
+        }
     } else {
         *determinant_coefficient = 0.0;
         *determinant_exponent = 0.0;
@@ -196,7 +206,7 @@ int32_t solver_umfpack_factorize(struct InterfaceUMFPACK *solver,
 
     solver->factorization_completed = C_TRUE;
 
-    return code;
+    return SUCCESSFUL_EXIT;
 }
 
 /// @brief Computes the solution of the linear system
diff --git a/russell_sparse/src/complex_solver_umfpack.rs b/russell_sparse/src/complex_solver_umfpack.rs
index 8691eb6..b55c105 100644
--- a/russell_sparse/src/complex_solver_umfpack.rs
+++ b/russell_sparse/src/complex_solver_umfpack.rs
@@ -316,7 +316,8 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
             self.initialized = true;
         }
 
-        // call factorize
+        // call factorize (the previous factorization, if any, is no longer available)
+        self.factorized = false;
         self.stopwatch.reset();
         unsafe {
             let status = complex_solver_umfpack_factorize(
diff --git a/russell_sparse/src/solver_umfpack.rs b/russell_sparse/src/solver_umfpack.rs
index 3653716..dd2257b 100644
--- a/russell_sparse/src/solver_umfpack.rs
+++ b/russell_sparse/src/solver_umfpack.rs
@@ -300,7 +300,8 @@ impl LinSolTrait for SolverUMFPACK {
             self.initialized = true;
         }
 
-        // call factorize
+        // call factorize (the previous factorization, if any, is no longer available)
+        self.factorized = false;
         self.stopwatch.reset();
         unsafe {
             let status = solver_umfpack_factorize(
-- 
2.43.0


From 2de6abf27d814014b96dc01b4404262ef9cafc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:03 +0000
Subject: [PATCH 08/47] fix: a failed MUMPS factorization does not leave the
 solver marked as factorized

---
 russell_sparse/c_code/interface_complex_mumps.c | 13 ++++++++++---
 russell_sparse/c_code/interface_mumps.c         | 13 ++++++++++---
 russell_sparse/src/complex_solver_mumps.rs      |  3 ++-
 russell_sparse/src/solver_mumps.rs              |  3 ++-
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_mumps.c b/russell_sparse/c_code/interface_complex_mumps.c
index 0fc6d2b..7226b48 100644
--- a/russell_sparse/c_code/interface_complex_mumps.c
+++ b/russell_sparse/c_code/interface_complex_mumps.c
@@ -163,7 +163,7 @@ int32_t complex_solver_mumps_initialize(struct InterfaceComplexMUMPS *solver,
     solver->data.job = MUMPS_JOB_ANALYZE;
     zmumps_c(&solver->data);
 
-    if (solver->data.INFO(1) != 0) {
+    if (solver->data.INFOG(1) != 0) {
         return solver->data.INFOG(1); // error
     }
 
@@ -208,8 +208,9 @@ int32_t complex_solver_mumps_factorize(struct InterfaceComplexMUMPS *solver,
         solver->data.ICNTL(33) = 0;
     }
 
-    // perform factorization
+    // perform factorization (the previous one is no longer available)
 
+    solver->factorization_completed = C_FALSE;
     set_mumps_verbose(&solver->data, verbose);
     solver->data.job = MUMPS_JOB_FACTORIZE;
     zmumps_c(&solver->data);
@@ -219,6 +220,12 @@ int32_t complex_solver_mumps_factorize(struct InterfaceComplexMUMPS *solver,
     *effective_ordering = solver->data.INFOG(7);
     *effective_scaling = solver->data.INFOG(33);
 
+    // handle failures
+
+    if (solver->data.INFOG(1) != 0) {
+        return solver->data.INFOG(1);
+    }
+
     // read the determinant
 
     if (compute_determinant == C_TRUE && solver->data.ICNTL(33) == 1) {
@@ -233,7 +240,7 @@ int32_t complex_solver_mumps_factorize(struct InterfaceComplexMUMPS *solver,
 
     solver->factorization_completed = C_TRUE;
 
-    return solver->data.INFOG(1);
+    return SUCCESSFUL_EXIT;
 }
 
 /// @brief Computes the solution of the linear system
diff --git a/russell_sparse/c_code/interface_mumps.c b/russell_sparse/c_code/interface_mumps.c
index d9d034e..b4c9dc3 100644
--- a/russell_sparse/c_code/interface_mumps.c
+++ b/russell_sparse/c_code/interface_mumps.c
@@ -163,7 +163,7 @@ int32_t solver_mumps_initialize(struct InterfaceMUMPS *solver,
     solver->data.job = MUMPS_JOB_ANALYZE;
     dmumps_c(&solver->data);
 
-    if (solver->data.INFO(1) != 0) {
+    if (solver->data.INFOG(1) != 0) {
         return solver->data.INFOG(1); // error
     }
 
@@ -206,8 +206,9 @@ int32_t solver_mumps_factorize(struct InterfaceMUMPS *solver,
         solver->data.ICNTL(33) = 0;
     }
 
-    // perform factorization
+    // perform factorization (the previous one is no longer available)
 
+    solver->factorization_completed = C_FALSE;
     set_mumps_verbose(&solver->data, verbose);
     solver->data.job = MUMPS_JOB_FACTORIZE;
     dmumps_c(&solver->data);
@@ -217,6 +218,12 @@ int32_t solver_mumps_factorize(struct InterfaceMUMPS *solver,
     *effective_ordering = solver->data.INFOG(7);
     *effective_scaling = solver->data.INFOG(33);
 
+    // handle failures
+
+    if (solver->data.INFOG(1) != 0) {
+        return solver->data.INFOG(1);
+    }
+
     // read the determinant
 
     if (compute_determinant == C_TRUE && solver->data.ICNTL(33) == 1) {
@@ -229,7 +236,7 @@ int32_t solver_mumps_factorize(struct InterfaceMUMPS *solver,
 
     solver->factorization_completed = C_TRUE;
 
-    return solver->data.INFOG(1);
+    return SUCCESSFUL_EXIT;
 }
 
 /// @brief Computes the solution of the linear system
diff --git a/russell_sparse/src/complex_solver_mumps.rs b/russell_sparse/src/complex_solver_mumps.rs
index 782314e..f670a99 100644
--- a/russell_sparse/src/complex_solver_mumps.rs
+++ b/russell_sparse/src/complex_solver_mumps.rs
@@ -317,7 +317,8 @@ impl ComplexLinSolTrait for ComplexSolverMUMPS {
             self.initialized = true;
         }
 
-        // call factorize
+        // call factorize (the previous factorization, if any, is no longer available)
+        self.factorized = false;
         self.stopwatch.reset();
         unsafe {
             let status = complex_solver_mumps_factorize(
diff --git a/russell_sparse/src/solver_mumps.rs b/russell_sparse/src/solver_mumps.rs
index 9180f47..1184c2c 100644
--- a/russell_sparse/src/solver_mumps.rs
+++ b/russell_sparse/src/solver_mumps.rs
@@ -304,7 +304,8 @@ impl LinSolTrait for SolverMUMPS {
             self.initialized = true;
         }
 
-        // call factorize
+        // call factorize (the previous factorization, if any, is no longer available)
+        self.factorized = false;
         self.stopwatch.reset();
         unsafe {
             let status = solver_mumps_factorize(
-- 
2.43.0


From 4c3eabad9ec366bd8dd9594cedfe527ceef01180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:03 +0000
Subject: [PATCH 09/47] fix: check all cuDSS status codes and reset the
 factorized flag before factorizing

---
 .../c_code/interface_complex_cudss.cu         | 19 ++++++++++++++++---
 russell_sparse/c_code/interface_cudss.cu      | 19 ++++++++++++++++---
 russell_sparse/src/complex_solver_cudss.rs    |  3 ++-
 russell_sparse/src/solver_cudss.rs            |  3 ++-
 4 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_cudss.cu b/russell_sparse/c_code/interface_complex_cudss.cu
index 8fa708a..8d58387 100644
--- a/russell_sparse/c_code/interface_complex_cudss.cu
+++ b/russell_sparse/c_code/interface_complex_cudss.cu
@@ -207,6 +207,10 @@ extern "C" int32_t complex_solver_cudss_initialize(struct InterfaceComplexCUDSS
         return ERROR_NULL_POINTER;
     }
 
+    if (solver->initialization_completed == C_TRUE) {
+        return ERROR_ALREADY_INITIALIZED;
+    }
+
     /* Save the system dimension for later */
     solver->ndim = ndim;
 
@@ -367,10 +371,16 @@ extern "C" int32_t complex_solver_cudss_initialize(struct InterfaceComplexCUDSS
     /* Specify how much device memory is available for cuDSS */
     if (hybrid_memory_factor > 0.0) {
         size_t free_mem, total_mem;
-        cudaMemGetInfo(&free_mem, &total_mem);
+        cuda_error = cudaMemGetInfo(&free_mem, &total_mem);
+        if (cuda_error != cudaSuccess) {
+            return ERROR_CUDSS_CONFIG_SET;
+        }
         int64_t hybrid_device_memory_limit = (int64_t)(total_mem * hybrid_memory_factor);
-        cudssConfigSet(solver->config, CUDSS_CONFIG_HYBRID_DEVICE_MEMORY_LIMIT,
-                       &hybrid_device_memory_limit, sizeof(hybrid_device_memory_limit));
+        status = cudssConfigSet(solver->config, CUDSS_CONFIG_HYBRID_DEVICE_MEMORY_LIMIT,
+                                &hybrid_device_memory_limit, sizeof(hybrid_device_memory_limit));
+        if (status != CUDSS_STATUS_SUCCESS) {
+            return ERROR_CUDSS_CONFIG_SET;
+        }
         if (verbose == C_TRUE) {
             printf("cuDSS: set upper device memory limit to %ld bytes (%.1f GiB, %.2f x %zu total)\n",
                    hybrid_device_memory_limit,
@@ -418,6 +428,9 @@ extern "C" int32_t complex_solver_cudss_factorize(struct InterfaceComplexCUDSS *
         return ERROR_NEED_INITIALIZATION;
     }
 
+    /* The previous factorization is no longer available */
+    solver->factorization_completed = C_FALSE;
+
     /* Number of non-zeros */
     int32_t nnz = solver->nnz;
 
diff --git a/russell_sparse/c_code/interface_cudss.cu b/russell_sparse/c_code/interface_cudss.cu
index 597663a..2e3126b 100644
--- a/russell_sparse/c_code/interface_cudss.cu
+++ b/russell_sparse/c_code/interface_cudss.cu
@@ -206,6 +206,10 @@ extern "C" int32_t solver_cudss_initialize(struct InterfaceCUDSS *solver,
         return ERROR_NULL_POINTER;
     }
 
+    if (solver->initialization_completed == C_TRUE) {
+        return ERROR_ALREADY_INITIALIZED;
+    }
+
     /* Save the system dimension for later */
     solver->ndim = ndim;
 
@@ -366,10 +370,16 @@ extern "C" int32_t solver_cudss_initialize(struct InterfaceCUDSS *solver,
     /* Specify how much device memory is available for cuDSS */
     if (hybrid_memory_factor > 0.0) {
         size_t free_mem, total_mem;
-        cudaMemGetInfo(&free_mem, &total_mem);
+        cuda_error = cudaMemGetInfo(&free_mem, &total_mem);
+        if (cuda_error != cudaSuccess) {
+            return ERROR_CUDSS_CONFIG_SET;
+        }
         int64_t hybrid_device_memory_limit = (int64_t)(total_mem * hybrid_memory_factor);
-        cudssConfigSet(solver->config, CUDSS_CONFIG_HYBRID_DEVICE_MEMORY_LIMIT,
-                       &hybrid_device_memory_limit, sizeof(hybrid_device_memory_limit));
+        status = cudssConfigSet(solver->config, CUDSS_CONFIG_HYBRID_DEVICE_MEMORY_LIMIT,
+                                &hybrid_device_memory_limit, sizeof(hybrid_device_memory_limit));
+        if (status != CUDSS_STATUS_SUCCESS) {
+            return ERROR_CUDSS_CONFIG_SET;
+        }
         if (verbose == C_TRUE) {
             printf("cuDSS: set upper device memory limit to %ld bytes (%.1f GiB, %.2f x %zu total)\n",
                    hybrid_device_memory_limit,
@@ -417,6 +427,9 @@ extern "C" int32_t solver_cudss_factorize(struct InterfaceCUDSS *solver,
         return ERROR_NEED_INITIALIZATION;
     }
 
+    /* The previous factorization is no longer available */
+    solver->factorization_completed = C_FALSE;
+
     /* Number of non-zeros */
     int32_t nnz = solver->nnz;
 
diff --git a/russell_sparse/src/complex_solver_cudss.rs b/russell_sparse/src/complex_solver_cudss.rs
index f7a5cbe..59f91c9 100644
--- a/russell_sparse/src/complex_solver_cudss.rs
+++ b/russell_sparse/src/complex_solver_cudss.rs
@@ -301,7 +301,8 @@ impl ComplexLinSolTrait for ComplexSolverCUDSS {
             self.initialized = true;
         }
 
-        // call factorize
+        // call factorize (the previous factorization, if any, is no longer available)
+        self.factorized = false;
         self.stopwatch.reset();
         unsafe {
             let status = complex_solver_cudss_factorize(
diff --git a/russell_sparse/src/solver_cudss.rs b/russell_sparse/src/solver_cudss.rs
index d0f3d85..2bb4cfe 100644
--- a/russell_sparse/src/solver_cudss.rs
+++ b/russell_sparse/src/solver_cudss.rs
@@ -289,7 +289,8 @@ impl LinSolTrait for SolverCUDSS {
             self.initialized = true;
         }
 
-        // call factorize
+        // call factorize (the previous factorization, if any, is no longer available)
+        self.factorized = false;
         self.stopwatch.reset();
         unsafe {
             let status = solver_cudss_factorize(
-- 
2.43.0


From f5801cf877924d7f37ca6c2250655d4cd1e24e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:08 +0000
Subject: [PATCH 10/47] fix: declare the return type of cblas_idamax as the
 BLAS interface defines it

The C prototype returns size_t, while the three declarations said i32.
---
 russell_lab/src/base/auxiliary_blas.rs   | 8 ++------
 russell_lab/src/vector/vec_norm.rs       | 4 ++--
 russell_lab/src/vector/vec_norm_chunk.rs | 4 ++--
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/russell_lab/src/base/auxiliary_blas.rs b/russell_lab/src/base/auxiliary_blas.rs
index de58b95..e34429e 100644
--- a/russell_lab/src/base/auxiliary_blas.rs
+++ b/russell_lab/src/base/auxiliary_blas.rs
@@ -7,7 +7,7 @@ unsafe extern "C" {
 
     // Finds the index of the maximum absolute value
     // <https://www.netlib.org/lapack/explore-html/dd/de0/idamax_8f.html>
-    fn cblas_idamax(n: i32, x: *const f64, incx: i32) -> i32;
+    fn cblas_idamax(n: i32, x: *const f64, incx: i32) -> usize;
 }
 
 /// Returns whether the code was compiled with Intel MKL or not
@@ -64,11 +64,7 @@ pub fn get_num_threads() -> usize {
 /// ```
 pub fn find_index_abs_max(x: &[f64]) -> usize {
     let n = to_i32(x.len());
-    unsafe {
-        let i = cblas_idamax(n, x.as_ptr(), 1);
-        assert!(i >= 0);
-        i as usize
-    }
+    unsafe { cblas_idamax(n, x.as_ptr(), 1) }
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/russell_lab/src/vector/vec_norm.rs b/russell_lab/src/vector/vec_norm.rs
index e94d3ee..3c6c483 100644
--- a/russell_lab/src/vector/vec_norm.rs
+++ b/russell_lab/src/vector/vec_norm.rs
@@ -12,7 +12,7 @@ unsafe extern "C" {
 
     // Finds the index of the maximum absolute value
     // <https://www.netlib.org/lapack/explore-html/dd/de0/idamax_8f.html>
-    fn cblas_idamax(n: i32, x: *const f64, incx: i32) -> i32;
+    fn cblas_idamax(n: i32, x: *const f64, incx: i32) -> usize;
 }
 
 /// Returns the vector norm
@@ -43,7 +43,7 @@ pub fn vec_norm(v: &Vector, kind: Norm) -> f64 {
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, v.as_data().as_ptr(), 1),
             Norm::Inf | Norm::Max => {
                 let idx = cblas_idamax(n, v.as_data().as_ptr(), 1);
-                f64::abs(v.get(idx as usize))
+                f64::abs(v.get(idx))
             }
             Norm::One => cblas_dasum(n, v.as_data().as_ptr(), 1),
         }
diff --git a/russell_lab/src/vector/vec_norm_chunk.rs b/russell_lab/src/vector/vec_norm_chunk.rs
index 5954027..52e4a86 100644
--- a/russell_lab/src/vector/vec_norm_chunk.rs
+++ b/russell_lab/src/vector/vec_norm_chunk.rs
@@ -12,7 +12,7 @@ unsafe extern "C" {
 
     // Finds the index of the maximum absolute value
     // <https://www.netlib.org/lapack/explore-html/dd/de0/idamax_8f.html>
-    fn cblas_idamax(n: i32, x: *const f64, incx: i32) -> i32;
+    fn cblas_idamax(n: i32, x: *const f64, incx: i32) -> usize;
 }
 
 /// Returns the vector norm of a chunk of the vector
@@ -55,7 +55,7 @@ pub fn vec_norm_chunk(v: &Vector, kind: Norm, start: usize, stop: usize) -> f64
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, slice.as_ptr(), 1),
             Norm::Inf | Norm::Max => {
                 let idx = cblas_idamax(n, slice.as_ptr(), 1);
-                f64::abs(slice[idx as usize])
+                f64::abs(slice[idx])
             }
             Norm::One => cblas_dasum(n, slice.as_ptr(), 1),
         }
-- 
2.43.0


From 9d79f5d2c2024e67e14117c8d8fad8d9caf3faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:08 +0000
Subject: [PATCH 11/47] fix: describe the shared error codes returned by the
 cuDSS interface

The C code can return the null pointer, initialization and factorization
codes, which were reported as unknown errors.
---
 russell_sparse/src/solver_cudss.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/russell_sparse/src/solver_cudss.rs b/russell_sparse/src/solver_cudss.rs
index 2bb4cfe..7b9db2d 100644
--- a/russell_sparse/src/solver_cudss.rs
+++ b/russell_sparse/src/solver_cudss.rs
@@ -554,6 +554,11 @@ pub(crate) fn handle_cudss_error_code(err: i32) -> StrError {
         905 => "cuDSS solve failed: CUDSS_STATUS_EXECUTION_FAILED",
         906 => "cuDSS solve failed: CUDSS_STATUS_INTERNAL_ERROR",
         907 => "cuDSS solve failed: CUDSS_STATUS_IR_FAILED",
+        // codes shared by all solvers
+        ERROR_NULL_POINTER => "cuDSS failed due to NULL POINTER error",
+        ERROR_NEED_INITIALIZATION => "cuDSS failed because INITIALIZATION is needed",
+        ERROR_NEED_FACTORIZATION => "cuDSS failed because FACTORIZATION is needed",
+        ERROR_ALREADY_INITIALIZED => "cuDSS failed because INITIALIZATION has been completed already",
         _ => "Error: unknown error returned by c-code (cuDSS)",
     }
 }
-- 
2.43.0


From f6ef5cb0443c5cef8fe561f0f96adebf6aebda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:59 +0000
Subject: [PATCH 12/47] fix: keep a copy of the matrix in the MUMPS solvers

MUMPS holds on to the pointers given at initialization. A later factorization
with another matrix object used the old (possibly freed) values.
---
 russell_sparse/src/complex_solver_mumps.rs | 18 +++++++++++++-----
 russell_sparse/src/solver_mumps.rs         | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/russell_sparse/src/complex_solver_mumps.rs b/russell_sparse/src/complex_solver_mumps.rs
index f670a99..e604c22 100644
--- a/russell_sparse/src/complex_solver_mumps.rs
+++ b/russell_sparse/src/complex_solver_mumps.rs
@@ -148,6 +148,9 @@ pub struct ComplexSolverMUMPS {
 
     /// Holds the (one-based/Fortran) column indices j
     fortran_indices_j: Vec<i32>,
+
+    /// Holds the values (a copy is needed because MUMPS keeps a pointer to them)
+    values: Vec<Complex64>,
 }
 
 impl Drop for ComplexSolverMUMPS {
@@ -188,6 +191,7 @@ impl ComplexSolverMUMPS {
                 time_solve_ns: 0,
                 fortran_indices_i: Vec::new(),
                 fortran_indices_j: Vec::new(),
+                values: Vec::new(),
             })
         }
     }
@@ -249,10 +253,14 @@ impl ComplexLinSolTrait for ComplexSolverMUMPS {
             self.initialized_nnz = mat.nnz;
             self.fortran_indices_i = vec![0; mat.nnz];
             self.fortran_indices_j = vec![0; mat.nnz];
-            for k in 0..mat.nnz {
-                self.fortran_indices_i[k] = mat.indices_i[k] + 1;
-                self.fortran_indices_j[k] = mat.indices_j[k] + 1;
-            }
+            self.values = vec![Complex64::new(0.0, 0.0); mat.nnz];
+        }
+
+        // copy the matrix because MUMPS holds on to these arrays (from initialize until drop)
+        for k in 0..mat.nnz {
+            self.fortran_indices_i[k] = mat.indices_i[k] + 1;
+            self.fortran_indices_j[k] = mat.indices_j[k] + 1;
+            self.values[k] = mat.values[k];
         }
 
         // configuration parameters
@@ -307,7 +315,7 @@ impl ComplexLinSolTrait for ComplexSolverMUMPS {
                     nnz,
                     self.fortran_indices_i.as_ptr(),
                     self.fortran_indices_j.as_ptr(),
-                    mat.values.as_ptr(),
+                    self.values.as_ptr(),
                 );
                 if status != SUCCESSFUL_EXIT {
                     return Err(handle_mumps_error_code(status));
diff --git a/russell_sparse/src/solver_mumps.rs b/russell_sparse/src/solver_mumps.rs
index 1184c2c..6c2c832 100644
--- a/russell_sparse/src/solver_mumps.rs
+++ b/russell_sparse/src/solver_mumps.rs
@@ -136,6 +136,9 @@ pub struct SolverMUMPS {
 
     /// Holds the (one-based/Fortran) column indices j
     fortran_indices_j: Vec<i32>,
+
+    /// Holds the values (a copy is needed because MUMPS keeps a pointer to them)
+    values: Vec<f64>,
 }
 
 impl Drop for SolverMUMPS {
@@ -175,6 +178,7 @@ impl SolverMUMPS {
                 time_solve_ns: 0,
                 fortran_indices_i: Vec::new(),
                 fortran_indices_j: Vec::new(),
+                values: Vec::new(),
             })
         }
     }
@@ -236,10 +240,14 @@ impl LinSolTrait for SolverMUMPS {
             self.initialized_nnz = mat.nnz;
             self.fortran_indices_i = vec![0; mat.nnz];
             self.fortran_indices_j = vec![0; mat.nnz];
-            for k in 0..mat.nnz {
-                self.fortran_indices_i[k] = mat.indices_i[k] + 1;
-                self.fortran_indices_j[k] = mat.indices_j[k] + 1;
-            }
+            self.values = vec![0.0; mat.nnz];
+        }
+
+        // copy the matrix because MUMPS holds on to these arrays (from initialize until drop)
+        for k in 0..mat.nnz {
+            self.fortran_indices_i[k] = mat.indices_i[k] + 1;
+            self.fortran_indices_j[k] = mat.indices_j[k] + 1;
+            self.values[k] = mat.values[k];
         }
 
         // configuration parameters
@@ -294,7 +302,7 @@ impl LinSolTrait for SolverMUMPS {
                     nnz,
                     self.fortran_indices_i.as_ptr(),
                     self.fortran_indices_j.as_ptr(),
-                    mat.values.as_ptr(),
+                    self.values.as_ptr(),
                 );
                 if status != SUCCESSFUL_EXIT {
                     return Err(handle_mumps_error_code(status));
-- 
2.43.0


From 171fbe8d43d9a7334f3d8323d8a8ed5fb6a7539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:59 +0000
Subject: [PATCH 13/47] fix: release what a failed initialization left behind
 in the native solvers

The MUMPS and cuDSS interfaces allow another initialization after a failed
one. The instance and the device memory of the failed attempt were lost.
---
 .../c_code/interface_complex_cudss.cu         | 55 ++++++++++++-------
 .../c_code/interface_complex_mumps.c          |  8 +++
 russell_sparse/c_code/interface_cudss.cu      | 55 ++++++++++++-------
 russell_sparse/c_code/interface_mumps.c       |  8 +++
 4 files changed, 86 insertions(+), 40 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_cudss.cu b/russell_sparse/c_code/interface_complex_cudss.cu
index 8d58387..c29d8e3 100644
--- a/russell_sparse/c_code/interface_complex_cudss.cu
+++ b/russell_sparse/c_code/interface_complex_cudss.cu
@@ -123,49 +123,61 @@ extern "C" struct InterfaceComplexCUDSS *complex_solver_cudss_new() {
     return solver;
 }
 
-/// @brief De-allocates the cuDSS interface
-extern "C" void complex_solver_cudss_drop(struct InterfaceComplexCUDSS *solver) {
-    if (solver == NULL) {
-        return;
-    }
-
+/// @brief Releases the matrices and the device memory (if any)
+static void release_arrays(struct InterfaceComplexCUDSS *solver) {
     if (solver->aa_mat != NULL) {
         cudssMatrixDestroy(solver->aa_mat);
+        solver->aa_mat = NULL;
     }
     if (solver->b_vec != NULL) {
         cudssMatrixDestroy(solver->b_vec);
+        solver->b_vec = NULL;
     }
     if (solver->x_vec != NULL) {
         cudssMatrixDestroy(solver->x_vec);
+        solver->x_vec = NULL;
     }
-
-    if (solver->handle != NULL && solver->data != NULL) {
-        cudssDataDestroy(solver->handle, solver->data);
-    }
-    if (solver->config != NULL) {
-        cudssConfigDestroy(solver->config);
-    }
-    if (solver->handle != NULL) {
-        cudssDestroy(solver->handle);
-    }
-    if (solver->stream != NULL) {
-        cudaStreamDestroy(solver->stream);
-    }
-
     if (solver->gpu_row_pointers != NULL) {
         cudaFree(solver->gpu_row_pointers);
+        solver->gpu_row_pointers = NULL;
     }
     if (solver->gpu_col_indices != NULL) {
         cudaFree(solver->gpu_col_indices);
+        solver->gpu_col_indices = NULL;
     }
     if (solver->gpu_values != NULL) {
         cudaFree(solver->gpu_values);
+        solver->gpu_values = NULL;
     }
     if (solver->gpu_b != NULL) {
         cudaFree(solver->gpu_b);
+        solver->gpu_b = NULL;
     }
     if (solver->gpu_x != NULL) {
         cudaFree(solver->gpu_x);
+        solver->gpu_x = NULL;
+    }
+}
+
+/// @brief De-allocates the cuDSS interface
+extern "C" void complex_solver_cudss_drop(struct InterfaceComplexCUDSS *solver) {
+    if (solver == NULL) {
+        return;
+    }
+
+    release_arrays(solver);
+
+    if (solver->handle != NULL && solver->data != NULL) {
+        cudssDataDestroy(solver->handle, solver->data);
+    }
+    if (solver->config != NULL) {
+        cudssConfigDestroy(solver->config);
+    }
+    if (solver->handle != NULL) {
+        cudssDestroy(solver->handle);
+    }
+    if (solver->stream != NULL) {
+        cudaStreamDestroy(solver->stream);
     }
 
     free(solver);
@@ -211,6 +223,9 @@ extern "C" int32_t complex_solver_cudss_initialize(struct InterfaceComplexCUDSS
         return ERROR_ALREADY_INITIALIZED;
     }
 
+    /* Release what an earlier call that has failed left behind */
+    release_arrays(solver);
+
     /* Save the system dimension for later */
     solver->ndim = ndim;
 
diff --git a/russell_sparse/c_code/interface_complex_mumps.c b/russell_sparse/c_code/interface_complex_mumps.c
index 7226b48..e137e4a 100644
--- a/russell_sparse/c_code/interface_complex_mumps.c
+++ b/russell_sparse/c_code/interface_complex_mumps.c
@@ -114,6 +114,14 @@ int32_t complex_solver_mumps_initialize(struct InterfaceComplexMUMPS *solver,
         return ERROR_ALREADY_INITIALIZED;
     }
 
+    /* Terminate the instance left behind by an earlier call that has failed */
+    if (solver->done_job_init == C_TRUE) {
+        set_mumps_verbose(&solver->data, C_FALSE);
+        solver->data.job = MUMPS_JOB_TERMINATE;
+        zmumps_c(&solver->data);
+        solver->done_job_init = C_FALSE;
+    }
+
     solver->data.comm_fortran = MUMPS_IGNORED;
     solver->data.par = MUMPS_PAR_HOST_ALSO_WORKS;
     solver->data.sym = 0; // unsymmetric (page 27)
diff --git a/russell_sparse/c_code/interface_cudss.cu b/russell_sparse/c_code/interface_cudss.cu
index 2e3126b..76382a2 100644
--- a/russell_sparse/c_code/interface_cudss.cu
+++ b/russell_sparse/c_code/interface_cudss.cu
@@ -122,49 +122,61 @@ extern "C" struct InterfaceCUDSS *solver_cudss_new() {
     return solver;
 }
 
-/// @brief De-allocates the cuDSS interface
-extern "C" void solver_cudss_drop(struct InterfaceCUDSS *solver) {
-    if (solver == NULL) {
-        return;
-    }
-
+/// @brief Releases the matrices and the device memory (if any)
+static void release_arrays(struct InterfaceCUDSS *solver) {
     if (solver->aa_mat != NULL) {
         cudssMatrixDestroy(solver->aa_mat);
+        solver->aa_mat = NULL;
     }
     if (solver->b_vec != NULL) {
         cudssMatrixDestroy(solver->b_vec);
+        solver->b_vec = NULL;
     }
     if (solver->x_vec != NULL) {
         cudssMatrixDestroy(solver->x_vec);
+        solver->x_vec = NULL;
     }
-
-    if (solver->handle != NULL && solver->data != NULL) {
-        cudssDataDestroy(solver->handle, solver->data);
-    }
-    if (solver->config != NULL) {
-        cudssConfigDestroy(solver->config);
-    }
-    if (solver->handle != NULL) {
-        cudssDestroy(solver->handle);
-    }
-    if (solver->stream != NULL) {
-        cudaStreamDestroy(solver->stream);
-    }
-
     if (solver->gpu_row_pointers != NULL) {
         cudaFree(solver->gpu_row_pointers);
+        solver->gpu_row_pointers = NULL;
     }
     if (solver->gpu_col_indices != NULL) {
         cudaFree(solver->gpu_col_indices);
+        solver->gpu_col_indices = NULL;
     }
     if (solver->gpu_values != NULL) {
         cudaFree(solver->gpu_values);
+        solver->gpu_values = NULL;
     }
     if (solver->gpu_b != NULL) {
         cudaFree(solver->gpu_b);
+        solver->gpu_b = NULL;
     }
     if (solver->gpu_x != NULL) {
         cudaFree(solver->gpu_x);
+        solver->gpu_x = NULL;
+    }
+}
+
+/// @brief De-allocates the cuDSS interface
+extern "C" void solver_cudss_drop(struct InterfaceCUDSS *solver) {
+    if (solver == NULL) {
+        return;
+    }
+
+    release_arrays(solver);
+
+    if (solver->handle != NULL && solver->data != NULL) {
+        cudssDataDestroy(solver->handle, solver->data);
+    }
+    if (solver->config != NULL) {
+        cudssConfigDestroy(solver->config);
+    }
+    if (solver->handle != NULL) {
+        cudssDestroy(solver->handle);
+    }
+    if (solver->stream != NULL) {
+        cudaStreamDestroy(solver->stream);
     }
 
     free(solver);
@@ -210,6 +222,9 @@ extern "C" int32_t solver_cudss_initialize(struct InterfaceCUDSS *solver,
         return ERROR_ALREADY_INITIALIZED;
     }
 
+    /* Release what an earlier call that has failed left behind */
+    release_arrays(solver);
+
     /* Save the system dimension for later */
     solver->ndim = ndim;
 
diff --git a/russell_sparse/c_code/interface_mumps.c b/russell_sparse/c_code/interface_mumps.c
index b4c9dc3..9928391 100644
--- a/russell_sparse/c_code/interface_mumps.c
+++ b/russell_sparse/c_code/interface_mumps.c
@@ -114,6 +114,14 @@ int32_t solver_mumps_initialize(struct InterfaceMUMPS *solver,
         return ERROR_ALREADY_INITIALIZED;
     }
 
+    /* Terminate the instance left behind by an earlier call that has failed */
+    if (solver->done_job_init == C_TRUE) {
+        set_mumps_verbose(&solver->data, C_FALSE);
+        solver->data.job = MUMPS_JOB_TERMINATE;
+        dmumps_c(&solver->data);
+        solver->done_job_init = C_FALSE;
+    }
+
     solver->data.comm_fortran = MUMPS_IGNORED;
     solver->data.par = MUMPS_PAR_HOST_ALSO_WORKS;
     solver->data.sym = 0; // unsymmetric (page 27)
-- 
2.43.0


From b8c6e4fe8de1f57265a34b637f510dc34f9dab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:32 +0000
Subject: [PATCH 14/47] fix: check all components before changing the tensor in
 t1_dyad_t1 and set_std_array

---
 russell_tensor/src/operations_t2.rs | 15 ++++----
 russell_tensor/src/tensor3.rs       | 56 +++++++++++++++--------------
 russell_tensor/src/tensor4.rs       | 33 ++++++++++-------
 3 files changed, 58 insertions(+), 46 deletions(-)

diff --git a/russell_tensor/src/operations_t2.rs b/russell_tensor/src/operations_t2.rs
index a0ae546..9169cc4 100644
--- a/russell_tensor/src/operations_t2.rs
+++ b/russell_tensor/src/operations_t2.rs
@@ -429,12 +429,6 @@ pub fn t1_dyad_t1(a: &mut Tensor2, alpha: f64, u: &Tensor1, v: &Tensor1) -> Resu
         a.vec[2] = 0.0;
         a.vec[3] = alpha * (u.get(0) * v.get(1) + u.get(1) * v.get(0)) / SQRT_2;
     } else {
-        a.vec[0] = alpha * u.get(0) * v.get(0);
-        a.vec[1] = alpha * u.get(1) * v.get(1);
-        a.vec[2] = alpha * u.get(2) * v.get(2);
-        a.vec[3] = alpha * (u.get(0) * v.get(1) + u.get(1) * v.get(0)) / SQRT_2;
-        a.vec[4] = alpha * (u.get(1) * v.get(2) + u.get(2) * v.get(1)) / SQRT_2;
-        a.vec[5] = alpha * (u.get(0) * v.get(2) + u.get(2) * v.get(0)) / SQRT_2;
         if a.dim() == 6 {
             if (u.get(0) * v.get(1)) != (u.get(1) * v.get(0))
                 || (u.get(1) * v.get(2)) != (u.get(2) * v.get(1))
@@ -442,7 +436,14 @@ pub fn t1_dyad_t1(a: &mut Tensor2, alpha: f64, u: &Tensor1, v: &Tensor1) -> Resu
             {
                 return Err("dyadic product between u and v does not generate a symmetric tensor");
             }
-        } else {
+        }
+        a.vec[0] = alpha * u.get(0) * v.get(0);
+        a.vec[1] = alpha * u.get(1) * v.get(1);
+        a.vec[2] = alpha * u.get(2) * v.get(2);
+        a.vec[3] = alpha * (u.get(0) * v.get(1) + u.get(1) * v.get(0)) / SQRT_2;
+        a.vec[4] = alpha * (u.get(1) * v.get(2) + u.get(2) * v.get(1)) / SQRT_2;
+        a.vec[5] = alpha * (u.get(0) * v.get(2) + u.get(2) * v.get(0)) / SQRT_2;
+        if a.dim() != 6 {
             a.vec[6] = alpha * (u.get(0) * v.get(1) - u.get(1) * v.get(0)) / SQRT_2;
             a.vec[7] = alpha * (u.get(1) * v.get(2) - u.get(2) * v.get(1)) / SQRT_2;
             a.vec[8] = alpha * (u.get(0) * v.get(2) - u.get(2) * v.get(0)) / SQRT_2;
diff --git a/russell_tensor/src/tensor3.rs b/russell_tensor/src/tensor3.rs
index e522958..790cfb9 100644
--- a/russell_tensor/src/tensor3.rs
+++ b/russell_tensor/src/tensor3.rs
@@ -423,20 +423,22 @@ impl Tensor3 {
                                 if inp[i][j][k] != inp[j][i][k] {
                                     return Err("the input data does not correspond to a minor-symmetric tensor");
                                 }
+                            } else if IJK_TO_MN_CASE_A[i][j][k].0 > max && inp[i][j][k] != 0.0 {
+                                return Err("the input data does not correspond to a 2D minor-symmetric tensor");
+                            }
+                        }
+                    }
+                }
+                for i in 0..3 {
+                    for j in 0..3 {
+                        for k in 0..3 {
+                            let (m, n) = IJK_TO_MN_CASE_A[i][j][k];
+                            if i > j || m > max {
+                                continue;
+                            } else if m < 3 {
+                                self.set(m, n, inp[i][j][k]);
                             } else {
-                                let (m, n) = IJK_TO_MN_CASE_A[i][j][k];
-                                if m > max {
-                                    if inp[i][j][k] != 0.0 {
-                                        return Err(
-                                            "the input data does not correspond to a 2D minor-symmetric tensor",
-                                        );
-                                    }
-                                    continue;
-                                } else if m < 3 {
-                                    self.set(m, n, inp[i][j][k]);
-                                } else {
-                                    self.set(m, n, SQRT_2 * inp[i][j][k]);
-                                }
+                                self.set(m, n, SQRT_2 * inp[i][j][k]);
                             }
                         }
                     }
@@ -471,20 +473,22 @@ impl Tensor3 {
                                 if inp[i][j][k] != inp[i][k][j] {
                                     return Err("the input data does not correspond to a minor-symmetric tensor");
                                 }
+                            } else if IJK_TO_MN_CASE_B[i][j][k].1 > max && inp[i][j][k] != 0.0 {
+                                return Err("the input data does not correspond to a 2D minor-symmetric tensor");
+                            }
+                        }
+                    }
+                }
+                for i in 0..3 {
+                    for j in 0..3 {
+                        for k in 0..3 {
+                            let (m, n) = IJK_TO_MN_CASE_B[i][j][k];
+                            if j > k || n > max {
+                                continue;
+                            } else if n < 3 {
+                                self.set(m, n, inp[i][j][k]);
                             } else {
-                                let (m, n) = IJK_TO_MN_CASE_B[i][j][k];
-                                if n > max {
-                                    if inp[i][j][k] != 0.0 {
-                                        return Err(
-                                            "the input data does not correspond to a 2D minor-symmetric tensor",
-                                        );
-                                    }
-                                    continue;
-                                } else if n < 3 {
-                                    self.set(m, n, inp[i][j][k]);
-                                } else {
-                                    self.set(m, n, SQRT_2 * inp[i][j][k]);
-                                }
+                                self.set(m, n, SQRT_2 * inp[i][j][k]);
                             }
                         }
                     }
diff --git a/russell_tensor/src/tensor4.rs b/russell_tensor/src/tensor4.rs
index 3b74333..036481e 100644
--- a/russell_tensor/src/tensor4.rs
+++ b/russell_tensor/src/tensor4.rs
@@ -318,25 +318,32 @@ impl Tensor4 {
                                 }
                             } else {
                                 let (m, n) = IJKL_TO_MN[i][j][k][l];
-                                if m > max || n > max {
-                                    if inp[i][j][k][l] != 0.0 {
-                                        return Err(
-                                            "the input data does not correspond to a 2D minor-symmetric tensor",
-                                        );
-                                    }
-                                    continue;
-                                } else if m < 3 && n < 3 {
-                                    self.set(m, n, inp[i][j][k][l]);
-                                } else if m > 2 && n > 2 {
-                                    self.set(m, n, 2.0 * inp[i][j][k][l]);
-                                } else {
-                                    self.set(m, n, SQRT_2 * inp[i][j][k][l]);
+                                if (m > max || n > max) && inp[i][j][k][l] != 0.0 {
+                                    return Err("the input data does not correspond to a 2D minor-symmetric tensor");
                                 }
                             }
                         }
                     }
                 }
             }
+            for i in 0..3 {
+                for j in 0..3 {
+                    for k in 0..3 {
+                        for l in 0..3 {
+                            let (m, n) = IJKL_TO_MN[i][j][k][l];
+                            if i > j || k > l || m > max || n > max {
+                                continue;
+                            } else if m < 3 && n < 3 {
+                                self.set(m, n, inp[i][j][k][l]);
+                            } else if m > 2 && n > 2 {
+                                self.set(m, n, 2.0 * inp[i][j][k][l]);
+                            } else {
+                                self.set(m, n, SQRT_2 * inp[i][j][k][l]);
+                            }
+                        }
+                    }
+                }
+            }
         } else {
             for i in 0..3 {
                 for j in 0..3 {
-- 
2.43.0


From f74274c2713a6109dcd1c44538b83d3022cfaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:32 +0000
Subject: [PATCH 15/47] fix: refuse to add or assign a COO matrix that does not
 fit before changing anything

---
 russell_sparse/src/complex_coo_matrix.rs |  6 ++++++
 russell_sparse/src/coo_matrix.rs         | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/russell_sparse/src/complex_coo_matrix.rs b/russell_sparse/src/complex_coo_matrix.rs
index df938f5..98829e7 100644
--- a/russell_sparse/src/complex_coo_matrix.rs
+++ b/russell_sparse/src/complex_coo_matrix.rs
@@ -60,6 +60,9 @@ impl ComplexCooMatrix {
         if other.symmetric != self.symmetric {
             return Err("matrices must have the same symmetric flag");
         }
+        if other.nnz > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         self.reset();
         for p in 0..other.nnz {
             let i = other.indices_i[p] as usize;
@@ -140,6 +143,9 @@ impl ComplexCooMatrix {
         if other.symmetric != self.symmetric {
             return Err("matrices must have the same symmetric flag");
         }
+        if self.nnz + other.nnz > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         for p in 0..other.nnz {
             let i = other.indices_i[p] as usize;
             let j = other.indices_j[p] as usize;
diff --git a/russell_sparse/src/coo_matrix.rs b/russell_sparse/src/coo_matrix.rs
index 9805be4..671111b 100644
--- a/russell_sparse/src/coo_matrix.rs
+++ b/russell_sparse/src/coo_matrix.rs
@@ -745,6 +745,9 @@ where
         if other.symmetric != self.symmetric {
             return Err("matrices must have the same symmetric type");
         }
+        if other.nnz > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         self.reset();
         for p in 0..other.nnz {
             let i = other.indices_i[p] as usize;
@@ -786,6 +789,9 @@ where
         if other.symmetric != self.symmetric {
             return Err("matrices must have the same symmetric type");
         }
+        if self.nnz + other.nnz > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         for p in 0..other.nnz {
             let i = other.indices_i[p] as usize;
             let j = other.indices_j[p] as usize;
@@ -830,6 +836,10 @@ where
         if bb.ncol + bb.nrow > self.ncol {
             return Err("ncol(B) + nrow(B) must be ≤ ncol(A)");
         }
+        let nnz_block = if self.symmetric.triangular() { bb.nnz } else { 2 * bb.nnz };
+        if self.nnz + nnz_block > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         if self.symmetric == Sym::YesLower {
             for p in 0..bb.nnz {
                 let i = bb.indices_i[p] as usize;
-- 
2.43.0


From 32f95637b272a10ae6b251dbd551036f45d87d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:32 +0000
Subject: [PATCH 16/47] fix: validate the dense output stations before storing
 them

---
 russell_ode/src/output.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index a9f238a..e287a38 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -285,7 +285,7 @@ impl<'a, A> Output<'a, A> {
     pub fn set_dense_x_out(&mut self, interior_x_out: &[f64]) -> Result<&mut Self, StrError> {
         let n_int = interior_x_out.len();
         let n = n_int + 2;
-        self.dense_x = vec![0.0; n];
+        let mut dense_x = vec![0.0; n];
         for k in 0..n_int {
             if k > 0 {
                 if interior_x_out[k] < interior_x_out[k - 1] {
@@ -295,8 +295,9 @@ impl<'a, A> Output<'a, A> {
                     return Err("the x spacing must be > 10.0 * EPSILON");
                 }
             }
-            self.dense_x[1 + k] = interior_x_out[k];
+            dense_x[1 + k] = interior_x_out[k];
         }
+        self.dense_x = dense_x;
         self.dense_h_out = None;
         Ok(self)
     }
-- 
2.43.0


From 78a3fb86411609249b678db6a8c4a53e2bfd9602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:51 +0000
Subject: [PATCH 17/47] fix: check all components before changing the tensor in
 set_std_matrix

---
 russell_tensor/src/tensor3.rs | 54 +++++++++++++++++++----------------
 russell_tensor/src/tensor4.rs | 33 ++++++++++++---------
 2 files changed, 49 insertions(+), 38 deletions(-)

diff --git a/russell_tensor/src/tensor3.rs b/russell_tensor/src/tensor3.rs
index 790cfb9..3ef6a0e 100644
--- a/russell_tensor/src/tensor3.rs
+++ b/russell_tensor/src/tensor3.rs
@@ -593,19 +593,22 @@ impl Tensor3 {
                                 if inp.at(m, n) != inp.at(r, s) {
                                     return Err("the input data does not correspond to a minor-symmetric tensor");
                                 }
+                            } else if m > max && inp.at(m, n) != 0.0 {
+                                return Err("the input data does not correspond to a 2D minor-symmetric tensor");
+                            }
+                        }
+                    }
+                }
+                for i in 0..3 {
+                    for j in 0..3 {
+                        for k in 0..3 {
+                            let (m, n) = IJK_TO_MN_CASE_A[i][j][k];
+                            if i > j || m > max {
+                                continue;
+                            } else if m < 3 {
+                                self.set(m, n, inp.at(m, n));
                             } else {
-                                if m > max {
-                                    if inp.at(m, n) != 0.0 {
-                                        return Err(
-                                            "the input data does not correspond to a 2D minor-symmetric tensor",
-                                        );
-                                    }
-                                    continue;
-                                } else if m < 3 {
-                                    self.set(m, n, inp.at(m, n));
-                                } else {
-                                    self.set(m, n, SQRT_2 * inp.at(m, n));
-                                }
+                                self.set(m, n, SQRT_2 * inp.at(m, n));
                             }
                         }
                     }
@@ -644,19 +647,22 @@ impl Tensor3 {
                                 if inp.at(m, n) != inp.at(r, s) {
                                     return Err("the input data does not correspond to a minor-symmetric tensor");
                                 }
+                            } else if n > max && inp.at(m, n) != 0.0 {
+                                return Err("the input data does not correspond to a 2D minor-symmetric tensor");
+                            }
+                        }
+                    }
+                }
+                for i in 0..3 {
+                    for j in 0..3 {
+                        for k in 0..3 {
+                            let (m, n) = IJK_TO_MN_CASE_B[i][j][k];
+                            if j > k || n > max {
+                                continue;
+                            } else if n < 3 {
+                                self.set(m, n, inp.at(m, n));
                             } else {
-                                if n > max {
-                                    if inp.at(m, n) != 0.0 {
-                                        return Err(
-                                            "the input data does not correspond to a 2D minor-symmetric tensor",
-                                        );
-                                    }
-                                    continue;
-                                } else if n < 3 {
-                                    self.set(m, n, inp.at(m, n));
-                                } else {
-                                    self.set(m, n, SQRT_2 * inp.at(m, n));
-                                }
+                                self.set(m, n, SQRT_2 * inp.at(m, n));
                             }
                         }
                     }
diff --git a/russell_tensor/src/tensor4.rs b/russell_tensor/src/tensor4.rs
index 036481e..4129998 100644
--- a/russell_tensor/src/tensor4.rs
+++ b/russell_tensor/src/tensor4.rs
@@ -485,21 +485,26 @@ impl Tensor4 {
                                 {
                                     return Err("the input data does not correspond to a minor-symmetric tensor");
                                 }
+                            } else if (m > max || n > max) && inp.at(m, n) != 0.0 {
+                                return Err("the input data does not correspond to a 2D minor-symmetric tensor");
+                            }
+                        }
+                    }
+                }
+            }
+            for i in 0..3 {
+                for j in 0..3 {
+                    for k in 0..3 {
+                        for l in 0..3 {
+                            let (m, n) = IJKL_TO_MN[i][j][k][l];
+                            if i > j || k > l || m > max || n > max {
+                                continue;
+                            } else if m < 3 && n < 3 {
+                                self.set(m, n, inp.at(m, n));
+                            } else if m > 2 && n > 2 {
+                                self.set(m, n, 2.0 * inp.at(m, n));
                             } else {
-                                if m > max || n > max {
-                                    if inp.at(m, n) != 0.0 {
-                                        return Err(
-                                            "the input data does not correspond to a 2D minor-symmetric tensor",
-                                        );
-                                    }
-                                    continue;
-                                } else if m < 3 && n < 3 {
-                                    self.set(m, n, inp.at(m, n));
-                                } else if m > 2 && n > 2 {
-                                    self.set(m, n, 2.0 * inp.at(m, n));
-                                } else {
-                                    self.set(m, n, SQRT_2 * inp.at(m, n));
-                                }
+                                self.set(m, n, SQRT_2 * inp.at(m, n));
                             }
                         }
                     }
-- 
2.43.0


From 662b6542632702d4f5d29c1065e06f3e5286ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:51 +0000
Subject: [PATCH 18/47] fix: report integration bounds that are too close
 instead of overflowing

---
 russell_lab/src/algo/quadrature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/quadrature.rs b/russell_lab/src/algo/quadrature.rs
index 2625cab..f7f2575 100644
--- a/russell_lab/src/algo/quadrature.rs
+++ b/russell_lab/src/algo/quadrature.rs
@@ -248,7 +248,7 @@ impl Quadrature {
                     //
                     n_ib = 0.5 - f64::ln(c) / LN2;
                     let nib = n_ib as usize;
-                    lmx = usize::min(n_lmx, n_bit - nib - 7);
+                    lmx = usize::min(n_lmx, n_bit.saturating_sub(nib + 7));
                     if lmx < 1 {
                         return Err("the lower and upper bounds must not be so close one from another");
                     }
-- 
2.43.0


From 221230517935a1e93d7f2725ca22dd5818841fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:37 +0000
Subject: [PATCH 19/47] fix: refuse a list of stepsizes with a too small entry
 before the continuation starts

The second and following entries were checked only when the solver was about
to use them, after calling the user's functions and changing the state.
---
 russell_nonlin/src/solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 1415433..665a799 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -120,6 +120,9 @@ impl<'a, A> Solver<'a, A> {
             return Err("u.dim() must be equal to ndim");
         }
         stop.validate(u, *l)?;
+        if ddl.list.iter().skip(1).any(|ddl_next| *ddl_next <= CONFIG_H_MIN) {
+            return Err("requirement: ddl > 1e-10");
+        }
 
         // reset stats and flags
         self.work.reset_stats_and_flags(ddl.auto);
@@ -175,9 +178,6 @@ impl<'a, A> Solver<'a, A> {
                 // update the stepsize if a list is given
                 if i + 1 < ddl.list.len() {
                     let ddl_next = ddl.list[i + 1];
-                    if ddl_next <= CONFIG_H_MIN {
-                        return Err("requirement: ddl > 1e-10");
-                    }
                     self.work.h = match self.config.method {
                         Method::Arclength => {
                             let den = f64::abs(self.work.dlds);
-- 
2.43.0


From bfb3451fca83345840df5cc1a576aac1dae44818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:53 +0000
Subject: [PATCH 20/47] fix: clear all recorded ODE results when a new run
 starts

Stale entries remained if a kind of recording was switched off between runs,
and the numbering of the output files continued from the previous run. The
stiffness results are now recorded together with the step results, otherwise
they lag behind when the dense output stops the run.
---
 russell_ode/src/output.rs | 57 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index e287a38..7113105 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -424,22 +424,6 @@ impl<'a, A> Output<'a, A> {
     pub(crate) fn initialize(&mut self, x0: f64, x1: f64, stiff_recording: bool) -> Result<(), StrError> {
         assert!(x1 > x0);
         self.stiff_recording = stiff_recording;
-        // clear previous results
-        if self.initialized {
-            if self.step_recording {
-                self.step_h.clear();
-                self.step_x.clear();
-                self.step_global_error.clear();
-                for (_, ym) in self.step_y.iter_mut() {
-                    ym.clear();
-                }
-            }
-            if self.stiff_recording {
-                self.stiff_step_index.clear();
-                self.stiff_x.clear();
-                self.stiff_h_times_rho.clear();
-            }
-        }
         // handle dense output stations
         if self.with_dense_output() {
             if let Some(h_out) = self.dense_h_out {
@@ -470,12 +454,27 @@ impl<'a, A> Output<'a, A> {
                     }
                 }
             }
-            // allocate vectors in dense_y
+        }
+        // clear previous results
+        self.step_file_count = 0;
+        self.step_h.clear();
+        self.step_x.clear();
+        self.step_global_error.clear();
+        for (_, ym) in self.step_y.iter_mut() {
+            ym.clear();
+        }
+        self.dense_file_count = 0;
+        for (_, ym) in self.dense_y.iter_mut() {
+            ym.clear();
+        }
+        self.stiff_step_index.clear();
+        self.stiff_x.clear();
+        self.stiff_h_times_rho.clear();
+        // allocate vectors in dense_y
+        if self.with_dense_output() {
             let n = self.dense_x.len();
             for (_, ym) in self.dense_y.iter_mut() {
-                if ym.len() != n {
-                    ym.resize(n, 0.0);
-                }
+                ym.resize(n, 0.0);
             }
         }
         // set initialized
@@ -537,6 +536,15 @@ impl<'a, A> Output<'a, A> {
             }
         }
 
+        // stiffness results
+        if self.stiff_recording {
+            self.stiff_h_times_rho.push(work.stiff_h_times_rho);
+            if work.stiff_detected {
+                self.stiff_step_index.push(work.stats.n_accepted);
+                self.stiff_x.push(work.stiff_x_first_detect);
+            }
+        }
+
         // --- dense -------------------------------------------------------------------------------------------
         //
         if self.with_dense_output() {
@@ -619,15 +627,6 @@ impl<'a, A> Output<'a, A> {
             }
         }
 
-        // stiffness results
-        if self.stiff_recording {
-            self.stiff_h_times_rho.push(work.stiff_h_times_rho);
-            if work.stiff_detected {
-                self.stiff_step_index.push(work.stats.n_accepted);
-                self.stiff_x.push(work.stiff_x_first_detect);
-            }
-        }
-
         // done
         Ok(false) // do not stop
     }
-- 
2.43.0


From 5caaa832f988c31a21728da62c4ad8efb6ca65c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:53 +0000
Subject: [PATCH 21/47] fix: clear the recorded results when a new continuation
 starts

The output of the nonlinear solver kept appending to the series of the
previous run.
---
 russell_nonlin/src/output.rs | 14 ++++++++++++++
 russell_nonlin/src/solver.rs |  1 +
 2 files changed, 15 insertions(+)

diff --git a/russell_nonlin/src/output.rs b/russell_nonlin/src/output.rs
index b3d6c8e..e3b864a 100644
--- a/russell_nonlin/src/output.rs
+++ b/russell_nonlin/src/output.rs
@@ -187,6 +187,20 @@ impl<'a, A> Output<'a, A> {
 
     // internal ---------------------------------------------------------------------------------------------------------
 
+    /// Clears the results of a previous run
+    pub(crate) fn initialize(&mut self) {
+        self.norm_u.clear();
+        for (_, um) in self.u.iter_mut() {
+            um.clear();
+        }
+        self.l.clear();
+        self.h.clear();
+        for (_, duds_m) in self.duds.iter_mut() {
+            duds_m.clear();
+        }
+        self.dlds.clear();
+    }
+
     /// Executes the output at an accepted step
     pub(crate) fn execute(&mut self, work: &Workspace, u: &Vector, l: f64, args: &mut A) -> Result<bool, StrError> {
         // callback
diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 665a799..2baabed 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -135,6 +135,7 @@ impl<'a, A> Solver<'a, A> {
 
         // first output
         if let Some(out) = output.as_deref_mut() {
+            out.initialize();
             let stop_gracefully = out.execute(&self.work, u, *l, args)?;
             if stop_gracefully {
                 return Ok(Status::Success);
-- 
2.43.0


From 6abbc9148950b990dc77512ca1089da1552fa51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:02 +0000
Subject: [PATCH 22/47] fix: clear the Radau5 reuse flags and the dense output
 of Runge-Kutta methods at the beginning of each run

---
 russell_ode/src/explicit_runge_kutta.rs | 5 +++++
 russell_ode/src/ode_solver.rs           | 1 +
 russell_ode/src/ode_solver_trait.rs     | 3 +++
 russell_ode/src/radau5.rs               | 8 ++++++++
 4 files changed, 17 insertions(+)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 021977c..96da649 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -148,6 +148,11 @@ impl<'a, A> ExplicitRungeKutta<'a, A> {
 }
 
 impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
+    /// Clears the information left by a previous run
+    fn reset(&mut self) {
+        self.dense_out = None;
+    }
+
     /// Enables dense output
     fn enable_dense_output(&mut self) -> Result<(), StrError> {
         self.dense_out = Some(ErkDenseOut::new(self.params.method, self.system.ndim)?);
diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 5f99a82..b6d77d6 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -218,6 +218,7 @@ impl<'a, A> OdeSolver<'a, A> {
 
         // reset variables
         self.work.reset(h, self.params.step.rel_error_prev_min);
+        self.actual.reset();
 
         // current values
         let mut x = x0; // will become x1 at the end
diff --git a/russell_ode/src/ode_solver_trait.rs b/russell_ode/src/ode_solver_trait.rs
index 6432222..4355968 100644
--- a/russell_ode/src/ode_solver_trait.rs
+++ b/russell_ode/src/ode_solver_trait.rs
@@ -4,6 +4,9 @@ use russell_lab::Vector;
 
 /// Defines the numerical solver
 pub(crate) trait OdeSolverTrait<A>: Send {
+    /// Clears the information left by a previous run (called at the beginning of every run)
+    fn reset(&mut self) {}
+
     /// Enables dense output
     fn enable_dense_output(&mut self) -> Result<(), StrError>;
 
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 472191c..5871b13 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -327,6 +327,14 @@ impl<'a, A> Radau5<'a, A> {
 }
 
 impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
+    /// Clears the information left by a previous run
+    fn reset(&mut self) {
+        self.reuse_jacobian = false;
+        self.reuse_jacobian_kk_and_fact = false;
+        self.jacobian_computed = false;
+        self.eta = 1.0;
+    }
+
     /// Enables dense output
     fn enable_dense_output(&mut self) -> Result<(), StrError> {
         Ok(())
-- 
2.43.0


From 8c1a042d2832287e0a85b0bbc346062df7a4d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:15 +0000
Subject: [PATCH 23/47] fix: clear the predictor values kept for debugging at
 the beginning of each nonlinear run

---
 russell_nonlin/src/workspace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/russell_nonlin/src/workspace.rs b/russell_nonlin/src/workspace.rs
index 13c953a..b28c8a0 100644
--- a/russell_nonlin/src/workspace.rs
+++ b/russell_nonlin/src/workspace.rs
@@ -130,5 +130,6 @@ impl Workspace {
         self.follows_rejection = false;
         self.target_reached = false;
         self.stop_gracefully = false;
+        self.predictor_values_debug = None;
     }
 }
-- 
2.43.0


From 405f43dea4a4419f34ed46758abdb2d302f84f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:35 +0000
Subject: [PATCH 24/47] fix: write the right matrix, after the given number of
 steps and in the right format, in the nonlinear solvers

---
 russell_nonlin/src/solver_arclength.rs | 10 +++++-----
 russell_nonlin/src/solver_natural.rs   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 36b1d6d..7370519 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -290,11 +290,11 @@ impl<'a, A> SolverArclength<'a, A> {
 
         // write Gu to a file
         if let Some(nstep) = self.config.write_matrix_after_nstep_and_stop {
-            if nstep > work.stats.n_accepted {
+            if work.stats.n_accepted > nstep {
                 let csc = CscMatrix::from_coo(&self.ggu).unwrap();
                 let key = format!("/tmp/russell_nonlin/ggu_arclength-{:03}", work.stats.n_accepted).to_string();
                 csc.write_matrix_market(&(key.clone() + ".smat"), true, 1e-14)?;
-                csc.write_matrix_market(&(key + ".mtx"), true, 1e-14)?;
+                csc.write_matrix_market(&(key + ".mtx"), false, 1e-14)?;
                 return Err("MATRIX FILES GENERATED in /tmp/russell_nonlin/");
             }
         }
@@ -371,11 +371,11 @@ impl<'a, A> SolverArclength<'a, A> {
 
         // write A to a file
         if let Some(nstep) = self.config.write_matrix_after_nstep_and_stop {
-            if nstep > work.stats.n_accepted {
-                let csc = CscMatrix::from_coo(&self.ggu).unwrap();
+            if work.stats.n_accepted > nstep {
+                let csc = CscMatrix::from_coo(&self.aa).unwrap();
                 let key = format!("/tmp/russell_nonlin/aa_arclength-{:03}", work.stats.n_accepted).to_string();
                 csc.write_matrix_market(&(key.clone() + ".smat"), true, 1e-14)?;
-                csc.write_matrix_market(&(key + ".mtx"), true, 1e-14)?;
+                csc.write_matrix_market(&(key + ".mtx"), false, 1e-14)?;
                 return Err("MATRIX FILES GENERATED in /tmp/russell_nonlin/");
             }
         }
diff --git a/russell_nonlin/src/solver_natural.rs b/russell_nonlin/src/solver_natural.rs
index 11c3819..c5be46a 100644
--- a/russell_nonlin/src/solver_natural.rs
+++ b/russell_nonlin/src/solver_natural.rs
@@ -91,11 +91,11 @@ impl<'a, A> SolverNatural<'a, A> {
 
         // write Gu to a file
         if let Some(nstep) = self.config.write_matrix_after_nstep_and_stop {
-            if nstep > work.stats.n_accepted {
+            if work.stats.n_accepted > nstep {
                 let csc = CscMatrix::from_coo(&self.ggu).unwrap();
                 let key = format!("/tmp/russell_nonlin/ggu_natural-{:03}", work.stats.n_accepted).to_string();
                 csc.write_matrix_market(&(key.clone() + ".smat"), true, 1e-14)?;
-                csc.write_matrix_market(&(key + ".mtx"), true, 1e-14)?;
+                csc.write_matrix_market(&(key + ".mtx"), false, 1e-14)?;
                 return Err("MATRIX FILES GENERATED in /tmp/russell_nonlin/");
             }
         }
-- 
2.43.0


From c6a04e97fe8fd0db42b1fd672cf8d9a6d00392bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:16 +0000
Subject: [PATCH 25/47] fix: propagate NaN values in the maximum norm of
 vectors

---
 russell_lab/src/vector/complex_vec_norm.rs |  2 +-
 russell_lab/src/vector/vec_norm.rs         | 15 +++++++++------
 russell_lab/src/vector/vec_norm_chunk.rs   | 15 +++++++++------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/russell_lab/src/vector/complex_vec_norm.rs b/russell_lab/src/vector/complex_vec_norm.rs
index be4e7ee..8a137ec 100644
--- a/russell_lab/src/vector/complex_vec_norm.rs
+++ b/russell_lab/src/vector/complex_vec_norm.rs
@@ -57,7 +57,7 @@ pub fn complex_vec_norm(v: &ComplexVector, kind: Norm) -> f64 {
                 let mut max = 0.0;
                 for i in 0..v.dim() {
                     let abs = v[i].norm();
-                    if abs > max {
+                    if abs > max || abs.is_nan() {
                         max = abs;
                     }
                 }
diff --git a/russell_lab/src/vector/vec_norm.rs b/russell_lab/src/vector/vec_norm.rs
index 3c6c483..fdba67c 100644
--- a/russell_lab/src/vector/vec_norm.rs
+++ b/russell_lab/src/vector/vec_norm.rs
@@ -9,10 +9,6 @@ unsafe extern "C" {
     // Computes the Euclidean norm
     // <https://www.netlib.org/lapack/explore-html/d6/de0/dnrm2_8f90.html>
     fn cblas_dnrm2(n: i32, x: *const f64, incx: i32) -> f64;
-
-    // Finds the index of the maximum absolute value
-    // <https://www.netlib.org/lapack/explore-html/dd/de0/idamax_8f.html>
-    fn cblas_idamax(n: i32, x: *const f64, incx: i32) -> usize;
 }
 
 /// Returns the vector norm
@@ -42,8 +38,15 @@ pub fn vec_norm(v: &Vector, kind: Norm) -> f64 {
         match kind {
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, v.as_data().as_ptr(), 1),
             Norm::Inf | Norm::Max => {
-                let idx = cblas_idamax(n, v.as_data().as_ptr(), 1);
-                f64::abs(v.get(idx))
+                // note that idamax may skip NaN values
+                let mut max = 0.0;
+                for i in 0..v.dim() {
+                    let abs = f64::abs(v[i]);
+                    if abs > max || abs.is_nan() {
+                        max = abs;
+                    }
+                }
+                max
             }
             Norm::One => cblas_dasum(n, v.as_data().as_ptr(), 1),
         }
diff --git a/russell_lab/src/vector/vec_norm_chunk.rs b/russell_lab/src/vector/vec_norm_chunk.rs
index 52e4a86..038bfbf 100644
--- a/russell_lab/src/vector/vec_norm_chunk.rs
+++ b/russell_lab/src/vector/vec_norm_chunk.rs
@@ -9,10 +9,6 @@ unsafe extern "C" {
     // Computes the Euclidean norm
     // <https://www.netlib.org/lapack/explore-html/d6/de0/dnrm2_8f90.html>
     fn cblas_dnrm2(n: i32, x: *const f64, incx: i32) -> f64;
-
-    // Finds the index of the maximum absolute value
-    // <https://www.netlib.org/lapack/explore-html/dd/de0/idamax_8f.html>
-    fn cblas_idamax(n: i32, x: *const f64, incx: i32) -> usize;
 }
 
 /// Returns the vector norm of a chunk of the vector
@@ -54,8 +50,15 @@ pub fn vec_norm_chunk(v: &Vector, kind: Norm, start: usize, stop: usize) -> f64
         match kind {
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, slice.as_ptr(), 1),
             Norm::Inf | Norm::Max => {
-                let idx = cblas_idamax(n, slice.as_ptr(), 1);
-                f64::abs(slice[idx])
+                // note that idamax may skip NaN values
+                let mut max = 0.0;
+                for x in slice {
+                    let abs = f64::abs(*x);
+                    if abs > max || abs.is_nan() {
+                        max = abs;
+                    }
+                }
+                max
             }
             Norm::One => cblas_dasum(n, slice.as_ptr(), 1),
         }
-- 
2.43.0


From ac40bee01af27c6aff136cf5b6cdab9810c930d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:25 +0000
Subject: [PATCH 26/47] fix: detect NaN residuals in the nonlinear solver
 iterations

---
 russell_nonlin/src/iteration_error.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/russell_nonlin/src/iteration_error.rs b/russell_nonlin/src/iteration_error.rs
index bd190a5..526b762 100644
--- a/russell_nonlin/src/iteration_error.rs
+++ b/russell_nonlin/src/iteration_error.rs
@@ -131,10 +131,11 @@ impl IterationError {
     /// Returns true if NaN or Inf is found, false otherwise (success)
     pub fn analyze_residual(&mut self, iteration: usize, gg: &Vector, nn: f64) -> bool {
         // compute max norm
-        self.residual_max = f64::max(vec_norm(gg, Norm::Max), f64::abs(nn));
+        let gg_max = vec_norm(gg, Norm::Max);
+        self.residual_max = f64::max(gg_max, f64::abs(nn));
 
-        // check for NaN or Inf
-        if !self.residual_max.is_finite() {
+        // check for NaN or Inf (note that f64::max discards NaN values)
+        if !gg_max.is_finite() || !nn.is_finite() {
             return true;
         }
 
-- 
2.43.0


From 58ef2cf4520deb3b51df2744f8dc550229ec09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:50:50 +0000
Subject: [PATCH 27/47] fix: reject steps with a NaN error estimate in the ODE
 solvers

---
 russell_ode/src/explicit_runge_kutta.rs | 5 ++++-
 russell_ode/src/ode_solver.rs           | 3 +++
 russell_ode/src/radau5.rs               | 7 ++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 96da649..882210d 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -237,7 +237,10 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
                 let ratio = err_m / sk;
                 sum += ratio * ratio;
             }
-            work.rel_error = f64::max(f64::sqrt(sum / dim), 1.0e-10);
+            work.rel_error = f64::sqrt(sum / dim);
+            if work.rel_error < 1.0e-10 {
+                work.rel_error = 1.0e-10; // f64::max would discard NaN values
+            }
         }
         Ok(())
     }
diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index b6d77d6..6bf7c8e 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -350,6 +350,9 @@ impl<'a, A> OdeSolver<'a, A> {
 
             // reject step
             } else {
+                // check for anomalies (reducing the stepsize cannot help if the current state is invalid)
+                vec_all_finite(&y, self.params.debug)?;
+
                 // set flags
                 if self.work.stats.n_accepted > 0 {
                     self.work.stats.n_rejected += 1;
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 5871b13..8a63e49 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -697,7 +697,12 @@ fn rms_norm(err: &Vector, scaling: &Vector) -> f64 {
         let ratio = err[m] / scaling[m];
         sum += ratio * ratio;
     }
-    f64::max(1e-10, f64::sqrt(sum / (ndim as f64)))
+    let rms = f64::sqrt(sum / (ndim as f64));
+    if rms < 1e-10 {
+        1e-10 // f64::max would discard NaN values
+    } else {
+        rms
+    }
 }
 
 // Radau5 constants ------------------------------------------------------------
-- 
2.43.0


From dc28209a0bb6f942ee9380f76ec7577d4e057682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:04 +0000
Subject: [PATCH 28/47] fix: do not report convergence after NaN function
 values

---
 russell_lab/src/algo/min_solver.rs        | 3 +++
 russell_lab/src/algo/quadrature.rs        | 3 +++
 russell_lab/src/algo/root_finder_brent.rs | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/russell_lab/src/algo/min_solver.rs b/russell_lab/src/algo/min_solver.rs
index 1b6549d..31919bb 100644
--- a/russell_lab/src/algo/min_solver.rs
+++ b/russell_lab/src/algo/min_solver.rs
@@ -273,6 +273,9 @@ impl MinSolver {
         if !converged {
             return Err("brent solver failed to converge");
         }
+        if fx.is_nan() {
+            return Err("the function must not return NaN");
+        }
 
         // done
         self.stats.stop_sw_total();
diff --git a/russell_lab/src/algo/quadrature.rs b/russell_lab/src/algo/quadrature.rs
index f7f2575..e505233 100644
--- a/russell_lab/src/algo/quadrature.rs
+++ b/russell_lab/src/algo/quadrature.rs
@@ -351,6 +351,9 @@ impl Quadrature {
         if !converged {
             return Err("integrate failed to converge");
         }
+        if !ans.is_finite() {
+            return Err("the integral is either infinite or NaN");
+        }
 
         // done
         self.stats.set_error_estimate(err);
diff --git a/russell_lab/src/algo/root_finder_brent.rs b/russell_lab/src/algo/root_finder_brent.rs
index 03d4bc6..0f9f030 100644
--- a/russell_lab/src/algo/root_finder_brent.rs
+++ b/russell_lab/src/algo/root_finder_brent.rs
@@ -85,6 +85,9 @@ impl RootFinder {
         self.stats.inc_n_function(2);
 
         // check
+        if fa.is_nan() || fb.is_nan() {
+            return Err("the function must not return NaN");
+        }
         if fa * fb >= -f64::EPSILON {
             return Err("xa and xb must bracket the root and f(xa) × f(xb) < 0");
         }
@@ -170,6 +173,9 @@ impl RootFinder {
             b += step_new;
             fb = f(b, args)?;
             self.stats.inc_n_function(1);
+            if fb.is_nan() {
+                return Err("the function must not return NaN");
+            }
 
             // update c
             if (fb > 0.0 && fc > 0.0) || (fb < 0.0 && fc < 0.0) {
-- 
2.43.0


From 6e369d5f1a27ae27b6ca90c26026a85a1812e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:05 +0000
Subject: [PATCH 29/47] fix: return errors from the Matrix Market reader
 instead of panicking on malformed files

---
 russell_sparse/src/read_matrix_market.rs | 52 ++++++++++++------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/russell_sparse/src/read_matrix_market.rs b/russell_sparse/src/read_matrix_market.rs
index 5a0ce55..a7d65cb 100644
--- a/russell_sparse/src/read_matrix_market.rs
+++ b/russell_sparse/src/read_matrix_market.rs
@@ -170,13 +170,13 @@ impl MatrixMarketData {
             };
         }
 
-        self.i -= 1; // MatrixMarket is one-based, so make it zero-based here
-        self.j -= 1;
-
-        if self.i < 0 || self.i >= self.m || self.j < 0 || self.j >= self.n {
+        if self.i < 1 || self.i > self.m || self.j < 1 || self.j > self.n {
             return Err("found an invalid index");
         }
 
+        self.i -= 1; // MatrixMarket is one-based, so make it zero-based here
+        self.j -= 1;
+
         self.pos += 1; // next position
 
         Ok(true) // returns true == parsed
@@ -360,7 +360,7 @@ where
 
     // read first line
     let header = match lines_iter.next() {
-        Some(v) => v.unwrap(), // must panic because no error expected here
+        Some(v) => v.map_err(|_| "cannot read line from file")?,
         None => return Err("the file is empty"),
     };
 
@@ -369,7 +369,10 @@ where
 
     // read and parse dimensions
     loop {
-        let line = lines_iter.next().unwrap().unwrap(); // must panic because no error expected here
+        let line = match lines_iter.next() {
+            Some(v) => v.map_err(|_| "cannot read line from file")?,
+            None => return Err("cannot find the line with dimensions"),
+        };
         if data.parse_dimensions(&line)? {
             break;
         }
@@ -392,41 +395,36 @@ where
     };
 
     // set max number of entries
-    let mut max = data.nnz;
+    let mut max = data.nnz as usize;
     if data.symmetric && symmetric_handling == MMsym::MakeItFull {
-        max = 2 * data.nnz;
+        max = 2 * max;
     }
 
     // read and parse values
     if data.complex {
-        let mut coo = ComplexCooMatrix::new(data.m as usize, data.n as usize, max as usize, sym).unwrap();
+        let mut coo = ComplexCooMatrix::new(data.m as usize, data.n as usize, max, sym)?;
         loop {
             match lines_iter.next() {
                 Some(v) => {
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read line from file")?;
                     if data.parse_values(&line)? {
                         if data.symmetric {
                             match symmetric_handling {
                                 MMsym::LeaveAsLower => {
-                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                                 }
                                 MMsym::SwapToUpper => {
-                                    coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))?;
                                 }
                                 MMsym::MakeItFull => {
-                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                                     if data.i != data.j {
-                                        coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))
-                                            .unwrap();
+                                        coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))?;
                                     }
                                 }
                             }
                         } else {
-                            coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                .unwrap();
+                            coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                         };
                     }
                 }
@@ -438,29 +436,29 @@ where
         }
         Ok((None, Some(coo)))
     } else {
-        let mut coo = CooMatrix::new(data.m as usize, data.n as usize, max as usize, sym).unwrap();
+        let mut coo = CooMatrix::new(data.m as usize, data.n as usize, max, sym)?;
         loop {
             match lines_iter.next() {
                 Some(v) => {
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read line from file")?;
                     if data.parse_values(&line)? {
                         if data.symmetric {
                             match symmetric_handling {
                                 MMsym::LeaveAsLower => {
-                                    coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                                    coo.put(data.i as usize, data.j as usize, data.aij)?;
                                 }
                                 MMsym::SwapToUpper => {
-                                    coo.put(data.j as usize, data.i as usize, data.aij).unwrap();
+                                    coo.put(data.j as usize, data.i as usize, data.aij)?;
                                 }
                                 MMsym::MakeItFull => {
-                                    coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                                    coo.put(data.i as usize, data.j as usize, data.aij)?;
                                     if data.i != data.j {
-                                        coo.put(data.j as usize, data.i as usize, data.aij).unwrap();
+                                        coo.put(data.j as usize, data.i as usize, data.aij)?;
                                     }
                                 }
                             }
                         } else {
-                            coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                            coo.put(data.i as usize, data.j as usize, data.aij)?;
                         };
                     }
                 }
-- 
2.43.0


From 4b78eb284b0744124cf692d85c0417761d2c2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:05 +0000
Subject: [PATCH 30/47] fix: report unreadable lines when reading tables and
 text matrices

---
 russell_lab/src/base/read_table.rs   | 2 +-
 russell_lab/src/matrix/num_matrix.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/base/read_table.rs b/russell_lab/src/base/read_table.rs
index e48de2b..2dff5b0 100644
--- a/russell_lab/src/base/read_table.rs
+++ b/russell_lab/src/base/read_table.rs
@@ -134,7 +134,7 @@ where
         match lines_iter.next() {
             Some(v) => {
                 // extract line
-                let line = v.unwrap(); // must panic because no error expected here
+                let line = v.map_err(|_| "cannot read line from file")?;
 
                 // ignore comments or empty lines
                 let maybe_data = line.trim_start().trim_end_matches("\n");
diff --git a/russell_lab/src/matrix/num_matrix.rs b/russell_lab/src/matrix/num_matrix.rs
index ebe04dc..6c5a5af 100644
--- a/russell_lab/src/matrix/num_matrix.rs
+++ b/russell_lab/src/matrix/num_matrix.rs
@@ -560,7 +560,7 @@ where
             match lines_iter.next() {
                 Some(v) => {
                     // extract line
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read line from file")?;
 
                     // ignore comments or empty lines
                     let maybe_data = line.trim_start().trim_end_matches("\n");
-- 
2.43.0


From 0a149da57e3f0017ef45fff6f819a11d5bba806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:07 +0000
Subject: [PATCH 31/47] fix: give mutable access to the components of a matrix
 without access to its length

---
 russell_lab/src/matrix/num_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/matrix/num_matrix.rs b/russell_lab/src/matrix/num_matrix.rs
index 6c5a5af..9cb5967 100644
--- a/russell_lab/src/matrix/num_matrix.rs
+++ b/russell_lab/src/matrix/num_matrix.rs
@@ -732,7 +732,7 @@ where
     /// assert_eq!(data, &[1.0, 2.2, 2.0, 4.0]);
     /// ```
     #[inline]
-    pub fn as_mut_data(&mut self) -> &mut Vec<T> {
+    pub fn as_mut_data(&mut self) -> &mut [T] {
         &mut self.data
     }
 
-- 
2.43.0


From 555f3e95f702961554a94cb0d5d309e1aef2b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:40 +0000
Subject: [PATCH 32/47] fix: refuse serialized matrices whose number of values
 does not match their dimensions

---
 russell_lab/src/matrix/num_matrix.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/russell_lab/src/matrix/num_matrix.rs b/russell_lab/src/matrix/num_matrix.rs
index 9cb5967..07a1e4a 100644
--- a/russell_lab/src/matrix/num_matrix.rs
+++ b/russell_lab/src/matrix/num_matrix.rs
@@ -163,6 +163,7 @@ use std::path::Path;
 /// }
 /// ```
 #[derive(Clone, Debug, Deserialize, Serialize)]
+#[serde(try_from = "NumMatrixData<T>")]
 pub struct NumMatrix<T>
 where
     T: AddAssign + MulAssign + Num + NumCast + Copy + DeserializeOwned + Serialize,
@@ -173,6 +174,33 @@ where
     data: Vec<T>, // col-major
 }
 
+/// Holds the deserialized fields of NumMatrix before they are checked
+#[derive(Deserialize)]
+#[serde(rename = "NumMatrix")]
+struct NumMatrixData<T> {
+    nrow: usize,
+    ncol: usize,
+    data: Vec<T>,
+}
+
+impl<T> TryFrom<NumMatrixData<T>> for NumMatrix<T>
+where
+    T: AddAssign + MulAssign + Num + NumCast + Copy + DeserializeOwned + Serialize,
+{
+    type Error = StrError;
+
+    fn try_from(input: NumMatrixData<T>) -> Result<Self, Self::Error> {
+        if input.nrow.checked_mul(input.ncol) != Some(input.data.len()) {
+            return Err("the number of values must be equal to the number of rows times the number of columns");
+        }
+        Ok(NumMatrix {
+            nrow: input.nrow,
+            ncol: input.ncol,
+            data: input.data,
+        })
+    }
+}
+
 impl<T> NumMatrix<T>
 where
     T: AddAssign + MulAssign + Num + NumCast + Copy + DeserializeOwned + Serialize,
-- 
2.43.0


From 3efa5d3451533543cc27203179c709b2b07dfdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:46 +0000
Subject: [PATCH 33/47] fix: read the BTF-COLAMD ordering back from its name

---
 russell_sparse/src/enums.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/russell_sparse/src/enums.rs b/russell_sparse/src/enums.rs
index 5042b50..1e9a5a4 100644
--- a/russell_sparse/src/enums.rs
+++ b/russell_sparse/src/enums.rs
@@ -394,6 +394,7 @@ impl Ordering {
             "amf" => Ordering::Amf,
             "auto" => Ordering::Auto,
             "best" => Ordering::Best,
+            "btfcolamd" => Ordering::BtfColamd,
             "cholmod" => Ordering::Cholmod,
             "colamd" => Ordering::Colamd,
             "metis" => Ordering::Metis,
-- 
2.43.0


From 515d275071c5779ae99fa9c2b16358edda7fe52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:47 +0000
Subject: [PATCH 34/47] fix: tell MUMPS about positive-definite symmetric
 matrices only

---
 russell_sparse/c_code/interface_complex_mumps.c | 8 +++++---
 russell_sparse/c_code/interface_mumps.c         | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_mumps.c b/russell_sparse/c_code/interface_complex_mumps.c
index e137e4a..b3b20a2 100644
--- a/russell_sparse/c_code/interface_complex_mumps.c
+++ b/russell_sparse/c_code/interface_complex_mumps.c
@@ -126,9 +126,11 @@ int32_t complex_solver_mumps_initialize(struct InterfaceComplexMUMPS *solver,
     solver->data.par = MUMPS_PAR_HOST_ALSO_WORKS;
     solver->data.sym = 0; // unsymmetric (page 27)
     if (general_symmetric == C_TRUE) {
-        solver->data.sym = 2; // general symmetric (page 27)
-    } else if (positive_definite == C_TRUE) {
-        solver->data.sym = 1; // symmetric positive-definite (page 27)
+        if (positive_definite == C_TRUE) {
+            solver->data.sym = 1; // symmetric positive-definite (page 27)
+        } else {
+            solver->data.sym = 2; // general symmetric (page 27)
+        }
     }
 
     set_mumps_verbose(&solver->data, C_FALSE);
diff --git a/russell_sparse/c_code/interface_mumps.c b/russell_sparse/c_code/interface_mumps.c
index 9928391..5ae4e74 100644
--- a/russell_sparse/c_code/interface_mumps.c
+++ b/russell_sparse/c_code/interface_mumps.c
@@ -126,9 +126,11 @@ int32_t solver_mumps_initialize(struct InterfaceMUMPS *solver,
     solver->data.par = MUMPS_PAR_HOST_ALSO_WORKS;
     solver->data.sym = 0; // unsymmetric (page 27)
     if (general_symmetric == C_TRUE) {
-        solver->data.sym = 2; // general symmetric (page 27)
-    } else if (positive_definite == C_TRUE) {
-        solver->data.sym = 1; // symmetric positive-definite (page 27)
+        if (positive_definite == C_TRUE) {
+            solver->data.sym = 1; // symmetric positive-definite (page 27)
+        } else {
+            solver->data.sym = 2; // general symmetric (page 27)
+        }
     }
 
     set_mumps_verbose(&solver->data, C_FALSE);
-- 
2.43.0


From 87e5bfc6314c654c62ab1f693f7872ae1699d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:47 +0000
Subject: [PATCH 35/47] fix: tell cuDSS about positive-definite symmetric
 matrices only

---
 russell_sparse/c_code/interface_complex_cudss.cu | 7 +++----
 russell_sparse/c_code/interface_cudss.cu         | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_cudss.cu b/russell_sparse/c_code/interface_complex_cudss.cu
index c29d8e3..9057968 100644
--- a/russell_sparse/c_code/interface_complex_cudss.cu
+++ b/russell_sparse/c_code/interface_complex_cudss.cu
@@ -346,10 +346,9 @@ extern "C" int32_t complex_solver_cudss_initialize(struct InterfaceComplexCUDSS
     if (general_symmetric) {
         mtype = CUDSS_MTYPE_SYMMETRIC;
         mview = CUDSS_MVIEW_LOWER;
-    }
-    if (positive_definite) {
-        mtype = CUDSS_MTYPE_SPD;
-        mview = CUDSS_MVIEW_LOWER;
+        if (positive_definite) {
+            mtype = CUDSS_MTYPE_SPD;
+        }
     }
     status = cudssMatrixCreateCsr(&solver->aa_mat, ndim, ndim, nnz, solver->gpu_row_pointers, NULL,
                                   solver->gpu_col_indices, solver->gpu_values, CUDSS_R_32I,
diff --git a/russell_sparse/c_code/interface_cudss.cu b/russell_sparse/c_code/interface_cudss.cu
index 76382a2..0ced0c8 100644
--- a/russell_sparse/c_code/interface_cudss.cu
+++ b/russell_sparse/c_code/interface_cudss.cu
@@ -345,10 +345,9 @@ extern "C" int32_t solver_cudss_initialize(struct InterfaceCUDSS *solver,
     if (general_symmetric) {
         mtype = CUDSS_MTYPE_SYMMETRIC;
         mview = CUDSS_MVIEW_LOWER;
-    }
-    if (positive_definite) {
-        mtype = CUDSS_MTYPE_SPD;
-        mview = CUDSS_MVIEW_LOWER;
+        if (positive_definite) {
+            mtype = CUDSS_MTYPE_SPD;
+        }
     }
     status = cudssMatrixCreateCsr(&solver->aa_mat, ndim, ndim, nnz, solver->gpu_row_pointers, NULL,
                                   solver->gpu_col_indices, solver->gpu_values, CUDSS_R_32I,
-- 
2.43.0


From f16088b9e2f6786804cc913016518a5bd1d50596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:47 +0000
Subject: [PATCH 36/47] fix: keep the solver parameters for subsequent
 factorizations

---
 russell_sparse/src/complex_solver_cudss.rs   | 30 +++++++++++++-------
 russell_sparse/src/complex_solver_mumps.rs   | 15 +++++++---
 russell_sparse/src/complex_solver_umfpack.rs | 15 +++++++---
 russell_sparse/src/lin_sol_params.rs         |  2 +-
 russell_sparse/src/solver_cudss.rs           | 30 +++++++++++++-------
 russell_sparse/src/solver_mumps.rs           | 15 +++++++---
 russell_sparse/src/solver_umfpack.rs         | 15 +++++++---
 7 files changed, 83 insertions(+), 39 deletions(-)

diff --git a/russell_sparse/src/complex_solver_cudss.rs b/russell_sparse/src/complex_solver_cudss.rs
index 59f91c9..bfe621d 100644
--- a/russell_sparse/src/complex_solver_cudss.rs
+++ b/russell_sparse/src/complex_solver_cudss.rs
@@ -123,6 +123,9 @@ pub struct ComplexSolverCUDSS {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the configuration parameters saved in initialize
+    initialized_params: LinSolParams,
+
     /// Holds the used matching algorithm (retrieved after factorize)
     effective_matching: i32,
 
@@ -167,6 +170,7 @@ impl ComplexSolverCUDSS {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_params: LinSolParams::new(),
                 effective_matching: 0,
                 effective_pivoting: 0,
                 stopwatch: Stopwatch::new(),
@@ -187,7 +191,7 @@ impl ComplexLinSolTrait for ComplexSolverCUDSS {
     ///   if symmetric, the symmetric flag must be [Sym::YesLower]
     /// * `params` -- configuration parameters; None => use default
     ///
-    /// **Important:** `params` must be set to `None` when calling `factorize` again;
+    /// **Important:** `params` must be `None` or equal to the first ones when calling `factorize` again;
     /// e.g., when the values of the coefficient matrix change but the structure remains the same.
     /// This limitation is required because the first factorization performs both the *symbolic* and
     /// *numeric* factorizations, whereas the subsequent factorizations are only *numeric*. Thus,
@@ -215,8 +219,10 @@ impl ComplexLinSolTrait for ComplexSolverCUDSS {
             if mat.nnz != self.initialized_nnz {
                 return Err("subsequent factorizations must use the same matrix (nnz differs)");
             }
-            if params.is_some() {
-                return Err("subsequent factorizations must not change LinSolParams");
+            if let Some(p) = params {
+                if p != self.initialized_params {
+                    return Err("subsequent factorizations must not change LinSolParams");
+                }
             }
             self.csr.as_mut().unwrap().update_from_coo(mat)?;
         } else {
@@ -229,15 +235,22 @@ impl ComplexLinSolTrait for ComplexSolverCUDSS {
             if mat.symmetric == Sym::YesFull || mat.symmetric == Sym::YesUpper {
                 return Err("cuDSS requires Sym::YesLower for symmetric matrices");
             }
+            let par = if let Some(p) = params { p } else { LinSolParams::new() };
+            if let Some(v) = par.hybrid_memory_factor {
+                if v < 0.01 || v > 0.99 {
+                    return Err("the hybrid memory factor must be in [0.01, 0.99]");
+                }
+            }
             self.initialized_sym = mat.symmetric;
             self.initialized_ndim = mat.nrow;
             self.initialized_nnz = mat.nnz;
+            self.initialized_params = par;
             self.csr = Some(ComplexCsrMatrix::from_coo(mat)?);
         }
         let csr = self.csr.as_ref().unwrap();
 
         // parameters
-        let par = if let Some(p) = params { p } else { LinSolParams::new() };
+        let par = self.initialized_params;
 
         // input parameters
         let ordering = cudss_ordering(par.ordering);
@@ -256,13 +269,8 @@ impl ComplexLinSolTrait for ComplexSolverCUDSS {
 
         // hybrid memory factor
         let hybrid_memory_factor = match par.hybrid_memory_factor {
-            Some(v) => {
-                if v < 0.01 || v > 0.99 {
-                    return Err("the hybrid memory factor must be in [0.01, 0.99]");
-                }
-                v
-            }
-            None => -1.0,
+            Some(val) => val,
+            None => -1.0, // tell cuDSS not to use the hybrid mode
         };
 
         // requests
diff --git a/russell_sparse/src/complex_solver_mumps.rs b/russell_sparse/src/complex_solver_mumps.rs
index e604c22..a5df0bf 100644
--- a/russell_sparse/src/complex_solver_mumps.rs
+++ b/russell_sparse/src/complex_solver_mumps.rs
@@ -99,6 +99,9 @@ pub struct ComplexSolverMUMPS {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the configuration parameters saved in initialize
+    initialized_params: LinSolParams,
+
     /// Holds the used ordering (after factorize)
     effective_ordering: i32,
 
@@ -177,6 +180,7 @@ impl ComplexSolverMUMPS {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_params: LinSolParams::new(),
                 effective_ordering: -1,
                 effective_scaling: -1,
                 effective_num_threads: 0,
@@ -206,7 +210,7 @@ impl ComplexLinSolTrait for ComplexSolverMUMPS {
     ///   (`nrow = ncol`) and, if symmetric, the symmetric flag must be [Sym::YesLower]
     /// * `params` -- configuration parameters; None => use default
     ///
-    /// **Important:** `params` must be set to `None` when calling `factorize` again;
+    /// **Important:** `params` must be `None` or equal to the first ones when calling `factorize` again;
     /// e.g., when the values of the coefficient matrix change but the structure remains the same.
     /// This limitation is required because the first factorization performs both the *symbolic* and
     /// *numeric* factorizations, whereas the subsequent factorizations are only *numeric*. Thus,
@@ -235,8 +239,10 @@ impl ComplexLinSolTrait for ComplexSolverMUMPS {
             if mat.nnz != self.initialized_nnz {
                 return Err("subsequent factorizations must use the same matrix (nnz differs)");
             }
-            if params.is_some() {
-                return Err("subsequent factorizations must not change LinSolParams");
+            if let Some(p) = params {
+                if p != self.initialized_params {
+                    return Err("subsequent factorizations must not change LinSolParams");
+                }
             }
         } else {
             if mat.nrow != mat.ncol {
@@ -251,6 +257,7 @@ impl ComplexLinSolTrait for ComplexSolverMUMPS {
             self.initialized_sym = mat.symmetric;
             self.initialized_ndim = mat.nrow;
             self.initialized_nnz = mat.nnz;
+            self.initialized_params = if let Some(p) = params { p } else { LinSolParams::new() };
             self.fortran_indices_i = vec![0; mat.nnz];
             self.fortran_indices_j = vec![0; mat.nnz];
             self.values = vec![Complex64::new(0.0, 0.0); mat.nnz];
@@ -264,7 +271,7 @@ impl ComplexLinSolTrait for ComplexSolverMUMPS {
         }
 
         // configuration parameters
-        let par = if let Some(p) = params { p } else { LinSolParams::new() };
+        let par = self.initialized_params;
 
         // error analysis option
         self.error_analysis_option = if par.compute_condition_numbers {
diff --git a/russell_sparse/src/complex_solver_umfpack.rs b/russell_sparse/src/complex_solver_umfpack.rs
index b55c105..ea82275 100644
--- a/russell_sparse/src/complex_solver_umfpack.rs
+++ b/russell_sparse/src/complex_solver_umfpack.rs
@@ -139,6 +139,9 @@ pub struct ComplexSolverUMFPACK {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the configuration parameters saved in initialize
+    initialized_params: LinSolParams,
+
     /// Holds the used strategy (after factorize)
     effective_strategy: i32,
 
@@ -204,6 +207,7 @@ impl ComplexSolverUMFPACK {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_params: LinSolParams::new(),
                 effective_strategy: -1,
                 effective_ordering: -1,
                 effective_scaling: -1,
@@ -229,7 +233,7 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
     ///   if symmetric, the symmetric flag must be [Sym::YesFull]
     /// * `params` -- configuration parameters; None => use default
     ///
-    /// **Important:** `params` must be set to `None` when calling `factorize` again;
+    /// **Important:** `params` must be `None` or equal to the first ones when calling `factorize` again;
     /// e.g., when the values of the coefficient matrix change but the structure remains the same.
     /// This limitation is required because the first factorization performs both the *symbolic* and
     /// *numeric* factorizations, whereas the subsequent factorizations are only *numeric*. Thus,
@@ -257,8 +261,10 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
             if mat.nnz != self.initialized_nnz {
                 return Err("subsequent factorizations must use the same matrix (nnz differs)");
             }
-            if params.is_some() {
-                return Err("subsequent factorizations must not change LinSolParams");
+            if let Some(p) = params {
+                if p != self.initialized_params {
+                    return Err("subsequent factorizations must not change LinSolParams");
+                }
             }
             self.csc.as_mut().unwrap().update_from_coo(mat)?;
         } else {
@@ -274,12 +280,13 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
             self.initialized_sym = mat.symmetric;
             self.initialized_ndim = mat.nrow;
             self.initialized_nnz = mat.nnz;
+            self.initialized_params = if let Some(p) = params { p } else { LinSolParams::new() };
             self.csc = Some(ComplexCscMatrix::from_coo(mat)?);
         }
         let csc = self.csc.as_ref().unwrap();
 
         // parameters
-        let par = if let Some(p) = params { p } else { LinSolParams::new() };
+        let par = self.initialized_params;
 
         // input parameters
         let ordering = umfpack_ordering(par.ordering);
diff --git a/russell_sparse/src/lin_sol_params.rs b/russell_sparse/src/lin_sol_params.rs
index 61ff435..1aab333 100644
--- a/russell_sparse/src/lin_sol_params.rs
+++ b/russell_sparse/src/lin_sol_params.rs
@@ -1,7 +1,7 @@
 use super::{Matching, Ordering, Pivoting, Scaling};
 
 /// Defines the configuration parameters for the linear system solver
-#[derive(Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct LinSolParams {
     /// Defines the symmetric permutation (ordering)
     pub ordering: Ordering,
diff --git a/russell_sparse/src/solver_cudss.rs b/russell_sparse/src/solver_cudss.rs
index 7b9db2d..1d78673 100644
--- a/russell_sparse/src/solver_cudss.rs
+++ b/russell_sparse/src/solver_cudss.rs
@@ -111,6 +111,9 @@ pub struct SolverCUDSS {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the configuration parameters saved in initialize
+    initialized_params: LinSolParams,
+
     /// Holds the used matching algorithm (retrieved after factorize)
     effective_matching: i32,
 
@@ -155,6 +158,7 @@ impl SolverCUDSS {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_params: LinSolParams::new(),
                 effective_matching: 0,
                 effective_pivoting: 0,
                 stopwatch: Stopwatch::new(),
@@ -175,7 +179,7 @@ impl LinSolTrait for SolverCUDSS {
     ///   if symmetric, the symmetric flag must be [Sym::YesLower]
     /// * `params` -- configuration parameters; None => use default
     ///
-    /// **Important:** `params` must be set to `None` when calling `factorize` again;
+    /// **Important:** `params` must be `None` or equal to the first ones when calling `factorize` again;
     /// e.g., when the values of the coefficient matrix change but the structure remains the same.
     /// This limitation is required because the first factorization performs both the *symbolic* and
     /// *numeric* factorizations, whereas the subsequent factorizations are only *numeric*. Thus,
@@ -203,8 +207,10 @@ impl LinSolTrait for SolverCUDSS {
             if mat.nnz != self.initialized_nnz {
                 return Err("subsequent factorizations must use the same matrix (nnz differs)");
             }
-            if params.is_some() {
-                return Err("subsequent factorizations must not change LinSolParams");
+            if let Some(p) = params {
+                if p != self.initialized_params {
+                    return Err("subsequent factorizations must not change LinSolParams");
+                }
             }
             self.csr.as_mut().unwrap().update_from_coo(mat)?;
         } else {
@@ -217,15 +223,22 @@ impl LinSolTrait for SolverCUDSS {
             if mat.symmetric == Sym::YesFull || mat.symmetric == Sym::YesUpper {
                 return Err("cuDSS requires Sym::YesLower for symmetric matrices");
             }
+            let par = if let Some(p) = params { p } else { LinSolParams::new() };
+            if let Some(v) = par.hybrid_memory_factor {
+                if v < 0.01 || v > 0.99 {
+                    return Err("the hybrid memory factor must be in [0.01, 0.99]");
+                }
+            }
             self.initialized_sym = mat.symmetric;
             self.initialized_ndim = mat.nrow;
             self.initialized_nnz = mat.nnz;
+            self.initialized_params = par;
             self.csr = Some(CsrMatrix::from_coo(mat)?);
         }
         let csr = self.csr.as_ref().unwrap();
 
         // parameters
-        let par = if let Some(p) = params { p } else { LinSolParams::new() };
+        let par = self.initialized_params;
 
         // input parameters
         let ordering = cudss_ordering(par.ordering);
@@ -244,13 +257,8 @@ impl LinSolTrait for SolverCUDSS {
 
         // hybrid memory factor
         let hybrid_memory_factor = match par.hybrid_memory_factor {
-            Some(v) => {
-                if v < 0.01 || v > 0.99 {
-                    return Err("the hybrid memory factor must be in [0.01, 0.99]");
-                }
-                v
-            }
-            None => -1.0,
+            Some(val) => val,
+            None => -1.0, // tell cuDSS not to use the hybrid mode
         };
 
         // requests
diff --git a/russell_sparse/src/solver_mumps.rs b/russell_sparse/src/solver_mumps.rs
index 6c2c832..b168fed 100644
--- a/russell_sparse/src/solver_mumps.rs
+++ b/russell_sparse/src/solver_mumps.rs
@@ -92,6 +92,9 @@ pub struct SolverMUMPS {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the configuration parameters saved in initialize
+    initialized_params: LinSolParams,
+
     /// Holds the used ordering (after factorize)
     effective_ordering: i32,
 
@@ -165,6 +168,7 @@ impl SolverMUMPS {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_params: LinSolParams::new(),
                 effective_ordering: -1,
                 effective_scaling: -1,
                 effective_num_threads: 0,
@@ -193,7 +197,7 @@ impl LinSolTrait for SolverMUMPS {
     ///   (`nrow = ncol`) and, if symmetric, the symmetric flag must be [Sym::YesLower]
     /// * `params` -- configuration parameters; None => use default
     ///
-    /// **Important:** `params` must be set to `None` when calling `factorize` again;
+    /// **Important:** `params` must be `None` or equal to the first ones when calling `factorize` again;
     /// e.g., when the values of the coefficient matrix change but the structure remains the same.
     /// This limitation is required because the first factorization performs both the *symbolic* and
     /// *numeric* factorizations, whereas the subsequent factorizations are only *numeric*. Thus,
@@ -222,8 +226,10 @@ impl LinSolTrait for SolverMUMPS {
             if mat.nnz != self.initialized_nnz {
                 return Err("subsequent factorizations must use the same matrix (nnz differs)");
             }
-            if params.is_some() {
-                return Err("subsequent factorizations must not change LinSolParams");
+            if let Some(p) = params {
+                if p != self.initialized_params {
+                    return Err("subsequent factorizations must not change LinSolParams");
+                }
             }
         } else {
             if mat.nrow != mat.ncol {
@@ -238,6 +244,7 @@ impl LinSolTrait for SolverMUMPS {
             self.initialized_sym = mat.symmetric;
             self.initialized_ndim = mat.nrow;
             self.initialized_nnz = mat.nnz;
+            self.initialized_params = if let Some(p) = params { p } else { LinSolParams::new() };
             self.fortran_indices_i = vec![0; mat.nnz];
             self.fortran_indices_j = vec![0; mat.nnz];
             self.values = vec![0.0; mat.nnz];
@@ -251,7 +258,7 @@ impl LinSolTrait for SolverMUMPS {
         }
 
         // configuration parameters
-        let par = if let Some(p) = params { p } else { LinSolParams::new() };
+        let par = self.initialized_params;
 
         // error analysis option
         self.error_analysis_option = if par.compute_condition_numbers {
diff --git a/russell_sparse/src/solver_umfpack.rs b/russell_sparse/src/solver_umfpack.rs
index dd2257b..eca2ab5 100644
--- a/russell_sparse/src/solver_umfpack.rs
+++ b/russell_sparse/src/solver_umfpack.rs
@@ -129,6 +129,9 @@ pub struct SolverUMFPACK {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the configuration parameters saved in initialize
+    initialized_params: LinSolParams,
+
     /// Holds the used strategy (after factorize)
     effective_strategy: i32,
 
@@ -189,6 +192,7 @@ impl SolverUMFPACK {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_params: LinSolParams::new(),
                 effective_strategy: -1,
                 effective_ordering: -1,
                 effective_scaling: -1,
@@ -213,7 +217,7 @@ impl LinSolTrait for SolverUMFPACK {
     ///   if symmetric, the symmetric flag must be [Sym::YesFull]
     /// * `params` -- configuration parameters; None => use default
     ///
-    /// **Important:** `params` must be set to `None` when calling `factorize` again;
+    /// **Important:** `params` must be `None` or equal to the first ones when calling `factorize` again;
     /// e.g., when the values of the coefficient matrix change but the structure remains the same.
     /// This limitation is required because the first factorization performs both the *symbolic* and
     /// *numeric* factorizations, whereas the subsequent factorizations are only *numeric*. Thus,
@@ -241,8 +245,10 @@ impl LinSolTrait for SolverUMFPACK {
             if mat.nnz != self.initialized_nnz {
                 return Err("subsequent factorizations must use the same matrix (nnz differs)");
             }
-            if params.is_some() {
-                return Err("subsequent factorizations must not change LinSolParams");
+            if let Some(p) = params {
+                if p != self.initialized_params {
+                    return Err("subsequent factorizations must not change LinSolParams");
+                }
             }
             self.csc.as_mut().unwrap().update_from_coo(mat)?;
         } else {
@@ -258,12 +264,13 @@ impl LinSolTrait for SolverUMFPACK {
             self.initialized_sym = mat.symmetric;
             self.initialized_ndim = mat.nrow;
             self.initialized_nnz = mat.nnz;
+            self.initialized_params = if let Some(p) = params { p } else { LinSolParams::new() };
             self.csc = Some(CscMatrix::from_coo(mat)?);
         }
         let csc = self.csc.as_ref().unwrap();
 
         // parameters
-        let par = if let Some(p) = params { p } else { LinSolParams::new() };
+        let par = self.initialized_params;
 
         // input parameters
         let ordering = umfpack_ordering(par.ordering);
-- 
2.43.0


From 61ad474009e2a8911d5b41058bfb2fdca4ba9572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:48 +0000
Subject: [PATCH 37/47] fix: explicit Runge-Kutta step control follows updated
 parameters

---
 russell_ode/src/explicit_runge_kutta.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 882210d..688375b 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -366,6 +366,9 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
+        self.lund_factor = 1.0 / ((self.info.order_of_estimator + 1) as f64) - params.erk.lund_beta * params.erk.lund_m;
+        self.d_min = 1.0 / params.step.m_min;
+        self.d_max = 1.0 / params.step.m_max;
         self.params = params;
     }
 }
-- 
2.43.0


From 6cc353505ffc97cd80ec866cabe3bd5957f5ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:48 +0000
Subject: [PATCH 38/47] fix: backward Euler rebuilds the coefficient matrix and
 linear solver when the parameters change

---
 russell_ode/src/euler_backward.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index 1b7fd5a..46ee0ef 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -168,6 +168,16 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
+        // the size of K depends on the choice of Jacobian and the linear solver depends on the genie
+        let ndim = self.system.ndim;
+        let jac_nnz = if params.newton.use_numerical_jacobian {
+            ndim * ndim
+        } else {
+            self.system.jac_nnz
+        };
+        let nnz = jac_nnz + ndim; // +ndim corresponds to the diagonal I matrix
+        self.kk = CooMatrix::new(ndim, ndim, nnz, self.system.symmetric).unwrap();
+        self.solver = LinSolver::new(params.newton.genie).unwrap();
         self.params = params;
     }
 }
-- 
2.43.0


From 8adb4e0ab5a7c5e58032b41f2a465f890c44f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:48 +0000
Subject: [PATCH 39/47] fix: Radau5 rebuilds the coefficient matrices and
 linear solvers when the parameters change

---
 russell_ode/src/radau5.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 8a63e49..51d0eb3 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -684,6 +684,31 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
+        // the size of the matrices depends on the choice of Jacobian and the linear solvers depend on the genie
+        let ndim = self.system.ndim;
+        let sym = self.system.symmetric;
+        let mass_nnz = match self.mass.as_ref() {
+            Some(..) => self.system.mass_nnz,
+            None => ndim, // ndim => diagonal
+        };
+        let jac_nnz = if params.newton.use_numerical_jacobian {
+            if sym.triangular() {
+                (ndim + ndim * ndim) / 2
+            } else {
+                ndim * ndim
+            }
+        } else {
+            self.system.jac_nnz
+        };
+        let nnz = mass_nnz + jac_nnz;
+        self.jj = CooMatrix::new(ndim, ndim, jac_nnz, sym).unwrap();
+        self.kk_real = CooMatrix::new(ndim, ndim, nnz, sym).unwrap();
+        self.kk_comp = ComplexCooMatrix::new(ndim, ndim, nnz, sym).unwrap();
+        self.solver_real = LinSolver::new(params.newton.genie).unwrap();
+        self.solver_comp = ComplexLinSolver::new(params.newton.genie).unwrap();
+        self.reuse_jacobian = false;
+        self.reuse_jacobian_kk_and_fact = false;
+        self.jacobian_computed = false;
         self.params = params;
     }
 }
-- 
2.43.0


From 251f9b6cda3bef0c0206610942eb1eef379bcb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:28 +0000
Subject: [PATCH 40/47] fix: matrix-matrix products with empty inner dimension
 keep the beta term

---
 russell_lab/src/matrix/complex_mat_mat_mul.rs   | 8 +++++++-
 russell_lab/src/matrix/complex_mat_t_mat_mul.rs | 8 +++++++-
 russell_lab/src/matrix/mat_mat_mul.rs           | 8 +++++++-
 russell_lab/src/matrix/mat_t_mat_mul.rs         | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/matrix/complex_mat_mat_mul.rs b/russell_lab/src/matrix/complex_mat_mat_mul.rs
index 60b019f..f318c63 100644
--- a/russell_lab/src/matrix/complex_mat_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_mat_mul.rs
@@ -80,7 +80,13 @@ pub fn complex_mat_mat_mul(
     }
     if k == 0 {
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            for value in c.as_mut_data() {
+                *value *= beta;
+            }
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
index 1ebb410..1e554d3 100644
--- a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
@@ -80,7 +80,13 @@ pub fn complex_mat_t_mat_mul(
     }
     if k == 0 {
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            for value in c.as_mut_data() {
+                *value *= beta;
+            }
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_mat_mul.rs b/russell_lab/src/matrix/mat_mat_mul.rs
index dffc384..86948ae 100644
--- a/russell_lab/src/matrix/mat_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_mat_mul.rs
@@ -69,7 +69,13 @@ pub fn mat_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f64
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            for value in c.as_mut_data() {
+                *value *= beta;
+            }
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_t_mat_mul.rs b/russell_lab/src/matrix/mat_t_mat_mul.rs
index de19cf5..3f68351 100644
--- a/russell_lab/src/matrix/mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_t_mat_mul.rs
@@ -67,7 +67,13 @@ pub fn mat_t_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            for value in c.as_mut_data() {
+                *value *= beta;
+            }
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
-- 
2.43.0


From 23683c47e11b647f93b85e770a9b9565a056f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:29 +0000
Subject: [PATCH 41/47] fix: mat_vec_mul_update with empty inner dimension
 keeps the beta term

---
 russell_lab/src/matvec/mat_vec_mul_update.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/matvec/mat_vec_mul_update.rs b/russell_lab/src/matvec/mat_vec_mul_update.rs
index e1a5a3b..08421f6 100644
--- a/russell_lab/src/matvec/mat_vec_mul_update.rs
+++ b/russell_lab/src/matvec/mat_vec_mul_update.rs
@@ -70,7 +70,13 @@ pub fn mat_vec_mul_update(v: &mut Vector, alpha: f64, a: &Matrix, u: &Vector, be
         return Ok(());
     }
     if n == 0 {
-        v.fill(0.0);
+        if beta == 0.0 {
+            v.fill(0.0);
+        } else {
+            for value in v.as_mut_data() {
+                *value *= beta;
+            }
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
-- 
2.43.0


From f15efb16cd77baa82f64bd6465afd28163febadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:29 +0000
Subject: [PATCH 42/47] fix: small_mat_mat_mul ignores the previous content of
 c when beta is zero

---
 russell_lab/src/small/small_mat_mat_mul.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/small/small_mat_mat_mul.rs b/russell_lab/src/small/small_mat_mat_mul.rs
index bd8f7e4..749b1ca 100644
--- a/russell_lab/src/small/small_mat_mat_mul.rs
+++ b/russell_lab/src/small/small_mat_mat_mul.rs
@@ -70,7 +70,11 @@ pub fn small_mat_mat_mul<T, const N: usize>(
             for k in 0..n {
                 sum = sum + a[i][k] * b[k][j];
             }
-            c[i][j] = alpha * sum + beta * c[i][j];
+            c[i][j] = if beta == T::zero() {
+                alpha * sum // do not read c (it may hold NaN)
+            } else {
+                alpha * sum + beta * c[i][j]
+            };
         }
     }
 }
-- 
2.43.0


From 9cb32a83445cdbf63909b288bba99179946e7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:38 +0000
Subject: [PATCH 43/47] fix: Tensor2::decompose clears the skew components of
 the symmetric part

---
 russell_tensor/src/tensor2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index b96c2c2..c80cf51 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -1740,9 +1740,10 @@ impl Tensor2 {
                 sym.vec[m] = self.vec[m];
                 skw.vec[m] = 0.0;
             }
-            skw.set(6, self.vec[6]);
-            skw.set(7, self.vec[7]);
-            skw.set(8, self.vec[8]);
+            for m in 6..9 {
+                sym.vec[m] = 0.0;
+                skw.vec[m] = self.vec[m];
+            }
         } else {
             // There is only symmetric part
             for m in 0..self.dim {
-- 
2.43.0


From 8d5f14b5d0276f062c24cfd4996785e787cbd9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:38 +0000
Subject: [PATCH 44/47] fix: Tensor2::to_std_matrix clears the out-of-plane
 components in 2D

---
 russell_tensor/src/tensor2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index c80cf51..1a20301 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -657,6 +657,7 @@ impl Tensor2 {
     pub fn to_std_matrix(&self, mat: &mut Matrix) {
         assert_eq!(mat.dims(), (3, 3));
         if self.dim < 9 {
+            mat.fill(0.0);
             for m in 0..self.dim {
                 let (i, j) = M_TO_IJ[m];
                 mat.set(i, j, self.get_std(i, j));
-- 
2.43.0


From cde580b928337cbae6a4972907a38c1997fc94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:41:35 +0000
Subject: [PATCH 45/47] fix: to_std_array of third and fourth order tensors
 clears the out-of-plane components in 2D

---
 russell_tensor/src/tensor3.rs | 46 +++--------------------------------
 russell_tensor/src/tensor4.rs | 25 ++++---------------
 2 files changed, 9 insertions(+), 62 deletions(-)

diff --git a/russell_tensor/src/tensor3.rs b/russell_tensor/src/tensor3.rs
index 3ef6a0e..9c21057 100644
--- a/russell_tensor/src/tensor3.rs
+++ b/russell_tensor/src/tensor3.rs
@@ -979,48 +979,10 @@ impl Tensor3 {
     /// }
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<f64>>>) {
-        if self.case_a {
-            if self.nrow == 9 {
-                // General
-                for i in 0..3 {
-                    for j in 0..3 {
-                        for k in 0..3 {
-                            dd[i][j][k] = self.get_std(i, j, k);
-                        }
-                    }
-                }
-            } else {
-                // Symmetric / Symmetric2D
-                for m in 0..self.nrow {
-                    for n in 0..self.ncol {
-                        let (i, j, k) = MN_TO_IJK_CASE_A[m][n];
-                        dd[i][j][k] = self.get_std(i, j, k);
-                        if i != j {
-                            dd[j][i][k] = dd[i][j][k];
-                        }
-                    }
-                }
-            }
-        } else {
-            if self.ncol == 9 {
-                // General
-                for i in 0..3 {
-                    for j in 0..3 {
-                        for k in 0..3 {
-                            dd[i][j][k] = self.get_std(i, j, k);
-                        }
-                    }
-                }
-            } else {
-                // Symmetric / Symmetric2D
-                for m in 0..self.nrow {
-                    for n in 0..self.ncol {
-                        let (i, j, k) = MN_TO_IJK_CASE_B[m][n];
-                        dd[i][j][k] = self.get_std(i, j, k);
-                        if j != k {
-                            dd[i][k][j] = dd[i][j][k];
-                        }
-                    }
+        for i in 0..3 {
+            for j in 0..3 {
+                for k in 0..3 {
+                    dd[i][j][k] = self.get_std(i, j, k);
                 }
             }
         }
diff --git a/russell_tensor/src/tensor4.rs b/russell_tensor/src/tensor4.rs
index 4129998..3ccaf13 100644
--- a/russell_tensor/src/tensor4.rs
+++ b/russell_tensor/src/tensor4.rs
@@ -892,26 +892,11 @@ impl Tensor4 {
     /// }
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<Vec<f64>>>>) {
-        let dim = self.dim;
-        if dim < 9 {
-            for m in 0..dim {
-                for n in 0..dim {
-                    let (i, j, k, l) = MN_TO_IJKL[m][n];
-                    dd[i][j][k][l] = self.get_std(i, j, k, l);
-                    if i != j || k != l {
-                        dd[j][i][k][l] = dd[i][j][k][l];
-                        dd[i][j][l][k] = dd[i][j][k][l];
-                        dd[j][i][l][k] = dd[i][j][k][l];
-                    }
-                }
-            }
-        } else {
-            for i in 0..3 {
-                for j in 0..3 {
-                    for k in 0..3 {
-                        for l in 0..3 {
-                            dd[i][j][k][l] = self.get_std(i, j, k, l);
-                        }
+        for i in 0..3 {
+            for j in 0..3 {
+                for k in 0..3 {
+                    for l in 0..3 {
+                        dd[i][j][k][l] = self.get_std(i, j, k, l);
                     }
                 }
             }
-- 
2.43.0


From 6f697211e93fe880ea8bccbb940dc3bbdd449807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:41:35 +0000
Subject: [PATCH 46/47] fix: mat_convert_to_blas_band clears the entries
 outside the band

---
 russell_lab/src/matrix/mat_convert_to_blas_band.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/russell_lab/src/matrix/mat_convert_to_blas_band.rs b/russell_lab/src/matrix/mat_convert_to_blas_band.rs
index 9e70003..8b8de1c 100644
--- a/russell_lab/src/matrix/mat_convert_to_blas_band.rs
+++ b/russell_lab/src/matrix/mat_convert_to_blas_band.rs
@@ -93,6 +93,7 @@ pub fn mat_convert_to_blas_band(band: &mut Matrix, dense: &Matrix, ml: usize, mu
     if mb != ml + mu + 1 || nb != n {
         return Err("the resulting matrix must be ml + mu + 1 by n");
     }
+    band.fill(0.0);
     for j in 0..n {
         let a = if j > mu { j - mu } else { 0 };
         let b = if j + ml + 1 < m { j + ml + 1 } else { m };
-- 
2.43.0


From e514c93224f6748dbe90aef686a8fb0c6551e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:09:46 +0000
Subject: [PATCH 47/47] fix: OdeSolver::solve returns the error instead of
 writing the last output when the steps run out

---
 russell_ode/src/ode_solver.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 6bf7c8e..f79282d 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -369,6 +369,12 @@ impl<'a, A> OdeSolver<'a, A> {
             }
         }
 
+        // check
+        if !success {
+            self.work.stats.stop_sw_total();
+            return Err("variable stepping did not converge");
+        }
+
         // last output
         if let Some(out) = output.as_deref_mut() {
             out.last(&self.work, h, x, y, args)?;
@@ -376,11 +382,7 @@ impl<'a, A> OdeSolver<'a, A> {
 
         // done
         self.work.stats.stop_sw_total();
-        if success {
-            Ok(())
-        } else {
-            Err("variable stepping did not converge")
-        }
+        Ok(())
     }
 
     /// Update the parameters (e.g., for sensitive analyses)
-- 
2.43.0

