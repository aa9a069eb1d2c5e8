From 25b58bfab81311b02bd47698ed3158a1c5811c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:10 +0000
Subject: [PATCH 01/14] fix: ell_init_2D: last-column nodes pointed the north
 neighbour slot at themselves

---
 src/ell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index ea883bd..1a58404 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -837,7 +837,7 @@ void ell_init_2D(ell_matrix *m, int nFields, int nx, int ny)
 					mcols[4 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
 					mcols[5 * nFields + nnz * d1 + d2] = 0;
 					mcols[6 * nFields + nnz * d1 + d2] = (i + nx - 1) * nFields + d2;
-					mcols[7 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
+					mcols[7 * nFields + nnz * d1 + d2] = (i + nx) * nFields + d2;
 					mcols[8 * nFields + nnz * d1 + d2] = 0;
 				}
 			}
-- 
2.43.0


From fa812198d305c8f437ee9f661cac598ea69db1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:10 +0000
Subject: [PATCH 02/14] fix: ell_set_bc_2D: clear every boundary column of the
 interior rows next to the boundary

---
 src/ell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index 1a58404..e9f97f0 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -461,7 +461,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 		for (int i = 0; i < nx - 4; i++) {
 			for (int l = 6; l < 9; ++l)
 				for (int d2 = 0; d2 < nFields; d2++)
-					mvals[n * nFields * nnz + d1 * nnz + 6 * nFields + d2] = 0;
+					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
 			n += 1;
 		}
 	}
@@ -482,7 +482,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{ // x = lx - hx
 		const int tmp[] = { 2, 5, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = 4 * nx - 1;
+			int n = 3 * nx - 2;
 			for (int i = 0; i < ny - 4; i++) {
 				for (auto l : tmp)
 					for (int d2 = 0; d2 < nFields; d2++)
@@ -516,7 +516,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{// x = lx - hx , y = ly - hy
 		const int tmp[] = { 2, 5, 6, 7, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = (ny - 1) * nx - 1;
+			int n = (ny - 1) * nx - 2;
 			for (auto l : tmp)
 				for (int d2 = 0; d2 < nFields; d2++)
 					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
-- 
2.43.0


From d74cb0f798ff46b038dc9f4e1deb28e2952d77fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:30 +0000
Subject: [PATCH 03/14] fix: 3D volume averages divided by lx * ly instead of
 the cell volume

---
 src/assembly.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 8a1e43b..ec30e92 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -783,8 +783,9 @@ void micropp_t::calc_ave_stress(double stress_ave[6])
 		}
 	}
 
+	const double vol = (dim == 2) ? lx * ly : lx * ly * lz;
 	for (int v = 0; v < nvoi; v++)
-		stress_ave[v] /= (lx * ly);
+		stress_ave[v] /= vol;
 }
 
 void micropp_t::calc_ave_strain(double strain_ave[6])
@@ -839,8 +840,9 @@ void micropp_t::calc_ave_strain(double strain_ave[6])
 		}
 	}
 
+	const double vol = (dim == 2) ? lx * ly : lx * ly * lz;
 	for (int v = 0; v < nvoi; v++)
-		strain_ave[v] /= (lx * ly);
+		strain_ave[v] /= vol;
 }
 
 void micropp_t::calc_fields()
-- 
2.43.0


From a7de834bfec2d9756e3cade4a3cf7157e989f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:12 +0000
Subject: [PATCH 04/14] fix: plastic_step: shear trial stress mixed engineering
 strain with tensor plastic strain

---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index ec30e92..7507dd6 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1024,7 +1024,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		sig_dev_trial[i] = 2 * material->mu * (eps_dev[i] - eps_p_dev_1[i]);
 
 	for (int i = 3; i < 6; ++i)
-		sig_dev_trial[i] = material->mu * (eps_dev[i] - eps_p_dev_1[i]);
+		sig_dev_trial[i] = material->mu * (eps_dev[i] - 2 * eps_p_dev_1[i]);
 
 	sig_dev_trial_norm = sqrt(sig_dev_trial[0] * sig_dev_trial[0] +
 	                          sig_dev_trial[1] * sig_dev_trial[1] +
-- 
2.43.0


From a4d4fb1afec84eaae19790ae221af3e161ac203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:27 +0000
Subject: [PATCH 05/14] fix: plastic_step: hardening left out of the plastic
 multiplier, stress ended inside the yield surface

---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 7507dd6..655a5e4 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1041,7 +1041,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		for (int i = 0; i < 6; ++i)
 			normal[i] = sig_dev_trial[i] / sig_dev_trial_norm;
 
-		dl = f_trial / (2 * material->mu * (1.0 + (0.0 * material->Ka) / (3 * material->mu)));
+		dl = f_trial / (2 * material->mu * (1.0 + material->Ka / (3 * material->mu)));
 
 		for (int i = 0; i < 6; ++i)
 			eps_p_new[i] = eps_p_old[i] + dl * normal[i];
-- 
2.43.0


From c70461127b695350961b176c756edba09a47f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:48 +0000
Subject: [PATCH 06/14] fix: inv_tol was read from the uninitialised
 micro_params member

---
 src/micro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index 898363e..cfb224c 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -34,7 +34,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	lz(dim == 2 ? 0.0 : _micro_params[2]),
 	width(_micro_params[3]),
 
-	inv_tol(micro_params[4]),
+	inv_tol(_micro_params[4]),
 	nx(size[0]),
 	ny(size[1]),
 	nz(_dim == 2 ? 1 : size[2]),
-- 
2.43.0


From e00a9a3a401fe5ce0ec0abb7cf900c44dfeab3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:10 +0000
Subject: [PATCH 07/14] fix: displacements and internal variables were used
 uninitialised by the constructor's linear solve

---
 src/micro.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/micro.cpp b/src/micro.cpp
index cfb224c..d557a2e 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -67,6 +67,11 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	assert( b && du && u && elem_stress && elem_strain &&
 	        elem_type && vars_old && vars_new );
 
+	for (int i = 0; i < nn * dim; i++)
+		u[i] = 0.0;
+	for (int i = 0; i < num_int_vars; i++)
+		vars_old[i] = vars_new[i] = 0.0;
+
 	int nParams;
 	if (micro_type == 0) {
 		// mat 1 = matrix
-- 
2.43.0


From bf80747ce6298c6c7fcc3145bfacb820dac8d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:48 +0000
Subject: [PATCH 08/14] fix: update_vars committed a stale trial history after
 an elastic step

---
 src/homogenize.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 1fcf6c6..57c2166 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -170,16 +170,16 @@ void micropp_t::homogenize()
 			newton_raphson(&nl_flag, &nr_its, &nr_err);
 			calc_ave_stress(gp.macro_stress);
 
-			if (nl_flag == true) {
-				if (gp.int_vars_n == NULL) {
-					gp.int_vars_k = (double *) malloc(num_int_vars * sizeof(double));
-					gp.int_vars_n = (double *) malloc(num_int_vars * sizeof(double));
-					for (int i = 0; i < num_int_vars; ++i)
-						gp.int_vars_n[i] = 0.0;
-				}
+			if (nl_flag == true && gp.int_vars_n == NULL) {
+				gp.int_vars_k = (double *) malloc(num_int_vars * sizeof(double));
+				gp.int_vars_n = (double *) malloc(num_int_vars * sizeof(double));
 				for (int i = 0; i < num_int_vars; ++i)
-					gp.int_vars_k[i] = vars_new[i];
+					gp.int_vars_n[i] = 0.0;
 			}
+			// a point with history commits the state of its last solve, also after elastic unloading
+			if (gp.int_vars_n != NULL)
+				for (int i = 0; i < num_int_vars; ++i)
+					gp.int_vars_k[i] = vars_new[i];
 
 			gp.nr_its[0] = nr_its;
 			gp.nr_err[0] = nr_err;
-- 
2.43.0


From c3e818edb7af01656c0f8449bafcdd62c6780bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:01 +0000
Subject: [PATCH 09/14] fix: ell_solve_jacobi_2D leaked its work arrays

---
 src/ell.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ell.cpp b/src/ell.cpp
index e9f97f0..8d5047f 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -110,6 +110,10 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 	}
 	solver->err = err;
 	solver->its = its;
+
+	free(k);
+	free(e_i);
+
 	return 0;
 }
 
-- 
2.43.0


From 3e8279fd4e55082291c8a4c37d33795b8fb68fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:02 +0000
Subject: [PATCH 10/14] fix: newton_raphson incremented the pointer instead of
 the iteration counter

---
 src/solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solve.cpp b/src/solve.cpp
index 70d61a6..fc6a450 100644
--- a/src/solve.cpp
+++ b/src/solve.cpp
@@ -60,7 +60,7 @@ void micropp_t::newton_raphson(bool * nl_flag, int *its, double *err)
 		for (int i = 0; i < nn * dim; i++)
 			u[i] = u[i] + du[i];
 
-		*its++;
+		(*its)++;
 
 	} while ((*its < NR_MAX_ITS) && (*err > NR_MAX_TOL));
 }
-- 
2.43.0


From 90b84d6e2b30c9257492f54c23d7fc06bb3a91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:36 +0000
Subject: [PATCH 11/14] fix: element residual reported yielding of its last
 Gauss point only

---
 src/assembly.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 655a5e4..9da22b4 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -702,6 +702,7 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 {
 	double bmat[6][3 * 8], cxb[6][3 * 8], stress_gp[6];
 
+	*non_linear = false;
 	for (int i = 0; i < 3 * 8; i++)
 		be[i] = 0.0;
 
@@ -709,9 +710,12 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 
 		calc_bmat_3D(gp, bmat);
 
+		bool non_linear_gp;
 		double strain_gp[6];
 		get_strain3D(ex, ey, ez, gp, strain_gp);
-		get_stress3D(ex, ey, ez, gp, strain_gp, non_linear, stress_gp);
+		get_stress3D(ex, ey, ez, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp)
+			*non_linear = true;
 
 		double wg = (1 / 8.0) * dx * dy * dz;
 		for (int i = 0; i < npe * dim; i++)
-- 
2.43.0


From e43fcfc97c40dec35da67373938eb16f960fd9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:36 +0000
Subject: [PATCH 12/14] fix: get_inv_2 added the squared shear components
 instead of subtracting them

---
 src/homogenize.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 57c2166..36e5a3c 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -79,9 +79,9 @@ double micropp_t::get_inv_2(const double *tensor)
 	if (dim == 3)
 		return tensor[0] * tensor[1] +
 			tensor[0] * tensor[2] +
-			tensor[1] * tensor[2] +
-			tensor[3] * tensor[3] +
-			tensor[4] * tensor[4] +
+			tensor[1] * tensor[2] -
+			tensor[3] * tensor[3] -
+			tensor[4] * tensor[4] -
 			tensor[5] * tensor[5];
 
 	return NAN;
-- 
2.43.0


From 9b621ad1d2e9ad4da682358da6343b252218cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:24 +0000
Subject: [PATCH 13/14] fix: unset results of a macroscopic point were written
 uninitialised to the information files

---
 src/homogenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 36e5a3c..d58da90 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -98,7 +98,7 @@ void micropp_t::set_macro_strain(const int gp_id, const double *macro_strain)
 		}
 	}
 	if (gp == gauss_list.end()) {
-		gp_t gp_n;
+		gp_t gp_n = gp_t();
 		gp_n.id = gp_id;
 		gp_n.int_vars_n = NULL;
 		gp_n.int_vars_k = NULL;
-- 
2.43.0


From f3c73e792b07c0a2684f2108ba6ed005bcedb69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:24 +0000
Subject: [PATCH 14/14] fix: micropp_construct_ leaked the previous instance

---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 22ac880..35926d3 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -30,6 +30,7 @@ extern "C" {
 	void micropp_construct_(int *dim, int size[3], int *micro_type,
 	                        double *micro_params, int *mat_types, double *params)
 	{
+		delete micro;
 		micro = new micropp_t(*dim, size, *micro_type, micro_params, mat_types, params); 
 	}
 
-- 
2.43.0

