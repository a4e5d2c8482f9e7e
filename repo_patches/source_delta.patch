From 03e0eaf00e57376141a5973009c3fa0f47326bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 001/102] fix: align the meta data of rows allocated by
 flags_alloc2()

---
 src/xrtm_utility.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index 5cd2e13..c2ffa9b 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -103,6 +103,8 @@ uchar **flags_alloc2(int m, int n) {
 
      int i;
 
+     size_t n2;
+
      uchar **a;
 
      a = (uchar **)
@@ -113,15 +115,19 @@ uchar **flags_alloc2(int m, int n) {
           return NULL;
      }
 
-     a[0] = (uchar *) malloc(m * (sizeof(flags_meta_data) +
-            n * sizeof(uchar))) + sizeof(flags_meta_data);
+     /* each row is preceded by its own flags_meta_data so pad the rows so that
+        the meta data is always aligned */
+     n2 = sizeof(flags_meta_data) +
+         (n + sizeof(flags_meta_data) - 1) / sizeof(flags_meta_data) * sizeof(flags_meta_data);
+
+     a[0] = (uchar *) malloc(m * n2) + sizeof(flags_meta_data);
      if (a[0] == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
           return NULL;
      }
 
      for (i = 1; i < m; ++i)
-          a[i] = a[0] + i * (sizeof(flags_meta_data) + n);
+          a[i] = a[0] + i * n2;
 
      return a;
 }
-- 
2.43.0


From d8f14e2d854a5ee173f74bd90c8eeb6619539afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 002/102] fix: free set_flags_kernel_func once all inputs are
 set

---
 src/xrtm_interface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ee7a45d..527eecc 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2578,6 +2578,7 @@ static int check_inputs_initialized(xrtm_data *d) {
      if (d->n_kernels > 0) {
           free_array1_uc(d->set_flags_kernel_ampfac);
           free_array2_uc(d->set_flags_kernel_params);
+          free_array1_uc(d->set_flags_kernel_func);
      }
 
      d->inputs_initialized = 0;
-- 
2.43.0


From 68e948c7f79edac94a56645340f157dbe695f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 003/102] fix: terminate the kernel_params_l entry in
 xrtm_input_names

---
 src/xrtm_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 527eecc..5683a48 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -184,7 +184,7 @@ static const char *xrtm_input_names[] = {
      "kernel_ampfac",
      "kernel_ampfac_l",
      "kernel_params",
-     "kernel_params_l"
+     "kernel_params_l",
      "kernel_funcs"
 };
 
-- 
2.43.0


From d355e6634453178e2882a0fee554116043be4609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 004/102] fix: add layers for which only the top source has
 derivatives (ADDING_S_U)

---
 src/xrtm_adding.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/xrtm_adding.c b/src/xrtm_adding.c
index c99ea4c..f492f14 100644
--- a/src/xrtm_adding.c
+++ b/src/xrtm_adding.c
@@ -1306,6 +1306,9 @@ if (flag) {
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
 #ifdef DEBUG
@@ -1347,6 +1350,9 @@ if (flag) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_u_s_up(AXX, R21, S21_l[i], S12_l[i], S13_l[i], n, 1., v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
 #ifdef DEBUG
@@ -1522,6 +1528,9 @@ void layer_add_all(double **R12, double **T12, double *S12,
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
@@ -1621,6 +1630,9 @@ if (flag) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_u_s_up(AXX, R21, S21_l[i], S12_l[i], S13_l[i], n, 1., v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
 
@@ -1777,6 +1789,9 @@ if (! d || flag2) {
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
 #ifdef DEBUG
@@ -1823,6 +1838,9 @@ if (! d || flag2) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_u_s_up(AXX, R21, S21_l[i], S12_l[i], S13_l[i], n, 1., v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
 #ifdef DEBUG
@@ -1934,6 +1952,9 @@ if (! d || flag2) {
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
@@ -2005,6 +2026,9 @@ if (! d || flag2) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_u_s_up(AXX, R21, S21_l[i], S12_l[i], S13_l[i], n, 1., v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
           else
-- 
2.43.0


From fc841ab094bf5e2511839ea6343279bc3fb0d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 005/102] fix: initialize the BRDF kernel derivatives for
 kernels that do not set them

---
 src/xrtm_brdf.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index 6e5fe1d..cc44fcd 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -808,9 +808,13 @@ void brdf_build_kernel_vecs(int i_offset, int n_quad, int j_offset, int n_stokes
      }
 
      for (i = 0; i < n_kernels; ++i) {
-          if (flags_or(derivs, n_derivs))
+          if (flags_or(derivs, n_derivs)) {
                params_l2 = params_l[i];
 
+               /* not all kernels set f_l */
+               dvec_zero(f_l, n_derivs);
+          }
+
           flag = brdf_needs_fourier(kernels + i, 1);
 
           if (! flag) {
@@ -949,9 +953,13 @@ void brdf_build_kernel_mats(int i_offset, int n_quad1, int j_offset, int n_quad2
      }
 
      for (i = 0; i < n_kernels; ++i) {
-          if (flags_or(derivs, n_derivs))
+          if (flags_or(derivs, n_derivs)) {
                params_l2 = params_l[i];
 
+               /* not all kernels set f_l */
+               dvec_zero(f_l, n_derivs);
+          }
+
           flag = brdf_needs_fourier(kernels + i, 1);
 
           if (! flag) {
-- 
2.43.0


From ac80fa13e163adc79f24877eb04f1c9b0f5a5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 006/102] fix: pass the dimensions of the radiance arrays in
 the right order in get_single()

---
 src/xrtm_model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 32ff345..e2c6e3f 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4371,10 +4371,10 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
 /*
      init_array4_d(I_p, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
 */
-     init_array4_d(I_m, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_m, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 /*
           init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
 */
-- 
2.43.0


From 799ea0c80b7aa7a7e27d0a461b28b524bf19ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 007/102] fix: zero the phase function coefficients that are
 not given for a layer

---
 src/xrtm_interface.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 5683a48..880c178 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -1253,7 +1253,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           d->n_coef_layer  = ALLOC_ARRAY1_I(d->n_layers);
           d->n_coef_layer2 = ALLOC_ARRAY1_I(d->n_layers);
 
-          d->coef = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, d->n_coef);
+          d->coef = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, MAX(d->n_coef, two_n_quad));
      }
 
      if (! (d->options & XRTM_OPTION_DELTA_M)) {
@@ -1269,7 +1269,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           if (d->solvers & XRTM_SOLVERS_USE_G)
                d->g0    = ALLOC_ARRAY1_D(d->n_layers);
           if (d->solvers & XRTM_SOLVERS_USE_COEF)
-               d->coef0 = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, d->n_coef);
+               d->coef0 = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, MAX(d->n_coef, two_n_quad));
      }
 
      if (d->n_kernels > 0) {
@@ -4071,6 +4071,9 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
                }
+               for (     ; k < MAX(d->n_coef, 2 * d->n_quad); ++k) {
+                    d->coef0[i][j][k] = 0.;
+               }
           }
 
           if (d->inputs_initialized)
-- 
2.43.0


From 232b3c4d9360edc99c827fa28a1737498c9ae737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:59 +0000
Subject: [PATCH 008/102] fix: handle Fourier terms without scattering in the
 six stream solver

---
 src/xrtm_six_stream.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 802e099..86fbec4 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -630,6 +630,15 @@ if (n_derivs > 0) {
 
           dd = gamma[0][0] * gamma[1][1] * gamma[2][2] + gamma[0][1] * gamma[1][2] * gamma[2][0] + gamma[0][2] * gamma[1][0] * gamma[2][1] - gamma[0][2] * gamma[1][1] * gamma[2][0] - gamma[0][0] * gamma[1][2] * gamma[2][1] - gamma[0][1] * gamma[1][0] * gamma[2][2];
 
+          if (gamma[0][1] == 0. && gamma[0][2] == 0. && gamma[1][0] == 0. && gamma[1][2] == 0. && gamma[2][0] == 0. && gamma[2][1] == 0.) {
+               /* no scattering for this fourier term so the streams are not coupled */
+               for (j = 0; j < 3; ++j) {
+                    evals[j] = gamma[j][j];
+                    for (k = 0; k < 3; ++k)
+                         evecs[j][k] = j == k ? 1. : 0.;
+               }
+          }
+          else {
           cubic_roots_general(1., bb, cc, dd, &evals[0], &evals[1], &evals[2]);
           evals[0] *= -1.;
           evals[1] *= -1.;
@@ -648,6 +657,7 @@ if (n_derivs > 0) {
           evecs[2][0] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[0])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[0]));
           evecs[2][1] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[1])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[1])) * evecs[0][1];
           evecs[2][2] = 1.;
+          }
 
 
           /*--------------------------------------------------------------------
-- 
2.43.0


From 8be307dec34216680c26bbd3855869456a25c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 009/102] fix: direct beam, stokes stride and derivatives of
 the mean radiance and flux outputs

---
 src/prototypes/xrtm_radiance_p.h |  4 +-
 src/xrtm_model.c                 | 82 +++++++++++++++++++++++++++++---
 src/xrtm_radiance.c              | 26 ++++++----
 3 files changed, 94 insertions(+), 18 deletions(-)

diff --git a/src/prototypes/xrtm_radiance_p.h b/src/prototypes/xrtm_radiance_p.h
index d8344aa..61a152c 100644
--- a/src/prototypes/xrtm_radiance_p.h
+++ b/src/prototypes/xrtm_radiance_p.h
@@ -4,5 +4,5 @@ void radiance_toa_ref(int n_quad, int n_derivs, double **R_m, double *S_p, doubl
 void radiance_boa_ref(int n_quad, int n_derivs, double **R12_p, double *S12_m, double ***R12_p_l, double **S12_m_l, double **R23_m, double ***R23_m_l, double *I3_p, double **I3_p_l, double *I2_p, double **I2_p_l, double *I2_m, double **I2_m_l, uchar *derivs, work_data work);
 void radiance_toa_all(int n_quad, int n_derivs, double **R_m, double **T_p, double *S_p, double ***R_m_l, double ***T_p_l, double **S_p_l, double *I1_m, double *I2_p, double **I1_m_l, double **I2_p_l, double *I1_p, double *I1m_, double **I1_p_l, double **I1m_l_, uchar *derivs, work_data work);
 void radiance_boa_all(int n_quad, int n_derivs, double **R12_p, double **T12_m, double **R23_m, double *S12_m, double ***R12_p_l, double ***T12_m_l, double ***R23_m_l, double **S12_m_l, double *I3_p, double *I1_m, double **I3_p_l, double **I1_m_l, double *I2_p, double *I2_m, double **I2_p_l, double **I2_m_l, uchar *derivs, save_tree_data save_tree, work_data work);
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
+double radiance_to_mean(int n_quad, int n_stokes, double *qx_v, double *qw_v, double *I);
+double radiance_to_flux(int n_quad, int n_stokes, double *qx_v, double *qw_v, double *I);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index e2c6e3f..82edb21 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6110,6 +6110,54 @@ static double max_radiance_ratio(double I1, double I2) {
 
 
 
+/*******************************************************************************
+ * Direct solar beam, normal to the beam, at an output level or output tau.
+ ******************************************************************************/
+static void direct_beam_at_ulevel(xrtm_data *d, int i_ulevel, double *beam, double *beam_l, work_data work) {
+
+     int i;
+     int ii;
+
+     double a;
+     double b;
+
+     *beam = 0.;
+
+     if (d->options & XRTM_OPTION_CALC_DERIVS)
+          init_array1_d(beam_l, d->n_derivs, 0.);
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return;
+
+     update_beam_params_all(d, work);
+
+     ii = d->ulevels[i_ulevel];
+
+     if (! (d->options & XRTM_OPTION_OUTPUT_AT_TAUS)) {
+          *beam = d->F_0 * d->btran[ii];
+
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               for (i = 0; i < d->n_derivs; ++i)
+                    beam_l[i] = d->F_0 * d->btran_l[ii][i];
+          }
+     }
+     else {
+          a = d->utaus2[i_ulevel] / d->ltau[ii];
+
+          *beam = d->F_0 * exp(-(d->btau[ii] + a * (d->btau[ii+1] - d->btau[ii])));
+
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               for (i = 0; i < d->n_derivs; ++i) {
+                    b = d->btau_l[ii][i] + a * (d->btau_l[ii+1][i] - d->btau_l[ii][i]);
+
+                    beam_l[i] = -b * *beam;
+               }
+          }
+     }
+}
+
+
+
 static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_phis, double **phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, save_tree_data save_tree, work_data work) {
 
      int i;
@@ -6136,6 +6184,8 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
      double c;
      double e;
 
+     double *b_l;
+
      double *v1;
      double *v2;
 
@@ -6211,6 +6261,8 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
           i_p_l = get_work_d3(&work, d->n_ulevels, d->n_derivs, n_quad_v_x);
           i_m_l = get_work_d3(&work, d->n_ulevels, d->n_derivs, n_quad_v_x);
+
+          b_l   = get_work1(&work, WORK_DDERIVS);
      }
 
      if (solutions & XRTM_OUTPUT_RADIANCE) {
@@ -6265,12 +6317,21 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_RADIANCE_MEAN   && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    direct_beam_at_ulevel(d, j, &a, b_l, work);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
+                         mean_p[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->btran[jj] / (4. * PI);
+                         mean_m[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m[j]) + a / (4. * PI);
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (m = 0; m < d->n_derivs; ++m) {
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                                   mean_p_l[j][m] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p_l[j][m]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                                   mean_m_l[j][m] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m_l[j][m]) + b_l[m] / (4. * PI);
+                         }
+                    }
                }
           }
 
@@ -6280,12 +6341,21 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX            && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    direct_beam_at_ulevel(d, j, &a, b_l, work);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
+                         flux_p[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->mu_0 * d->btran[jj];
+                         flux_m[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m[j]) + a * d->mu_0;
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (m = 0; m < d->n_derivs; ++m) {
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                                   flux_p_l[j][m] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p_l[j][m]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                                   flux_m_l[j][m] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m_l[j][m]) + b_l[m] * d->mu_0;
+                         }
+                    }
                }
           }
 
diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 72041c3..3544a9b 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -571,17 +571,20 @@ void radiance_boa_all(int n_quad, int n_derivs,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
-                        double F_0, double mu_0, double btran, double *I) {
+double radiance_to_mean(int n_quad, int n_stokes, double *qx_v, double *qw_v, double *I) {
 
      int i;
+     int ii;
 
      double a = 0.;
 
-     for (i = 0; i < n_quad; ++i)
-          a += qw_v[i] * I[i];
+     ii = 0;
+     for (i = 0; i < n_quad; ++i) {
+          a  += qw_v[ii] * I[ii];
+          ii += n_stokes;
+     }
 
-     return a / 2.; // + F_0 * btran / (4. * PI);
+     return a / 2.;
 }
 
 
@@ -589,17 +592,20 @@ double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v,
-                        double F_0, double mu_0, double btran, double *I) {
+double radiance_to_flux(int n_quad, int n_stokes, double *qx_v, double *qw_v, double *I) {
 
      int i;
+     int ii;
 
      double a = 0.;
 
-     for (i = 0; i < n_quad; ++i)
-          a += qx_v[i] * qw_v[i] * I[i];
+     ii = 0;
+     for (i = 0; i < n_quad; ++i) {
+          a  += qx_v[ii] * qw_v[ii] * I[ii];
+          ii += n_stokes;
+     }
 
-     return a * 2. * PI; // + F_0 * mu_0 * btran;
+     return a * 2. * PI;
 }
 
 
-- 
2.43.0


From c4c4d421d36e1d8f7f98d62b00d8a5c3e43a70df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 010/102] fix: complete the dependencies of saved intermediate
 results

---
 src/xrtm_interface.c | 16 +++++++++-
 src/xrtm_interface.h |  2 ++
 src/xrtm_model.c     | 76 ++++++++++++++++++++++++--------------------
 3 files changed, 58 insertions(+), 36 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 880c178..0c16d6e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -421,6 +421,10 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
      int i;
      int j;
 
+     /* in a spherical atmosphere the beam in a layer depends on all layers above */
+     if (d->options & XRTM_OPTION_PSA)
+          n_layers = d->n_layers;
+
      d->dep_flags_utaus   |= dep;
      d->dep_flags_chapman |= dep;
 
@@ -1734,6 +1738,10 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      d->inputs_initialized = 1;
      d->varied_layers_updated = 1;
 
+     d->mu_0 = 0.;
+
+     d->last_adding_solver = 0;
+
 
      /*-------------------------------------------------------------------------
       *
@@ -2656,6 +2664,9 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      int count;
 
      double a;
+     double mu_0;
+
+     mu_0 = d->mu_0;
 
      d->mu_0 = d->mu_0_0;
 
@@ -2675,7 +2686,7 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           }
      }
 
-     if (count > 0)
+     if (d->mu_0 != mu_0)
           set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
 
      return 0;
@@ -5486,6 +5497,9 @@ int xrtm_update_varied_layers(xrtm_data *d) {
                d->stack_grid[d->stack_chain[i].i1][d->stack_chain[i].i2] = &(d->stack_chain[i]);
      }
 
+     /* which layers and sources vary may have changed for any layer */
+     set_deps(d, DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT_L | DEP_MASK_LEVELS_B_L | DEP_MASK_SURFACE_B_L | DEP_MASK_G_L | DEP_MASK_COEF_L | DEP_MASK_OMEGA_L | DEP_MASK_LTAU_L | DEP_MASK_BRDF_L, 0, d->n_layers);
+
      d->varied_layers_updated = 0;
 
      return 0;
diff --git a/src/xrtm_interface.h b/src/xrtm_interface.h
index 24f59f2..0c5b0ca 100644
--- a/src/xrtm_interface.h
+++ b/src/xrtm_interface.h
@@ -313,6 +313,8 @@ typedef struct {
 
      double mu_0_0;
 
+     int last_adding_solver;
+
      double doub_d_tau;
 
      double sos_max_tau;
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 82edb21..2fc3b16 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -189,7 +189,7 @@ void get_delta_m_f(xrtm_data *d, int i_layer, int i_deriv, int n_derivs, double
  ******************************************************************************/
 static int utaus_deps(xrtm_data *d) {
 
-     return DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF;
+     return DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF | DEP_MASK_OMEGA;
 }
 
 
@@ -234,7 +234,7 @@ static void update_utaus(xrtm_data *d, work_data work) {
      }
 
      if (d->options & XRTM_OPTION_DELTA_M &&
-         d->dep_flags_utaus & (DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF)) {
+         d->dep_flags_utaus & utaus_deps(d)) {
           a = 2. * d->n_coef2 + 1.;
 
           for (i = 0; i < d->n_ulevels; ++i) {
@@ -308,49 +308,28 @@ static void update_opt_props(xrtm_data *d, int i_layer, work_data work) {
 
      flag = d->n_stokes != 1 ? 1 : 0;
 
+     /* The truncation factor f links these so they are always updated together. */
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {
-          if (d->solvers & XRTM_SOLVERS_USE_G &&
-              d->dep_flags_opt_props[i_layer] & DEP_MASK_G)
+          if (d->solvers & XRTM_SOLVERS_USE_G)
                delta_m_g(d->n_derivs, f, NULL, d->g0[i], &d->g[i], NULL, NULL, 0);
           else
-          if (d->solvers & XRTM_SOLVERS_USE_COEF &&
-              d->dep_flags_opt_props[i_layer] & DEP_MASK_COEF)
+          if (d->solvers & XRTM_SOLVERS_USE_COEF)
                delta_m_coef(d->n_coef2, d->n_derivs, f, NULL, d->coef0[i], d->coef[i], NULL, NULL, flag, coef_type, 0);
 
-          if (d->dep_flags_opt_props[i_layer] & DEP_MASK_OMEGA)
-               delta_m_omega(d->n_derivs, f, NULL, d->omega0[i], &d->omega[i], NULL, NULL, 0);
+          delta_m_omega(d->n_derivs, f, NULL, d->omega0[i], &d->omega[i], NULL, NULL, 0);
 
-          if (d->dep_flags_opt_props[i_layer] & DEP_MASK_LTAU)
-               delta_m_ltau(d->n_derivs, f, NULL, d->omega0[i], NULL, d->ltau0[i], &d->ltau[i], NULL, NULL, 0);
+          delta_m_ltau(d->n_derivs, f, NULL, d->omega0[i], NULL, d->ltau0[i], &d->ltau[i], NULL, NULL, 0);
      }
      else {
-          if (d->solvers & XRTM_SOLVERS_USE_G &&
-              d->dep_flags_opt_props[i_layer] & DEP_MASK_G)
+          if (d->solvers & XRTM_SOLVERS_USE_G)
                delta_m_g(d->n_derivs, f, f_l, d->g0[i], &d->g[i], d->g0_l[i], d->g_l[i], 1);
           else
-          if (d->solvers & XRTM_SOLVERS_USE_G &&
-              d->dep_flags_opt_props[i_layer] & DEP_MASK_G_L)
-               delta_m_g_l(d->n_derivs, f, f_l, d->g0[i], d->g0_l[i], d->g_l[i]);
-          else
-          if (d->solvers & XRTM_SOLVERS_USE_COEF &&
-              d->dep_flags_opt_props[i_layer] & DEP_MASK_COEF)
+          if (d->solvers & XRTM_SOLVERS_USE_COEF)
                delta_m_coef(d->n_coef2, d->n_derivs, f, f_l, d->coef0[i], d->coef[i], d->coef0_l[i], d->coef_l[i], flag, coef_type, 1);
-          else
-          if (d->solvers & XRTM_SOLVERS_USE_COEF &&
-              d->dep_flags_opt_props[i_layer] & DEP_MASK_COEF_L)
-               delta_m_coef_l(d->n_coef2, d->n_derivs, f, f_l, d->coef0[i], d->coef0_l[i], d->coef_l[i], flag, coef_type);
 
-          if (d->dep_flags_opt_props[i_layer] & DEP_MASK_OMEGA)
-               delta_m_omega(d->n_derivs, f, f_l, d->omega0[i], &d->omega[i], d->omega0_l[i], d->omega_l[i], 1);
-          else
-          if (d->dep_flags_opt_props[i_layer] & DEP_MASK_OMEGA_L)
-               delta_m_omega_l(d->n_derivs, f, f_l, d->omega0[i], d->omega0_l[i], d->omega_l[i]);
+          delta_m_omega(d->n_derivs, f, f_l, d->omega0[i], &d->omega[i], d->omega0_l[i], d->omega_l[i], 1);
 
-          if (d->dep_flags_opt_props[i_layer] & DEP_MASK_LTAU)
-               delta_m_ltau(d->n_derivs, f, f_l, d->omega0[i], d->omega0_l[i], d->ltau0[i], &d->ltau[i], d->ltau0_l[i], d->ltau_l[i], 1);
-          else
-          if (d->dep_flags_opt_props[i_layer] & DEP_MASK_LTAU_L)
-               delta_m_ltau_l(d->n_derivs, f, f_l, d->omega0[i], d->omega0_l[i], d->ltau0[i], d->ltau0_l[i], d->ltau_l[i]);
+          delta_m_ltau(d->n_derivs, f, f_l, d->omega0[i], d->omega0_l[i], d->ltau0[i], &d->ltau[i], d->ltau0_l[i], d->ltau_l[i], 1);
      }
 
      d->dep_flags_opt_props[i_layer] &= (deps ^ DEP_MASK_MASK);
@@ -423,6 +402,12 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
                break;
      }
 
+     /* levels below an updated level also need to be updated */
+     if (i <= i_level2) {
+          for (j = i_level2; j < d->n_layers; ++j)
+               dep_flags[j] |= deps;
+     }
+
      if (d->options & XRTM_OPTION_PSA)
           get_chapman(d, &chapman);
 
@@ -2091,7 +2076,10 @@ static void call_solver
 static int layer_R_T_S_U_W_V_deps(xrtm_data *d) {
 
      int deps = opt_props_deps(d) | beam_params_deps(d) | phase_vecs_deps_q0(d) |
-                local_r_t_u_w_deps(d);
+                local_r_t_u_w_deps(d) | DEP_MASK_F_0 | DEP_MASK_LEVELS_B | DEP_MASK_LEVELS_B_L;
+
+     if (d->solvers & XRTM_SOLVER_DOUB_ADD)
+          deps |= DEP_MASK_DOUB_D_TAU;
 
      if (d->solvers & XRTM_SOLVER_PADE_ADD)
           deps |= DEP_MASK_PADE_PARAMS;
@@ -2519,9 +2507,11 @@ static int build_layer_stacks(xrtm_data *d, int i_four, int solver, save_tree_da
 /*******************************************************************************
  *
  ******************************************************************************/
+static int diff_bound_input_deps(xrtm_data *d);
+
 static int total_R_T_S_U_W_V_deps(xrtm_data *d) {
 
-     return layer_R_T_S_U_W_V_deps(d);
+     return layer_R_T_S_U_W_V_deps(d) | diff_bound_input_deps(d);
 }
 
 
@@ -4161,7 +4151,8 @@ if (d->derivs.layers[d->n_layers][i]) {
 static int diff_bound_input_deps(xrtm_data *d) {
 
      return opt_props_deps(d) | beam_params_deps(d) |
-            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_BOT | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
+            DEP_MASK_UMUS | DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT | DEP_MASK_F_ISO_BOT_L |
+            DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
 }
 
 
@@ -6249,6 +6240,21 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
      }
 
 
+     /*-------------------------------------------------------------------------
+      * Saved layer and total R, T and S are those of the last adding solver used.
+      *-----------------------------------------------------------------------*/
+     if (solver & XRTM_SOLVERS_ADDING && solver != d->last_adding_solver) {
+          for (i = 0; i < d->n_four; ++i) {
+               d->dep_flags_total_R_T_S_U_W_V[i] = DEP_MASK_MASK;
+
+               for (j = 0; j < d->n_layers; ++j)
+                    d->dep_flags_layer_R_T_S_U_W_V[i][j] = DEP_MASK_MASK;
+          }
+
+          d->last_adding_solver = solver;
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From b5a7b3a0c9804c1a004be60a69be26fc3342df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 011/102] fix: basic_matrix() with a single coefficient

---
 src/xrtm_scatter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index f2d741f..79e3b83 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -634,9 +634,11 @@ void basic_matrix(int i_four, int n_coef, int n_stokes, double mu, double ***A)
           if (n_stokes >= 4)
                A[0][3][3] = 1.;
 
-          A[1][0][0] = mu;
-          if (n_stokes >= 4)
-               A[1][3][3] = mu;
+          if (n_coef >= 2) {
+               A[1][0][0] = mu;
+               if (n_stokes >= 4)
+                    A[1][3][3] = mu;
+          }
 
           if (n_coef >= 3) {
                leg_poly(3, mu, P);
-- 
2.43.0


From bf7aff11911800664e8808b1d1aaa43d9832441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 012/102] fix: quadrature output of the eig_bvp, two_stream and
 four_stream solvers: fluxes with SFI, thermal sources at taus

---
 src/xrtm_eig_bvp.c     | 181 ++++++++++++++++++++-----------
 src/xrtm_eig_bvp_x.c   |  14 ++-
 src/xrtm_four_stream.c |  34 ------
 src/xrtm_two_stream.c  | 234 ++++++++++++++++++++---------------------
 4 files changed, 244 insertions(+), 219 deletions(-)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 92aab4f..b6e0d89 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -130,6 +130,47 @@
 #undef CALC_RADIANCE_TAUS
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static void add_thermal_at_taus(int n_quad, int n_derivs,
+                                int n_ulevels, int *ulevels, double *utaus,
+                                double *ltau, double **ltau_l,
+                                double ***At_p, double ***At_m,
+                                double ****At_p_l, double ****At_m_l,
+                                double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
+                                uchar **derivs_layers, uchar **derivs_thermal) {
+
+     int i;
+     int ii;
+     int j;
+     int k;
+
+     double utau_l;
+
+     for (i = 0; i < n_ulevels; ++i) {
+          ii = ulevels[i];
+
+          for (j = 0; j < n_quad; ++j) {
+               I_p[i][j] += At_p[ii][0][j] + At_p[ii][1][j] * utaus[i];
+               I_m[i][j] += At_m[ii][0][j] + At_m[ii][1][j] * utaus[i];
+          }
+
+          for (j = 0; j < n_derivs; ++j) {
+               if (derivs_layers[ii][j] || derivs_thermal[ii][j]) {
+                    utau_l = derivs_layers[ii][j] ? utaus[i] * ltau_l[ii][j] / ltau[ii] : 0.;
+
+                    for (k = 0; k < n_quad; ++k) {
+                         I_p_l[i][j][k] += At_p_l[ii][j][0][k] + At_p_l[ii][j][1][k] * utaus[i] + At_p[ii][1][k] * utau_l;
+                         I_m_l[i][j][k] += At_m_l[ii][j][0][k] + At_m_l[ii][j][1][k] * utaus[i] + At_m[ii][1][k] * utau_l;
+                    }
+               }
+          }
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -658,37 +699,44 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
-               if (! utau_output)
-                    calc_radiance_levels(n_quad_v_x, n_layers, n_derivs,
-                                         n_ulevels, ulevels,
-                                         ltau, ltau_l,
-                                         atran2, atran2_l,
-                                         nu, X_p, X_m,
-                                         Fs_p, Fs_m, Fs1_p, Fs1_m,
-                                         Ft0_p, Ft0_m, Ft1_p, Ft1_m,
-                                         nu_l, X_p_l, X_m_l,
-                                         Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
-                                         Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
-                                         B, B_l,
-                                         I_p, I_m, I_p_l, I_m_l,
-                                         solar, thermal,
-                                         derivs->layers, derivs->beam, derivs->thermal,
-                                         save_tree, work);
-               else
-                    calc_radiance_taus  (n_quad_v_x, n_layers, n_derivs,
-                                         n_ulevels, ulevels, utaus,
-                                         ltau, ltau_l,
-                                         as_0, as_0_l, atran2, atran2_l,
-                                         nu, X_p, X_m,
-                                         Fs_p, Fs_m,
-                                         nu_l, X_p_l, X_m_l,
-                                         Fs_p_l, Fs_m_l,
-                                         B, B_l,
-                                         I_p, I_m, I_p_l, I_m_l,
-                                         solar, thermal,
-                                         derivs->layers, derivs->beam, derivs->thermal,
-                                         save_tree, work);
+          if (! utau_output)
+               calc_radiance_levels(n_quad_v_x, n_layers, n_derivs,
+                                    n_ulevels, ulevels,
+                                    ltau, ltau_l,
+                                    atran2, atran2_l,
+                                    nu, X_p, X_m,
+                                    Fs_p, Fs_m, Fs1_p, Fs1_m,
+                                    Ft0_p, Ft0_m, Ft1_p, Ft1_m,
+                                    nu_l, X_p_l, X_m_l,
+                                    Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
+                                    Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
+                                    B, B_l,
+                                    I_p, I_m, I_p_l, I_m_l,
+                                    solar, thermal,
+                                    derivs->layers, derivs->beam, derivs->thermal,
+                                    save_tree, work);
+          else {
+               calc_radiance_taus  (n_quad_v_x, n_layers, n_derivs,
+                                    n_ulevels, ulevels, utaus,
+                                    ltau, ltau_l,
+                                    as_0, as_0_l, atran2, atran2_l,
+                                    nu, X_p, X_m,
+                                    Fs_p, Fs_m,
+                                    nu_l, X_p_l, X_m_l,
+                                    Fs_p_l, Fs_m_l,
+                                    B, B_l,
+                                    I_p, I_m, I_p_l, I_m_l,
+                                    solar, thermal,
+                                    derivs->layers, derivs->beam, derivs->thermal,
+                                    save_tree, work);
+
+               if (thermal)
+                    add_thermal_at_taus(n_quad_v_x, n_derivs,
+                                        n_ulevels, ulevels, utaus,
+                                        ltau, ltau_l,
+                                        At_p, At_m, At_p_l, At_m_l,
+                                        I_p, I_m, I_p_l, I_m_l,
+                                        derivs->layers, derivs->thermal);
           }
      }
      else {
@@ -710,38 +758,45 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
-               if (! utau_output)
-                    calc_radiance_levels2(n_quad_v_x, n_layers, n_derivs,
-                                          n_ulevels, ulevels,
-                                          ltau, ltau_l,
-                                          atran2, atran2_l,
-                                          nu_c, X_p_c, X_m_c,
-                                          Fs_p, Fs_m, Fs1_p, Fs1_m,
-                                          Ft0_p, Ft0_m, Ft1_p, Ft1_m,
-                                          nu_l_c, X_p_l_c, X_m_l_c,
-                                          Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
-                                          Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
-                                          B_c, B_l_c,
-                                          I_p, I_m, I_p_l, I_m_l,
-                                          solar, thermal,
-                                          derivs->layers, derivs->beam, derivs->thermal,
-                                          save_tree, work);
-               else
-                    calc_radiance_taus2  (n_quad_v_x, n_layers, n_derivs,
-                                          n_ulevels, ulevels, utaus,
-                                          ltau, ltau_l,
-                                          as_0, as_0_l, atran2, atran2_l,
-                                          nu_c, X_p_c, X_m_c,
-                                          Fs_p, Fs_m,
-                                          nu_l_c, X_p_l_c, X_m_l_c,
-                                          Fs_p_l, Fs_m_l,
-                                          B_c, B_l_c,
-                                          I_p, I_m, I_p_l, I_m_l,
-                                          solar, thermal,
-                                          derivs->layers, derivs->beam, derivs->thermal,
-                                          save_tree, work);
-               }
+          if (! utau_output)
+               calc_radiance_levels2(n_quad_v_x, n_layers, n_derivs,
+                                     n_ulevels, ulevels,
+                                     ltau, ltau_l,
+                                     atran2, atran2_l,
+                                     nu_c, X_p_c, X_m_c,
+                                     Fs_p, Fs_m, Fs1_p, Fs1_m,
+                                     Ft0_p, Ft0_m, Ft1_p, Ft1_m,
+                                     nu_l_c, X_p_l_c, X_m_l_c,
+                                     Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
+                                     Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
+                                     B_c, B_l_c,
+                                     I_p, I_m, I_p_l, I_m_l,
+                                     solar, thermal,
+                                     derivs->layers, derivs->beam, derivs->thermal,
+                                     save_tree, work);
+          else {
+               calc_radiance_taus2  (n_quad_v_x, n_layers, n_derivs,
+                                     n_ulevels, ulevels, utaus,
+                                     ltau, ltau_l,
+                                     as_0, as_0_l, atran2, atran2_l,
+                                     nu_c, X_p_c, X_m_c,
+                                     Fs_p, Fs_m,
+                                     nu_l_c, X_p_l_c, X_m_l_c,
+                                     Fs_p_l, Fs_m_l,
+                                     B_c, B_l_c,
+                                     I_p, I_m, I_p_l, I_m_l,
+                                     solar, thermal,
+                                     derivs->layers, derivs->beam, derivs->thermal,
+                                     save_tree, work);
+
+               if (thermal)
+                    add_thermal_at_taus(n_quad_v_x, n_derivs,
+                                        n_ulevels, ulevels, utaus,
+                                        ltau, ltau_l,
+                                        At_p, At_m, At_p_l, At_m_l,
+                                        I_p, I_m, I_p_l, I_m_l,
+                                        derivs->layers, derivs->thermal);
+          }
      }
 
 
diff --git a/src/xrtm_eig_bvp_x.c b/src/xrtm_eig_bvp_x.c
index 3a71343..136af4d 100644
--- a/src/xrtm_eig_bvp_x.c
+++ b/src/xrtm_eig_bvp_x.c
@@ -983,8 +983,11 @@ else {
           xm_v_mul(X_p[ii], v1, n_quad, n_quad, v3);
           xm_v_mul(X_m[ii], v2, n_quad, n_quad, v4);
 
-          for (j = 0; j < n_quad; ++j)
-               I_p[i][j] = XREAL(v3[j]) + XREAL(v4[j]) + Fs_p[ii][j] * XEXP(-utaus[i] * as_0[ii]);
+          for (j = 0; j < n_quad; ++j) {
+               I_p[i][j] = XREAL(v3[j]) + XREAL(v4[j]);
+               if (solar)
+                    I_p[i][j] += Fs_p[ii][j] * XEXP(-utaus[i] * as_0[ii]);
+          }
 }
 if (LEGACY_MODE) {
           for (j = 0; j < n_quad; ++j) {
@@ -1003,8 +1006,11 @@ else {
           xm_v_mul(X_m[ii], v1, n_quad, n_quad, v3);
           xm_v_mul(X_p[ii], v2, n_quad, n_quad, v4);
 
-          for (j = 0; j < n_quad; ++j)
-               I_m[i][j] = - XREAL(v3[j]) - XREAL(v4[j]) + Fs_m[ii][j] * XEXP(-utaus[i] * as_0[ii]);
+          for (j = 0; j < n_quad; ++j) {
+               I_m[i][j] = - XREAL(v3[j]) - XREAL(v4[j]);
+               if (solar)
+                    I_m[i][j] += Fs_m[ii][j] * XEXP(-utaus[i] * as_0[ii]);
+          }
 }
      }
 
diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index f73d873..508d174 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -779,7 +779,6 @@ if (thermal) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-if (n_umus == 0) {
      if (! utau_output) {
           for (i = 0; i < n_ulevels; ++i) {
                ii = ulevels[i];
@@ -925,38 +924,6 @@ if (n_umus == 0) {
 #endif
                }
           }
-
-          void calc_radiance_levels(int n_quad, int n_layers, int n_derivs,
-                                    int n_ulevels, int *ulevels,
-                                    double *ltau, double **ltau_l,
-                                    double *atran, double **atran_l,
-                                    double **nu, double ***X_p, double ***X_m,
-                                    double **F_p, double **F_m,
-                                    double **F0_p, double **F0_m, double **F1_p, double **F1_m,
-                                    double ***nu_l, double ****X_p_l, double ****X_m_l,
-                                    double ***F_p_l, double ***F_m_l,
-                                    double ***F0_p_l, double ***F0_m_l, double ***F1_p_l, double ***F1_m_l,
-                                    double *B, double **B_l,
-                                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                                    int thermal,
-                                    uchar **derivs_layers, uchar **derivs_beam,
-                                    save_tree_data save_tree, work_data work);
-
-          calc_radiance_levels(2, n_layers, 0,
-                               n_ulevels, ulevels,
-                               ltau, ltau_l,
-                               atran, atran_l,
-                               nu, X_p, X_m,
-                               F_p, F_m,
-                               NULL, NULL, NULL, NULL,
-                               NULL, NULL, NULL,
-                               NULL, NULL,
-                               NULL, NULL, NULL, NULL,
-                               b, NULL,
-                               I_p, I_m, I_p_l, I_m_l,
-                               0,
-                               NULL, NULL, save_tree, work);
-
      }
 
 
@@ -1077,7 +1044,6 @@ if (n_umus == 0) {
                              save_tree, work);
 */
      }
-}
 
      /*-------------------------------------------------------------------------
       *
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 504c6af..ce534af 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -865,162 +865,160 @@ if (0)
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (n_umus == 0) {
-          if (! utau_output) {
-               for (i = 0; i < n_ulevels; ++i) {
-                    ii = ulevels[i];
+     if (! utau_output) {
+          for (i = 0; i < n_ulevels; ++i) {
+               ii = ulevels[i];
 
-                    if (ii != n_layers) {
-                         iii = ii * 2 * 1;
+               if (ii != n_layers) {
+                    iii = ii * 2 * 1;
 if (1) {
-                         a1 = x[iii    ];
-                         a2 = x[iii + 1] * Lambda[ii];
-
-                         I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii];
-                         I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii];
-     if (0) {
-                         for (j = 0; j < n_derivs; ++j) {
-                              a1_l = x_l[j][iii    ];
-                              a2_l = x_l[j][iii + 1] * Lambda[ii] + x[iii + 1] * Lambda_l[ii][j];
-
-                              I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]  +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j];
-                              I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]  +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j];
-                         }
-     }
-     else {
-                         for (j = 0; j < n_derivs; ++j) {
-                              a1_l  = x_l[j][iii    ];
-                              a2_l  = x_l[j][iii + 1] * Lambda[ii];
+                    a1 = x[iii    ];
+                    a2 = x[iii + 1] * Lambda[ii];
+
+                    I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii];
+                    I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii];
+if (0) {
+                    for (j = 0; j < n_derivs; ++j) {
+                         a1_l = x_l[j][iii    ];
+                         a2_l = x_l[j][iii + 1] * Lambda[ii] + x[iii + 1] * Lambda_l[ii][j];
 
-                              if (derivs->layers[ii][j])
-                                   a2_l += x[iii + 1] * Lambda_l[ii][j];
+                         I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]  +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j];
+                         I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]  +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j];
+                    }
+}
+else {
+                    for (j = 0; j < n_derivs; ++j) {
+                         a1_l  = x_l[j][iii    ];
+                         a2_l  = x_l[j][iii + 1] * Lambda[ii];
 
-                              I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
-                              I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
+                         if (derivs->layers[ii][j])
+                              a2_l += x[iii + 1] * Lambda_l[ii][j];
 
-                              if (derivs->layers[ii][j]) {
-                                   I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
-                                   I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
-                              }
+                         I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
+                         I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
 
-                              if (derivs->beam[ii][j]) {
-                                   I_p_l[i][j][0] += F_p_l[ii][j];
-                                   I_m_l[i][j][0] += F_m_l[ii][j];
-                              }
+                         if (derivs->layers[ii][j]) {
+                              I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
+                              I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
                          }
-     }
+
+                         if (derivs->beam[ii][j]) {
+                              I_p_l[i][j][0] += F_p_l[ii][j];
+                              I_m_l[i][j][0] += F_m_l[ii][j];
+                         }
+                    }
+}
 }
 else
-                         calc_level_radiance(iii, n_derivs, 1., NULL, 1., Lambda[ii], X_p[ii], X_m[ii], F_p[ii], F_m[ii], NULL, Lambda_l[ii], X_p_l[ii], X_m_l[ii], F_p_l[ii], F_m_l[ii], x, x_l, I_p[i], I_m[i], I_p_l[i], I_m_l[i], derivs);
-                    }
-                    else {
-                         ii = n_layers - 1;
+                    calc_level_radiance(iii, n_derivs, 1., NULL, 1., Lambda[ii], X_p[ii], X_m[ii], F_p[ii], F_m[ii], NULL, Lambda_l[ii], X_p_l[ii], X_m_l[ii], F_p_l[ii], F_m_l[ii], x, x_l, I_p[i], I_m[i], I_p_l[i], I_m_l[i], derivs);
+               }
+               else {
+                    ii = n_layers - 1;
 
-                         iii = ii * 2 * 1;
+                    iii = ii * 2 * 1;
 if (1) {
-                         a1 = x[iii    ] * Lambda[ii];
-                         a2 = x[iii + 1];
-
-                         I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii] * atran[ii];
-                         I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii] * atran[ii];
-     if (0) {
-                         for (j = 0; j < n_derivs; ++j) {
-                              a1_l = x_l[j][iii    ] * Lambda[ii] + x[iii    ] * Lambda_l[ii][j];
-                              a2_l = x_l[j][iii + 1];
-
-                              I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]   +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j] * atran[ii] + F_p[ii] * atran_l[ii][j];
-                              I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]   +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j] * atran[ii] + F_m[ii] * atran_l[ii][j];
+                    a1 = x[iii    ] * Lambda[ii];
+                    a2 = x[iii + 1];
+
+                    I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii] * atran[ii];
+                    I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii] * atran[ii];
+if (0) {
+                    for (j = 0; j < n_derivs; ++j) {
+                         a1_l = x_l[j][iii    ] * Lambda[ii] + x[iii    ] * Lambda_l[ii][j];
+                         a2_l = x_l[j][iii + 1];
+
+                         I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]   +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j] * atran[ii] + F_p[ii] * atran_l[ii][j];
+                         I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]   +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j] * atran[ii] + F_m[ii] * atran_l[ii][j];
+                    }
+}
+else {
+                    for (j = 0; j < n_derivs; ++j) {
+                         a1_l  = x_l[j][iii] * Lambda  [ii];
+                         if (derivs->layers[ii][j])
+                              a1_l += x[iii] * Lambda_l[ii][j];
+                         a2_l  = x_l[j][iii + 1];
+
+                         I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
+                         I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
+
+                         if (derivs->layers[ii][j]) {
+                              I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
+                              I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
                          }
-     }
-     else {
-                         for (j = 0; j < n_derivs; ++j) {
-                              a1_l  = x_l[j][iii] * Lambda  [ii];
-                              if (derivs->layers[ii][j])
-                                   a1_l += x[iii] * Lambda_l[ii][j];
-                              a2_l  = x_l[j][iii + 1];
-
-                              I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
-                              I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
-
-                              if (derivs->layers[ii][j]) {
-                                   I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
-                                   I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
-                              }
-
-                              if (derivs->beam[ii][j]) {
-                                   I_p_l[i][j][0] += F_p_l[ii][j] * atran[ii] + F_p[ii] * atran_l[ii][j];
-                                   I_m_l[i][j][0] += F_m_l[ii][j] * atran[ii] + F_m[ii] * atran_l[ii][j];
-                              }
+
+                         if (derivs->beam[ii][j]) {
+                              I_p_l[i][j][0] += F_p_l[ii][j] * atran[ii] + F_p[ii] * atran_l[ii][j];
+                              I_m_l[i][j][0] += F_m_l[ii][j] * atran[ii] + F_m[ii] * atran_l[ii][j];
                          }
-     }
+                    }
+}
 }
 else
-                         calc_level_radiance(iii, n_derivs, atran[ii], atran_l[ii], Lambda[ii], 1., X_p[ii], X_m[ii], F_p[ii], F_m[ii], Lambda_l[ii], NULL, X_p_l[ii], X_m_l[ii], F_p_l[ii], F_m_l[ii], x, x_l, I_p[i], I_m[i], I_p_l[i], I_m_l[i], derivs);
-                    }
+                    calc_level_radiance(iii, n_derivs, atran[ii], atran_l[ii], Lambda[ii], 1., X_p[ii], X_m[ii], F_p[ii], F_m[ii], Lambda_l[ii], NULL, X_p_l[ii], X_m_l[ii], F_p_l[ii], F_m_l[ii], x, x_l, I_p[i], I_m[i], I_p_l[i], I_m_l[i], derivs);
                }
           }
+     }
 
 
-          /*--------------------------------------------------------------------
-           *
-           *------------------------------------------------------------------*/
-          else {
-               for (i = 0; i < n_ulevels; ++i) {
-                    ii = ulevels[i];
+     /*--------------------------------------------------------------------
+      *
+      *------------------------------------------------------------------*/
+     else {
+          for (i = 0; i < n_ulevels; ++i) {
+               ii = ulevels[i];
 
-                    iii = ii * 2 * 1;
+               iii = ii * 2 * 1;
 
-                    uatran = exp(-utaus[i] * as_0[ii]);
+               uatran = exp(-utaus[i] * as_0[ii]);
 
-                    a1 = x[iii]     * exp(-nu[ii] * (utaus[i] - 0.));
-                    a2 = x[iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i]));
+               a1 = x[iii]     * exp(-nu[ii] * (utaus[i] - 0.));
+               a2 = x[iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i]));
 
-                    I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii] * uatran;
-                    I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii] * uatran;
+               I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii] * uatran;
+               I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii] * uatran;
 if (0) {
-                    for (j = 0; j < n_derivs; ++j) {
-                         utau_l   =  utaus[i] * ltau_l[ii][j] / ltau[ii];
+               for (j = 0; j < n_derivs; ++j) {
+                    utau_l   =  utaus[i] * ltau_l[ii][j] / ltau[ii];
 
-                         uatran_l = (-utau_l * as_0[ii] - utaus[i] * as_0_l[ii][j]) * uatran;
+                    uatran_l = (-utau_l * as_0[ii] - utaus[i] * as_0_l[ii][j]) * uatran;
 
-                         a1_l = x_l[j][iii]     * exp(-nu[ii] * (utaus[i] - 0.))       + x[iii]     * (-nu_l[ii][j] * (utaus[i] - 0.)       - nu[ii] * (utau_l        - 0.))     * exp(-nu[ii] * (utaus[i] - 0.));
-                         a2_l = x_l[j][iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i])) + x[iii + 1] * (-nu_l[ii][j] * (ltau[ii] - utaus[i]) - nu[ii] * (ltau_l[ii][j] - utau_l)) * exp(-nu[ii] * (ltau[ii] - utaus[i]));
+                    a1_l = x_l[j][iii]     * exp(-nu[ii] * (utaus[i] - 0.))       + x[iii]     * (-nu_l[ii][j] * (utaus[i] - 0.)       - nu[ii] * (utau_l        - 0.))     * exp(-nu[ii] * (utaus[i] - 0.));
+                    a2_l = x_l[j][iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i])) + x[iii + 1] * (-nu_l[ii][j] * (ltau[ii] - utaus[i]) - nu[ii] * (ltau_l[ii][j] - utau_l)) * exp(-nu[ii] * (ltau[ii] - utaus[i]));
 
-                         I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]   +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j] * uatran + F_p[ii] * uatran_l;
-                         I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]   +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j] * uatran + F_m[ii] * uatran_l;
-                    }
+                    I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]   +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j] * uatran + F_p[ii] * uatran_l;
+                    I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]   +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j] * uatran + F_m[ii] * uatran_l;
+               }
 }
 else {
-                    for (j = 0; j < n_derivs; ++j) {
-                         utau_l   =  utaus[i] * ltau_l[ii][j] / ltau[ii];
+               for (j = 0; j < n_derivs; ++j) {
+                    utau_l   =  utaus[i] * ltau_l[ii][j] / ltau[ii];
 
-                         uatran_l = (-utau_l * as_0[ii] - utaus[i] * as_0_l[ii][j]) * uatran;
+                    uatran_l = (-utau_l * as_0[ii] - utaus[i] * as_0_l[ii][j]) * uatran;
 
-                         a1_l = x_l[j][iii] * exp(-nu[ii] * (utaus[i] - 0.));
+                    a1_l = x_l[j][iii] * exp(-nu[ii] * (utaus[i] - 0.));
 
-                         if (derivs->layers[ii][j])
-                              a1_l += x[iii] * (-nu_l[ii][j] * (utaus[i] - 0.) - nu[ii] * (utau_l - 0.)) * exp(-nu[ii] * (utaus[i] - 0.));
+                    if (derivs->layers[ii][j])
+                         a1_l += x[iii] * (-nu_l[ii][j] * (utaus[i] - 0.) - nu[ii] * (utau_l - 0.)) * exp(-nu[ii] * (utaus[i] - 0.));
 
-                         a2_l = x_l[j][iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i]));
+                    a2_l = x_l[j][iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i]));
 
-                         if (derivs->layers[ii][j])
-                              a2_l += x[iii + 1] * (-nu_l[ii][j] * (ltau[ii] - utaus[i]) - nu[ii] * (ltau_l[ii][j] - utau_l)) * exp(-nu[ii] * (ltau[ii] - utaus[i]));
+                    if (derivs->layers[ii][j])
+                         a2_l += x[iii + 1] * (-nu_l[ii][j] * (ltau[ii] - utaus[i]) - nu[ii] * (ltau_l[ii][j] - utau_l)) * exp(-nu[ii] * (ltau[ii] - utaus[i]));
 
-                         I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
-                         I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
+                    I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
+                    I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
 
-                         if (derivs->layers[ii][j]) {
-                              I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
-                              I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
-                         }
+                    if (derivs->layers[ii][j]) {
+                         I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
+                         I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
+                    }
 
-                         if (derivs->beam[ii][j]) {
-                              I_p_l[i][j][0] += F_p_l[ii][j] * uatran + F_p[ii] * uatran_l;
-                              I_m_l[i][j][0] += F_m_l[ii][j] * uatran + F_m[ii] * uatran_l;
-                         }
+                    if (derivs->beam[ii][j]) {
+                         I_p_l[i][j][0] += F_p_l[ii][j] * uatran + F_p[ii] * uatran_l;
+                         I_m_l[i][j][0] += F_m_l[ii][j] * uatran + F_m[ii] * uatran_l;
                     }
-}
                }
+}
           }
      }
 
@@ -1028,7 +1026,7 @@ else {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     else {
+     if (n_umus > 0) {
           v1      = get_work_d1(&work, n_umus);
           v2      = get_work_d1(&work, n_umus);
           v3      = get_work_d1(&work, n_umus);
-- 
2.43.0


From 665889165e6aafdf7ab0cda7e0cde4193116a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 013/102] fix: phase polynomials of the four and six stream
 solvers at the quadrature in use

---
 src/xrtm_four_stream.c |  61 -------------------
 src/xrtm_six_stream.c  | 133 -----------------------------------------
 2 files changed, 194 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 508d174..3505f73 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -51,63 +51,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  2.1132486540518713e-01;
-          Y[2] = -4.3301270189221930e-01;
-          Y[3] = -2.9339382851364088e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.9113739634803417e-01;
-          Y[2] = -2.5297384456881489e-01;
-          Y[3] =  3.2872926407690672e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  5.8502498576049988e-01;
-          Y[3] =  2.7644581385388761e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.2199120072772409e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  7.8867513459481287e-01;
-          Y[2] =  4.3301270189221941e-01;
-          Y[3] =  4.3393828513641042e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -4.3473643283710062e-01;
-          Y[2] = -5.9386101120610690e-01;
-          Y[3] = -5.6173675511805921e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  2.3147159516722612e-01;
-          Y[3] =  4.0820738302757004e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -1.2991165542275507e-01;
-     }
-}
-
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -303,12 +246,8 @@ void rtm_four_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 86fbec4..1c5aaba 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -50,134 +50,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  1.1270166537925830e-01;
-          Y[2] = -4.8094750193111252e-01;
-          Y[3] = -1.6547375096555625e-01;
-          Y[4] =  3.2807458365518544e-01;
-          Y[5] =  1.9893319427622813e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -7.0260171314221176e-01;
-          Y[2] = -1.3715137481548439e-01;
-          Y[3] =  4.0292921564868400e-01;
-          Y[4] = -1.8223631786344985e-01;
-          Y[5] =  2.8081218084679899e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  6.0459428593010522e-01;
-          Y[3] =  1.5236295047544621e-01;
-          Y[4] = -3.5556492019184532e-01;
-          Y[5] = -1.9387690021392759e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4840021642031433e-01;
-          Y[4] =  1.6352229402102095e-01;
-          Y[5] = -3.2126686945422495e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  5.0971315964803132e-01;
-          Y[5] =  1.7233656587417068e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  4.8047556172276995e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  5.0000000000000000e-01;
-          Y[2] = -1.2500000000000000e-01;
-          Y[3] = -4.3750000000000000e-01;
-          Y[4] = -2.8906250000000000e-01;
-          Y[5] =  8.9843750000000000e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.1237243569579447e-01;
-          Y[2] = -5.3033008588991071e-01;
-          Y[3] = -9.3750000000000014e-02;
-          Y[4] = -3.0257682392245444e-01;
-          Y[5] = -3.5205044263593283e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  4.5927932677184591e-01;
-          Y[3] =  5.1348989766109321e-01;
-          Y[4] =  2.2234764798058917e-01;
-          Y[5] = -1.6982082124440748e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -3.6309218870694526e-01;
-          Y[4] =  4.8032581715435607e-01;
-          Y[5] =  3.0020363572147252e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.9413829057838586e-01;
-          Y[5] =  4.4120743586757882e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  2.4165926516368683e-01;
-     }
-}
-
-
-
-static void calc_Y_3(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  8.8729833462074170e-01;
-          Y[2] =  6.8094750193111264e-01;
-          Y[3] =  4.1547375096555617e-01;
-          Y[4] =  1.3442541634481442e-01;
-          Y[5] = -1.1768319427622852e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -3.2611475386683919e-01;
-          Y[2] = -5.0118808883115185e-01;
-          Y[3] = -5.8642821144342672e-01;
-          Y[4] =  5.7443661482497066e-01;
-          Y[5] =  4.7276033207965390e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  1.3025263690484826e-01;
-          Y[3] =  2.5842896765342832e-01;
-          Y[4] =  3.7928200264310813e-01;
-          Y[5] =  4.6559021420497959e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4837967049776844e-02;
-          Y[4] =  1.2873600645546979e-01;
-          Y[5] =  2.2073939349622659e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.3657607267441809e-02;
-          Y[5] =  6.2974066588538019e-02;
-     }
-     else if (i_four == 5) {
-          Y[5] =  1.0350885816619845e-02;
-     }
-}
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -463,14 +335,9 @@ void rtm_six_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-     calc_Y_3(i_four, Y_q[2]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
      calc_Y_x(i_four, qx[2], Y_q[2]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
-- 
2.43.0


From bb2f5a1c986840424e731c13db83caa342288380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 014/102] fix: derivatives of the surface radiance when only
 sources have derivatives

---
 src/xrtm_radiance.c | 75 +++++++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 3544a9b..b08dd56 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -189,7 +189,7 @@ void radiance_boa_ref(int n_quad, int n_derivs,
           w3 = get_work1(&work, WORK_DXX);
 
           for (i = 0; i < n_derivs; ++i) {
-               if (derivs[i] == ADDING_U_U) {
+               if (derivs[i] == ADDING_U_U || derivs[i] == ADDING_U_S) {
                     dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
 
                     dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
@@ -216,7 +216,36 @@ void radiance_boa_ref(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_L_U) {
+               if (derivs[i] == ADDING_S_U || derivs[i] == ADDING_S_S) {
+                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
+                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+
+                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+
+                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+
+                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               }
+               else
+               if (derivs[i] == ADDING_S_L || derivs[i] == ADDING_S_B) {
+                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
+
+                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
+
+                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, v1, n_quad);
+                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+
+                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+
+                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
+                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, I2_p_l[i], n_quad);
+
+                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               }
+               else
+               if (derivs[i] == ADDING_L_U || derivs[i] == ADDING_L_S) {
                     dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
 
                     dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
@@ -233,7 +262,7 @@ void radiance_boa_ref(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_L_L) {
+               if (derivs[i] == ADDING_L_L || derivs[i] == ADDING_L_B) {
                     dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
                     dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
                     dmat_add(w2, w3, w2,  n_quad, n_quad);
@@ -436,36 +465,40 @@ void radiance_boa_all(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_S_U) {
-/*
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
+               if (derivs[i] == ADDING_S_U || derivs[i] == ADDING_S_S) {
+                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
+                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, v1, n_quad);
+                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+
+                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+
+                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+
+                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               }
+               else
+               if (derivs[i] == ADDING_S_L || derivs[i] == ADDING_S_B) {
+                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
 
                     dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
 
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
                     dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
                     dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
                     dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
                     dvec_add(v1, v2, v1, n_quad);
                     dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
 
                     dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
+                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, I2_p_l[i], n_quad);
 
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-*/
-                    dvec_copy(I2_m_l[i], S12_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
                }
                else
-               if (derivs[i] == ADDING_L_U) {
+               if (derivs[i] == ADDING_L_U || derivs[i] == ADDING_L_S) {
                     dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
 
                     dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
@@ -486,7 +519,7 @@ void radiance_boa_all(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_L_L) {
+               if (derivs[i] == ADDING_L_L || derivs[i] == ADDING_L_B) {
                     dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
                     dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
                     dmat_add(w2, w3, w2,  n_quad, n_quad);
@@ -495,6 +528,8 @@ void radiance_boa_all(int n_quad, int n_derivs,
 
                     dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
                     dvec_add(v1, v2, v1, n_quad);
+                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, v1, n_quad);
                     dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
                     dvec_add(v1, v2, v1, n_quad);
                     dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
@@ -505,6 +540,8 @@ void radiance_boa_all(int n_quad, int n_derivs,
                     dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
                     dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
                     dvec_add(v1, v2, I2_p_l[i], n_quad);
+
+                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
                if (derivs[i] == ADDING_B_U || derivs[i] == ADDING_B_S) {
-- 
2.43.0


From 66692184d718da194ef1e55e49d00f729efb90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 015/102] fix: derivatives of the surface emission for a
 non-Lambertian surface

---
 src/xrtm_model.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 2fc3b16..f77a0c8 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4104,10 +4104,16 @@ if (i_four == 0) {
 
                     if (d->derivs.layers[d->n_layers][i]) {
 */
-                         c = d->surface_b_l[i] * (1. - a);
-
                          jj = 0;
                          for (j = 0; j < d->n_quad_x; ++j) {
+                              a  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   a  += Rs_qq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c  = d->surface_b_l[i] * (1. - a);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
@@ -4121,10 +4127,16 @@ if (d->derivs.layers[d->n_layers][i]) {
                               jj += d->n_stokes;
                          }
 
-                         c = d->surface_b_l[i] * (1. - b);
-
                          jjj = jj; jj = 0;
                          for ( ; j < d->n_quad + d->n_umus; ++j) {
+                              b  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   b  += Rs_uq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c  = d->surface_b_l[i] * (1. - b);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
-- 
2.43.0


From 8521110c936f5823264b1155d2b9bcedb8a30285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 016/102] fix: arguments of sfi_layer() for output at taus in
 the two stream solver

---
 src/xrtm_two_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index ce534af..a36ffe4 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1713,9 +1713,9 @@ void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, doubl
                          I_u_l2 = I_u_l[i_out_level];
 
                     if (n_derivs == 0)
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
                     else
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
 
                     i_out_level += inc;
                }
-- 
2.43.0


From 6df9921bd4b50c1bca1f814ae80da4567b162c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 017/102] fix: bottom up adding without a surface: bottom
 boundary source and its derivatives

---
 src/xrtm_model.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index f77a0c8..6f3b2f8 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2857,6 +2857,20 @@ static int get_total_TOA_R_S_U_V
                }
           }
      }
+     else {
+          dmat_zero(R1_m, d->n_quad_v_x, d->n_quad_v_x);
+          dvec_copy(S1_p, S_s, d->n_quad_v_x);
+
+          if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(derivs_total[0], d->n_derivs)) {
+               for (i = 0; i < d->n_derivs; ++i) {
+                    if (derivs_layers[d->n_layers][i])
+                         dmat_zero(R1_m_l[i], d->n_quad_v_x, d->n_quad_v_x);
+
+                    if (derivs_sources[d->n_layers][i])
+                         dvec_copy(S1_p_l[i], S_s_l[i], d->n_quad_v_x);
+               }
+          }
+     }
 
      for (i = d->n_layers - 1; i >= 0; --i) {
           work3 = work2;
@@ -2900,10 +2914,7 @@ static int get_total_TOA_R_S_U_V
                dvec_copy(save->S3_m[i], S3_m, d->n_quad_v_x);
           }
 
-          if (! surface && i == d->n_layers - 1)
-               layer_copy_ref_l(R1_m, S1_p, R2_m, S3_p, R1_m_l, S1_p_l, R2_m_l, S3_p_l, d->n_quad_v_x, d->n_derivs, derivs_layers2, derivs_sources2);
-          else
-               layer_add_ref   (R2_m, T2_m, S3_m, R2_p, T2_p, S3_p, R1_m, S1_p, R1_m, S1_p, R2_m_l, T2_m_l, S3_m_l, R2_p_l, T2_p_l, S3_p_l, R1_m_l, S1_p_l, R1_m_l, S1_p_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_adding_up2, 0, 1, save_tree, work3);
+          layer_add_ref(R2_m, T2_m, S3_m, R2_p, T2_p, S3_p, R1_m, S1_p, R1_m, S1_p, R2_m_l, T2_m_l, S3_m_l, R2_p_l, T2_p_l, S3_p_l, R1_m_l, S1_p_l, R1_m_l, S1_p_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_adding_up2, 0, 1, save_tree, work3);
      }
 
      if (d->options & XRTM_OPTION_REVERSE_DERIVS)
-- 
2.43.0


From e2c5c909e6097be3f73cfad9e9dbf80edbdccddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 018/102] fix: read past the end of the output levels in the
 source function integration

---
 src/xrtm_sfi_x.c      | 4 ++--
 src/xrtm_two_stream.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 592c4ea..6bebd07 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -992,7 +992,7 @@ static void SFI(int i_four,
 
           for (i = i1; i != i2; i += inc) {
 
-               if ((! flag && utau_output && i == ulevels[i_out_level]) || (flag && utau_output && i == ulevels[i_out_level])) {
+               if (utau_output) {
                     while (i_out_level >= 0 && i_out_level < n_ulevels && i == ulevels[i_out_level]) {
                          ptau = utaus[i_out_level];
 
@@ -1051,7 +1051,7 @@ static void SFI(int i_four,
 
           for (i = i1; i != i2; i += inc) {
 
-               if ((! flag && utau_output && i == ulevels[i_out_level]) || (flag && utau_output && i == ulevels[i_out_level])) {
+               if (utau_output) {
                     while (i_out_level >= 0 && i_out_level < n_ulevels && i == ulevels[i_out_level]) {
                          ptau = utaus[i_out_level];
 
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index a36ffe4..1390a5c 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1696,7 +1696,7 @@ void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, doubl
       *-----------------------------------------------------------------------*/
      for (i = i1; i != i2; i += inc) {
 
-          if ((! flag && utau_output && i == ulevels[i_out_level]) || (flag && utau_output && i == ulevels[i_out_level])) {
+          if (utau_output) {
                while (i_out_level >= 0 && i_out_level < n_ulevels && i == ulevels[i_out_level]) {
                     ptau = utaus[i_out_level];
 
-- 
2.43.0


From 8de110bc79ff0866cdac13d4a4c73cbeedc8ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 019/102] fix: derivatives of trivial eigenvectors in layers
 which do not scatter by themselves

---
 src/xrtm_eig_util.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index 3d05951..7abc32e 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -54,6 +54,37 @@ int is_trivial_eigenvector(int i, int n_quad, double **evecs) {
 }
 
 
+
+/* A trivial eigenvector has no derivatives unless those of gamma couple it to
+   the rest, as they do for a layer that does not scatter by itself. */
+static int is_trivial_eigenvector_l(int i, int n_quad, int n_derivs, double **evecs, double ***gamma_l, uchar *derivs) {
+
+     int j;
+     int k;
+     int l;
+
+     for (l = 0; l < n_quad; ++l) {
+          if (fabs(evecs[l][i]) > DBL_EPSILON)
+               break;
+     }
+
+     if (l == n_quad)
+          return 1;
+
+     for (j = 0; j < n_derivs; ++j) {
+          if (! derivs[j])
+               continue;
+
+          for (k = 0; k < n_quad; ++k) {
+               if (gamma_l[j][k][l] != 0.)
+                    return 0;
+          }
+     }
+
+     return 1;
+}
+
+
 /*
 int is_dummy_node_eigenvector(int i, int n_quad, double **evecs) {
 
@@ -338,7 +369,7 @@ static void eig_1n_gen_real(int n_quad, int n_derivs,
 
           for (i = 0; i < n_quad; ++i) {
 
-               if (is_trivial_eigenvector(i, n_quad, evecs))
+               if (is_trivial_eigenvector(i, n_quad, evecs) && (is_trivial_eigenvector_l(i, n_quad, n_derivs, evecs, gamma_l, derivs) || is_degenerate_eigenvalue(i, n_quad, evals)))
 /*
                if (is_dummy_node_eigenvector(i, n_quad, evecs))
 */
-- 
2.43.0


From 61fcf86bbd9b2de972e2117c6c4d286f1a03b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 020/102] fix: tolerance of the test for degenerate eigenvalues
 relative to the largest one (library exit)

---
 src/xrtm_eig_util.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index 7abc32e..3062bfc 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -110,9 +110,16 @@ int is_degenerate_eigenvalue(int i, int n_quad, double *evals) {
 
      int j;
 
+     double a;
+
+     /* the eigenvalues are accurate relative to the largest */
+     a = 1.;
+     for (j = 0; j < n_quad; ++j)
+          a = MAX(a, fabs(evals[j]));
+
      for (j = 0; j < n_quad; ++j) {
           if (i != j) {
-               if (fabs(evals[i] - evals[j]) <= DBL_EPSILON * 1.e2) {
+               if (fabs(evals[i] - evals[j]) <= DBL_EPSILON * 1.e2 * a) {
                     return 1;
                 }
           }
-- 
2.43.0


From e5b1b0bc8446fe88d5da6ff4a18e0f6214fcab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:12 +0000
Subject: [PATCH 021/102] fix: eig_bvp derivatives with respect to F_iso_bot
 without a surface

---
 src/xrtm_eig_bvp_x.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_eig_bvp_x.c b/src/xrtm_eig_bvp_x.c
index 136af4d..98ceaa2 100644
--- a/src/xrtm_eig_bvp_x.c
+++ b/src/xrtm_eig_bvp_x.c
@@ -507,10 +507,10 @@ else {
                     }
 
                     b += c;
-
-                    b += In_p_l[m][j];
                }
 
+               b += In_p_l[m][j];
+
                for (k = 0; k < n_quad_v; ++k) {
                     if (derivs_layers[i][m])
                          b -= B[ii + k] * (lambda_l[i][k] * X_p[i][j][k] + lambda[i][k] * X_p_l[i][m][j][k]) + B[ii + k + n_quad_v] * X_m_l[i][m][j][k];
-- 
2.43.0


From 0cf4fb0781ea3c5720d5d2b5d86680422200c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:31 +0000
Subject: [PATCH 022/102] fix: derivative of surface emission at more than one
 output angle with sfi

---
 src/xrtm_sfi_x.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 6bebd07..46bb4df 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -1273,10 +1273,17 @@ void SFI_UP(int i_four,
           }
 
           for (i = 0; i < n_derivs; ++i) {
-               b = surface_b_l[i] * (1. - a);
-
                jj = 0;
                for (j = 0; j < n_umus; ++j) {
+                    a  = 0.;
+                    kk = 0;
+                    for (k = 0; k < n_quad; ++k) {
+                         a  += Rs_uq[jj][kk];
+                         kk += n_stokes;
+                    }
+
+                    b = surface_b_l[i] * (1. - a);
+
                     c  = 0.;
                     kk = 0;
 
-- 
2.43.0


From 8233b9943e273fcce8b97474735a41fc232d449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:19 +0000
Subject: [PATCH 023/102] fix: two_os derivatives with a pseudo-spherical beam

---
 src/xrtm_two_os.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 72a3105..29046f4 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -655,11 +655,11 @@ if (0) {
 
                     for (m = 0; m < n_derivs; ++m) {
                          if (y[k] == x[l])
-                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - as_0_l[j][m]))) * b;
+                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]))) * b;
                          else
                               Phi2_l[j][m][k][l] = ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]) * b - (-ltau_l[j][m] * (x[l] + as_0[j]) - ltau[j] * as_0_l[j][m]) * c) / (x[l] - y[k]);
                          if (as_0[j] == x[l])
-                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * -ltau[j] * (x[l] + y[k])) * d;
+                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * (-ltau_l[j][m] * (x[l] + y[k]) - ltau[j] * as_0_l[j][m] / 2.)) * d;
                          else
                               Phi3_l[j][m][k][l] = ((-ltau_l[j][m] * (x[l] + y[k]) * d - (-ltau_l[j][m] * (as_0[j] + y[k]) - ltau[j] * as_0_l[j][m]) * e) - Phi3[j][k][l] * as_0_l[j][m]) / (as_0[j] - x[l]);
                     }
@@ -742,7 +742,7 @@ if (0) {
                     a = 0.;
                     for (l = 0; l < n_quad_v_x; ++l) {
                          a += (Phi3_l[j][m][k][l] * R_p[j+1][k][l] + Phi3[j][k][l] * R_p_l[j+1][m][k][l] +
-                               r_m_l[j][m][k][l] * w4[k][l] + r_m[j][k][l] * w1[k][l] * as_0_l[j][m] * (x[l] + y[k]) / ((y[k] + as_0[j]) * (x[l] + y[k])) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
+                               r_m_l[j][m][k][l] * w4[k][l] - r_m[j][k][l] * w1[k][l] * as_0_l[j][m] * (x[l] + y[k]) / ((y[k] + as_0[j]) * (x[l] + y[k])) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
 
                          if (derivs->layers[j][m])
                               a += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0_l[j][m][l];
-- 
2.43.0


From e202c3b280ab2197369dfaf44f34cc05c9ae0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 024/102] fix: derivatives of the source function integration
 with a pseudo-spherical beam in layers below the varied one

---
 src/xrtm_sfi_x.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 46bb4df..ded56d8 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -29,6 +29,7 @@ static void SFI_SOURCE_SOLAR_CLASSIC(double ptau, double *ptau_l,
      double solfac;
 
      double e2_l;
+     double e1_l2;
 
      double *q1;
      double *q2;
@@ -128,18 +129,22 @@ static void SFI_SOURCE_SOLAR_CLASSIC(double ptau, double *ptau_l,
                          Fu_0_l[k] +=                      omega * (u3[k] + a2 * P_u0_pm     [k]);
           }
 
-          if (derivs_layers[j])
-               e2_l = (-ptau_l[j] * as_0 - ptau * as_0_l[j]) * e2;
+          if (derivs_beam[j]) {
+               e2_l = (              - ptau * as_0_l[j]) * e2;
+               if (derivs_layers[j])
+                    e2_l -= ptau_l[j] * as_0 * e2;
+          }
 
           for (k = 0; k < n_umus_v; ++k) {
-               if (derivs_beam[j])
+               if (derivs_beam[j]) {
                     I_u_l[j][offset + k] += Fu_0_l[k] * Eu_0[k];
 
-               if (derivs_layers[j]) {
+                    e1_l2 = derivs_layers[j] ? e1_l[j][k] : 0.;
+
                     if (! flag)
-                         Eu_0_l = ((e2_l - atran_l[j] * e1[k] - atran * e1_l[j][k]) - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
+                         Eu_0_l = ((e2_l - atran_l[j] * e1[k] - atran * e1_l2) - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
                     else
-                         Eu_0_l = ((e2_l -                              e1_l[j][k]) - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+                         Eu_0_l = ((e2_l -                              e1_l2) - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
 
                     I_u_l[j][offset + k] += Fu_0[k] * Eu_0_l;
                }
-- 
2.43.0


From b1cdbbf3fffd69cdde6b3937e7b8109af954151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:43 +0000
Subject: [PATCH 025/102] fix: four_stream and six_stream particular solution
 with a pseudo-spherical beam

---
 src/xrtm_four_stream.c |  8 ++++----
 src/xrtm_six_stream.c  | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 3505f73..d8ba65a 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -481,8 +481,8 @@ if (solar) {
           h[0] = apb[0][0] * p[0] + apb[0][1] * p[1] + e[0];
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + e[1];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -497,7 +497,7 @@ if (solar) {
           mat2d_matvec(apb, p, v1);
           vec2d_add(v1, e, h);
 
-          vec2d_scale(mu_0, h, v1);
+          vec2d_scale(1. / as_0[i], h, v1);
           vec2d_add(v1, p, v1);
           vec2d_scale(.5, v1, F_p[i]);
 
@@ -513,7 +513,7 @@ if (solar) {
           dm_v_mul(apb, p, 2, 2, v1);
           dvec_add(v1, e, h, 2);
 
-          dvec_scale(mu_0, h, v1, 2);
+          dvec_scale(1. / as_0[i], h, v1, 2);
           dvec_add(v1, p, v1, 2);
           dvec_scale(.5, v1, F_p[i], 2);
 
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 1c5aaba..4afaaa6 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -669,9 +669,9 @@ if (n_derivs > 0) {
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + apb[1][2] * p[2] + e[1];
           h[2] = apb[2][0] * p[0] + apb[2][1] * p[1] + apb[2][2] * p[2] + e[2];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
-          F_p[i][2] = (mu_0 * h[2] + p[2]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
+          F_p[i][2] = (h[2] / as_0[i] + p[2]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -687,7 +687,7 @@ if (n_derivs > 0) {
           mat3d_matvec(apb, p, v1);
           vec3d_add(v1, e, h);
 
-          vec3d_scale(mu_0, h, v1);
+          vec3d_scale(1. / as_0[i], h, v1);
           vec3d_add(v1, p, v1);
           vec3d_scale(.5, v1, F_p[i]);
 
@@ -703,7 +703,7 @@ if (n_derivs > 0) {
           dm_v_mul(apb, p, 3, 3, v1);
           dvec_add(v1, e, h, 3);
 
-          dvec_scale(mu_0, h, v1, 3);
+          dvec_scale(1. / as_0[i], h, v1, 3);
           dvec_add(v1, p, v1, 3);
           dvec_scale(.5, v1, F_p[i], 3);
 
-- 
2.43.0


From e2519922841214f2e7c415f08b31d86d93b205b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:09 +0000
Subject: [PATCH 026/102] fix: quadrature normalisation of the beam reflected
 by the surface in two_stream, four_stream and six_stream

---
 src/xrtm_four_stream.c | 2 +-
 src/xrtm_six_stream.c  | 2 +-
 src/xrtm_two_stream.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index d8ba65a..33927bf 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -1135,7 +1135,7 @@ if (n_umus != 0) {
      if (upwelling)
           sfi_up(i_four,
                  2, 1, 0, n_layers,
-                 1., qx, qw, F_0, mu_0,
+                 .5 / (qx[0] * qw[0] + qx[1] * qw[1]), qx, qw, F_0, mu_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  0., NULL,
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 4afaaa6..ba0e557 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -1414,7 +1414,7 @@ if (n_umus != 0) {
      if (upwelling)
           sfi_up(i_four,
                  3, 1, 0, n_layers,
-                 1., qx, qw, F_0, mu_0,
+                 .5 / (qx[0] * qw[0] + qx[1] * qw[1] + qx[2] * qw[2]), qx, qw, F_0, mu_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  0., NULL,
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 1390a5c..4cb3cb4 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -297,7 +297,7 @@ void rtm_two_stream(int i_four,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     solfac = F_0 * mu_0 / PI;
+     solfac = F_0 * mu_0 / PI * (.5 / qx);
 
 
      /*-------------------------------------------------------------------------
-- 
2.43.0


From 21094958b4554788bdcedfb71c3b3260660489ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 027/102] fix: sign of U of the single scattered solution at
 azimuths beyond 180 degrees from the sun

---
 src/xrtm_scatter.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index 79e3b83..acb834d 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1068,8 +1068,11 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
 
      if (1. - cos_sig1_2 < 0.)
           S1 = 0.;
-     else
+     else {
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
+          if (sin(D2R*d_phi) < 0.)
+               S1 = -S1;
+     }
 
      if (n_stokes >= 2)
           P2[1] =  P1_01*C1;
@@ -1120,8 +1123,11 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
 
      if (1. - cos_sig1_2 < 0.)
           S1 = 0.;
-     else
+     else {
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
+          if (sin(D2R*d_phi) < 0.)
+               S1 = -S1;
+     }
 
      if (n_stokes >= 2)
           P1_a[1]  =  P2_a[1]*C1;
-- 
2.43.0


From 8e048590af30a5263051cd75360736139e8f8735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 028/102] fix: sign of U of the single scattered downwelling
 solution at nadir

---
 src/xrtm_scatter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index acb834d..9524d17 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1057,7 +1057,7 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
 /*
                cos_sig1 = 1.;
 */
-               cos_sig1 = cos(D2R*d_phi);
+               cos_sig1 = -mu_prime * cos(D2R*d_phi);
           else
                cos_sig1 = (mu - mu_prime * MU) / (sin_theta2 * sin_scat);
      }
@@ -1112,7 +1112,7 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
 /*
                cos_sig1 = 1.;
 */
-               cos_sig1 = cos(D2R*d_phi);
+               cos_sig1 = -mu_prime * cos(D2R*d_phi);
           else
                cos_sig1 = (mu - mu_prime * MU) / (sin_theta2 * sin_scat);
      }
-- 
2.43.0


From 86905215732ea4bf7a040edd3ecc045996bc6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 029/102] fix: quadrature normalisation of the beam reflected
 by the surface in two_os

---
 src/xrtm_two_os.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 29046f4..10e3c90 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -368,12 +368,12 @@ if (0)
                init_array1_d(i_p_l[0][n_layers][j], n_quad_v_x, 0.);
      }
      else {
-          dvec_copy(i_p[0][n_layers], Rs_q0, n_quad_v_x);
+          dvec_scale(qf, Rs_q0, i_p[0][n_layers], n_quad_v_x);
           for (j = 0; j < n_derivs; ++j) {
                if (! derivs->layers[n_layers][j])
                     init_array1_d(i_p_l[0][n_layers][j], n_quad_v_x, 0.);
                else
-                    dvec_copy(i_p_l[0][n_layers][j], Rs_q0_l[j], n_quad_v_x);
+                    dvec_scale(qf, Rs_q0_l[j], i_p_l[0][n_layers][j], n_quad_v_x);
           }
      }
 
-- 
2.43.0


From af756e644ef2300d2f1794f3dda57b04b635d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 030/102] fix: thermal emission of a layer is unpolarized, do
 not add it to the Q, U and V elements of the source

---
 src/xrtm_doub_rts.c |  9 ++++++---
 src/xrtm_sfi_x.c    |  6 ++++--
 src/xrtm_source.c   | 28 +++++++++++++++++++++-------
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/xrtm_doub_rts.c b/src/xrtm_doub_rts.c
index e70d53b..cf13843 100644
--- a/src/xrtm_doub_rts.c
+++ b/src/xrtm_doub_rts.c
@@ -214,7 +214,8 @@ void rtm_doub_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
           }
 
           c = (1. - omega) * planck0 * d_tau;
-          for (i = 0; i < n_quad_v; ++i)
+          dvec_zero(v1, n_quad_v);
+          for (i = 0; i < n_quad_v; i += n_stokes)
                v1[i] = c;
           dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
           dvec_copy(Sl_p, v1, n_quad_v);
@@ -256,7 +257,8 @@ if (thermal) {
                     d =     - omega_l[i] * planck0      * d_tau +
                         (1. - omega)     * planck0_l[i] * d_tau +
                         (1. - omega)     * planck0      * d_tau_l[i];
-                    for (j = 0; j < n_quad_v; ++j)
+                    dvec_zero(v1, n_quad_v);
+                    for (j = 0; j < n_quad_v; j += n_stokes)
                          v1[j] = d;
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
@@ -265,7 +267,8 @@ if (thermal) {
                else
                if (derivs_thermal[i]) {
                     d = (1. - omega)     * planck0_l[i] * d_tau;
-                    for (j = 0; j < n_quad_v; ++j)
+                    dvec_zero(v1, n_quad_v);
+                    for (j = 0; j < n_quad_v; j += n_stokes)
                          v1[j] = d;
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index ded56d8..01546c6 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -379,7 +379,8 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
           a3 = pow(tau0, j);
 
           for (k = 0; k < n_umus_v; ++k) {
-               u22[j][k] += a1;
+               if (k % n_stokes == 0)
+                    u22[j][k] += a1;
 
                if (j == 0)
                     u24[j][k] = 1. - e1[k];
@@ -438,7 +439,8 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
                }
 
                for (l = 0; l < n_umus_v; ++l) {
-                    u2[l] += a1_l;
+                    if (l % n_stokes == 0)
+                         u2[l] += a1_l;
 
                     u5[l] += u2[l] * u24[k][l];
 
diff --git a/src/xrtm_source.c b/src/xrtm_source.c
index 8c5a70e..788c9ec 100644
--- a/src/xrtm_source.c
+++ b/src/xrtm_source.c
@@ -472,7 +472,9 @@ void build_thermal_source_coefficients
 
      bb = aa * c[n - 1];
 
-     dvec_init(a[n - 1], bb, n_quad_v2);
+     dvec_zero(a[n - 1], n_quad_v2);
+     for (i = 0; i < n_quad_v2; i += n_stokes)
+          a[n - 1][i] = bb;
 
      dmat_getrs(w1, &a[n - 1], n_quad_v2, 1, i1);
 
@@ -488,8 +490,12 @@ void build_thermal_source_coefficients
 
           jj = n_quad_v;
           for (j = 0; j < n_quad_v; ++j) {
-               a[i][j ] = bb + a[i + 1][j ] * (i + 1) *  qx_v[j];
-               a[i][jj] = bb + a[i + 1][jj] * (i + 1) * -qx_v[j];
+               a[i][j ] = a[i + 1][j ] * (i + 1) *  qx_v[j];
+               a[i][jj] = a[i + 1][jj] * (i + 1) * -qx_v[j];
+               if (j % n_stokes == 0) {
+                    a[i][j ] += bb;
+                    a[i][jj] += bb;
+               }
                jj++;
           }
 
@@ -534,7 +540,9 @@ void build_thermal_source_coefficients
 
                bb = -omega_l[i] * c[n - 1] + (1. - omega) * c_l[n - 1];
 
-               dvec_init(v2, bb, n_quad_v2);
+               dvec_zero(v2, n_quad_v2);
+               for (j = 0; j < n_quad_v2; j += n_stokes)
+                    v2[j] = bb;
 
                dvec_sub(v2, v1, a_l, n_quad_v2);
 
@@ -559,7 +567,9 @@ void build_thermal_source_coefficients
 
                     bb = -omega_l[i] * c[j] + (1. - omega) * c_l[j];
 
-                    dvec_init(v2, bb, n_quad_v2);
+                    dvec_zero(v2, n_quad_v2);
+                    for (k = 0; k < n_quad_v2; k += n_stokes)
+                         v2[k] = bb;
 
                     dvec_sub(v2, v1, v1, n_quad_v2);
 
@@ -597,7 +607,9 @@ void build_thermal_source_coefficients
 */
                bb = (1. - omega) * c_l[n - 1];
 
-               dvec_init(v2, bb, n_quad_v2);
+               dvec_zero(v2, n_quad_v2);
+               for (j = 0; j < n_quad_v2; j += n_stokes)
+                    v2[j] = bb;
 
 dvec_copy(a_l, v2, n_quad_v2);
 /*
@@ -624,7 +636,9 @@ dvec_copy(a_l, v2, n_quad_v2);
 */
                     bb = (1. - omega) * c_l[j];
 
-                    dvec_init(v2, bb, n_quad_v2);
+                    dvec_zero(v2, n_quad_v2);
+                    for (k = 0; k < n_quad_v2; k += n_stokes)
+                         v2[k] = bb;
 /*
                     dvec_sub(v2, v1, v1, n_quad_v2);
 */
-- 
2.43.0


From f164afa47cc369b916547902a352814ad5ff9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:40 +0000
Subject: [PATCH 031/102] fix: thermal source of a layer whose top level has a
 Planck source of zero in the doubling solver

---
 src/xrtm_doub_rts.c | 54 +++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/xrtm_doub_rts.c b/src/xrtm_doub_rts.c
index cf13843..2d6d021 100644
--- a/src/xrtm_doub_rts.c
+++ b/src/xrtm_doub_rts.c
@@ -197,29 +197,24 @@ void rtm_doub_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
      }
 
      if (thermal) {
-          if (planck0 == 0.)
-               lin_fac = 0.;
-          else
-               lin_fac = (planck1 / planck0 - 1.) / pow(2., n_doub);
+          lin_fac = (planck1 - planck0) / pow(2., n_doub);
 
           if (flags_or(derivs_thermal, n_derivs)) {
                for (i = 0; i < n_derivs; ++i) {
-                    if (derivs_thermal[i]) {
-                         if (planck0 == 0.)
-                              lin_fac_l[i] = 0.;
-                         else
-                              lin_fac_l[i] = (planck1_l[i] - planck1 * planck0_l[i] / planck0) / planck0 / pow(2., n_doub);
-                    }
+                    if (derivs_thermal[i])
+                         lin_fac_l[i] = (planck1_l[i] - planck0_l[i]) / pow(2., n_doub);
                }
           }
 
-          c = (1. - omega) * planck0 * d_tau;
+          c = (1. - omega) * d_tau;
           dvec_zero(v1, n_quad_v);
           for (i = 0; i < n_quad_v; i += n_stokes)
                v1[i] = c;
           dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
-          dvec_copy(Sl_p, v1, n_quad_v);
-          dvec_copy(Sl_m, v1, n_quad_v);
+          dvec_copy(L_p, v1, n_quad_v);
+          dvec_copy(L_m, v1, n_quad_v);
+          dvec_scale(planck0, v1, Sl_p, n_quad_v);
+          dvec_scale(planck0, v1, Sl_m, n_quad_v);
      }
 if (solar) {
      if (flags_or(derivs_beam, n_derivs)) {
@@ -254,25 +249,26 @@ if (thermal) {
      if (flags_or(derivs_thermal, n_derivs)) {
           for (i = 0; i < n_derivs; ++i) {
                if (derivs_layers[i]) {
-                    d =     - omega_l[i] * planck0      * d_tau +
-                        (1. - omega)     * planck0_l[i] * d_tau +
-                        (1. - omega)     * planck0      * d_tau_l[i];
+                    d =     - omega_l[i] * d_tau +
+                        (1. - omega)     * d_tau_l[i];
                     dvec_zero(v1, n_quad_v);
                     for (j = 0; j < n_quad_v; j += n_stokes)
                          v1[j] = d;
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
-                    dvec_copy(Sl_p_l[i], v1, n_quad_v);
-                    dvec_copy(Sl_m_l[i], v1, n_quad_v);
+                    dvec_copy(L_p_l[i], v1, n_quad_v);
+                    dvec_copy(L_m_l[i], v1, n_quad_v);
                }
                else
                if (derivs_thermal[i]) {
-                    d = (1. - omega)     * planck0_l[i] * d_tau;
-                    dvec_zero(v1, n_quad_v);
-                    for (j = 0; j < n_quad_v; j += n_stokes)
-                         v1[j] = d;
-                    dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
-                    dvec_copy(Sl_p_l[i], v1, n_quad_v);
-                    dvec_copy(Sl_m_l[i], v1, n_quad_v);
+                    dvec_zero(L_p_l[i], n_quad_v);
+                    dvec_zero(L_m_l[i], n_quad_v);
+               }
+
+               if (derivs_layers[i] || derivs_thermal[i]) {
+                    dvec_scale(planck0_l[i], L_p, Sl_p_l[i], n_quad_v);
+                    dvec_scale(planck0, L_p_l[i], v1, n_quad_v);
+                    dvec_add(Sl_p_l[i], v1, Sl_p_l[i], n_quad_v);
+                    dvec_copy(Sl_m_l[i], Sl_p_l[i], n_quad_v);
                }
           }
      }
@@ -285,15 +281,15 @@ if (thermal) {
      for (i = 0; i < n_doub; ++i) {
           if (! symmetric) {
                if (! flags_or(derivs_layers, n_derivs) && ! (solar && flags_or(derivs_beam, n_derivs)) && ! (thermal && flags_or(derivs_thermal, n_derivs)))
-                    layer_double  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, work);
+                    layer_double  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, work);
                else
-                    layer_double_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, derivs_layers, derivs_beam, derivs_thermal, work);
+                    layer_double_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, derivs_layers, derivs_beam, derivs_thermal, work);
           }
           else {
                if (! flags_or(derivs_layers, n_derivs) && ! (solar && flags_or(derivs_beam, n_derivs)) && ! (thermal && flags_or(derivs_thermal, n_derivs)))
-                    layer_double_s  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, work);
+                    layer_double_s  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, work);
                else
-                    layer_double_s_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, derivs_layers, derivs_beam, derivs_thermal, work);
+                    layer_double_s_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, derivs_layers, derivs_beam, derivs_thermal, work);
           }
 
           if (solar) {
-- 
2.43.0


From 2379e14ae13858477425f09c7084551cd8a9a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 032/102] fix: azimuth dependence of the beam reflected by the
 surface in the single solver

---
 src/xrtm_model.c | 79 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 6f3b2f8..2ea470b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4239,6 +4239,62 @@ static void copy_polys(xrtm_data *d, void *polys2, void *polys1) {
 
 
 
+static void azimuth_modes(int n_quad, int n_stokes,
+                          double a, double b, double *v1, double *v2);
+
+
+
+/*******************************************************************************
+ * Upwelling radiation at the bottom boundary in the direction of the output
+ * angle at offset ii and the azimuth angle phi, from all of its Fourier terms.
+ ******************************************************************************/
+static int n_four_bound_input(xrtm_data *d) {
+
+     if (d->options & XRTM_OPTION_REVERSE_DERIVS ||
+         ! (d->options & XRTM_OPTION_SOURCE_SOLAR) || ! solar_surface_for_i_four(d, 1))
+          return 1;
+
+     return d->n_four2;
+}
+
+
+
+static void sum_bound_input(xrtm_data *d, int n_four, int ii, double phi, double *In_p, double **In_p_l, double *v1) {
+
+     int i;
+     int j;
+
+     double a;
+     double b;
+     double c;
+
+     dvec_copy(In_p, d->In_p[0] + ii, d->n_stokes);
+
+     if (d->options & XRTM_OPTION_CALC_DERIVS) {
+          for (j = 0; j < d->n_derivs; ++j)
+               dvec_copy(In_p_l[j], d->In_p_l[0][j] + ii, d->n_stokes);
+     }
+
+     for (i = 1; i < n_four; ++i) {
+          a = i * (phi - d->phi_0)*D2R;
+
+          b = cos(a);
+          c = sin(a);
+
+          azimuth_modes(1, d->n_stokes, b, c, d->In_p[i] + ii, v1);
+          dvec_add(In_p, v1, In_p, d->n_stokes);
+
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               for (j = 0; j < d->n_derivs; ++j) {
+                    azimuth_modes(1, d->n_stokes, b, c, d->In_p_l[i][j] + ii, v1);
+                    dvec_add(In_p_l[j], v1, In_p_l[j], d->n_stokes);
+               }
+          }
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -4255,6 +4311,8 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
      int i_mus2_v;
      int n_mus2;
 
+     int n_four;
+
      double a;
 
      double *mus2;
@@ -4265,6 +4323,9 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
      double *omega2;
      double **omega2_l;
 
+     double *v1;
+
+     double *In_p;
      double **In_p_l;
      double **I1_m_l;
 
@@ -4338,6 +4399,9 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
 
      P_full = get_work2(&work, WORK_DS, WORK_LAYERS_V, NULL);
 
+     v1     = get_work1(&work, WORK_DS);
+     In_p   = get_work1(&work, WORK_DS);
+
      I      = get_work_d2(&work, d->n_ulevels, d->n_stokes);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
@@ -4359,7 +4423,10 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
 
      update_beam_params_all(d, work);
 
-     update_diff_bound_input(d, 0, save_tree, work);
+     n_four = n_four_bound_input(d);
+
+     for (i = 0; i < n_four; ++i)
+          update_diff_bound_input(d, i, save_tree, work);
 
      if (! (d->options & XRTM_OPTION_N_T_TMS)) {
            omega2   = d->omega0;
@@ -4418,13 +4485,7 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
                          dvec_copy(save->P_full_up[i][j][k], P_full[k], d->n_stokes);
                }
 
-               if (d->options & XRTM_OPTION_CALC_DERIVS) {
-                    for (k = 0; k < d->n_derivs; ++k) {
-                         for (l = 0; l < d->n_stokes; ++l) {
-                              In_p_l[k][l] = d->In_p_l[0][k][ii + l];
-                         }
-                    }
-               }
+               sum_bound_input(d, n_four, ii, phis[i][j], In_p, In_p_l, v1);
 
                single_scattered_radiance_up(d->n_stokes, d->n_derivs, d->n_layers,
                                             d->F_0,
@@ -4436,7 +4497,7 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
                                             d->btran, d->btran_l,
                                             d->as_0, d->as_0_l,
                                             d->atran, d->atran_l,
-                                            d->In_p[0]+ii, In_p_l,
+                                            In_p, In_p_l,
                                             I, I_l,
                                             d->options & XRTM_OPTION_OUTPUT_AT_TAUS,
                                             d->derivs.layers, d->derivs.beam,
-- 
2.43.0


From 7b79df1d22ce455d5f61f597693ce2585ee99a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 033/102] fix: getters check the index range before they read
 the set flag of that index

---
 src/xrtm_interface.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 0c16d6e..c067fa1 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -4149,10 +4149,10 @@ int xrtm_get_n_coef(xrtm_data *d, int i_layer) {
           return XRTM_INT_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
+
      return d->n_coef_layer[i_layer];
 }
 
@@ -4165,9 +4165,10 @@ double xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {
           return XRTM_DBL_ERROR;
      }
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
+
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
 
-     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_elem,  d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_coef,  d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
@@ -4383,10 +4384,10 @@ int xrtm_set_omega_n(xrtm_data *d, double *omega) {
 
 double xrtm_get_omega(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
+
      return d->omega0[i_layer];
 }
 
@@ -4534,10 +4535,10 @@ int xrtm_set_ltau_n(xrtm_data *d, double *ltau) {
 
 double xrtm_get_ltau(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
+
      return d->ltau0[i_layer];
 }
 
@@ -4653,10 +4654,10 @@ double xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
+
      return d->kernel_ampfac[i_kernel];
 }
 
@@ -4718,14 +4719,14 @@ double xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
 
      CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
+
      return d->kernel_params[i_kernel][i_param];
 }
 
-- 
2.43.0


From 2984b80cfc36e7e6c26d8b60b0f942cdeb0604c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:14 +0000
Subject: [PATCH 034/102] fix: getters of type double return XRTM_DBL_ERROR on
 error

---
 src/xrtm_interface.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c067fa1..38c3db2 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3595,7 +3595,7 @@ double xrtm_get_theta_0(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_mu_0, xrtm_input_index_to_name(INPUT_THETA_0), XRTM_DBL_ERROR);
@@ -3630,7 +3630,7 @@ double xrtm_get_phi_0(xrtm_data *d) {
 /*
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 */
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_phi_0, xrtm_input_index_to_name(INPUT_PHI_0), XRTM_DBL_ERROR);
@@ -3788,7 +3788,7 @@ double xrtm_get_surface_b(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_surface_b, xrtm_input_index_to_name(INPUT_SURFACE_B), XRTM_DBL_ERROR);
@@ -3843,7 +3843,7 @@ double xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
-- 
2.43.0


From 411956a50a8a39b90244786db4659080e3d1d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 035/102] fix: xrtm_get_kernel() rejects a negative index

---
 src/xrtm_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 38c3db2..99f3377 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2799,7 +2799,7 @@ int xrtm_get_n_kernel_quad(xrtm_data *d) {
  ******************************************************************************/
 enum xrtm_kernel_type xrtm_get_kernel(xrtm_data *d, int i_kernel) {
 
-     if (i_kernel > d->n_kernels - 1) {
+     if (i_kernel < 0 || i_kernel > d->n_kernels - 1) {
           fprintf(stderr, "ERROR: invalid kernel index: %d\n", i_kernel);
           return XRTM_INT_ERROR;
      }
-- 
2.43.0


From 590a10e39b3a4701c1b3142eace5badd09b7aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 036/102] fix: check all values before storing any in
 xrtm_set_out_taus() and xrtm_set_coef_*()

---
 src/xrtm_interface.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 99f3377..a81633e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3245,9 +3245,10 @@ int xrtm_set_out_taus(xrtm_data *d, double *out_taus) {
                fprintf(stderr, "ERROR: invalid value for out_taus[%d]: %e, must be >= zero\n", i, out_taus[i]);
                return XRTM_INT_ERROR;
           }
+     }
 
+     for (i = 0; i < d->n_ulevels; ++i)
           d->utaus[i] = out_taus[i];
-     }
 
      d->set_flags_utaus = 1;
 
@@ -4061,6 +4062,15 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           }
      }
 
+     for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
+          if ((n_coef_layer ? n_coef_layer[ii] : d->n_coef) > 1) {
+               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
+                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
+                    return -1;
+               }
+          }
+     }
+
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           if (! n_coef_layer) {
                d->n_coef_layer [i] = d->n_coef;
@@ -4071,13 +4081,6 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                d->n_coef_layer2[i] = MIN(n_coef_layer[ii], d->n_coef2);
           }
 
-          if (d->n_coef_layer[i] > 1) {
-               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
-                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
-                    return -1;
-               }
-          }
-
           for (j = 0; j < d->n_elem; ++j) {
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
-- 
2.43.0


From a47c022c2ac72ef8bb41c106df6395a397de48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:47 +0000
Subject: [PATCH 037/102] fix: leave the model as it was when theta_0 or
 out_thetas are rejected for a mu_0 adjustment conflict

---
 src/xrtm_interface.c | 55 +++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index a81633e..0ed2249 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2656,7 +2656,7 @@ static int solution_preprocess(xrtm_data *d) {
 /*******************************************************************************
  *
  ******************************************************************************/
-static int mu_0_singularity_adjust(xrtm_data *d) {
+static int mu_0_singularity_adjust(xrtm_data *d, double mu_0_0, int n_umus, double *umus) {
 
      int i;
      int n;
@@ -2666,18 +2666,16 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      double a;
      double mu_0;
 
-     mu_0 = d->mu_0;
+     mu_0 = mu_0_0;
 
-     d->mu_0 = d->mu_0_0;
-
-     n = d->set_flags_umus ? d->n_quad + d->n_umus : d->n_quad;
+     n = d->n_quad + n_umus;
 
      count = 0;
      for (i = 0; i < n; ++i) {
-          a = fabs(singularity_adjust_auto(d->qx[i], d->mu_0_0,
+          a = fabs(singularity_adjust_auto(i < d->n_quad ? d->qx[i] : umus[i - d->n_quad], mu_0_0,
                    d->misc_input.threshold_mu_0_singlarity));
-          if (a != d->mu_0_0) {
-               d->mu_0 = a;
+          if (a != mu_0_0) {
+               mu_0 = a;
                count++;
           }
           if (count > 1) {
@@ -2686,9 +2684,12 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           }
      }
 
-     if (d->mu_0 != mu_0)
+     if (mu_0 != d->mu_0)
           set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
 
+     d->mu_0_0 = mu_0_0;
+     d->mu_0   = mu_0;
+
      return 0;
 }
 
@@ -3288,6 +3289,8 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
      int j;
      int jj;
 
+     double *umus;
+
      if (d->n_umus == 0) {
           fprintf(stderr, "ERROR: model not initialized for user defined output angles (n_out_thetas == 0)\n");
           return XRTM_INT_ERROR;
@@ -3301,6 +3304,25 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
           }
      }
 
+     umus = alloc_array1_d(d->n_umus);
+     if (! umus) {
+          fprintf(stderr, "ERROR: alloc_array1_d(%d)\n", d->n_umus);
+          return XRTM_INT_ERROR;
+     }
+
+     for (i = 0; i < d->n_umus; ++i)
+          umus[i] = cos(out_thetas[i]*D2R);
+
+     if (d->set_flags_mu_0) {
+          if (mu_0_singularity_adjust(d, d->mu_0_0, d->n_umus, umus)) {
+               fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
+               free_array1_d(umus);
+               return XRTM_INT_ERROR;
+          }
+     }
+
+     free_array1_d(umus);
+
      ii = d->n_quad;
      for (i = 0; i < d->n_umus; ++i) {
           d->qx[ii] = cos(out_thetas[i]*D2R);
@@ -3325,13 +3347,6 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
 
      update_n_four2(d, d->set_flags_mu_0, 1);
 
-     if (d->set_flags_mu_0) {
-          if (mu_0_singularity_adjust(d)) {
-               fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
-               return XRTM_INT_ERROR;
-          }
-     }
-
      if (d->solvers & XRTM_SOLVERS_INTERNAL && d->misc_input.use_symmetric_form)
           build_sim_vectors(0, d->n_umus_v, d->qx_v + d->n_quad_v, d->qw_v + d->n_quad_v, d->alpha1 + d->n_quad_v, d->alpha2 + d->n_quad_v);
 
@@ -3571,15 +3586,13 @@ int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
           return XRTM_INT_ERROR;
      }
 
-     d->mu_0_0 = cos(theta_0*D2R);
-
-     update_n_four2(d, 1, d->set_flags_umus);
-
-     if (mu_0_singularity_adjust(d)) {
+     if (mu_0_singularity_adjust(d, cos(theta_0*D2R), d->set_flags_umus ? d->n_umus : 0, d->umus)) {
           fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
           return XRTM_INT_ERROR;
      }
 
+     update_n_four2(d, 1, d->set_flags_umus);
+
      if (d->solvers & XRTM_SOLVERS_INTERNAL && d->n_kernels > 0)
           brdf_aux_calc_mu_0(&d->kernel_aux, d->n_quad + d->n_umus, d->mu_0, d->n_kernel_quad, d->kernel_qx);
 
-- 
2.43.0


From 857e2bd8ebd3943e7a5b6342e298353939dca704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:22 +0000
Subject: [PATCH 038/102] fix: slant path through a layer whose levels have the
 same height (read before the array)

---
 src/xrtm_utility.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index c2ffa9b..a3c1061 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -916,7 +916,7 @@ void chapman_functions(int n_layers, double mu_0, double z0, double *z, double *
                r1 = z0 + z[j];
                r2 = z0 + z[j+1];
                if (r1 == r2)
-                    chap[i][j] = chap[i][j - 1];
+                    chap[i][j] = r1 / sqrt(r1*r1 - b);
                else
                     chap[i][j] = (sqrt(r1*r1 - b) - sqrt(r2*r2 - b)) / (r1 - r2);
           }
-- 
2.43.0


From 328bd13ff6df6a9e0173120bb9a895eff2fa8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:28 +0000
Subject: [PATCH 039/102] fix: setters of linearized inputs and solutions
 return XRTM_INT_ERROR on error as documented

---
 src/xrtm_support.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_support.h b/src/xrtm_support.h
index 3eaf101..e307093 100644
--- a/src/xrtm_support.h
+++ b/src/xrtm_support.h
@@ -169,7 +169,7 @@ extern "C" {
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {				\
           fprintf(stderr, "ERROR: can't set linearized inputs when model is "		\
                   "not initialized to evaluate derivatives\n");			\
-          return -1;								\
+          return XRTM_INT_ERROR;						\
      }										\
 } while (0)
 
@@ -191,7 +191,7 @@ extern "C" {
 #define SOLUTION_PREPROCESS()  do {						\
      if (solution_preprocess(d)) {						\
           fprintf(stderr, "ERROR: solution_preprocess()\n");				\
-          return -1;								\
+          return XRTM_INT_ERROR;						\
      }										\
 } while (0)
 
-- 
2.43.0


From 1b1c1ae43e963bc58944918f05414fe51caea755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:07 +0000
Subject: [PATCH 040/102] fix: name_list_to_mask() takes the mask of the vector
 option (bit 31) for an error

---
 misc/gindex_name_value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 4c064a9..a9b893e 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -186,8 +186,8 @@ long name_list_to_mask(char *s, long *values, const char **names, int n, const c
      char *token;
      char *lasts;
 
-     int temp;
-     int mask;
+     long temp;
+     long mask;
 
      mask = 0;
 
-- 
2.43.0


From 08f6613880ac4021fcbde502b29c0b01fa436fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 041/102] fix: mask_to_name_list() does not write past the end
 of the buffer

---
 misc/gindex_name_value.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index a9b893e..dee829d 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -165,16 +165,17 @@ char *mask_to_name_list(long mask, long *values, int n_values, const char **name
      n = 0;
 
      flag = 0;
-     for (i = 0; i < n_values; ++i) {
+     for (i = 0; i < n_values && n < length; ++i) {
           if (mask & values[i]) {
                if (flag)
                     n += snprintf(s + n, length - n, ",");
-               n += snprintf(s + n, length - n, "%s", names[i]);
+               if (n < length)
+                    n += snprintf(s + n, length - n, "%s", names[i]);
                flag = 1;
           }
      }
 
-     s[n] = '\0';
+     s[n < length ? n : length - 1] = '\0';
 
      return s;
 }
-- 
2.43.0


From b52b99ae51f57c04263cc327262de5299f984238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:00 +0000
Subject: [PATCH 042/102] fix: the boundary input of the BVP solvers is also
 formed when two_stream is among the enabled solvers

---
 src/xrtm_model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 2ea470b..3d46ff4 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5187,7 +5187,7 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
           }
      }
 }
-if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
+if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
      update_diff_bound_input(d, i_four, save_tree, work);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-- 
2.43.0


From 0d9558eb672a7311893d71f6af991718a34b8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:30 +0000
Subject: [PATCH 043/102] fix: xrtm_create() refuses derivatives and vector
 mode with the stream solvers that do not have them

---
 src/xrtm_interface.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 0ed2249..e294b4e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -669,6 +669,16 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
               return XRTM_INT_ERROR;
      }
 
+     if (options & XRTM_OPTION_CALC_DERIVS) {
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_CALC_DERIVS), XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, 0))
+               return XRTM_INT_ERROR;
+     }
+
+     if (options & XRTM_OPTION_VECTOR) {
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_VECTOR), XRTM_SOLVER_TWO_STREAM, XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, 0))
+               return XRTM_INT_ERROR;
+     }
+
      if (options & XRTM_OPTION_DELTA_M && ! (options & XRTM_OPTION_N_T_TMS)) {
           if (check_solvers(solvers, 0, report, "option", "delta_m without n_t_tms", XRTM_SOLVER_SINGLE, 0))
                return XRTM_INT_ERROR;
-- 
2.43.0


From 6c58c4eee8de64378f609d7123da8b205def7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:37 +0000
Subject: [PATCH 044/102] fix: derivatives of two_stream: pseudo-spherical beam
 below the varied layer, slots without varied layers, first order expansions

---
 src/xrtm_interface.c  |  4 ++--
 src/xrtm_two_stream.c | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index e294b4e..58eaf97 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -1315,7 +1315,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           if (d->solvers & XRTM_SOLVERS_USE_G)
                d->g_l    = ALLOC_ARRAY2_D(d->n_layers, d->n_derivs);
           if (d->solvers & XRTM_SOLVERS_USE_COEF)
-               d->coef_l = ALLOC_ARRAY4_D(d->n_layers, d->n_derivs, d->n_elem, d->n_coef);
+               d->coef_l = ALLOC_ARRAY4_D(d->n_layers, d->n_derivs, d->n_elem, MAX(d->n_coef, two_n_quad));
 
           if (! (d->options & XRTM_OPTION_DELTA_M)) {
                d->g0_l     = d->g_l;
@@ -1825,7 +1825,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           init_array2_d(d->omega_l, d->n_layers, d->n_derivs, 0.);
 
           if (d->solvers & XRTM_SOLVERS_USE_COEF)
-               init_array4_d(d->coef_l, d->n_layers, d->n_derivs, d->n_elem, d->n_coef, 0.);
+               init_array4_d(d->coef_l, d->n_layers, d->n_derivs, d->n_elem, MAX(d->n_coef, 2 * d->n_quad), 0.);
 
           if (d->options & XRTM_OPTION_DELTA_M) {
                init_array2_d(d->ltau0_l, d->n_layers, d->n_derivs, 0.);
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 4cb3cb4..31e9a16 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -277,7 +277,7 @@ void rtm_two_stream(int i_four,
 #endif
      }
 
-     if (flags_or2(derivs->layers, n_layers, n_derivs)) {
+     if (n_derivs > 0) {
           nu_l      = get_work_d2(&work, n_layers, n_derivs);
 
           X_p_l     = get_work_d2(&work, n_layers, n_derivs);
@@ -1484,11 +1484,23 @@ else
 
                e2_l = (-ptau_l[j] * as_0 - ptau * as_0_l[j]) * e2;
           }
+          else
+          if (derivs->beam[i_layer][j])
+               e2_l = (                  - ptau * as_0_l[j]) * e2;
 
           for (k = 0; k < n_umus; ++k) {
                if (derivs->beam[i_layer][j])
                     I_u_l[j][offset + k] += Gu_0[k] * Du_0[k];
 
+               if (derivs->beam[i_layer][j] && ! derivs->layers[i_layer][j]) {
+                    if (! flag)
+                         Eu_0 = ((e2_l - atran_l[j] * e1[k]) - Du_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
+                    else
+                         Eu_0 = ( e2_l                       - Du_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+
+                    I_u_l[j][offset + k] += Fu_0[k] * Eu_0;
+               }
+
                if (derivs->layers[i_layer][j]) {
                     if (! flag)
                          Eu_0 = ((e2_l - atran_l[j] * e1[k] - atran * e1_l[j][k]) - Du_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
-- 
2.43.0


From 101a83f2bc86138a3a3da237ad14b15a0d0ab928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:16 +0000
Subject: [PATCH 045/102] fix: an index of INT_MAX given to the setters of
 single layers and derivatives overflowed before it was refused

---
 src/xrtm_interface.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 58eaf97..7ac9133 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3920,6 +3920,8 @@ static int xrtm_set_g_x(xrtm_data *d, double *g,
 
 int xrtm_set_g_1(xrtm_data *d, int i_layer, double g) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+
      if (xrtm_set_g_x(d, &g, i_layer, i_layer + 1)) {
           fprintf(stderr, "ERROR: xrtm_set_g_x()\n");
           return XRTM_INT_ERROR;
@@ -3990,6 +3992,9 @@ static int xrtm_set_g_x_l(xrtm_data *d, void *g_l, int i_layer,
 
 int xrtm_set_g_l_11(xrtm_data *d, int i_layer, int i_deriv, double g_l) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      if (xrtm_set_g_x_l(d, &g_l, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_set_g_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4002,6 +4007,8 @@ int xrtm_set_g_l_11(xrtm_data *d, int i_layer, int i_deriv, double g_l) {
 
 int xrtm_set_g_l_n1(xrtm_data *d, int i_deriv, double *g_l) {
 
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      if (xrtm_set_g_x_l(d, g_l, 0, d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_set_g_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4014,6 +4021,8 @@ int xrtm_set_g_l_n1(xrtm_data *d, int i_deriv, double *g_l) {
 
 int xrtm_set_g_l_1n(xrtm_data *d, int i_layer, double *g_l) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+
      if (xrtm_set_g_x_l(d, g_l, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_set_g_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4146,6 +4155,8 @@ int xrtm_set_coef_1(xrtm_data *d, int i_layer, int n_coef_layer, double **coef)
      else
           p = &n_coef_layer;
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+
      if (xrtm_set_coef_x(d, &coef, i_layer, i_layer + 1, p)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_x()\n");
           return XRTM_INT_ERROR;
@@ -4274,6 +4285,9 @@ static int xrtm_set_coef_x_l(xrtm_data *d, void *coef_l, int i_layer, int n_laye
 
 int xrtm_set_coef_l_11(xrtm_data *d, int i_layer, int i_deriv, double **coef_l) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      if (xrtm_set_coef_x_l(d, coef_l, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4286,6 +4300,8 @@ int xrtm_set_coef_l_11(xrtm_data *d, int i_layer, int i_deriv, double **coef_l)
 
 int xrtm_set_coef_l_n1(xrtm_data *d, int i_deriv, double ***coef_l) {
 
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      if (xrtm_set_coef_x_l(d, coef_l, 0, d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4298,6 +4314,8 @@ int xrtm_set_coef_l_n1(xrtm_data *d, int i_deriv, double ***coef_l) {
 
 int xrtm_set_coef_l_1n(xrtm_data *d, int i_layer, double ***coef_l) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+
      if (xrtm_set_coef_x_l(d, coef_l, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4386,6 +4404,8 @@ static int xrtm_set_omega_x(xrtm_data *d, double *omega,
 
 int xrtm_set_omega_1(xrtm_data *d, int i_layer, double omega) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+
      if (xrtm_set_omega_x(d, &omega, i_layer, i_layer + 1)) {
           fprintf(stderr, "ERROR: xrtm_set_omega_x()\n");
           return XRTM_INT_ERROR;
@@ -4449,6 +4469,9 @@ static int xrtm_set_omega_x_l(xrtm_data *d, void *omega_l, int i_layer,
 
 int xrtm_set_omega_l_11(xrtm_data *d, int i_layer, int i_deriv, double omega_l) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      if (xrtm_set_omega_x_l(d, &omega_l, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_set_omega_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4461,6 +4484,8 @@ int xrtm_set_omega_l_11(xrtm_data *d, int i_layer, int i_deriv, double omega_l)
 
 int xrtm_set_omega_l_n1(xrtm_data *d, int i_deriv, double *omega_l) {
 
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      if (xrtm_set_omega_x_l(d, omega_l, 0, d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_set_omega_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4473,6 +4498,8 @@ int xrtm_set_omega_l_n1(xrtm_data *d, int i_deriv, double *omega_l) {
 
 int xrtm_set_omega_l_1n(xrtm_data *d, int i_layer, double *omega_l) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+
      if (xrtm_set_omega_x_l(d, omega_l, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_set_omega_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4537,6 +4564,8 @@ static int xrtm_set_ltau_x(xrtm_data *d, double *ltau,
 
 int xrtm_set_ltau_1(xrtm_data *d, int i_layer, double ltau) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+
      if (xrtm_set_ltau_x(d, &ltau, i_layer, i_layer + 1)) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_x()\n");
           return XRTM_INT_ERROR;
@@ -4593,6 +4622,9 @@ static int xrtm_set_ltau_x_l(xrtm_data *d, void *ltau_l, int i_layer,
 
 int xrtm_set_ltau_l_11(xrtm_data *d, int i_layer, int i_deriv, double ltau_l) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      if (xrtm_set_ltau_x_l(d, &ltau_l, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4605,6 +4637,8 @@ int xrtm_set_ltau_l_11(xrtm_data *d, int i_layer, int i_deriv, double ltau_l) {
 
 int xrtm_set_ltau_l_n1(xrtm_data *d, int i_deriv, double *ltau_l) {
 
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      if (xrtm_set_ltau_x_l(d, ltau_l, 0, d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_x_l()\n");
           return XRTM_INT_ERROR;
@@ -4617,6 +4651,8 @@ int xrtm_set_ltau_l_n1(xrtm_data *d, int i_deriv, double *ltau_l) {
 
 int xrtm_set_ltau_l_1n(xrtm_data *d, int i_layer, double *ltau_l) {
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+
      if (xrtm_set_ltau_x_l(d, ltau_l, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_x_l()\n");
           return XRTM_INT_ERROR;
-- 
2.43.0


From 2d2dd6168bf10c10b40593b8d1443d93b662c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:07 +0000
Subject: [PATCH 046/102] fix: a layer without scattering and with thermal
 sources ended the process

---
 src/prototypes/xrtm_utility_p.h |  2 +-
 src/xrtm_model.c                | 22 ++++++++-------
 src/xrtm_utility.c              | 47 ++++++++++++++++++++++++++++++---
 3 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/prototypes/xrtm_utility_p.h b/src/prototypes/xrtm_utility_p.h
index 61026de..194032f 100644
--- a/src/prototypes/xrtm_utility_p.h
+++ b/src/prototypes/xrtm_utility_p.h
@@ -54,4 +54,4 @@ void mat_sim_trans2(int m, int n, double **a1, double **a2, double *s1, double *
 void dm_v_mul_D_A(int n_quad, int n_stokes, double *a, double *b);
 void dmat_mul_D_A(int n_quad, int n_stokes, double **a, double **b);
 void dmat_mul_D_A2(int n_quad1, int n_stokes1, int n_quad2, int n_stokes2, double **a, double **b);
-void no_scatter_r_t_s(int n_quad, int n_derivs, double *qx_v, double *qw_v, double ltau, double *ltau_l, double **R_p, double **T_p, double **R_m, double **T_m, double *S_p, double *S_m, double *Sl_p, double *Sl_m, double ***R_p_l, double ***T_p_l, double ***R_m_l, double ***T_m_l, double **S_p_l, double **S_m_l, double **Sl_p_l, double **Sl_m_l, int solar, int thermal, uchar *derivs_layers, uchar *derivs_beam, uchar *derivs_thermal);
+void no_scatter_r_t_s(int n_quad, int n_stokes, int n_derivs, double *qx_v, double *qw_v, double b0, double b1, double *b0_l, double *b1_l, double ltau, double *ltau_l, double **R_p, double **T_p, double **R_m, double **T_m, double *S_p, double *S_m, double *Sl_p, double *Sl_m, double ***R_p_l, double ***T_p_l, double ***R_m_l, double ***T_m_l, double **S_p_l, double **S_m_l, double **Sl_p_l, double **Sl_m_l, int solar, int thermal, uchar *derivs_layers, uchar *derivs_beam, uchar *derivs_thermal);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 3d46ff4..0ed6a36 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2258,11 +2258,22 @@ static int get_layer_R_T_S_U_W_V
      update_opt_props(d, i_layer, work2);
 
 
+     if (d->options & XRTM_OPTION_SOURCE_THERMAL) {
+          b0 = d->levels_b[i_layer];
+          b1 = d->levels_b[i_layer+1];
+
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               b0_l = d->levels_b_l[i_layer];
+               b1_l = d->levels_b_l[i_layer+1];
+          }
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
      if (d->omega[i_layer] == 0. || i_four >= d->n_coef_layer[i_layer])
-          no_scatter_r_t_s(d->n_quad_v_x, d->n_derivs, d->qx_v, d->qw_v, d->ltau[i_layer], ltau_l, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal);
+          no_scatter_r_t_s(d->n_quad_v_x, d->n_stokes, d->n_derivs, d->qx_v, d->qw_v, b0, b1, b0_l, b1_l, d->ltau[i_layer], ltau_l, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal);
 
 
      /*-------------------------------------------------------------------------
@@ -2281,15 +2292,6 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
                return -1;
           }
 
-          if (d->options & XRTM_OPTION_SOURCE_THERMAL) {
-               b0 = d->levels_b[i_layer];
-               b1 = d->levels_b[i_layer+1];
-
-               if (d->options & XRTM_OPTION_CALC_DERIVS) {
-                    b0_l = d->levels_b_l[i_layer];
-                    b1_l = d->levels_b_l[i_layer+1];
-               }
-          }
           call_solver(d, solver, i_four, b0, b1, b0_l, b1_l, d->omega[i_layer], omega_l, d->ltau [i_layer], ltau_l, d->as_0[i_layer], as_0_l, d->atran[i_layer], atran_l, P_q0_mm, P_q0_pm, r_p, t_p, r_m, t_m, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, P_q0_mm_l, P_q0_pm_l, r_p_l, t_p_l, r_m_l, t_m_l, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, derivs_layers, derivs_beam, derivs_thermal, derivs_sources, save_tree, work2);
 
 
diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index a3c1061..d454c4a 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -1403,8 +1403,8 @@ void dmat_mul_D_A2_2(int n_quad1, int n_stokes1, int n_quad2, int n_stokes2, dou
 /*******************************************************************************
  *
  ******************************************************************************/
-void no_scatter_r_t_s(int n_quad, int n_derivs,
-                      double *qx_v, double *qw_v, double ltau, double *ltau_l,
+void no_scatter_r_t_s(int n_quad, int n_stokes, int n_derivs,
+                      double *qx_v, double *qw_v, double b0, double b1, double *b0_l, double *b1_l, double ltau, double *ltau_l,
                       double **R_p, double **T_p, double **R_m, double **T_m,
                       double *S_p, double *S_m, double *Sl_p, double *Sl_m,
                       double ***R_p_l, double ***T_p_l, double ***R_m_l, double ***T_m_l,
@@ -1414,6 +1414,13 @@ void no_scatter_r_t_s(int n_quad, int n_derivs,
      int i;
      int j;
 
+     double a;
+     double a_l;
+     double b;
+     double b_l;
+     double d;
+     double d_l;
+
      dmat_zero(R_p, n_quad, n_quad);
      dmat_zero(T_p, n_quad, n_quad);
      dmat_zero(R_m, n_quad, n_quad);
@@ -1423,13 +1430,25 @@ void no_scatter_r_t_s(int n_quad, int n_derivs,
           dvec_zero(S_m, n_quad);
      }
      if (thermal) {
-          fprintf(stderr, "ERROR: no_scatter_r_t_s() does not support thermal sources yet\n");
-          exit(1);
+          dvec_zero(Sl_p, n_quad);
+          dvec_zero(Sl_m, n_quad);
      }
 
      for (i = 0; i < n_quad; ++i)
           T_p[i][i] = T_m[i][i] = exp(-ltau / qx_v[i]);
 
+     if (thermal) {
+          d = (b1 - b0) / ltau;
+
+          for (i = 0; i < n_quad; i += n_stokes) {
+               a = -expm1(-ltau / qx_v[i]);
+               b = d * qx_v[i] * a;
+
+               Sl_p[i] = b0 - b1 * T_p[i][i] + b;
+               Sl_m[i] = b1 - b0 * T_m[i][i] - b;
+          }
+     }
+
      if (flags_or(derivs_layers, n_derivs)) {
           for (i = 0; i < n_derivs; ++i) {
                if (! derivs_layers[i])
@@ -1459,6 +1478,26 @@ void no_scatter_r_t_s(int n_quad, int n_derivs,
           for (i = 0; i < n_derivs; ++i) {
                if (! derivs_thermal[i])
                     continue;
+
+               dvec_zero(Sl_p_l[i], n_quad);
+               dvec_zero(Sl_m_l[i], n_quad);
+
+               d   = (b1 - b0) / ltau;
+               d_l = (b1_l[i] - b0_l[i]) / ltau;
+               if (derivs_layers[i])
+                    d_l -= d * ltau_l[i] / ltau;
+
+               for (j = 0; j < n_quad; j += n_stokes) {
+                    a   = -expm1(-ltau / qx_v[j]);
+                    a_l = 0.;
+                    if (derivs_layers[i])
+                         a_l = ltau_l[i] / qx_v[j] * T_p[j][j];
+
+                    b_l = (d_l * a + d * a_l) * qx_v[j];
+
+                    Sl_p_l[i][j] = b0_l[i] - b1_l[i] * T_p[j][j] + b1 * a_l + b_l;
+                    Sl_m_l[i][j] = b1_l[i] - b0_l[i] * T_m[j][j] + b0 * a_l - b_l;
+               }
           }
      }
 }
-- 
2.43.0


From ccc0dea91860c962c6ae3ccc7b9934377bd6c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 047/102] fix: failed allocations of derivative flags were not
 noticed by xrtm_create()

---
 src/xrtm_interface.c | 11 +++++++++--
 src/xrtm_utility.c   | 20 +++++++++++++-------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 7ac9133..bec7115 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -783,10 +783,14 @@ xrtm_data *xrtm_create2(int options, int solvers, int max_coef, int n_quad, int
 
      xrtm_data *d;
 
-     d = (xrtm_data *) malloc(sizeof(xrtm_data));
+     if (! (d = (xrtm_data *) malloc(sizeof(xrtm_data)))) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          return NULL;
+     }
 
      if (xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, kernels, n_out_levels, n_out_thetas) == XRTM_INT_ERROR) {
           fprintf(stderr, "ERROR: xrtm_create()\n");
+          free(d);
           return NULL;
      }
 
@@ -1413,7 +1417,10 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           if (d->options & XRTM_OPTION_SOURCE_THERMAL)
                d->derivs.thermal_m   = flags_alloc2(d->n_layers + 1, d->n_derivs);
 
-          if (0) {
+          if (! d->derivs.layers || ! d->derivs.total || ! d->derivs.stacks || ! d->derivs.sources ||
+              ! d->derivs.adding_up || ! d->derivs.adding_down || ! d->derivs.beam || ! d->derivs.thermal ||
+              ! d->derivs.layers_m || ! d->derivs.total_m || ! d->derivs.stacks_m || ! d->derivs.sources_m ||
+              ! d->derivs.adding_up_m || ! d->derivs.adding_down_m || ! d->derivs.beam_m || ! d->derivs.thermal_m) {
                fprintf(stderr, "ERROR: flags_alloc2()\n");
                return XRTM_INT_ERROR;
           }
diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index d454c4a..3ea1843 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -61,13 +61,13 @@ uchar *flags_alloc(int n) {
      uchar *a;
 
      a = (uchar *) malloc(sizeof(flags_meta_data) +
-         n * sizeof(uchar)) + sizeof(flags_meta_data);
+         n * sizeof(uchar));
      if (a == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
           return NULL;
      }
 
-     return a;
+     return a + sizeof(flags_meta_data);
 }
 
 
@@ -105,27 +105,33 @@ uchar **flags_alloc2(int m, int n) {
 
      size_t n2;
 
+     uchar *p;
+
      uchar **a;
 
-     a = (uchar **)
-         ((uchar *) malloc(sizeof(flags_meta_data) +
-         m * sizeof(uchar *)) + sizeof(flags_meta_data));
-     if (a == NULL) {
+     p = (uchar *) malloc(sizeof(flags_meta_data) +
+         m * sizeof(uchar *));
+     if (p == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
           return NULL;
      }
 
+     a = (uchar **) (p + sizeof(flags_meta_data));
+
      /* each row is preceded by its own flags_meta_data so pad the rows so that
         the meta data is always aligned */
      n2 = sizeof(flags_meta_data) +
          (n + sizeof(flags_meta_data) - 1) / sizeof(flags_meta_data) * sizeof(flags_meta_data);
 
-     a[0] = (uchar *) malloc(m * n2) + sizeof(flags_meta_data);
+     a[0] = (uchar *) malloc(m * n2);
      if (a[0] == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
+          free(p);
           return NULL;
      }
 
+     a[0] += sizeof(flags_meta_data);
+
      for (i = 1; i < m; ++i)
           a[i] = a[0] + i * n2;
 
-- 
2.43.0


From 393594f36a1f37bfa57a617ad45ad81b7f99b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 048/102] fix: top-down adding without a surface ignored
 isotropic radiance at the bottom

---
 src/xrtm_model.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 0ed6a36..1c682e9 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4587,6 +4587,8 @@ static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double
      double **I_p_l1;
      double **I_m_l1;
 
+     double *v1;
+
      double *S_m;
 
      double **S_m_l;
@@ -4651,16 +4653,26 @@ static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double
       *
       *-----------------------------------------------------------------------*/
      if (! surface) {
-          init_array1_d(I_p[0], d->n_quad_v_x, 0.);
-          copy_array1_d(I_m[0], S_m, d->n_quad_v_x);
+          copy_array1_d(I_p[0], d->In_p[i_four], d->n_quad_v_x);
+
+          dm_v_mul(R_p, d->In_p[i_four], d->n_quad_v_x, d->n_quad_v_x, I_m[0]);
+          dvec_add(I_m[0], S_m, I_m[0], d->n_quad_v_x);
 
           if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               v1 = get_work1(&work, WORK_DX);
+
                for (i = 0; i < d->n_derivs; ++i) {
-                    init_array1_d(I_p_l[0][i], d->n_quad_v_x, 0.);
-                    if (! (d->derivs.adding_down[d->n_layers][i] & DERIV_TOP_S))
-                         init_array1_d(I_m_l[0][i], d->n_quad_v_x, 0.);
-                    else
-                         copy_array1_d(I_m_l[0][i], S_m_l[i], d->n_quad_v_x);
+                    copy_array1_d(I_p_l[0][i], In_p_l[i], d->n_quad_v_x);
+
+                    dm_v_mul(R_p, In_p_l[i], d->n_quad_v_x, d->n_quad_v_x, I_m_l[0][i]);
+
+                    if (d->derivs.adding_down[d->n_layers][i] & DERIV_TOP_L) {
+                         dm_v_mul(R_p_l[i], d->In_p[i_four], d->n_quad_v_x, d->n_quad_v_x, v1);
+                         dvec_add(I_m_l[0][i], v1, I_m_l[0][i], d->n_quad_v_x);
+                    }
+
+                    if (d->derivs.adding_down[d->n_layers][i] & DERIV_TOP_S)
+                         dvec_add(I_m_l[0][i], S_m_l[i], I_m_l[0][i], d->n_quad_v_x);
                }
           }
      }
-- 
2.43.0


From 1295e77cc67819650b6ccb34bf20e640595e0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:16 +0000
Subject: [PATCH 049/102] fix: arrays of pointers with an inner dimension of
 zero wrote past their allocation

---
 misc/gutil_alloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index 742e28a..d39ef29 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -40,7 +40,7 @@ size_t array_mem_length(int rank, size_t *dimen, size_t size) {
  ******************************************************************************/
 static void **ptr_array_init(void **a, int rank, size_t *dimen, int length) {
 
-     if (rank > 0)
+     if (rank > 0 && length > 0)
           a[0] = ptr_array_init(a + length, rank - 1, dimen + 1, length * dimen[0]);
 
      return a;
@@ -97,6 +97,9 @@ static void *ptr_array_realloc(void **a1, int rank, size_t *dimen, int size, int
  ******************************************************************************/
 static void *from_mem_ptr_array(void **a, void *a2, int rank, size_t *dimen, int length) {
 
+     if (length == 0)
+          return (void *) a;
+
      if (rank == 1)
           a[0] = a2;
      else
-- 
2.43.0


From 1ec6ac2ca2edf5f0dfd8f897eddc78895083fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:20 +0000
Subject: [PATCH 050/102] fix: the getters of the FORTRAN 77 interface did not
 return values

---
 interfaces/xrtm_int_f77.f      |  50 +++----
 interfaces/xrtm_int_f77_util.c | 234 ++++++---------------------------
 2 files changed, 64 insertions(+), 220 deletions(-)

diff --git a/interfaces/xrtm_int_f77.f b/interfaces/xrtm_int_f77.f
index a82190d..a66cec7 100644
--- a/interfaces/xrtm_int_f77.f
+++ b/interfaces/xrtm_int_f77.f
@@ -156,7 +156,7 @@ c***********************************************************************
       real*8 function xrtm_get_doub_d_tau_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_doub_d_tau_bindx_f77
+      real*8 xrtm_get_doub_d_tau_bindx_f77
       xrtm_get_doub_d_tau_f77 = xrtm_get_doub_d_tau_bindx_f77(d)
       end function xrtm_get_doub_d_tau_f77
 
@@ -222,7 +222,7 @@ c***********************************************************************
       real*8 function xrtm_get_fourier_tol_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_fourier_tol_bindx_f77
+      real*8 xrtm_get_fourier_tol_bindx_f77
       xrtm_get_fourier_tol_f77 = xrtm_get_fourier_tol_bindx_f77(d)
       end function xrtm_get_fourier_tol_f77
 
@@ -240,7 +240,7 @@ c***********************************************************************
       real*8 function xrtm_get_lambda_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_lambda_bindx_f77
+      real*8 xrtm_get_lambda_bindx_f77
       xrtm_get_lambda_f77 = xrtm_get_lambda_bindx_f77(d)
       end function xrtm_get_lambda_f77
 
@@ -258,7 +258,7 @@ c***********************************************************************
       real*8 function xrtm_get_planet_r_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_planet_r_bindx_f77
+      real*8 xrtm_get_planet_r_bindx_f77
       xrtm_get_planet_r_f77 = xrtm_get_planet_r_bindx_f77(d)
       end function xrtm_get_planet_r_f77
 
@@ -356,7 +356,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_top_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_top_bindx_f77
+      real*8 xrtm_get_F_iso_top_bindx_f77
       xrtm_get_F_iso_top_f77 = xrtm_get_F_iso_top_bindx_f77(d)
       end function xrtm_get_F_iso_top_f77
 
@@ -387,7 +387,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_top_l_bindx_f77
+      real*8 xrtm_get_F_iso_top_l_bindx_f77
       xrtm_get_F_iso_top_l_f77 = xrtm_get_F_iso_top_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_top_l_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_bot_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_bot_bindx_f77
+      real*8 xrtm_get_F_iso_bot_bindx_f77
       xrtm_get_F_iso_bot_f77 = xrtm_get_F_iso_bot_bindx_f77(d)
       end function xrtm_get_F_iso_bot_f77
 
@@ -437,7 +437,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_bot_l_bindx_f77
+      real*8 xrtm_get_F_iso_bot_l_bindx_f77
       xrtm_get_F_iso_bot_l_f77 = xrtm_get_F_iso_bot_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_bot_l_f77
@@ -456,7 +456,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_0_bindx_f77
+      real*8 xrtm_get_F_0_bindx_f77
       xrtm_get_F_0_f77 = xrtm_get_F_0_bindx_f77(d)
       end function xrtm_get_F_0_f77
 
@@ -474,7 +474,7 @@ c***********************************************************************
       real*8 function xrtm_get_theta_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_theta_0_bindx_f77
+      real*8 xrtm_get_theta_0_bindx_f77
       xrtm_get_theta_0_f77 = xrtm_get_theta_0_bindx_f77(d)
       end function xrtm_get_theta_0_f77
 
@@ -492,7 +492,7 @@ c***********************************************************************
       real*8 function xrtm_get_phi_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_phi_0_bindx_f77
+      real*8 xrtm_get_phi_0_bindx_f77
       xrtm_get_phi_0_f77 = xrtm_get_phi_0_bindx_f77(d)
       end function xrtm_get_phi_0_f77
 
@@ -563,7 +563,7 @@ c***********************************************************************
       real*8 function xrtm_get_surface_b_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_surface_b_bindx_f77
+      real*8 xrtm_get_surface_b_bindx_f77
       xrtm_get_surface_b_f77 = xrtm_get_surface_b_bindx_f77(d)
       end function xrtm_get_surface_b_f77
 
@@ -594,7 +594,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_surface_b_l_bindx_f77
+      real*8 xrtm_get_surface_b_l_bindx_f77
       xrtm_get_surface_b_l_f77 = xrtm_get_surface_b_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_surface_b_l_f77
@@ -625,7 +625,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_g_bindx_f77
+      real*8 xrtm_get_g_bindx_f77
       xrtm_get_g_f77 = xrtm_get_g_bindx_f77(d, i_layer)
       end function xrtm_get_g_f77
 
@@ -679,7 +679,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_g_l_bindx_f77
+      real*8 xrtm_get_g_l_bindx_f77
       xrtm_get_g_l_f77 = xrtm_get_g_l_bindx_f77(d, i_layer, i_deriv)
       end function xrtm_get_g_l_f77
 
@@ -723,7 +723,7 @@ c***********************************************************************
       integer i_layer
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_bindx_f77
+      real*8 xrtm_get_coef_bindx_f77
       xrtm_get_coef_f77 = xrtm_get_coef_bindx_f77(d, i_layer, i_elem,
      &i_coef)
       end function xrtm_get_coef_f77
@@ -782,7 +782,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_l_bindx_f77
+      real*8 xrtm_get_coef_l_bindx_f77
       xrtm_get_coef_l_f77 = xrtm_get_coef_l_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_get_coef_l_f77
@@ -813,7 +813,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_omega_bindx_f77
+      real*8 xrtm_get_omega_bindx_f77
       xrtm_get_omega_f77 = xrtm_get_omega_bindx_f77(d, i_layer)
       end function xrtm_get_omega_f77
 
@@ -869,7 +869,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_omega_l_bindx_f77
+      real*8 xrtm_get_omega_l_bindx_f77
       xrtm_get_omega_l_f77 = xrtm_get_omega_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_omega_l_f77
@@ -900,7 +900,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_ltau_bindx_f77
+      real*8 xrtm_get_ltau_bindx_f77
       xrtm_get_ltau_f77 = xrtm_get_ltau_bindx_f77(d, i_layer)
       end function xrtm_get_ltau_f77
 
@@ -955,7 +955,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_ltau_l_bindx_f77
+      real*8 xrtm_get_ltau_l_bindx_f77
       xrtm_get_ltau_l_f77 = xrtm_get_ltau_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_ltau_l_f77
@@ -976,7 +976,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_kernel
-      integer xrtm_get_kernel_ampfac_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_bindx_f77
       xrtm_get_kernel_ampfac_f77 = xrtm_get_kernel_ampfac_bindx_f77(d,
      &i_kernel)
       end function xrtm_get_kernel_ampfac_f77
@@ -1013,7 +1013,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_param
-      integer xrtm_get_kernel_params_bindx_f77
+      real*8 xrtm_get_kernel_params_bindx_f77
       xrtm_get_kernel_params_f77 = xrtm_get_kernel_params_bindx_f77(d,
      &i_kernel, i_param)
       end function xrtm_get_kernel_params_f77
@@ -1051,7 +1051,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_get_kernel_ampfac_l_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_l_bindx_f77
       xrtm_get_kernel_ampfac_l_f77 =
      &xrtm_get_kernel_ampfac_l_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_get_kernel_ampfac_l_f77
@@ -1120,7 +1120,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_get_kernel_params_l_bindx_f77
+      real*8 xrtm_get_kernel_params_l_bindx_f77
       xrtm_get_kernel_params_l_f77 =
      &xrtm_get_kernel_params_l_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_get_kernel_params_l_f77
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 5c06d9a..443ec98 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -57,91 +57,55 @@ int xrtm_destroy_bindx_f77_(xrtm_data *d)
 
 int xrtm_get_options_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_options(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_options()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_options(d);
 }
 
 
 int xrtm_get_solvers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_solvers(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_solvers()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_solvers(d);
 }
 
 
 int xrtm_get_max_coef_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_max_coef(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_max_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_max_coef(d);
 }
 
 
 int xrtm_get_n_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_quad(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_quad()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_quad(d);
 }
 
 
 int xrtm_get_n_stokes_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_stokes(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_stokes()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_stokes(d);
 }
 
 
 int xrtm_get_n_derivs_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_derivs(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_derivs(d);
 }
 
 
 int xrtm_get_n_layers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_layers(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_layers()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_layers(d);
 }
 
 
 int xrtm_get_n_kernels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernels(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_kernels()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_kernels(d);
 }
 
 
 int xrtm_get_n_kernel_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernel_quad(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_kernel_quad()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_kernel_quad(d);
 }
 
 
@@ -149,41 +113,25 @@ enum xrtm_kernel_type xrtm_get_kernel_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel(d, i_kernel)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel(d, i_kernel);
 }
 
 
 int xrtm_get_n_out_levels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_levels(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_levels()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_levels(d);
 }
 
 
 int xrtm_get_n_out_thetas_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_thetas()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_thetas(d);
 }
 
 
 int xrtm_get_n_out_thetas_2_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas_2(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_thetas_2()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_thetas_2(d);
 }
 
 
@@ -201,11 +149,7 @@ int xrtm_set_doub_d_tau_bindx_f77_(xrtm_data *d, double *d_tau_)
 
 double xrtm_get_doub_d_tau_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_doub_d_tau(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_doub_d_tau()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_doub_d_tau(d);
 }
 
 
@@ -273,11 +217,7 @@ int xrtm_set_fourier_tol_bindx_f77_(xrtm_data *d, double *fourier_tol_)
 
 double xrtm_get_fourier_tol_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_fourier_tol(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_fourier_tol()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_fourier_tol(d);
 }
 
 
@@ -295,11 +235,7 @@ int xrtm_set_lambda_bindx_f77_(xrtm_data *d, double *lambda_)
 
 double xrtm_get_lambda_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_lambda(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_lambda(d);
 }
 
 
@@ -317,11 +253,7 @@ int xrtm_set_planet_r_bindx_f77_(xrtm_data *d, double *planet_r_)
 
 double xrtm_get_planet_r_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_planet_r(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_planet_r()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_planet_r(d);
 }
 
 
@@ -419,11 +351,7 @@ int xrtm_set_f_iso_top_bindx_f77_(xrtm_data *d, double *F_iso_top_)
 
 double xrtm_get_f_iso_top_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_top(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_top()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_top(d);
 }
 
 
@@ -455,11 +383,7 @@ double xrtm_get_f_iso_top_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_top_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_top_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_top_l(d, i_deriv);
 }
 
 
@@ -477,11 +401,7 @@ int xrtm_set_f_iso_bot_bindx_f77_(xrtm_data *d, double *F_iso_bot_)
 
 double xrtm_get_f_iso_bot_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_bot(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_bot(d);
 }
 
 
@@ -513,11 +433,7 @@ double xrtm_get_f_iso_bot_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_bot_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_bot_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_bot_l(d, i_deriv);
 }
 
 
@@ -535,11 +451,7 @@ int xrtm_set_f_0_bindx_f77_(xrtm_data *d, double *F_0_)
 
 double xrtm_get_f_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_0(d);
 }
 
 
@@ -557,11 +469,7 @@ int xrtm_set_theta_0_bindx_f77_(xrtm_data *d, double *theta_0_)
 
 double xrtm_get_theta_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_theta_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_theta_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_theta_0(d);
 }
 
 
@@ -579,11 +487,7 @@ int xrtm_set_phi_0_bindx_f77_(xrtm_data *d, double *phi_0_)
 
 double xrtm_get_phi_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_phi_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_phi_0(d);
 }
 
 
@@ -658,11 +562,7 @@ int xrtm_set_surface_b_bindx_f77_(xrtm_data *d, double *surface_b_)
 
 double xrtm_get_surface_b_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_surface_b(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_surface_b(d);
 }
 
 
@@ -694,11 +594,7 @@ double xrtm_get_surface_b_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_surface_b_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_surface_b_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_surface_b_l(d, i_deriv);
 }
 
 
@@ -730,11 +626,7 @@ double xrtm_get_g_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_g(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_g()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_g(d, i_layer);
 }
 
 
@@ -797,11 +689,7 @@ double xrtm_get_g_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_g_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_g_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_g_l(d, i_layer, i_deriv);
 }
 
 
@@ -839,11 +727,7 @@ int xrtm_get_n_coef_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_n_coef(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_coef(d, i_layer);
 }
 
 
@@ -855,11 +739,7 @@ double xrtm_get_coef_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_elem_, int *
      i_layer = *i_layer_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef(d, i_layer, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_get_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_coef(d, i_layer, i_elem, i_coef);
 }
 
 
@@ -933,11 +813,7 @@ double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, in
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_get_coef_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef);
 }
 
 
@@ -969,11 +845,7 @@ double xrtm_get_omega_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_omega(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_omega()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_omega(d, i_layer);
 }
 
 
@@ -1036,11 +908,7 @@ double xrtm_get_omega_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_omega_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_omega_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_omega_l(d, i_layer, i_deriv);
 }
 
 
@@ -1072,11 +940,7 @@ double xrtm_get_ltau_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_ltau(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_ltau()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_ltau(d, i_layer);
 }
 
 
@@ -1139,11 +1003,7 @@ double xrtm_get_ltau_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_ltau_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_ltau_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_ltau_l(d, i_layer, i_deriv);
 }
 
 
@@ -1165,11 +1025,7 @@ double xrtm_get_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel_ampfac(d, i_kernel)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_ampfac(d, i_kernel);
 }
 
 
@@ -1207,11 +1063,7 @@ double xrtm_get_kernel_params_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_pa
      int i_param;
      i_kernel = *i_kernel_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params(d, i_kernel, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_params()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_params(d, i_kernel, i_param);
 }
 
 
@@ -1249,11 +1101,7 @@ double xrtm_get_kernel_ampfac_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv);
 }
 
 
@@ -1326,11 +1174,7 @@ double xrtm_get_kernel_params_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_params_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param);
 }
 
 
-- 
2.43.0


From f5e510aa7818dd5daf779b964a96d189097f860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 051/102] fix: bindings took no azimuth angles for output at
 the quadrature angles

---
 interfaces/xrtm_int_f77_util.c |  4 ++--
 interfaces/xrtm_int_f90_util.c |  4 ++--
 interfaces/xrtm_int_idl.c      | 12 ++++++------
 interfaces/xrtm_int_jl_util.c  |  4 ++--
 interfaces/xrtm_int_py.c       |  4 ++--
 interfaces/xrtm_interface.def  |  4 ++--
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 443ec98..d5b6d53 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -1246,7 +1246,7 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      solver = *solver_;
      solutions = *solutions_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -1285,7 +1285,7 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double *****K_m2;
      solver = *solver_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 2739885..263a6f4 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -166,7 +166,7 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -201,7 +201,7 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index 2d8529e..c0618d5 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3836,11 +3836,11 @@ void IDL_CDECL xrtm_solution_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[4]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[4]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[4]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
@@ -4012,11 +4012,11 @@ void IDL_CDECL xrtm_radiance_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[3]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[3]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[3]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 3d09b5f..247f25e 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -337,7 +337,7 @@ int kernel_qw_kernel_qw_dims(xrtm_data *d, size_t *dims)
 
 int solution_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
@@ -462,7 +462,7 @@ int solution_flux_div_l_dims(xrtm_data *d, enum xrtm_solver_mask solver, int sol
 
 int radiance_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 82b0302..6407db7 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2420,7 +2420,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
@@ -2561,7 +2561,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index fd16cac..2f4a1d0 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -119,8 +119,8 @@ subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
 subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
 subprogram_general int 0 mean_radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out;
 subprogram_general int 0 flux				0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out;
 subprogram_general int 0 flux_divergence		0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From f8262cae54398bb00549e82f047999612be06afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:45 +0000
Subject: [PATCH 052/102] fix: get_kernel() of the Python interface took the
 kernel's number for its name

---
 interfaces/xrtm_int_py.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 6407db7..198e086 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -333,7 +333,7 @@ static PyObject *xrtm_get_kernel_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_kernel()");
           return NULL;
      }
-     return Py_BuildValue("s", r);
+     return Py_BuildValue("s", xrtm_kernel_value_to_name(r));
 }
 
 
-- 
2.43.0


From 0c91067bce17ad1ad696367f7cdade7680a02bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 053/102] fix: bindings gave qx() and qw() no room for the user
 angles

---
 interfaces/xrtm_int_idl.c     | 8 ++++----
 interfaces/xrtm_int_jl_util.c | 4 ++--
 interfaces/xrtm_int_py.c      | 4 ++--
 interfaces/xrtm_interface.def | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index c0618d5..ec061e4 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3696,11 +3696,11 @@ void IDL_CDECL xrtm_qx_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     qx = malloc((d->n_quad) * sizeof(double));
+     qx = malloc((d->n_quad_d) * sizeof(double));
      r = xrtm_qx(d, qx);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qx()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad_d;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qx, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -3718,11 +3718,11 @@ void IDL_CDECL xrtm_qw_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     qw = malloc((d->n_quad) * sizeof(double));
+     qw = malloc((d->n_quad_d) * sizeof(double));
      r = xrtm_qw(d, qw);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qw()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad_d;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qw, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 247f25e..1ac52b3 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -309,14 +309,14 @@ int set_kernel_params_l_nn_params_l_dims(xrtm_data *d, int i_kernel, double **pa
 
 int qx_qx_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad_d;
     return 0;
 }
 
 
 int qw_qw_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad_d;
     return 0;
 }
 
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 198e086..f0388a1 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2287,7 +2287,7 @@ static PyObject *xrtm_qx_py(xrtm_data_py *self, PyObject *args)
      double *qx;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad_d;
      qx_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qx_ndarray == NULL)
           return NULL;
@@ -2310,7 +2310,7 @@ static PyObject *xrtm_qw_py(xrtm_data_py *self, PyObject *args)
      double *qw;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad_d;
      qw_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qw_ndarray == NULL)
           return NULL;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index 2f4a1d0..41d477b 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -115,8 +115,8 @@ subprogram_general int 0 set_kernel_params_l_nn		0, int 0 i_kernel in, double 2
 subprogram_general double 0 get_kernel_params_l		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 subprogram_general int 0 update_varied_layers		0;
 
-subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
-subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
+subprogram_general int 0 qx			        0, double 1 "d->n_quad_d" qx out;
+subprogram_general int 0 qw			        0, double 1 "d->n_quad_d" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
 subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From 37debb8afda33e5dd97f8a77a37f636e7739cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:25 +0000
Subject: [PATCH 054/102] fix: xrtm_get_levels_b_l() returned its status as a
 double

---
 src/prototypes/xrtm_interface_p.h | 2 +-
 src/xrtm_interface.c              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/prototypes/xrtm_interface_p.h b/src/prototypes/xrtm_interface_p.h
index c7ff6f8..2995ed6 100644
--- a/src/prototypes/xrtm_interface_p.h
+++ b/src/prototypes/xrtm_interface_p.h
@@ -104,7 +104,7 @@ int xrtm_set_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_get_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l);
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_surface_b(xrtm_data *d, double surface_b);
 double xrtm_get_surface_b(xrtm_data *d);
 int xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l);
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index bec7115..1373d25 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3769,13 +3769,13 @@ int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) {
 
 
 
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
 
      int i;
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_DBL_ERROR;
+          return XRTM_INT_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
-- 
2.43.0


From b86f65525483e4391f55a4bb02c379be3a599f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:00 +0000
Subject: [PATCH 055/102] fix: Python and IDL took levels_b and its derivatives
 at the output levels

---
 interfaces/xrtm_int_idl.c | 22 +++++++++++-----------
 interfaces/xrtm_int_py.c  | 10 +++++-----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index ec061e4..e156d4e 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -1776,8 +1776,8 @@ void IDL_CDECL xrtm_set_levels_b_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b must be of type double");
      if (argv[1]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b must be an array with 2 dimensions");
-     if (argv[1]->value.arr->dim[0] != (d->n_out_levels))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b dimension 1 must have d->n_out_levels elements");
+     if (argv[1]->value.arr->dim[0] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b dimension 1 must have d->n_layers + 1 elements");
      levels_b = (double *) argv[1]->value.arr->data;
      r = xrtm_set_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR)
@@ -1797,11 +1797,11 @@ void IDL_CDECL xrtm_get_levels_b_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     levels_b = malloc((d->n_out_levels) * sizeof(double));
+     levels_b = malloc((d->n_layers + 1) * sizeof(double));
      r = xrtm_get_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_get_levels_b()");
-     dim_idl[0] = d->n_out_levels;
+     dim_idl[0] = d->n_layers + 1;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) levels_b, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -1830,8 +1830,8 @@ void IDL_CDECL xrtm_set_levels_b_l_1_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be of type double");
      if (argv[2]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be an array with 2 dimensions");
-     if (argv[2]->value.arr->dim[0] != (d->n_derivs))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_derivs elements");
+     if (argv[2]->value.arr->dim[0] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_layers + 1 elements");
      levels_b_l = (double *) argv[2]->value.arr->data;
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR)
@@ -1855,11 +1855,11 @@ void IDL_CDECL xrtm_set_levels_b_l_n_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be of type double");
      if (argv[1]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be an array with 2 dimensions");
-     if (argv[1]->value.arr->dim[1] != (d->n_out_levels))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 2 must have d->n_out_levels elements");
+     if (argv[1]->value.arr->dim[1] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 2 must have d->n_layers + 1 elements");
      if (argv[1]->value.arr->dim[0] != (d->n_derivs))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_derivs elements");
-     dim[0] = d->n_out_levels;
+     dim[0] = d->n_layers + 1;
      dim[1] = d->n_derivs;
      levels_b_l = (double **) array_from_mem((void *) argv[1]->value.arr->data, 2, dim, sizeof(double), 1);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1889,11 +1889,11 @@ void IDL_CDECL xrtm_get_levels_b_l_dlm(int argc, IDL_VPTR argv[], char *argk)
           i_deriv = argv[1]->value.l;
      else
           i_deriv = argv[1]->value.i;
-     levels_b_l = malloc((d->n_out_levels) * sizeof(double));
+     levels_b_l = malloc((d->n_layers + 1) * sizeof(double));
      r = xrtm_get_levels_b_l(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_get_levels_b_l()");
-     dim_idl[0] = d->n_out_levels;
+     dim_idl[0] = d->n_layers + 1;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) levels_b_l, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[2]);
      return;
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index f0388a1..4665a06 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1051,7 +1051,7 @@ static PyObject *xrtm_set_levels_b_py(xrtm_data_py *self, PyObject *args)
      levels_b_ndarray = PyArray_FROM_OTF(levels_b_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_out_levels) < 0)
+     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
      r = xrtm_set_levels_b(d, levels_b);
@@ -1073,7 +1073,7 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
      double *levels_b;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_ndarray == NULL)
           return NULL;
@@ -1100,7 +1100,7 @@ static PyObject *xrtm_set_levels_b_l_1_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
@@ -1125,7 +1125,7 @@ static PyObject *xrtm_set_levels_b_l_n_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_out_levels, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_layers + 1, d->n_derivs) < 0)
           return NULL;
      levels_b_l = (double **) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1149,7 +1149,7 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
      double *levels_b_l;
      if (! PyArg_ParseTuple(args, "i", &i_deriv))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_l_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-- 
2.43.0


From 63d7676fba60c5a51c7d09b031f93f2e3c3662b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:46 +0000
Subject: [PATCH 056/102] fix: xrtm_data must not outgrow the types of the
 FORTRAN interfaces

---
 src/xrtm_interface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.h b/src/xrtm_interface.h
index 0c5b0ca..1027d5b 100644
--- a/src/xrtm_interface.h
+++ b/src/xrtm_interface.h
@@ -258,6 +258,8 @@ typedef struct {
 
      int n_stacks;
 
+     int last_adding_solver;
+
      enum xrtm_kernel_type *kernels;
 
      int *ulevels;
@@ -313,8 +315,6 @@ typedef struct {
 
      double mu_0_0;
 
-     int last_adding_solver;
-
      double doub_d_tau;
 
      double sos_max_tau;
-- 
2.43.0


From 6514f1b0cd246bf13d1d53c4a4b01d0b5374d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 057/102] fix: sos stopped at the first order whose terms are
 negative, converged or not

---
 src/xrtm_sos.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_sos.c b/src/xrtm_sos.c
index 03ac50d..401f6ab 100644
--- a/src/xrtm_sos.c
+++ b/src/xrtm_sos.c
@@ -449,12 +449,12 @@ if (ulevels[i_last_ulevel] == n_layers) {
                }
           }
 
-          b = i_p[i][0][0];
+          b = fabs(i_p[i][0][0]);
 
           jj = n_stokes;
           for (j = 1; j < n_quad; ++j) {
-               if (i_p[i][0][jj] > b)
-                    b = i_p[i][0][jj];
+               if (fabs(i_p[i][0][jj]) > b)
+                    b = fabs(i_p[i][0][jj]);
                jj += n_stokes;
           }
 if (ulevels[0] == 0) {
@@ -508,12 +508,12 @@ if (ulevels[0] == 0) {
                }
           }
 
-          c = i_m[i][n_layers2][0];
+          c = fabs(i_m[i][n_layers2][0]);
 
           jj = n_stokes;
           for (j = 1; j < n_quad; ++j) {
-               if (i_m[i][n_layers2][jj] > c)
-                    c = i_m[i][n_layers2][jj];
+               if (fabs(i_m[i][n_layers2][jj]) > c)
+                    c = fabs(i_m[i][n_layers2][jj]);
                jj += n_stokes;
           }
 
-- 
2.43.0


From 1b5067a444908d322c11e3405e89531b197786fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:17 +0000
Subject: [PATCH 058/102] fix: xrtm_fd_set_levels_b_p_1() wrote at an
 uninitialized derivative index

---
 src/xrtm_fd_interface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3534f0f..ae2107c 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -310,7 +310,6 @@ double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 
      int i;
-     int j;
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
@@ -319,8 +318,10 @@ int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 /*
      CHECK_INIT_FOR_DERIVS();
 */
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+
      for (i = 0; i < d->d->n_layers + 1; ++i)
-          d->levels_b_p[i][j] = levels_b_p[i_deriv];
+          d->levels_b_p[i][i_deriv] = levels_b_p[i];
 /*
      set_deps(d, DEP_MASK_LEVELS_B_L, 0, d->n_layers);
 */
-- 
2.43.0


From 751992f6b2fa22fba28b606705c0f74bd99226f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:18 +0000
Subject: [PATCH 059/102] fix: forward and backward finite differences left the
 model perturbed

---
 src/xrtm_fd_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index ae2107c..f95cde1 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1180,6 +1180,11 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     return -1;
                }
 
+               if (perturb_values(d, j, solver, -f, coef)) {
+                    fprintf(stderr, "ERROR: perturb_values()\n");
+                    return -1;
+               }
+
                for (i = 0; i < d->d->n_ulevels; ++i) {
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
-- 
2.43.0


From f59674ca9890db2b7d95496521c2af7fc77aa3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:20 +0000
Subject: [PATCH 060/102] fix: finite differences ignored isotropic boundary
 sources without thermal sources

---
 src/xrtm_fd_interface.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index f95cde1..4834e6f 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1001,17 +1001,17 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      double *levels_b;
 
-     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-           if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
+          return -1;
+     }
 
-           if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
+          return -1;
+     }
 
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
            levels_b = alloc_array1_d(d->d->n_layers + 1);
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
-- 
2.43.0


From 32795dc9022aabaae30186bc2f1db824420d3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:22 +0000
Subject: [PATCH 061/102] fix: finite differences of mean radiance and flux
 dereferenced null pointers

---
 src/xrtm_fd_interface.c | 115 ++++++++++++++++++++++++++++++++--------
 1 file changed, 92 insertions(+), 23 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 4834e6f..da986b3 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1097,6 +1097,19 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static void diff_levels(int n_ulevels, int j, double delta, double *x1, double *x2, double **x_l) {
+
+     int i;
+
+     for (i = 0; i < n_ulevels; ++i)
+          x_l[i][j] = (x1[i] - x2[i]) / delta;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -1119,6 +1132,16 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      double ****I_p2;
      double ****I_m2;
 
+     double *mean_p2;
+     double *mean_m2;
+     double *flux_p2;
+     double *flux_m2;
+
+     double *mean_p3;
+     double *mean_m3;
+     double *flux_p3;
+     double *flux_m3;
+
 
      /*-------------------------------------------------------------------------
       *
@@ -1139,8 +1162,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (xrtm_radiance(d->d, solver, n_out_phis, out_phis, I_p, I_m, NULL, NULL)) {
-          fprintf(stderr, "ERROR: xrtm_radiance()\n");
+     if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, NULL, NULL)) {
+          fprintf(stderr, "ERROR: xrtm_solution()\n");
           return -1;
      }
 
@@ -1152,6 +1175,16 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
      I_p2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
      I_m2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
+
+     mean_p2 = alloc_array1_d(d->d->n_ulevels);
+     mean_m2 = alloc_array1_d(d->d->n_ulevels);
+     flux_p2 = alloc_array1_d(d->d->n_ulevels);
+     flux_m2 = alloc_array1_d(d->d->n_ulevels);
+
+     mean_p3 = alloc_array1_d(d->d->n_ulevels);
+     mean_m3 = alloc_array1_d(d->d->n_ulevels);
+     flux_p3 = alloc_array1_d(d->d->n_ulevels);
+     flux_m3 = alloc_array1_d(d->d->n_ulevels);
 /*
      coef = get_work2_d(&work, d->d->n_elem, d->d->n_coef);
 
@@ -1175,7 +1208,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     return -1;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
+               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p2, mean_m2, NULL, NULL, flux_p2, flux_m2, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
                     return -1;
                }
@@ -1185,16 +1218,28 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     return -1;
                }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
+               if (solutions & XRTM_OUTPUT_RADIANCE) {
+                    for (i = 0; i < d->d->n_ulevels; ++i) {
+                         for (k = 0; k < n_mus2; ++k) {
+                              for (l = 0; l < n_out_phis; ++l) {
+                                   for (m = 0; m < d->d->n_stokes; ++m) {
+                                        I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
+                                        I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
+                                   }
                               }
                          }
                     }
                }
+
+               if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
+                    diff_levels(d->d->n_ulevels, j, d->delta[j], mean_p2, mean_p, mean_p_l);
+                    diff_levels(d->d->n_ulevels, j, d->delta[j], mean_m2, mean_m, mean_m_l);
+               }
+
+               if (solutions & XRTM_OUTPUT_FLUX) {
+                    diff_levels(d->d->n_ulevels, j, d->delta[j], flux_p2, flux_p, flux_p_l);
+                    diff_levels(d->d->n_ulevels, j, d->delta[j], flux_m2, flux_m, flux_m_l);
+               }
           }
 
 
@@ -1207,17 +1252,19 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     return -1;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
+               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p2, mean_m2, NULL, NULL, flux_p2, flux_m2, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
                     return -1;
                }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / d->delta[j];
+               if (solutions & XRTM_OUTPUT_RADIANCE) {
+                    for (i = 0; i < d->d->n_ulevels; ++i) {
+                         for (k = 0; k < n_mus2; ++k) {
+                              for (l = 0; l < n_out_phis; ++l) {
+                                   for (m = 0; m < d->d->n_stokes; ++m) {
+                                        I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / d->delta[j];
+                                        I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / d->delta[j];
+                                   }
                               }
                          }
                     }
@@ -1228,22 +1275,34 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     return -1;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
+               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p3, mean_m3, NULL, NULL, flux_p3, flux_m3, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
                     return -1;
                }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / d->delta[j];
+               if (solutions & XRTM_OUTPUT_RADIANCE) {
+                    for (i = 0; i < d->d->n_ulevels; ++i) {
+                         for (k = 0; k < n_mus2; ++k) {
+                              for (l = 0; l < n_out_phis; ++l) {
+                                   for (m = 0; m < d->d->n_stokes; ++m) {
+                                        I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / d->delta[j];
+                                        I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / d->delta[j];
+                                   }
                               }
                          }
                     }
                }
 
+               if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
+                    diff_levels(d->d->n_ulevels, j, d->delta[j], mean_p2, mean_p3, mean_p_l);
+                    diff_levels(d->d->n_ulevels, j, d->delta[j], mean_m2, mean_m3, mean_m_l);
+               }
+
+               if (solutions & XRTM_OUTPUT_FLUX) {
+                    diff_levels(d->d->n_ulevels, j, d->delta[j], flux_p2, flux_p3, flux_p_l);
+                    diff_levels(d->d->n_ulevels, j, d->delta[j], flux_m2, flux_m3, flux_m_l);
+               }
+
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
                     return -1;
@@ -1261,6 +1320,16 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      free_array4_d(I_p2);
      free_array4_d(I_m2);
 
+     free_array1_d(mean_p2);
+     free_array1_d(mean_m2);
+     free_array1_d(flux_p2);
+     free_array1_d(flux_m2);
+
+     free_array1_d(mean_p3);
+     free_array1_d(mean_m3);
+     free_array1_d(flux_p3);
+     free_array1_d(flux_m3);
+
 
      return 0;
 }
-- 
2.43.0


From e68cedd422f1ea55c9377a09490eec20f2d674f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:24 +0000
Subject: [PATCH 062/102] fix: xrtm_fd_get_coef_p() checked the wrong indices

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index da986b3..087315b 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -650,8 +650,8 @@ double xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem,
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs,                 "i_deriv", "n_derivs",              XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_elem,  6,                           "i_elem",  "6",                     XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_layer, d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_elem,  d->d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_coef,  d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
      return d->coef_p[i_layer][i_deriv][i_elem][i_coef];
 }
-- 
2.43.0


From 449067ffce20e7524ece6abd96de653d22f8f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:49 +0000
Subject: [PATCH 063/102] fix: coef_p inputs in the input language were given
 to the linearized inputs of the model

---
 utils/input_util.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 311d7fd..afb61d3 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -982,7 +982,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = xrtm_get_n_coef(input->d, dimens[0]);
           x2 = parse_coef_1(input, n_elem, n_coef);
-          if (xrtm_set_coef_l_11(input->d, dimens[0], dimens[1], x2)) {
+          if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
                exit(1);
           }
@@ -996,7 +996,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x3 = parse_coef_2(input, n_layers, n_elem, n_coef);
-          if (xrtm_set_coef_l_n1(input->d, dimens[1], x3)) {
+          if (xrtm_set_coef_x_n1(d, dimens[1], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_n1()", type);
                exit(1);
           }
@@ -1012,7 +1012,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = xrtm_get_n_coef(input->d, dimens[0]);
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_1n(input->d, dimens[0], x3)) {
+          if (xrtm_set_coef_x_1n(d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
                exit(1);
           }
@@ -1028,7 +1028,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x4 = parse_coef_3(input, n_layers, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_nn(input->d, x4)) {
+          if (xrtm_set_coef_x_nn(d, x4)) {
                input_error(&input->locus, "xrtm_set_coef_%s_nn()", type);
                exit(1);
           }
-- 
2.43.0


From 204d641a47194d0b6c37e17ee9d3259374730a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:49 +0000
Subject: [PATCH 064/102] fix: the names of the coefficient files of a finite
 difference model were allocated for no derivatives

---
 utils/input_util.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index afb61d3..1dfc5c9 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1888,6 +1888,10 @@ static int print_kernel_params_l(FILE *fp, format_data *f, xrtm_data *d, int i_k
 /*******************************************************************************
  *
  ******************************************************************************/
+static void misc_init2(misc_data *md, int n_layers, int n_derivs, int fd_method);
+
+
+
 static void input_parse1(input_data *input) {
 
      int r;
@@ -2025,7 +2029,7 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
           }
      }
 
-     misc_init(input->d, input->md, fd_method);
+     misc_init2(input->md, n_layers, ! flag ? n_derivs2 : n_derivs3, fd_method);
 
      free_array1_i(kernels);
 
@@ -2246,13 +2250,13 @@ static void input_free(input_data *input) {
 /*******************************************************************************
  *
  ******************************************************************************/
-void misc_init(xrtm_data *d, misc_data *md, int fd_method) {
+static void misc_init2(misc_data *md, int n_layers, int n_derivs, int fd_method) {
 
      int i;
      int j;
 
-     md->n_layers = xrtm_get_n_layers(d);
-     md->n_derivs = xrtm_get_n_derivs(d);
+     md->n_layers = n_layers;
+     md->n_derivs = n_derivs;
 
      md->fd_method = fd_method;
 
@@ -2273,6 +2277,13 @@ void misc_init(xrtm_data *d, misc_data *md, int fd_method) {
 
 
 
+void misc_init(xrtm_data *d, misc_data *md, int fd_method) {
+
+     misc_init2(md, xrtm_get_n_layers(d), xrtm_get_n_derivs(d), fd_method);
+}
+
+
+
 void misc_free(misc_data *md) {
 
      int i;
-- 
2.43.0


From 662abc38292873acedca073c8753e3672351ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:49 +0000
Subject: [PATCH 065/102] fix: finite difference inputs could not follow the
 creation inputs directly

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 1dfc5c9..c97d21d 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1994,7 +1994,7 @@ static void input_parse1(input_data *input) {
                     n_out_thetas = parse_scaler_int(input);
                     break;
                default:
-                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_KERNEL_PARAMS_L) {
+                    if (r >= XRTM_INPUT_DOUB_D_TAU && r < N_XRTM_INPUTS) {
                          yyrewind(r, &lex_type);
                          goto L1;
                     }
-- 
2.43.0


From af656e01f688d113da85b06b39d61ab9052ae7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 066/102] fix: an input without kernels was written as an empty
 list that cannot be read

---
 utils/input_util.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index c97d21d..94a3a06 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2465,15 +2465,17 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      print_lhs(fp, &f, "n_kernels");     fprintf(fp, "%d%c", n_kernels,     f.nl);
      print_lhs(fp, &f, "n_kernel_quad"); fprintf(fp, "%d%c", n_kernel_quad, f.nl);
 
-     i1 = alloc_array1_i(n_kernels);
-     for (i = 0; i < n_kernels; ++i)
-          i1[i] = xrtm_get_kernel(d, i);
-     list = xrtm_kernels_vector_to_string_list(NULL, (enum xrtm_kernel_type *) i1, n_kernels);
-     free_array1_i(i1);
-     print_lhs(fp, &f, "kernels");
-     print_list(fp, &f, list);
-     fprintf(fp, "%c", f.nl);
-     fdclist_free(list);
+     if (n_kernels > 0) {
+          i1 = alloc_array1_i(n_kernels);
+          for (i = 0; i < n_kernels; ++i)
+               i1[i] = xrtm_get_kernel(d, i);
+          list = xrtm_kernels_vector_to_string_list(NULL, (enum xrtm_kernel_type *) i1, n_kernels);
+          free_array1_i(i1);
+          print_lhs(fp, &f, "kernels");
+          print_list(fp, &f, list);
+          fprintf(fp, "%c", f.nl);
+          fdclist_free(list);
+     }
 
      print_lhs(fp, &f, "n_out_levels"); fprintf(fp, "%d%c", n_out_levels, f.nl);
      print_lhs(fp, &f, "n_out_thetas"); fprintf(fp, "%d%c", n_out_thetas, f.nl);
-- 
2.43.0


From 7dd0d60e93ea8c1ad0326dbb91708c17362bad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 067/102] fix: xrtm_fwrite_input_fn() closed stdout

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 94a3a06..fed6fdc 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2393,7 +2393,7 @@ int xrtm_fwrite_input_fn(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, const ch
           return -1;
      }
 
-     if (fp != stdin && fp != stderr)
+     if (fp != stdout && fp != stderr)
           fclose(fp);
 
      return 0;
-- 
2.43.0


From 86b43f41d10ccf4b5ad75551a9ecaca23846a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 068/102] fix: callxrtm printed zeros for the derivatives of
 mean radiances and fluxes

---
 utils/callxrtm.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 134e3f4..614b2b7 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -598,15 +598,9 @@ int main(int argc, char *argv[]) {
                     if (o.derivs) {
                          for (m = 0; m < n_derivs; ++m) {
                               if (output_up)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", mean_p_l[i][m]);
-*/
                               if (output_down)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", mean_m_l[i][m]);
-*/
                          }
                     }
                     printf("\n");
@@ -648,15 +642,9 @@ int main(int argc, char *argv[]) {
                     if (o.derivs) {
                          for (m = 0; m < n_derivs; ++m) {
                               if (output_up)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", flux_p_l[i][m]);
-*/
                               if (output_down)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", flux_m_l[i][m]);
-*/
                          }
                     }
                     printf("\n");
-- 
2.43.0


From 9369e5019dd673e105cf924a835fd59bf4057e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 069/102] fix: derivatives of the isotropic and thermal sources
 were not written

---
 utils/input_util.c | 100 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 100 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index fed6fdc..a213e0d 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1690,6 +1690,78 @@ static int print_layer_param_l_double(FILE *fp, format_data *f, xrtm_data *d, co
 
 
 
+static int print_slot_param_l_double(FILE *fp, format_data *f, xrtm_data *d, const char *name, double (*xrtm_get_x_l)(xrtm_data *, int)) {
+
+     int i;
+
+     int n_derivs;
+
+     double *x1;
+
+     n_derivs = xrtm_get_n_derivs(d);
+
+     x1 = alloc_array1_d(n_derivs);
+
+     for (i = 0; i < n_derivs; ++i) {
+          if ((x1[i] = xrtm_get_x_l(d, i)) == XRTM_DBL_ERROR) {
+               fprintf(stderr, "ERROR: xrtm_get_%s(), i_deriv = %d\n", name, i);
+               return -1;
+          }
+     }
+
+     print_lhs(fp, f, name);
+
+     print_array1_double(fp, f, x1, n_derivs);
+
+     free_array1_d(x1);
+
+     fprintf(fp, "%c", f->nl);
+
+     return 0;
+}
+
+
+
+static int print_levels_b_l(FILE *fp, format_data *f, xrtm_data *d) {
+
+     int i;
+     int j;
+
+     int n_levels;
+     int n_derivs;
+
+     double *x1;
+     double **x2;
+
+     n_levels = xrtm_get_n_layers(d) + 1;
+     n_derivs = xrtm_get_n_derivs(d);
+
+     x1 = alloc_array1_d(n_levels);
+     x2 = alloc_array2_d(n_levels, n_derivs);
+
+     for (j = 0; j < n_derivs; ++j) {
+          if (xrtm_get_levels_b_l(d, j, x1) == XRTM_INT_ERROR) {
+               fprintf(stderr, "ERROR: xrtm_get_levels_b_l(), i_deriv = %d\n", j);
+               return -1;
+          }
+          for (i = 0; i < n_levels; ++i)
+               x2[i][j] = x1[i];
+     }
+
+     print_lhs(fp, f, "levels_b_l");
+
+     print_array2_double(fp, f, x2, n_levels, n_derivs);
+
+     free_array1_d(x1);
+     free_array2_d(x2);
+
+     fprintf(fp, "%c", f->nl);
+
+     return 0;
+}
+
+
+
 static int print_coef(FILE *fp, format_data *f, xrtm_data *d, misc_data *md) {
 
      int i;
@@ -2561,12 +2633,26 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      }
      print_lhs(fp, &f, "F_iso_top"); fprintf(fp, "%e%c", x, f.nl);
 
+     if (n_derivs > 0) {
+          if (print_slot_param_l_double(fp, &f, d, "F_iso_top_l", xrtm_get_F_iso_top_l)) {
+               fprintf(stderr, "ERROR: print_slot_param_l_double()\n");
+               return -1;
+          }
+     }
+
      if ((x = xrtm_get_F_iso_bot(d)) < 0.) {
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
           return -1;
      }
      print_lhs(fp, &f, "F_iso_bot"); fprintf(fp, "%e%c", x, f.nl);
 
+     if (n_derivs > 0) {
+          if (print_slot_param_l_double(fp, &f, d, "F_iso_bot_l", xrtm_get_F_iso_bot_l)) {
+               fprintf(stderr, "ERROR: print_slot_param_l_double()\n");
+               return -1;
+          }
+     }
+
 
      if (options & XRTM_OPTION_SOURCE_SOLAR) {
           if ((x = xrtm_get_F_0(d)) < 0.) {
@@ -2599,6 +2685,20 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
                return -1;
           }
           print_lhs(fp, &f, "surface_b"); fprintf(fp, "%e%c", x, f.nl);
+
+          if (n_derivs > 0) {
+               if (print_levels_b_l(fp, &f, d)) {
+                    fprintf(stderr, "ERROR: print_levels_b_l()\n");
+                    return -1;
+               }
+          }
+
+          if (n_derivs > 0) {
+               if (print_slot_param_l_double(fp, &f, d, "surface_b_l", xrtm_get_surface_b_l)) {
+                    fprintf(stderr, "ERROR: print_slot_param_l_double()\n");
+                    return -1;
+               }
+          }
      }
 
      if (solvers & XRTM_SOLVERS_USE_G) {
-- 
2.43.0


From 34b840f2f9f8b6f27a6daafd2b4558fec5c08de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:45 +0000
Subject: [PATCH 070/102] fix: an input with more than 8 indices was written
 past the end of an array

---
 utils/input_util.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index a213e0d..a138d67 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -134,7 +134,7 @@ static void copy_dimens(int *dimens2, int *dimens1, int n) {
 
 static int parse_scaler_int(input_data *input);
 
-static int dimens_parse(input_data *input, int *dimens) {
+static int dimens_parse2(input_data *input, int *dimens, int n) {
 
      int r;
 
@@ -147,6 +147,11 @@ static int dimens_parse(input_data *input, int *dimens) {
           return  0;
      }
      else {
+          if (n == MAX_DIMENS) {
+               input_error(&input->locus, "too many dimensions");
+               exit(1);
+          }
+
           r = yylex(&input->locus, &data);
 
           if (r == ':')
@@ -163,12 +168,19 @@ static int dimens_parse(input_data *input, int *dimens) {
                exit(1);
           }
 
-          return 1 + dimens_parse(input, dimens + 1);
+          return 1 + dimens_parse2(input, dimens + 1, n + 1);
      }
 }
 
 
 
+static int dimens_parse(input_data *input, int *dimens) {
+
+     return dimens_parse2(input, dimens, 0);
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
-- 
2.43.0


From ce579cc0ee8b83309c86a6d09b44c103801d8555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:45 +0000
Subject: [PATCH 071/102] fix: n_kernels greater than the number of kernels
 given read past their end

---
 utils/input_util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index a138d67..2a3275b 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1995,6 +1995,7 @@ static void input_parse1(input_data *input) {
 
      int n_derivs2;
      int n_derivs3;
+     int n_kernels2 = 0;
 
      int flag = 0;
 
@@ -2067,6 +2068,7 @@ static void input_parse1(input_data *input) {
                          input_error(&input->locus, "invalid kernel string");
                          exit(1);
                     }
+                    n_kernels2 = fdclist_count(list);
                     fdclist_free(list);
                     break;
                case XRTM_INPUT_N_OUT_LEVELS:
@@ -2101,6 +2103,11 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
           n_derivs3 = n_derivs;
      }
 
+     if (n_kernels > n_kernels2) {
+          fprintf(stderr, "ERROR: n_kernels is greater than the number of kernels given\n");
+          exit(1);
+     }
+
      if (xrtm_create(input->d, (enum xrtm_option_mask) options, (enum xrtm_solver_mask) solvers, n_coef, n_quad, n_stokes, n_derivs2, n_layers, 1, n_kernels, n_kernel_quad, (enum xrtm_kernel_type *) kernels, n_out_levels, n_out_thetas)) {
           fprintf(stderr, "ERROR: invalid model creation parameters\n");
           exit(1);
-- 
2.43.0


From 23746449a203d2a07b7be59f6b8a0301c3ffaf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:45 +0000
Subject: [PATCH 072/102] fix: an error before the first statement of an input
 used an uninitialized pointer

---
 utils/input_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 2a3275b..22815a5 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2327,7 +2327,8 @@ static void input_init(input_data *input, xrtm_data *d, xrtm_fd_data *fd, misc_d
      input->md           = md;
 
      input->locus.file   = file;
-     input->locus.line   = 1;
+     input->locus.line      = 1;
+     input->locus.statement = "";
 }
 
 
-- 
2.43.0


From b742ca1a3c460cbef3eeb4e01155dabf5391c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:45 +0000
Subject: [PATCH 073/102] fix: reading continued past the end of an input with
 an unterminated comment

---
 utils/input_yylex.c | 2 ++
 utils/input_yylex.l | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/utils/input_yylex.c b/utils/input_yylex.c
index cad15ab..f421502 100644
--- a/utils/input_yylex.c
+++ b/utils/input_yylex.c
@@ -2469,6 +2469,8 @@ void comment(locus_data *locus) {
 		prev = c;
 	}
 	input_error(locus, "unterminated comment");
+
+	exit(1);
 }
 
 
diff --git a/utils/input_yylex.l b/utils/input_yylex.l
index a1dd5f5..f390297 100644
--- a/utils/input_yylex.l
+++ b/utils/input_yylex.l
@@ -153,6 +153,8 @@ void comment(locus_data *locus) {
 		prev = c;
 	}
 	input_error(locus, "unterminated comment");
+
+	exit(1);
 }
 
 
-- 
2.43.0


From 2d4dbcb428d6eb0258007b07e9f4aaa9a6e58375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:11 +0000
Subject: [PATCH 074/102] fix: a bad layer or number of coefficients in an
 input was not reported

---
 utils/input_util.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 22815a5..3445a6c 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -930,6 +930,12 @@ static void parse_coef(input_data *input) {
      if (n == 1 && dimens[0] > -1) {
           parse_equal(input);
           n_coef = parse_scaler_int(input);
+
+          if (n_coef < 0) {
+               input_error(&input->locus, "invalid number of coefficients: %d", n_coef);
+               exit(1);
+          }
+
           parse_comma(input);
           x2 = parse_coef_1(input, n_elem, n_coef);
           if (xrtm_set_coef_1(input->d, dimens[0], n_coef, x2)) {
@@ -992,7 +998,10 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
 
      if (n == 2 && dimens[0] > -1 && dimens[1] > -1) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          if ((n_coef = xrtm_get_n_coef(input->d, dimens[0])) == XRTM_INT_ERROR) {
+               input_error(&input->locus, "xrtm_get_n_coef()");
+               exit(1);
+          }
           x2 = parse_coef_1(input, n_elem, n_coef);
           if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
@@ -1022,7 +1031,10 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
      else
      if ((n == 1 && dimens[0] > -1) || (n == 2 && dimens[0] > -1 && dimens[1] == -1)) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          if ((n_coef = xrtm_get_n_coef(input->d, dimens[0])) == XRTM_INT_ERROR) {
+               input_error(&input->locus, "xrtm_get_n_coef()");
+               exit(1);
+          }
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
           if (xrtm_set_coef_x_1n(d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
-- 
2.43.0


From 9ca46c110407c1b62a5e51cebb91f285760af13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:59 +0000
Subject: [PATCH 075/102] fix: a bad kernel index in an input was not reported

---
 utils/input_util.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 3445a6c..0b502da 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1433,6 +1433,20 @@ static void parse_kernel_ampfac_l(input_data *input, void *d, int n_derivs, cons
 
 
 
+static int input_kernel_n_params(input_data *input, int i_kernel) {
+
+     int kernel;
+
+     if ((kernel = xrtm_get_kernel(input->d, i_kernel)) == XRTM_INT_ERROR) {
+          input_error(&input->locus, "xrtm_get_kernel()");
+          exit(1);
+     }
+
+     return kernel_n_params((enum xrtm_kernel_type) kernel);
+}
+
+
+
 static void parse_kernel_params(input_data *input) {
 
      int n;
@@ -1462,7 +1476,7 @@ static void parse_kernel_params(input_data *input) {
      else
      if (n == 1 || (n == 2 && dimens[1] == -1)) {
           parse_equal(input);
-          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
+          n_params = input_kernel_n_params(input, dimens[0]);
           if (n_params == 0) {
                input_error(&input->locus, "kernel %d requires no parameters\n", dimens[0]);
                exit(1);
@@ -1517,7 +1531,7 @@ static void parse_kernel_params_l(input_data *input, void *d, int n_derivs, cons
      else
      if ((n == 2 && dimens[1] > -1) || (n == 3 && dimens[1] > -1 && dimens[2] == -1)) {
           parse_equal(input);
-          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
+          n_params = input_kernel_n_params(input, dimens[0]);
           x1 = parse_array1_double(input, n_params);
           if (xrtm_set_kernel_params_x_1n(d, dimens[0], dimens[1], x1)) {
                input_error(&input->locus, "xrtm_set_kernel_params_%s_1n()", type);
@@ -1528,7 +1542,7 @@ static void parse_kernel_params_l(input_data *input, void *d, int n_derivs, cons
      else
      if ((n == 1) || (n == 2 && dimens[1] == -1 && dimens[2] == -1) || (n == 2 && dimens[1]) || (n == 3 && dimens[1] == -1 && dimens[2] == -1)) {
           parse_equal(input);
-          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
+          n_params = input_kernel_n_params(input, dimens[0]);
           x2 = parse_array2_double(input, n_derivs, n_params);
           if (xrtm_set_kernel_params_x_nn(d, dimens[0], x2)) {
                input_error(&input->locus, "xrtm_set_kernel_params_%s_nn()", type);
-- 
2.43.0


From 40e4de987514bcb0ab7eea13696e8a19c73e39eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:53 +0000
Subject: [PATCH 076/102] fix: coef_files_l[:][j] took one name per derivative
 instead of one per layer

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 0b502da..43bae5c 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1235,7 +1235,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
      if ( n == 2 && dimens[0] == -1 && dimens[1] > -1) {
           parse_equal(input);
 
-          n_layers = xrtm_get_n_derivs(input->d);
+          n_layers = xrtm_get_n_layers(input->d);
 
           x1 = parse_array1_string(input, n_layers);
 
-- 
2.43.0


From 11fc3bc692803bf9d3486c02a89f823e92cb8afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:20 +0000
Subject: [PATCH 077/102] fix: too few coefficients in a derivative's
 coefficient file were read past their end

---
 utils/input_util.c | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 43bae5c..c42b78f 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1213,11 +1213,9 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
                exit(1);
           }
 
-          if (n_coef2 != n_coef_layer) {
-/*
-               input_error(&input->locus, "# of phase function expansion coefficient derivatives != to that for corresponding base values");
+          if (n_coef2 < n_coef_layer) {
+               input_error(&input->locus, "# of phase function expansion coefficient derivatives < that for corresponding base values");
                exit(1);
-*/
           }
 
           if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], coef)) {
@@ -1249,11 +1247,9 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
                     exit(1);
                }
 
-               if (n_coef2 != n_coef_layer) {
-/*
-                    input_error(&input->locus, "# of phase function expansion coefficient derivatives != to that for corresponding base values");
+               if (n_coef2 < n_coef_layer) {
+                    input_error(&input->locus, "# of phase function expansion coefficient derivatives < that for corresponding base values");
                     exit(1);
-*/
                }
           }
 
@@ -1289,11 +1285,9 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
                     exit(1);
                }
 
-               if (n_coef2 != n_coef_layer) {
-/*
-                    input_error(&input->locus, "# of phase function expansion coefficient derivatives != to that for corresponding base values");
+               if (n_coef2 < n_coef_layer) {
+                    input_error(&input->locus, "# of phase function expansion coefficient derivatives < that for corresponding base values");
                     exit(1);
-*/
                }
           }
 
@@ -1332,11 +1326,9 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
                          exit(1);
                     }
 
-                    if (n_coef2 != n_coef_layer) {
-/*
-                         input_error(&input->locus, "# of phase function expansion coefficient derivatives != to that for corresponding base values");
+                    if (n_coef2 < n_coef_layer) {
+                         input_error(&input->locus, "# of phase function expansion coefficient derivatives < that for corresponding base values");
                          exit(1);
-*/
                     }
                }
           }
-- 
2.43.0


From 1896891399c6bdf8c16d93bedb770161ae60e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:20 +0000
Subject: [PATCH 078/102] fix: coefficients from a file were not normalized
 beyond the first

---
 misc/rtutil_scat_io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 414280d..edefc5b 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1786,6 +1786,8 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      double f_l;
      double rho_l;
 
+     double norm;
+
      double **coefs;
 
      temp = strdup(filename);
@@ -1989,9 +1991,10 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      }
 
      if (coefs[0][0] != 0. && coefs[0][0] != 1.) {
+          norm = coefs[0][0];
           for (i = 0; i < 6; ++i) {
                for (j = 0; j < n_coef2; ++j) {
-                    coefs[i][j] /= coefs[0][0];
+                    coefs[i][j] /= norm;
                }
           }
      }
-- 
2.43.0


From e4255777e1482e2faac80f2fce6cbc1e77358622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:41 +0000
Subject: [PATCH 079/102] fix: coefficient files read for one element were used
 for six

---
 misc/rtutil_scat_io.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index edefc5b..8f0ef2b 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1789,6 +1789,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      double norm;
 
      double **coefs;
+     double **coefs1;
 
      temp = strdup(filename);
 
@@ -1925,6 +1926,15 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
                return -1;
           }
 
+          if (token[2] != '6') {
+               coefs1 = coefs;
+               coefs  = alloc_array2_d(6, n_coef2);
+               init_array2_d(coefs, 6, n_coef2, 0.);
+               for (i = 0; i < n_coef2; ++i)
+                    coefs[0][i] = coefs1[0][i];
+               free_array2_d(coefs1);
+          }
+
           *flag = SCAT_COEF_GC;
      }
      else if (strcmp(token, "lc") == 0 || strcmp(token, "lc6") == 0) {
@@ -1935,6 +1945,15 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
                return -1;
           }
 
+          if (token[2] != '6') {
+               coefs1 = coefs;
+               coefs  = alloc_array2_d(6, n_coef2);
+               init_array2_d(coefs, 6, n_coef2, 0.);
+               for (i = 0; i < n_coef2; ++i)
+                    coefs[0][i] = coefs1[0][i];
+               free_array2_d(coefs1);
+          }
+
           *flag = SCAT_COEF_LC;
      }
      else if (strcmp(token, "none") == 0) {
-- 
2.43.0


From 44edd2ee596f4797dba9925fc3043cae38341a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:39 +0000
Subject: [PATCH 080/102] fix: derivatives of coefficients were written as
 files when the coefficients came from files

---
 utils/input_util.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index c42b78f..9a79bcc 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1850,6 +1850,8 @@ static int print_coef_l(FILE *fp, format_data *f, xrtm_data *d, misc_data *md) {
      int k;
      int l;
 
+     int use_files;
+
      int n_elem;
      int n_coef;
      int n_coef2;
@@ -1866,7 +1868,11 @@ static int print_coef_l(FILE *fp, format_data *f, xrtm_data *d, misc_data *md) {
      x3 = alloc_array3_d(n_derivs, n_coef, n_elem);
 
      for (i = 0; i < n_layers; ++i) {
-          if (! md || ! md->coef_files[i]) {
+          use_files = md != NULL;
+          for (j = 0; j < n_derivs && use_files; ++j)
+               use_files = md->coef_files_l[i][j] != NULL;
+
+          if (! use_files) {
                n_coef2 = xrtm_get_n_coef(d, i);
 
                for (j = 0; j < n_derivs; ++j) {
-- 
2.43.0


From 75a5af08d38d726596e5bb5918780a1eeaab7a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:16 +0000
Subject: [PATCH 081/102] fix: a second input read from a file continued in the
 first one's buffer

---
 utils/input_util.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index 9a79bcc..1ba4722 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2451,6 +2451,8 @@ int xrtm_fread_input(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, const char *
 
      input_data input;
 
+     YY_BUFFER_STATE buffer;
+
      if (strcmp(filename, "-") == 0) {
           yyin = stdin;
 
@@ -2466,10 +2468,16 @@ int xrtm_fread_input(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, const char *
           file = filename;
      }
 
+     buffer = yy_create_buffer(yyin, 16384);
+
+     yy_switch_to_buffer(buffer);
+
      input_init(&input, d, fd, md, use_aligned, use_array2, use_dash, use_equal, file);
 
      input_parse(&input);
 
+     yy_delete_buffer(buffer);
+
      if (yyin != stdin)
           fclose(yyin);
 
-- 
2.43.0


From cc0298e18e5a189d5295104fcbc1214c53b8b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:24 +0000
Subject: [PATCH 082/102] fix: an empty phase input name or one without its
 file name was used

---
 misc/rtutil_scat_io.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 8f0ef2b..dff8f0f 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1793,7 +1793,11 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
      temp = strdup(filename);
 
-     token = strtok_r(temp, ":", &lasts);
+     if ((token = strtok_r(temp, ":", &lasts)) == NULL) {
+          fprintf(stderr, "ERROR: empty phase input name\n");
+          free(temp);
+          return -1;
+     }
 
      if (is_user_defined_n_coef(token)) {
           if (n_coef <= 0) {
@@ -1919,7 +1923,10 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           *flag = SCAT_COEF_GC;
      }
      else if (strcmp(token, "gc") == 0 || strcmp(token, "gc6") == 0) {
-          token2 = strtok_r(NULL, ":", &lasts);
+          if ((token2 = strtok_r(NULL, ":", &lasts)) == NULL) {
+               fprintf(stderr, "ERROR: no file name given for phase input type: %s\n", token);
+               return -1;
+          }
 
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, token[2] == '6'))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
@@ -1938,7 +1945,10 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           *flag = SCAT_COEF_GC;
      }
      else if (strcmp(token, "lc") == 0 || strcmp(token, "lc6") == 0) {
-          token2 = strtok_r(NULL, ":", &lasts);
+          if ((token2 = strtok_r(NULL, ":", &lasts)) == NULL) {
+               fprintf(stderr, "ERROR: no file name given for phase input type: %s\n", token);
+               return -1;
+          }
 
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, token[2] == '6'))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
@@ -2040,7 +2050,11 @@ int load_scat_coefs2(const char *filename, int n_coef, int n_coef2, double ***co
 
      temp = strdup(filename);
 
-     token = strtok_r(temp, ":", &lasts);
+     if ((token = strtok_r(temp, ":", &lasts)) == NULL) {
+          fprintf(stderr, "ERROR: empty phase input name\n");
+          free(temp);
+          return -1;
+     }
 
      if (! is_user_defined_n_coef(token))
           n_coef = n_coef2;
-- 
2.43.0


From ce99df2fa71ea253ade98b91e309b4e730632f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:20 +0000
Subject: [PATCH 083/102] fix: a number of coefficients below one in a
 coefficient file was used

---
 misc/rtutil_scat_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index dff8f0f..d108a6d 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -766,6 +766,11 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
 
      if (fscanf(fp, "%d", &n_coef2) < 1) goto L1;
 
+     if (n_coef2 < 1) {
+          fprintf(stderr, "ERROR: invalid number of phase coefficients in file: %d\n", n_coef2);
+          return -1;
+     }
+
      if (n_coef <= 0)
           n_total = n_coef2;
      else
-- 
2.43.0


From 177ab8876f57e92c34e1a9db66ff6bcf118342ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:48 +0000
Subject: [PATCH 084/102] fix: an invalid finite difference method in an input
 was not refused

---
 utils/input_util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index 1ba4722..8f3a91a 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2120,6 +2120,11 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
           exit(1);
      }
 
+     if (flag && (fd_method < 0 || fd_method >= N_XRTM_FD_METHOD_TYPES)) {
+          fprintf(stderr, "ERROR: invalid value for \"fd\": %d\n", fd_method);
+          exit(1);
+     }
+
      if (! flag)
           n_derivs2 = n_derivs;
      else {
-- 
2.43.0


From 74224cd8aa7fc8d5b91858e1981126e553fb8291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:56 +0000
Subject: [PATCH 085/102] fix: the functions that write a scattering header to
 a named file opened it for reading

---
 misc/rtutil_scat_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index d108a6d..eddde6a 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -229,7 +229,7 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
 
      FILE *fp;
 
-     if ((fp = fopen(filename, "r")) == NULL) {
+     if ((fp = fopen(filename, "w")) == NULL) {
           fprintf(stderr, "ERROR: Problem opening file for writing: %s ... %s\n",
                   filename, strerror(errno));
           return -1;
@@ -400,7 +400,7 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
 
      FILE *fp;
 
-     if ((fp = fopen(filename, "r")) == NULL) {
+     if ((fp = fopen(filename, "w")) == NULL) {
           fprintf(stderr, "ERROR: Problem opening file for writing: %s ... %s\n",
                   filename, strerror(errno));
           return -1;
-- 
2.43.0


From 906566da332cf3089f907888fd5357a58aab46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:06 +0000
Subject: [PATCH 086/102] fix: a scattering file that could not be read or
 written was left open

---
 misc/rtutil_scat_io.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index eddde6a..bcc7020 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -142,6 +142,7 @@ int scat_header_read_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_read_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -237,6 +238,7 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_write_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -331,6 +333,7 @@ int scat_header_read_bin_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_read_bin_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_read_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -408,6 +411,7 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_write_bin_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_write_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -537,6 +541,7 @@ int phase_func_read_fn(const char *filename, scat_header_data *h,
 
      if ((n_angles = phase_func_read_fp(fp, h, theta, phase, allsix)) < 0) {
           fprintf(stderr, "ERROR: phase_func_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -623,6 +628,7 @@ int phase_func_write_fn(const char *filename, scat_header_data *h,
 
      if (phase_func_write_fp(fp, h, theta, phase, n_angles, allsix) < 0) {
           fprintf(stderr, "ERROR: phase_func_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -716,6 +722,7 @@ int scat_coefs_read_fn(const char *filename, int n_coef,
 
      if ((n_total = scat_coefs_read_fp(fp, n_coef, h, coefs, allsix)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -815,6 +822,7 @@ int scat_coefs_write_fn(const char *filename, int n_coef2,
 
      if ((ret_val = scat_coefs_write_fp(fp, n_coef2, h, coefs, allsix)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -915,6 +923,7 @@ int scat_coefs_read_bin_fn(const char *filename, int n_coef,
 
      if ((n_total = scat_coefs_read_bin_fp(fp, n_coef, h, coefs, size, n_elem)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_read_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1034,6 +1043,7 @@ int scat_coefs_write_bin_fn(const char *filename, int n_coef2,
 
      if ((ret_val = scat_coefs_write_bin_fp(fp, n_coef2, h, coefs, size, n_elem)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_write_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1302,6 +1312,7 @@ int scat_total_read_fn(const char *filename, scat_header_data *h, int *n_quad,
      if (scat_total_read_fp(fp, h, n_quad, n_four, quad_type, cextx, cexty,
                             cscatx, cscaty, cbackx, cbacky, gx, gy)) {
           fprintf(stderr, "ERROR: scat_total_read_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1390,6 +1401,7 @@ int scat_total_write_fn(const char *filename, scat_header_data *h, int n_quad,
      if (scat_total_write_fp(fp, h, n_quad, n_four, quad_type, cextx, cexty,
                              cscatx, cscaty, cbackx, cbacky, gx, gy)) {
           fprintf(stderr, "ERROR: scat_total_write_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1457,6 +1469,7 @@ int phase_mats_read_fn(const char *filename, scat_header_data *h, int *n_quad,
 
      if (phase_mats_read_fp(fp, h, n_quad, n_four, quad_type, P, Kext, Kemi)) {
           fprintf(stderr, "ERROR: phase_mats_read_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1634,6 +1647,7 @@ int phase_mats_write_fn(const char *filename, scat_header_data *h, int n_quad,
 
      if (phase_mats_write_fp(fp, h, n_quad, n_four, quad_type, qx, P, Kext, Kemi)) {
           fprintf(stderr, "ERROR: phase_mats_write_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-- 
2.43.0


From fc2fbb648eb7fe86fa9380561623ca5202900e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:48 +0000
Subject: [PATCH 087/102] fix: truncated binary scattering coefficients were
 read from the wrong place

---
 misc/rtutil_scat_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index bcc7020..b05fa96 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -983,11 +983,13 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      else
           coefs = (void **) alloc_array2_d(n_elem, n_total);
 
-     for (i = 0; i < n_elem; ++i)
+     for (i = 0; i < n_elem; ++i) {
           if (fread(coefs[i], size2, n_total, fp) < (size_t) n_total) goto L1;
+          if (fseek(fp, (long) size2 * (n_coef2 - n_total), SEEK_CUR) != 0) goto L1;
+     }
 
      for (     ; i < n_elem2; ++i)
-          if (fseek(fp, size2 * n_total, SEEK_CUR) != 0             )  goto L1;
+          if (fseek(fp, (long) size2 * n_coef2, SEEK_CUR) != 0) goto L1;
 
      if (size != size2) {
           if (size == 4) {
-- 
2.43.0


From 178bc078a5af70d2cca2b489f0850de0a4051fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:26 +0000
Subject: [PATCH 088/102] fix: sizes in scattering files were used without
 being checked

---
 misc/rtutil_scat_io.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index b05fa96..46ab243 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -578,6 +578,11 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
 
      if (fscanf(fp, "%d", &n_angles) < 1) goto L1;
 
+     if (n_angles < 1) {
+          fprintf(stderr, "ERROR: invalid number of angles in file: %d\n", n_angles);
+          return -1;
+     }
+
      theta = alloc_array1_d(n_angles);
      phase = alloc_array2_d(6, n_angles);
 
@@ -964,6 +969,11 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
 
      if (fread(&size2,   sizeof(int), 1, fp) < 1) goto L1;
 
+     if (size2 != 4 && size2 != 8) {
+          fprintf(stderr, "ERROR: invalid size of phase coefficients in file: %d\n", size2);
+          return -1;
+     }
+
      if (fread(&n_elem2, sizeof(int), 1, fp) < 1) goto L1;
 
      if (n_elem2 < n_elem)  {
@@ -973,6 +983,11 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
 
      if (fread(&n_coef2, sizeof(int), 1, fp) < 1) goto L1;
 
+     if (n_coef2 < 1) {
+          fprintf(stderr, "ERROR: invalid number of phase coefficients in file: %d\n", n_coef2);
+          return -1;
+     }
+
      if (n_coef <= 0)
           n_total = n_coef2;
      else
-- 
2.43.0


From 3d901d5331006656ced1e0251b62419ffbbbd0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:32 +0000
Subject: [PATCH 089/102] fix: what a scattering file had been read into leaked
 when the rest of it could not be read

---
 misc/rtutil_scat_io.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 46ab243..9fb413f 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -170,7 +170,10 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
      max_length = size_dist_name_max_length();
      snprintf(format, length, "dist_type = %%%ds\n", max_length);
      name = (char *) malloc(max_length + 1);
-     if (fscanf(fp, format,  name)                      < 1) goto L1;
+     if (fscanf(fp, format,  name)                      < 1) {
+          free(name);
+          goto L1;
+     }
      h->dist_type = size_dist_code(name);
      free(name);
 
@@ -559,9 +562,9 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
 
      int n_angles;
 
-     double *theta;
+     double *theta = NULL;
 
-     double **phase;
+     double **phase = NULL;
 
      if (! h) {
           if (scat_header_skip(fp)) {
@@ -615,6 +618,9 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading phase function from file: %s\n", strerror(errno));
 
+     free_array1_d(theta);
+     free_array2_d(phase);
+
      return -1;
 }
 
@@ -750,7 +756,7 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
      int n_coef2;
      int n_total;
 
-     double **coefs;
+     double **coefs = NULL;
 
      n_elem = allsix ? 6 : 1;
 
@@ -807,6 +813,8 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading phase coefficients from file: %s\n", strerror(errno));
 
+     free_array2_d(coefs);
+
      return -1;
 }
 
@@ -952,7 +960,7 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      int n_coef2;
      int n_total;
 
-     void **coefs;
+     void **coefs = NULL;
 
      if (! h) {
           if (scat_header_skip_bin(fp)) {
@@ -1040,6 +1048,13 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading phase coefficients from file: %s\n", strerror(errno));
 
+     if (coefs) {
+          if (size2 == 4)
+               free_array2_f((float **) coefs);
+          else
+               free_array2_d((double **) coefs);
+     }
+
      return -1;
 }
 
-- 
2.43.0


From 4a4be8e3be1a060a9ad550ff0371b97a57dcd46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:59 +0000
Subject: [PATCH 090/102] fix: a long quadrature name in a scattering file
 overflowed the buffer it was read into

---
 misc/rtutil_scat_io.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 9fb413f..24e9a52 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1362,7 +1362,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      int i;
 
-     char *quad_name;
+     char quad_name[32];
 
      int line;
 
@@ -1383,9 +1383,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
-     quad_name = (char *) malloc(size_dist_name_max_length());
-
-     if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
+     if (fscanf(fp, "%d%d%31s%*[\n]", n_quad, &i_four, quad_name) < 3) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
           return -1;
      }
@@ -1397,8 +1395,6 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           return -1;
      }
 
-     free(quad_name);
-
      line++;
 
      for (i = 0; i < 2 * *n_quad; ++i) {
@@ -1516,7 +1512,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                        int *n_four, int *quad_type, double ******P_,
                        double ****Kext_, double ***Kemi_) {
 
-     char *quad_name;
+     char quad_name[32];
 
      int i;
      int j;
@@ -1567,9 +1563,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
-     quad_name = (char *) malloc(size_dist_name_max_length());
-
-     if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
+     if (fscanf(fp, "%d%d%31s%*[\n]", n_quad, &i_four, quad_name) < 3) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
           return -1;
      }
@@ -1581,8 +1575,6 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           return -1;
      }
 
-     free(quad_name);
-
      line++;
 
      P    = alloc_array5_d(*n_four, 2 * *n_quad, 2 * *n_quad, 4, 4);
-- 
2.43.0


From 6615b6bab95f4581b0f4ca3ada448f6890541ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:59 +0000
Subject: [PATCH 091/102] fix: incomplete rows of a file of total scattering
 parameters were accepted

---
 misc/rtutil_scat_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 24e9a52..9837fb9 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1400,7 +1400,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      for (i = 0; i < 2 * *n_quad; ++i) {
            if (fscanf(fp, "%lf%lf%lf%lf%lf%lf%lf%lf",
                       &cextx[i], &cexty[i], &cscatx[i], &cscaty[i],
-                      &cbackx[i], &cbacky[i], &gx[i], &gy[i]) < 6) {
+                      &cbackx[i], &cbacky[i], &gx[i], &gy[i]) < 8) {
                 fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
                 return -1;
            }
-- 
2.43.0


From 4c2c226812606237c5d4373ea3d32e4ea272e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:59 +0000
Subject: [PATCH 092/102] fix: sizes in files of phase matrices were used
 without being checked

---
 misc/rtutil_scat_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 9837fb9..e7b7a8b 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1577,6 +1577,11 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      line++;
 
+     if (*n_quad < 1 || *n_four < 1) {
+          fprintf(stderr, "ERROR: invalid size, line %d\n", line);
+          return -1;
+     }
+
      P    = alloc_array5_d(*n_four, 2 * *n_quad, 2 * *n_quad, 4, 4);
      Kext = alloc_array3_d(         2 * *n_quad, 4, 4);
      Kemi = alloc_array2_d(         2 * *n_quad, 4);
-- 
2.43.0


From 9d37dd4f0fc09508e4b219c0b11bc97d302fa1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:59 +0000
Subject: [PATCH 093/102] fix: phase matrices leaked when their file could not
 be read to its end

---
 misc/rtutil_scat_io.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index e7b7a8b..38a12ef 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1594,14 +1594,14 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                for (i = 0; i < *n_four; ++i) {
                     if (fscanf(fp, "%lf%lf%d", &mu1, &mu2, &i_four) < 3) {
                          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                         return -1;
+                         goto L1;
                     }
 
                     line++;
 
                     if (i_four != i) {
                          fprintf(stderr, "ERROR: invalid fourier order encountered\n");
-                         return -1;
+                         goto L1;
                     }
 
                     for (l = 0; l < 4; ++l) {
@@ -1609,7 +1609,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                                     &P[i][j][k][l][0], &P[i][j][k][l][1],
                                     &P[i][j][k][l][2], &P[i][j][k][l][3]) < 4) {
                               fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                              return -1;
+                              goto L1;
                          }
 
                          line++;
@@ -1623,7 +1623,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      for (i = 0; i < 2 * *n_quad; ++i) {
           if (fscanf(fp, "%lf", &mu1) < 1) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-               return -1;
+               goto L1;
           }
 
           line++;
@@ -1633,7 +1633,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                           &Kext[i][j][0], &Kext[i][j][1],
                           &Kext[i][j][2], &Kext[i][j][3]) < 4) {
                     fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                    return -1;
+                    goto L1;
                }
 
                line++;
@@ -1647,7 +1647,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                      &Kemi[i][0], &Kemi[i][1],
                      &Kemi[i][2], &Kemi[i][3]) < 5) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-               return -1;
+               goto L1;
           }
 
           line++;
@@ -1658,6 +1658,12 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      *Kemi_ = Kemi;
 
      return 0;
+
+L1:  free_array5_d(P);
+     free_array3_d(Kext);
+     free_array2_d(Kemi);
+
+     return -1;
 }
 
 
-- 
2.43.0


From 9c1b496c5252cc5374c7752493a748bb96485a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:13 +0000
Subject: [PATCH 094/102] fix: a scattering header with an unknown size
 distribution was accepted

---
 misc/rtutil_scat_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 38a12ef..ae52c57 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -177,6 +177,11 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
      h->dist_type = size_dist_code(name);
      free(name);
 
+     if ((int) h->dist_type < 0) {
+          fprintf(stderr, "ERROR: size_dist_code()\n");
+          return -1;
+     }
+
      if (fscanf(fp, "a1        = %lf\n", &h->a1)        < 1) goto L1;
      if (fscanf(fp, "a2        = %lf\n", &h->a2)        < 1) goto L1;
      if (fscanf(fp, "a3        = %lf\n", &h->a3)        < 1) goto L1;
-- 
2.43.0


From 33c9a6ecf05f113aa64e63d8afdfb772612977a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:13 +0000
Subject: [PATCH 095/102] fix: a scattering file that could not be written to
 its end was reported as written

---
 misc/rtutil_scat_io.c | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index ae52c57..cda2cfb 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -250,7 +250,11 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -423,7 +427,11 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -648,7 +656,11 @@ int phase_func_write_fn(const char *filename, scat_header_data *h,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -844,7 +856,11 @@ int scat_coefs_write_fn(const char *filename, int n_coef2,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return ret_val;
 }
@@ -1084,7 +1100,11 @@ int scat_coefs_write_bin_fn(const char *filename, int n_coef2,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return ret_val;
 }
@@ -1438,7 +1458,11 @@ int scat_total_write_fn(const char *filename, scat_header_data *h, int n_quad,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -1691,7 +1715,11 @@ int phase_mats_write_fn(const char *filename, scat_header_data *h, int n_quad,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
-- 
2.43.0


From 6bdd63d6c3560fe0255b9f0cfee58e66b38f188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:27 +0000
Subject: [PATCH 096/102] fix: scattering coefficients written for a single
 element could not be read

---
 misc/rtutil_scat_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index cda2cfb..d615867 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -910,7 +910,8 @@ int scat_coefs_write_fp(FILE *fp, int n_coef2,
 #endif
      for (i = 0; i < n_coef2; ++i) {
           if (! allsix) {
-               if (fprintf(fp, "%e\n", coefs[0][i]) < 1) goto L1;
+               if (fprintf(fp, "%e %e %e %e %e %e\n",
+                           coefs[0][i], 0., 0., 0., 0., 0.) < 6) goto L1;
           }
           else {
                if (fprintf(fp, "%e %e %e %e %e %e\n",
-- 
2.43.0


From fa06acaab4e6ea2e327060005dec31127a410295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:39 +0000
Subject: [PATCH 097/102] fix: the finite difference interface did not return
 the documented error value

---
 src/xrtm_fd_interface.c | 82 ++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 087315b..57663e6 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -57,7 +57,7 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *-----------------------------------------------------------------------*/
      if (fd->d->options & XRTM_OPTION_CALC_DERIVS) {
           fprintf(stderr, "ERROR: can't use xrtm option \"calc_derivs\" with xrtm_fd\n");
-          return -1;
+          return XRTM_INT_ERROR;
 
      }
 
@@ -102,7 +102,7 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *-----------------------------------------------------------------------*/
      }
      else if (r < 0)
-          return -1;
+          return XRTM_INT_ERROR;
 
 
      /*-------------------------------------------------------------------------
@@ -439,7 +439,7 @@ static int xrtm_fd_set_g_x_p(xrtm_fd_data *d, void *g_p, int i_layer,
 */
      if (! (d->d->solvers & XRTM_SOLVERS_USE_G)) {
           fprintf(stderr, "ERROR: no two-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
@@ -464,7 +464,7 @@ int xrtm_fd_set_g_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double g_p) {
 
      if (xrtm_fd_set_g_x_p(d, &g_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -476,7 +476,7 @@ int xrtm_fd_set_g_p_n1(xrtm_fd_data *d, int i_deriv, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -488,7 +488,7 @@ int xrtm_fd_set_g_p_1n(xrtm_fd_data *d, int i_layer, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -500,7 +500,7 @@ int xrtm_fd_set_g_p_nn(xrtm_fd_data *d, double **g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -542,7 +542,7 @@ static int xrtm_fd_set_coef_x_p(xrtm_fd_data *d, void *coef_p, int i_layer, int
 
      if (! (d->d->solvers & XRTM_SOLVERS_USE_COEF)) {
           fprintf(stderr, "ERROR: no multi-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
@@ -597,7 +597,7 @@ int xrtm_fd_set_coef_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double **co
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -609,7 +609,7 @@ int xrtm_fd_set_coef_p_n1(xrtm_fd_data *d, int i_deriv, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -621,7 +621,7 @@ int xrtm_fd_set_coef_p_1n(xrtm_fd_data *d, int i_layer, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -633,7 +633,7 @@ int xrtm_fd_set_coef_p_nn(xrtm_fd_data *d, double ****coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -691,7 +691,7 @@ int xrtm_fd_set_omega_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ome
 
      if (xrtm_fd_set_omega_x_p(d, &omega_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -703,7 +703,7 @@ int xrtm_fd_set_omega_p_n1(xrtm_fd_data *d, int i_deriv, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -715,7 +715,7 @@ int xrtm_fd_set_omega_p_1n(xrtm_fd_data *d, int i_layer, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -727,7 +727,7 @@ int xrtm_fd_set_omega_p_nn(xrtm_fd_data *d, double **omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -771,7 +771,7 @@ int xrtm_fd_set_ltau_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ltau
 
      if (xrtm_fd_set_ltau_x_p(d, &ltau_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -783,7 +783,7 @@ int xrtm_fd_set_ltau_p_n1(xrtm_fd_data *d, int i_deriv, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -795,7 +795,7 @@ int xrtm_fd_set_ltau_p_1n(xrtm_fd_data *d, int i_layer, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -807,7 +807,7 @@ int xrtm_fd_set_ltau_p_nn(xrtm_fd_data *d, double **ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -1003,12 +1003,12 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
           fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
           fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
@@ -1016,7 +1016,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
 
            for (i = 0; i < d->d->n_layers + 1; ++i) {
@@ -1025,7 +1025,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_set_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
 
            free_array1_d(levels_b);
@@ -1033,7 +1033,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_set_surface_b(d->d, xrtm_get_surface_b(d->d) + f * d->surface_b_p[j])) {
                 fprintf(stderr, "ERROR: xrtm_set_surface_b()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
      }
 
@@ -1041,7 +1041,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
            for (i = 0; i < d->d->n_layers; ++i) {
                 if (xrtm_set_g_1(d->d, i, xrtm_get_g(d->d, i) + f * d->g_p[i][j])) {
                      fprintf(stderr, "ERROR: xrtm_set_g_1()\n");
-                     return -1;
+                     return XRTM_INT_ERROR;
                 }
            }
       }
@@ -1057,7 +1057,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
                 if (xrtm_set_coef_1(d->d, i, n_coef_layer, coef)) {
                      fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
-                     return -1;
+                     return XRTM_INT_ERROR;
                 }
            }
       }
@@ -1065,21 +1065,21 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
       for (i = 0; i < d->d->n_layers; ++i) {
            if (xrtm_set_omega_1(d->d, i, xrtm_get_omega(d->d, i) + f * d->omega_p[i][j])) {
                 fprintf(stderr, "ERROR: xrtm_set_omega_1()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
       }
 
       for (i = 0; i < d->d->n_layers; ++i) {
            if (xrtm_set_ltau_1(d->d,  i, xrtm_get_ltau(d->d, i)  + f * d->ltau_p [i][j])) {
                 fprintf(stderr, "ERROR: xrtm_set_ltau_1()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
      }
 
      for (i = 0; i < d->d->n_kernels; ++i) {
           if (xrtm_set_kernel_ampfac(d->d, i, xrtm_get_kernel_ampfac(d->d, i) + f * d->kernel_ampfac_p[i][j])) {
                 fprintf(stderr, "ERROR: xrtm_set_ampfac()\n");
-                return -1;
+                return XRTM_INT_ERROR;
           }
 
           n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]);
@@ -1087,7 +1087,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
           for (k = 0; k < n_params; ++k) {
                 if (xrtm_set_kernel_params_1(d->d, i, k, xrtm_get_kernel_params(d->d, i, k) + f * d->kernel_params_p[i][j][k])) {
                       fprintf(stderr, "ERROR: xrtm_set_kernel_param_1()\n");
-                      return -1;
+                      return XRTM_INT_ERROR;
                 }
           }
      }
@@ -1164,7 +1164,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
       *-----------------------------------------------------------------------*/
      if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_solution()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -1205,17 +1205,17 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p2, mean_m2, NULL, NULL, flux_p2, flux_m2, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (perturb_values(d, j, solver, -f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (solutions & XRTM_OUTPUT_RADIANCE) {
@@ -1249,12 +1249,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
           else {
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p2, mean_m2, NULL, NULL, flux_p2, flux_m2, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (solutions & XRTM_OUTPUT_RADIANCE) {
@@ -1272,12 +1272,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, -2., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p3, mean_m3, NULL, NULL, flux_p3, flux_m3, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (solutions & XRTM_OUTPUT_RADIANCE) {
@@ -1305,7 +1305,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -1343,7 +1343,7 @@ int xrtm_fd_radiance(xrtm_fd_data *d, enum xrtm_solver_mask solver, enum xrtm_fd
 
      if (xrtm_fd_solution(d, solver, XRTM_OUTPUT_RADIANCE, fd_method, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
-- 
2.43.0


From c6439db50d87e0299c389945b6e27a335957c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:20 +0000
Subject: [PATCH 098/102] fix: the Fortran finite difference interfaces took
 the derivatives of the model for their own

---
 interfaces/xrtm_fd_int_f77_util.c | 32 +++++++++++++++----------------
 interfaces/xrtm_fd_int_f90_util.c | 32 +++++++++++++++----------------
 interfaces/xrtm_fd_interface.def  | 28 +++++++++++++--------------
 3 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 8fb34f6..b4e4154 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -150,7 +150,7 @@ int xrtm_fd_set_levels_b_p_1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *
 int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -251,7 +251,7 @@ int xrtm_fd_set_g_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *g_l)
 int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -312,7 +312,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -325,7 +325,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
 int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -396,7 +396,7 @@ int xrtm_fd_set_omega_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *om
 int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -463,7 +463,7 @@ int xrtm_fd_set_ltau_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *lta
 int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -580,7 +580,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -629,13 +629,13 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -670,8 +670,8 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index e81480a..57e83cc 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -14,7 +14,7 @@ extern "C" {
 int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -27,7 +27,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -66,7 +66,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
 int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -79,7 +79,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
 int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -92,7 +92,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -105,7 +105,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -118,7 +118,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -143,13 +143,13 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -178,8 +178,8 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index cd96c81..a9160ef 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -20,30 +20,30 @@ subprogram_general int 0 set_F_iso_bot_p_1		0, int 0 i_deriv in, double 0 F_iso_
 subprogram_general int 0 set_F_iso_bot_p_n		0, double 1 "d->n_derivs" F_iso_bot_l in;
 subprogram_general double 0 get_F_iso_bot_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_levels_b_p_1		0, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l in;
-subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->d->n_derivs" levels_b_l in;
+subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->n_derivs" levels_b_l in;
 subprogram_general double 0 get_levels_b_p		1, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l out;
 subprogram_general int 0 set_surface_b_p_1		0, int 0 i_deriv in, double 0 surface_b_l in;
 subprogram_general int 0 set_surface_b_p_n		0, double 1 "d->n_derivs" surface_b_l in;
 subprogram_general double 0 get_surface_b_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_g_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 g_l in;
-subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->n_layers" g_l in;
+subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->d->n_layers" g_l in;
 subprogram_general int 0 set_g_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" g_l in;
-subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" g_l in;
+subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" g_l in;
 subprogram_general double 0 get_g_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_coef_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
 subprogram_general int 0 set_coef_p_n1			0, int 0 i_deriv in, double 3 "d->d->n_layers" "d->d->n_elem" "d->d->n_coef" coef_l in;
-subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
-subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
+subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
 subprogram_general double 0 get_coef_p			1, int 0 i_layer in, int 0 i_deriv in, int 0 i_elem in, int 0 i_coef in;
 subprogram_general int 0 set_omega_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 omega_l in;
-subprogram_general int 0 set_omega_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" omega_l in;
-subprogram_general int 0 set_omega_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" omega_l in;
-subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" omega_l in;
+subprogram_general int 0 set_omega_p_n1			0, int 0 i_deriv in, double 1 "d->d->n_layers" omega_l in;
+subprogram_general int 0 set_omega_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" omega_l in;
+subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" omega_l in;
 subprogram_general double 0 get_omega_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_ltau_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 ltau_l in;
-subprogram_general int 0 set_ltau_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" ltau_l in;
-subprogram_general int 0 set_ltau_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" ltau_l in;
-subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" ltau_l in;
+subprogram_general int 0 set_ltau_p_n1			0, int 0 i_deriv in, double 1 "d->d->n_layers" ltau_l in;
+subprogram_general int 0 set_ltau_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" ltau_l in;
+subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" ltau_l in;
 subprogram_general double 0 get_ltau_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_kernel_ampfac_p_1		0, int 0 i_kernel in, int 0 i_deriv in, double 0 ampfac_l in;
 subprogram_general int 0 set_kernel_ampfac_p_n		0, int 0 i_kernel in, double 1 "d->n_derivs" ampfac_l in;
@@ -51,8 +51,8 @@ subprogram_general double 0 get_kernel_ampfac_p		1, int 0 i_kernel in, int 0 i_d
 subprogram_general int 0 set_kernel_params_p_11		0, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in, double 0 param_l in;
 subprogram_general int 0 set_kernel_params_p_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_param in, double 1 "d->n_derivs" params_l in;
-subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
-- 
2.43.0


From 432e23de644a5ced18fac29df053a68721c5b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:27 +0000
Subject: [PATCH 099/102] fix: the Fortran finite difference interfaces took no
 azimuth angles for output at the quadrature angles

---
 interfaces/xrtm_fd_int_f77_util.c | 4 ++--
 interfaces/xrtm_fd_int_f90_util.c | 4 ++--
 interfaces/xrtm_fd_interface.def  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index b4e4154..a1db55a 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -626,7 +626,7 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solutions = *solutions_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
@@ -667,7 +667,7 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solver = *solver_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index 57e83cc..980f767 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -140,7 +140,7 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
@@ -175,7 +175,7 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index a9160ef..4b4a804 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -54,5 +54,5 @@ subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_p
 subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
-- 
2.43.0


From 8a97c9716165d7064dc2943e6d8917765d265812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:11 +0000
Subject: [PATCH 100/102] fix: the getters of the FORTRAN 77 finite difference
 interface did not return values

---
 interfaces/xrtm_fd_int_f77.f      | 20 +++++-----
 interfaces/xrtm_fd_int_f77_util.c | 66 ++++++-------------------------
 2 files changed, 21 insertions(+), 65 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77.f b/interfaces/xrtm_fd_int_f77.f
index 5794ae0..0f1eb0d 100644
--- a/interfaces/xrtm_fd_int_f77.f
+++ b/interfaces/xrtm_fd_int_f77.f
@@ -78,7 +78,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_top_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_top_p_bindx_f77
       xrtm_fd_get_F_iso_top_p_f77 = xrtm_fd_get_F_iso_top_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_top_p_f77
@@ -111,7 +111,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_bot_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_bot_p_bindx_f77
       xrtm_fd_get_F_iso_bot_p_f77 = xrtm_fd_get_F_iso_bot_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_bot_p_f77
@@ -144,7 +144,7 @@ c***********************************************************************
       byte d(*)
       integer i_deriv
       real*8 levels_b_l(*)
-      integer xrtm_fd_get_levels_b_p_bindx_f77
+      real*8 xrtm_fd_get_levels_b_p_bindx_f77
       xrtm_fd_get_levels_b_p_f77 = xrtm_fd_get_levels_b_p_bindx_f77(d,
      &i_deriv, levels_b_l)
       end function xrtm_fd_get_levels_b_p_f77
@@ -177,7 +177,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_surface_b_p_bindx_f77
+      real*8 xrtm_fd_get_surface_b_p_bindx_f77
       xrtm_fd_get_surface_b_p_f77 = xrtm_fd_get_surface_b_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_surface_b_p_f77
@@ -232,7 +232,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_g_p_bindx_f77
+      real*8 xrtm_fd_get_g_p_bindx_f77
       xrtm_fd_get_g_p_f77 = xrtm_fd_get_g_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_g_p_f77
@@ -292,7 +292,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_fd_get_coef_p_bindx_f77
+      real*8 xrtm_fd_get_coef_p_bindx_f77
       xrtm_fd_get_coef_p_f77 = xrtm_fd_get_coef_p_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_fd_get_coef_p_f77
@@ -349,7 +349,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_omega_p_bindx_f77
+      real*8 xrtm_fd_get_omega_p_bindx_f77
       xrtm_fd_get_omega_p_f77 = xrtm_fd_get_omega_p_bindx_f77(d,
      &i_layer, i_deriv)
       end function xrtm_fd_get_omega_p_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_ltau_p_bindx_f77
+      real*8 xrtm_fd_get_ltau_p_bindx_f77
       xrtm_fd_get_ltau_p_f77 = xrtm_fd_get_ltau_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_ltau_p_f77
@@ -445,7 +445,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_fd_get_kernel_ampfac_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_ampfac_p_bindx_f77
       xrtm_fd_get_kernel_ampfac_p_f77 =
      &xrtm_fd_get_kernel_ampfac_p_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_fd_get_kernel_ampfac_p_f77
@@ -514,7 +514,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_fd_get_kernel_params_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_params_p_bindx_f77
       xrtm_fd_get_kernel_params_p_f77 =
      &xrtm_fd_get_kernel_params_p_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_fd_get_kernel_params_p_f77
diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index a1db55a..b708acf 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -35,11 +35,7 @@ int xrtm_fd_destroy_bindx_f77_(xrtm_fd_data *d)
 
 int xrtm_fd_get_n_derivs_bindx_f77_(xrtm_fd_data *d)
 {
-     if (xrtm_fd_get_n_derivs(d)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_n_derivs(d);
 }
 
 
@@ -91,11 +87,7 @@ double xrtm_fd_get_f_iso_top_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_top_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_top_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_F_iso_top_p(d, i_deriv);
 }
 
 
@@ -127,11 +119,7 @@ double xrtm_fd_get_f_iso_bot_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_bot_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_bot_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_F_iso_bot_p(d, i_deriv);
 }
 
 
@@ -164,11 +152,7 @@ double xrtm_fd_get_levels_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_levels_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l);
 }
 
 
@@ -200,11 +184,7 @@ double xrtm_fd_get_surface_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_surface_b_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_surface_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_surface_b_p(d, i_deriv);
 }
 
 
@@ -267,11 +247,7 @@ double xrtm_fd_get_g_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_g_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_g_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_g_p(d, i_layer, i_deriv);
 }
 
 
@@ -345,11 +321,7 @@ double xrtm_fd_get_coef_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_coef_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef);
 }
 
 
@@ -412,11 +384,7 @@ double xrtm_fd_get_omega_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_der
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_omega_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_omega_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_omega_p(d, i_layer, i_deriv);
 }
 
 
@@ -479,11 +447,7 @@ double xrtm_fd_get_ltau_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_ltau_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_ltau_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_ltau_p(d, i_layer, i_deriv);
 }
 
 
@@ -521,11 +485,7 @@ double xrtm_fd_get_kernel_ampfac_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_kernel_ampfac_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv);
 }
 
 
@@ -598,11 +558,7 @@ double xrtm_fd_get_kernel_params_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_kernel_params_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param);
 }
 
 
-- 
2.43.0


From 09673f565faa05a18286321bd2f8356f1a25cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:08 +0000
Subject: [PATCH 101/102] fix: the finite difference interface leaked its work
 arrays when a perturbed solution failed

---
 src/xrtm_fd_interface.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 57663e6..0eef67d 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1125,6 +1125,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 */
      int n_mus2;
 
+     int r;
+
      double f;
 
      double **coef;
@@ -1195,6 +1197,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     r = XRTM_INT_ERROR;
+
      for (j = 0; j < d->n_derivs; ++j) {
           if (fd_method == XRTM_FD_METHOD_FORWARD || fd_method == XRTM_FD_METHOD_BACKWARD) {
                if (fd_method == XRTM_FD_METHOD_FORWARD)
@@ -1205,17 +1209,17 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto L_free;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p2, mean_m2, NULL, NULL, flux_p2, flux_m2, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return XRTM_INT_ERROR;
+                    goto L_free;
                }
 
                if (perturb_values(d, j, solver, -f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto L_free;
                }
 
                if (solutions & XRTM_OUTPUT_RADIANCE) {
@@ -1249,12 +1253,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
           else {
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto L_free;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p2, mean_m2, NULL, NULL, flux_p2, flux_m2, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return XRTM_INT_ERROR;
+                    goto L_free;
                }
 
                if (solutions & XRTM_OUTPUT_RADIANCE) {
@@ -1272,12 +1276,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, -2., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto L_free;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p3, mean_m3, NULL, NULL, flux_p3, flux_m3, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return XRTM_INT_ERROR;
+                    goto L_free;
                }
 
                if (solutions & XRTM_OUTPUT_RADIANCE) {
@@ -1305,16 +1309,18 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto L_free;
                }
           }
      }
 
+     r = 0;
+
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-
+L_free:
      free_array2_d(coef);
 
      free_array4_d(I_p2);
@@ -1331,7 +1337,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      free_array1_d(flux_m3);
 
 
-     return 0;
+     return r;
 }
 
 
-- 
2.43.0


From 0626e013b456ff2210061c85c3a9f413cdb3ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:12 +0000
Subject: [PATCH 102/102] fix: perturbed Planck functions leaked when the model
 refused them

---
 src/xrtm_fd_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 0eef67d..506bd5e 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1016,6 +1016,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
+                free_array1_d(levels_b);
                 return XRTM_INT_ERROR;
            }
 
@@ -1025,6 +1026,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_set_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
+                free_array1_d(levels_b);
                 return XRTM_INT_ERROR;
            }
 
-- 
2.43.0

