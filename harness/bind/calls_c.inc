// generated by lib/bindgen.py
if (nm == "get_options") {
  int r = (int) xrtm_get_options(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_solvers") {
  int r = (int) xrtm_get_solvers(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_max_coef") {
  int r = (int) xrtm_get_max_coef(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_n_quad") {
  int r = (int) xrtm_get_n_quad(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_n_stokes") {
  int r = (int) xrtm_get_n_stokes(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_n_derivs") {
  int r = (int) xrtm_get_n_derivs(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_n_layers") {
  int r = (int) xrtm_get_n_layers(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_n_kernels") {
  int r = (int) xrtm_get_n_kernels(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_n_kernel_quad") {
  int r = (int) xrtm_get_n_kernel_quad(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_kernel") {
  int a0 = q.i();
  int r = (int) xrtm_get_kernel(&d, a0); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_n_out_levels") {
  int r = (int) xrtm_get_n_out_levels(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_n_out_thetas") {
  int r = (int) xrtm_get_n_out_thetas(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_n_out_thetas_2") {
  int r = (int) xrtm_get_n_out_thetas_2(&d); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "set_doub_d_tau") {
  double a0 = q.d();
  if (xrtm_set_doub_d_tau(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_doub_d_tau") {
  double r = (double) xrtm_get_doub_d_tau(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_pade_params") {
  int a0 = q.i();
  int a1 = q.i();
  if (xrtm_set_pade_params(&d, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_pade_params") {
  int a0 = 0;
  int a1 = 0;
  if (xrtm_get_pade_params(&d, &a0, &a1)) w.err(); else { w.ok(); w.i(a0); w.i(a1); }
  return true; }
if (nm == "set_sos_params") {
  int a0 = q.i();
  double a1 = q.d();
  double a2 = q.d();
  if (xrtm_set_sos_params(&d, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_sos_params") {
  int a0 = 0;
  double a1 = 0;
  double a2 = 0;
  if (xrtm_get_sos_params(&d, &a0, &a1, &a2)) w.err(); else { w.ok(); w.i(a0); w.d(a1); w.d(a2); }
  return true; }
if (nm == "set_fourier_tol") {
  double a0 = q.d();
  if (xrtm_set_fourier_tol(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_fourier_tol") {
  double r = (double) xrtm_get_fourier_tol(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_lambda") {
  double a0 = q.d();
  if (xrtm_set_lambda(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_lambda") {
  double r = (double) xrtm_get_lambda(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_planet_r") {
  double a0 = q.d();
  if (xrtm_set_planet_r(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_planet_r") {
  double r = (double) xrtm_get_planet_r(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_levels_z") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_levels_z(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_levels_z") {
  Arr<double> a0(q, 1, 0);
  if (xrtm_get_levels_z(&d, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "set_out_levels") {
  Arr<int> a0(q, 1, 1);
  if (xrtm_set_out_levels(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_out_levels") {
  Arr<int> a0(q, 1, 0);
  if (xrtm_get_out_levels(&d, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "set_out_taus") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_out_taus(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_out_taus") {
  Arr<double> a0(q, 1, 0);
  if (xrtm_get_out_taus(&d, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "set_out_thetas") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_out_thetas(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_out_thetas") {
  Arr<double> a0(q, 1, 0);
  if (xrtm_get_out_thetas(&d, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "set_F_iso_top") {
  double a0 = q.d();
  if (xrtm_set_F_iso_top(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_F_iso_top") {
  double r = (double) xrtm_get_F_iso_top(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_F_iso_top_l_1") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_set_F_iso_top_l_1(&d, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_F_iso_top_l_n") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_F_iso_top_l_n(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_F_iso_top_l") {
  int a0 = q.i();
  double r = (double) xrtm_get_F_iso_top_l(&d, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_F_iso_bot") {
  double a0 = q.d();
  if (xrtm_set_F_iso_bot(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_F_iso_bot") {
  double r = (double) xrtm_get_F_iso_bot(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_F_iso_bot_l_1") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_set_F_iso_bot_l_1(&d, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_F_iso_bot_l_n") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_F_iso_bot_l_n(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_F_iso_bot_l") {
  int a0 = q.i();
  double r = (double) xrtm_get_F_iso_bot_l(&d, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_F_0") {
  double a0 = q.d();
  if (xrtm_set_F_0(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_F_0") {
  double r = (double) xrtm_get_F_0(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_theta_0") {
  double a0 = q.d();
  if (xrtm_set_theta_0(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_theta_0") {
  double r = (double) xrtm_get_theta_0(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_phi_0") {
  double a0 = q.d();
  if (xrtm_set_phi_0(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_phi_0") {
  double r = (double) xrtm_get_phi_0(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_levels_b") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_levels_b(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_levels_b") {
  Arr<double> a0(q, 1, 0);
  if (xrtm_get_levels_b(&d, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "set_levels_b_l_1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_set_levels_b_l_1(&d, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_levels_b_l_n") {
  Arr<double> a0(q, 2, 1);
  if (xrtm_set_levels_b_l_n(&d, a0.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_levels_b_l") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 0);
  if (xrtm_get_levels_b_l(&d, a0, a1.p1())) w.err(); else { w.ok(); w.a(a1.v); }
  return true; }
if (nm == "set_surface_b") {
  double a0 = q.d();
  if (xrtm_set_surface_b(&d, a0)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_surface_b") {
  double r = (double) xrtm_get_surface_b(&d); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_surface_b_l_1") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_set_surface_b_l_1(&d, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_surface_b_l_n") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_surface_b_l_n(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_surface_b_l") {
  int a0 = q.i();
  double r = (double) xrtm_get_surface_b_l(&d, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_g_1") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_set_g_1(&d, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_g_n") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_g_n(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_g") {
  int a0 = q.i();
  double r = (double) xrtm_get_g(&d, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_g_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  if (xrtm_set_g_l_11(&d, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_g_l_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_set_g_l_n1(&d, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_g_l_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_set_g_l_1n(&d, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_g_l_nn") {
  Arr<double> a0(q, 2, 1);
  if (xrtm_set_g_l_nn(&d, a0.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_g_l") {
  int a0 = q.i();
  int a1 = q.i();
  double r = (double) xrtm_get_g_l(&d, a0, a1); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_coef_1") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 2, 1);
  if (xrtm_set_coef_1(&d, a0, a1, a2.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_coef_n") {
  Arr<int> a0(q, 1, 1);
  Arr<double> a1(q, 3, 1);
  if (xrtm_set_coef_n(&d, a0.p1(), a1.p3())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_n_coef") {
  int a0 = q.i();
  int r = (int) xrtm_get_n_coef(&d, a0); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "get_coef") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  double r = (double) xrtm_get_coef(&d, a0, a1, a2); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_coef_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 2, 1);
  if (xrtm_set_coef_l_11(&d, a0, a1, a2.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_coef_l_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 3, 1);
  if (xrtm_set_coef_l_n1(&d, a0, a1.p3())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_coef_l_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 3, 1);
  if (xrtm_set_coef_l_1n(&d, a0, a1.p3())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_coef_l_nn") {
  Arr<double> a0(q, 4, 1);
  if (xrtm_set_coef_l_nn(&d, a0.p4())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_coef_l") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  int a3 = q.i();
  double r = (double) xrtm_get_coef_l(&d, a0, a1, a2, a3); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_omega_1") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_set_omega_1(&d, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_omega_n") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_omega_n(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_omega") {
  int a0 = q.i();
  double r = (double) xrtm_get_omega(&d, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_omega_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  if (xrtm_set_omega_l_11(&d, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_omega_l_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_set_omega_l_n1(&d, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_omega_l_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_set_omega_l_1n(&d, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_omega_l_nn") {
  Arr<double> a0(q, 2, 1);
  if (xrtm_set_omega_l_nn(&d, a0.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_omega_l") {
  int a0 = q.i();
  int a1 = q.i();
  double r = (double) xrtm_get_omega_l(&d, a0, a1); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_ltau_1") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_set_ltau_1(&d, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_ltau_n") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_set_ltau_n(&d, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_ltau") {
  int a0 = q.i();
  double r = (double) xrtm_get_ltau(&d, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_ltau_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  if (xrtm_set_ltau_l_11(&d, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_ltau_l_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_set_ltau_l_n1(&d, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_ltau_l_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_set_ltau_l_1n(&d, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_ltau_l_nn") {
  Arr<double> a0(q, 2, 1);
  if (xrtm_set_ltau_l_nn(&d, a0.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_ltau_l") {
  int a0 = q.i();
  int a1 = q.i();
  double r = (double) xrtm_get_ltau_l(&d, a0, a1); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_kernel_ampfac") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_set_kernel_ampfac(&d, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_kernel_ampfac") {
  int a0 = q.i();
  double r = (double) xrtm_get_kernel_ampfac(&d, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_kernel_params_1") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  if (xrtm_set_kernel_params_1(&d, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_kernel_params_n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_set_kernel_params_n(&d, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_kernel_params") {
  int a0 = q.i();
  int a1 = q.i();
  double r = (double) xrtm_get_kernel_params(&d, a0, a1); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_kernel_ampfac_l_1") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  if (xrtm_set_kernel_ampfac_l_1(&d, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_kernel_ampfac_l_n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_set_kernel_ampfac_l_n(&d, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_kernel_ampfac_l") {
  int a0 = q.i();
  int a1 = q.i();
  double r = (double) xrtm_get_kernel_ampfac_l(&d, a0, a1); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "set_kernel_params_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  double a3 = q.d();
  if (xrtm_set_kernel_params_l_11(&d, a0, a1, a2, a3)) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_kernel_params_l_1n") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 1, 1);
  if (xrtm_set_kernel_params_l_1n(&d, a0, a1, a2.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_kernel_params_l_n1") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 1, 1);
  if (xrtm_set_kernel_params_l_n1(&d, a0, a1, a2.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "set_kernel_params_l_nn") {
  int a0 = q.i();
  Arr<double> a1(q, 2, 1);
  if (xrtm_set_kernel_params_l_nn(&d, a0, a1.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "get_kernel_params_l") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  double r = (double) xrtm_get_kernel_params_l(&d, a0, a1, a2); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "update_varied_layers") {
  if (xrtm_update_varied_layers(&d)) w.err(); else { w.ok();  }
  return true; }
if (nm == "qx") {
  Arr<double> a0(q, 1, 0);
  if (xrtm_qx(&d, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "qw") {
  Arr<double> a0(q, 1, 0);
  if (xrtm_qw(&d, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "kernel_qx") {
  Arr<double> a0(q, 1, 0);
  if (xrtm_kernel_qx(&d, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "kernel_qw") {
  Arr<double> a0(q, 1, 0);
  if (xrtm_kernel_qw(&d, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "solution") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  Arr<double> a3(q, 2, 1);
  Arr<double> a4(q, 4, 0);
  Arr<double> a5(q, 4, 0);
  Arr<double> a6(q, 5, 0);
  Arr<double> a7(q, 5, 0);
  Arr<double> a8(q, 1, 0);
  Arr<double> a9(q, 1, 0);
  Arr<double> a10(q, 2, 0);
  Arr<double> a11(q, 2, 0);
  Arr<double> a12(q, 1, 0);
  Arr<double> a13(q, 1, 0);
  Arr<double> a14(q, 2, 0);
  Arr<double> a15(q, 2, 0);
  Arr<double> a16(q, 1, 0);
  Arr<double> a17(q, 2, 0);
  if (xrtm_solution(&d, (enum xrtm_solver_mask) a0, a1, a2, a3.p2(), a4.p4(), a5.p4(), a6.p5(), a7.p5(), a8.p1(), a9.p1(), a10.p2(), a11.p2(), a12.p1(), a13.p1(), a14.p2(), a15.p2(), a16.p1(), a17.p2())) w.err(); else { w.ok(); w.a(a4.v); w.a(a5.v); w.a(a6.v); w.a(a7.v); w.a(a8.v); w.a(a9.v); w.a(a10.v); w.a(a11.v); w.a(a12.v); w.a(a13.v); w.a(a14.v); w.a(a15.v); w.a(a16.v); w.a(a17.v); }
  return true; }
if (nm == "radiance") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 2, 1);
  Arr<double> a3(q, 4, 0);
  Arr<double> a4(q, 4, 0);
  Arr<double> a5(q, 5, 0);
  Arr<double> a6(q, 5, 0);
  if (xrtm_radiance(&d, (enum xrtm_solver_mask) a0, a1, a2.p2(), a3.p4(), a4.p4(), a5.p5(), a6.p5())) w.err(); else { w.ok(); w.a(a3.v); w.a(a4.v); w.a(a5.v); w.a(a6.v); }
  return true; }
if (nm == "mean_radiance") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 0);
  Arr<double> a2(q, 1, 0);
  Arr<double> a3(q, 2, 0);
  Arr<double> a4(q, 2, 0);
  if (xrtm_mean_radiance(&d, (enum xrtm_solver_mask) a0, a1.p1(), a2.p1(), a3.p2(), a4.p2())) w.err(); else { w.ok(); w.a(a1.v); w.a(a2.v); w.a(a3.v); w.a(a4.v); }
  return true; }
if (nm == "flux") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 0);
  Arr<double> a2(q, 1, 0);
  Arr<double> a3(q, 2, 0);
  Arr<double> a4(q, 2, 0);
  if (xrtm_flux(&d, (enum xrtm_solver_mask) a0, a1.p1(), a2.p1(), a3.p2(), a4.p2())) w.err(); else { w.ok(); w.a(a1.v); w.a(a2.v); w.a(a3.v); w.a(a4.v); }
  return true; }
if (nm == "flux_divergence") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 0);
  Arr<double> a2(q, 2, 0);
  if (xrtm_flux_divergence(&d, (enum xrtm_solver_mask) a0, a1.p1(), a2.p2())) w.err(); else { w.ok(); w.a(a1.v); w.a(a2.v); }
  return true; }
