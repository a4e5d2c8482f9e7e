// generated by lib/bindgen.py
if (nm == "fd_get_n_derivs") {
  int r = (int) xrtm_fd_get_n_derivs(&fd); if (r == XRTM_INT_ERROR) w.err(); else w.reti(r);
  return true; }
if (nm == "fd_set_delta") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_fd_set_delta(&fd, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_delta") {
  Arr<double> a0(q, 1, 0);
  if (xrtm_fd_get_delta(&fd, a0.p1())) w.err(); else { w.ok(); w.a(a0.v); }
  return true; }
if (nm == "fd_set_F_iso_top_p_1") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_fd_set_F_iso_top_p_1(&fd, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_F_iso_top_p_n") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_fd_set_F_iso_top_p_n(&fd, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_F_iso_top_p") {
  int a0 = q.i();
  double r = (double) xrtm_fd_get_F_iso_top_p(&fd, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_set_F_iso_bot_p_1") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_fd_set_F_iso_bot_p_1(&fd, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_F_iso_bot_p_n") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_fd_set_F_iso_bot_p_n(&fd, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_F_iso_bot_p") {
  int a0 = q.i();
  double r = (double) xrtm_fd_get_F_iso_bot_p(&fd, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_set_levels_b_p_1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_fd_set_levels_b_p_1(&fd, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_levels_b_p_n") {
  Arr<double> a0(q, 2, 1);
  if (xrtm_fd_set_levels_b_p_n(&fd, a0.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_levels_b_p") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 0);
  double r = (double) xrtm_fd_get_levels_b_p(&fd, a0, a1.p1()); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_set_surface_b_p_1") {
  int a0 = q.i();
  double a1 = q.d();
  if (xrtm_fd_set_surface_b_p_1(&fd, a0, a1)) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_surface_b_p_n") {
  Arr<double> a0(q, 1, 1);
  if (xrtm_fd_set_surface_b_p_n(&fd, a0.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_surface_b_p") {
  int a0 = q.i();
  double r = (double) xrtm_fd_get_surface_b_p(&fd, a0); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_set_g_p_11") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  if (xrtm_fd_set_g_p_11(&fd, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_g_p_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_fd_set_g_p_n1(&fd, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_g_p_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_fd_set_g_p_1n(&fd, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_g_p_nn") {
  Arr<double> a0(q, 2, 1);
  if (xrtm_fd_set_g_p_nn(&fd, a0.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_g_p") {
  int a0 = q.i();
  int a1 = q.i();
  double r = (double) xrtm_fd_get_g_p(&fd, a0, a1); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_set_coef_p_11") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 2, 1);
  if (xrtm_fd_set_coef_p_11(&fd, a0, a1, a2.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_coef_p_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 3, 1);
  if (xrtm_fd_set_coef_p_n1(&fd, a0, a1.p3())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_coef_p_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 3, 1);
  if (xrtm_fd_set_coef_p_1n(&fd, a0, a1.p3())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_coef_p_nn") {
  Arr<double> a0(q, 4, 1);
  if (xrtm_fd_set_coef_p_nn(&fd, a0.p4())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_coef_p") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  int a3 = q.i();
  double r = (double) xrtm_fd_get_coef_p(&fd, a0, a1, a2, a3); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_set_omega_p_11") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  if (xrtm_fd_set_omega_p_11(&fd, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_omega_p_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_fd_set_omega_p_n1(&fd, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_omega_p_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_fd_set_omega_p_1n(&fd, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_omega_p_nn") {
  Arr<double> a0(q, 2, 1);
  if (xrtm_fd_set_omega_p_nn(&fd, a0.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_omega_p") {
  int a0 = q.i();
  int a1 = q.i();
  double r = (double) xrtm_fd_get_omega_p(&fd, a0, a1); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_set_ltau_p_11") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  if (xrtm_fd_set_ltau_p_11(&fd, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_ltau_p_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_fd_set_ltau_p_n1(&fd, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_ltau_p_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_fd_set_ltau_p_1n(&fd, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_ltau_p_nn") {
  Arr<double> a0(q, 2, 1);
  if (xrtm_fd_set_ltau_p_nn(&fd, a0.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_ltau_p") {
  int a0 = q.i();
  int a1 = q.i();
  double r = (double) xrtm_fd_get_ltau_p(&fd, a0, a1); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_set_kernel_ampfac_p_1") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  if (xrtm_fd_set_kernel_ampfac_p_1(&fd, a0, a1, a2)) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_kernel_ampfac_p_n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  if (xrtm_fd_set_kernel_ampfac_p_n(&fd, a0, a1.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_kernel_ampfac_p") {
  int a0 = q.i();
  int a1 = q.i();
  double r = (double) xrtm_fd_get_kernel_ampfac_p(&fd, a0, a1); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_set_kernel_params_p_11") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  double a3 = q.d();
  if (xrtm_fd_set_kernel_params_p_11(&fd, a0, a1, a2, a3)) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_kernel_params_p_1n") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 1, 1);
  if (xrtm_fd_set_kernel_params_p_1n(&fd, a0, a1, a2.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_kernel_params_p_n1") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 1, 1);
  if (xrtm_fd_set_kernel_params_p_n1(&fd, a0, a1, a2.p1())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_set_kernel_params_p_nn") {
  int a0 = q.i();
  Arr<double> a1(q, 2, 1);
  if (xrtm_fd_set_kernel_params_p_nn(&fd, a0, a1.p2())) w.err(); else { w.ok();  }
  return true; }
if (nm == "fd_get_kernel_params_p") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  double r = (double) xrtm_fd_get_kernel_params_p(&fd, a0, a1, a2); if (r == XRTM_DBL_ERROR) w.err(); else w.retd(r);
  return true; }
if (nm == "fd_solution") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  int a3 = q.i();
  Arr<double> a4(q, 2, 1);
  Arr<double> a5(q, 4, 0);
  Arr<double> a6(q, 4, 0);
  Arr<double> a7(q, 5, 0);
  Arr<double> a8(q, 5, 0);
  Arr<double> a9(q, 1, 0);
  Arr<double> a10(q, 1, 0);
  Arr<double> a11(q, 2, 0);
  Arr<double> a12(q, 2, 0);
  Arr<double> a13(q, 1, 0);
  Arr<double> a14(q, 1, 0);
  Arr<double> a15(q, 2, 0);
  Arr<double> a16(q, 2, 0);
  Arr<double> a17(q, 1, 0);
  Arr<double> a18(q, 2, 0);
  if (xrtm_fd_solution(&fd, (enum xrtm_solver_mask) a0, a1, (enum xrtm_fd_method_type) a2, a3, a4.p2(), a5.p4(), a6.p4(), a7.p5(), a8.p5(), a9.p1(), a10.p1(), a11.p2(), a12.p2(), a13.p1(), a14.p1(), a15.p2(), a16.p2(), a17.p1(), a18.p2())) w.err(); else { w.ok(); w.a(a5.v); w.a(a6.v); w.a(a7.v); w.a(a8.v); w.a(a9.v); w.a(a10.v); w.a(a11.v); w.a(a12.v); w.a(a13.v); w.a(a14.v); w.a(a15.v); w.a(a16.v); w.a(a17.v); w.a(a18.v); }
  return true; }
if (nm == "fd_radiance") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  Arr<double> a3(q, 2, 1);
  Arr<double> a4(q, 4, 0);
  Arr<double> a5(q, 4, 0);
  Arr<double> a6(q, 5, 0);
  Arr<double> a7(q, 5, 0);
  if (xrtm_fd_radiance(&fd, (enum xrtm_solver_mask) a0, (enum xrtm_fd_method_type) a1, a2, a3.p2(), a4.p4(), a5.p4(), a6.p5(), a7.p5())) w.err(); else { w.ok(); w.a(a4.v); w.a(a5.v); w.a(a6.v); w.a(a7.v); }
  return true; }
