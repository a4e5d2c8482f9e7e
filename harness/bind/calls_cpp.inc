// generated by lib/bindgen.py
if (nm == "get_options") {
  try { w.reti(m->get_options()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_solvers") {
  try { w.reti(m->get_solvers()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_max_coef") {
  try { w.reti(m->get_max_coef()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_quad") {
  try { w.reti(m->get_n_quad()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_stokes") {
  try { w.reti(m->get_n_stokes()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_derivs") {
  try { w.reti(m->get_n_derivs()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_layers") {
  try { w.reti(m->get_n_layers()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_kernels") {
  try { w.reti(m->get_n_kernels()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_kernel_quad") {
  try { w.reti(m->get_n_kernel_quad()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_kernel") {
  int a0 = q.i();
  try { w.reti(m->get_kernel(a0)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_out_levels") {
  try { w.reti(m->get_n_out_levels()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_out_thetas") {
  try { w.reti(m->get_n_out_thetas()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_out_thetas_2") {
  try { w.reti(m->get_n_out_thetas_2()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_doub_d_tau") {
  double a0 = q.d();
  try { m->set_doub_d_tau(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_doub_d_tau") {
  try { w.retd(m->get_doub_d_tau()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_pade_params") {
  int a0 = q.i();
  int a1 = q.i();
  try { m->set_pade_params(a0, a1); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_pade_params") {
  int a0 = 0;
  int a1 = 0;
  try { m->get_pade_params(&a0, &a1); w.ok(); w.i(a0); w.i(a1); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_sos_params") {
  int a0 = q.i();
  double a1 = q.d();
  double a2 = q.d();
  try { m->set_sos_params(a0, a1, a2); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_sos_params") {
  int a0 = 0;
  double a1 = 0;
  double a2 = 0;
  try { m->get_sos_params(&a0, &a1, &a2); w.ok(); w.i(a0); w.d(a1); w.d(a2); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_fourier_tol") {
  double a0 = q.d();
  try { m->set_fourier_tol(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_fourier_tol") {
  try { w.retd(m->get_fourier_tol()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_lambda") {
  double a0 = q.d();
  try { m->set_lambda(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_lambda") {
  try { w.retd(m->get_lambda()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_planet_r") {
  double a0 = q.d();
  try { m->set_planet_r(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_planet_r") {
  try { w.retd(m->get_planet_r()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_levels_z") {
  Arr<double> a0(q, 1, 1);
  try { m->set_levels_z(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_levels_z") {
  Arr<double> a0(q, 1, 0);
  try { m->get_levels_z(a0.p1()); w.ok(); w.a(a0.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_out_levels") {
  Arr<int> a0(q, 1, 1);
  try { m->set_out_levels(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_out_levels") {
  Arr<int> a0(q, 1, 0);
  try { m->get_out_levels(a0.p1()); w.ok(); w.a(a0.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_out_taus") {
  Arr<double> a0(q, 1, 1);
  try { m->set_out_taus(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_out_taus") {
  Arr<double> a0(q, 1, 0);
  try { m->get_out_taus(a0.p1()); w.ok(); w.a(a0.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_out_thetas") {
  Arr<double> a0(q, 1, 1);
  try { m->set_out_thetas(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_out_thetas") {
  Arr<double> a0(q, 1, 0);
  try { m->get_out_thetas(a0.p1()); w.ok(); w.a(a0.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_F_iso_top") {
  double a0 = q.d();
  try { m->set_F_iso_top(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_F_iso_top") {
  try { w.retd(m->get_F_iso_top()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_F_iso_top_l_1") {
  int a0 = q.i();
  double a1 = q.d();
  try { m->set_F_iso_top_l_1(a0, a1); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_F_iso_top_l_n") {
  Arr<double> a0(q, 1, 1);
  try { m->set_F_iso_top_l_n(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_F_iso_top_l") {
  int a0 = q.i();
  try { w.retd(m->get_F_iso_top_l(a0)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_F_iso_bot") {
  double a0 = q.d();
  try { m->set_F_iso_bot(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_F_iso_bot") {
  try { w.retd(m->get_F_iso_bot()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_F_iso_bot_l_1") {
  int a0 = q.i();
  double a1 = q.d();
  try { m->set_F_iso_bot_l_1(a0, a1); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_F_iso_bot_l_n") {
  Arr<double> a0(q, 1, 1);
  try { m->set_F_iso_bot_l_n(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_F_iso_bot_l") {
  int a0 = q.i();
  try { w.retd(m->get_F_iso_bot_l(a0)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_F_0") {
  double a0 = q.d();
  try { m->set_F_0(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_F_0") {
  try { w.retd(m->get_F_0()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_theta_0") {
  double a0 = q.d();
  try { m->set_theta_0(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_theta_0") {
  try { w.retd(m->get_theta_0()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_phi_0") {
  double a0 = q.d();
  try { m->set_phi_0(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_phi_0") {
  try { w.retd(m->get_phi_0()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_levels_b") {
  Arr<double> a0(q, 1, 1);
  try { m->set_levels_b(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_levels_b") {
  Arr<double> a0(q, 1, 0);
  try { m->get_levels_b(a0.p1()); w.ok(); w.a(a0.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_levels_b_l_1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  try { m->set_levels_b_l_1(a0, a1.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_levels_b_l_n") {
  Arr<double> a0(q, 2, 1);
  try { m->set_levels_b_l_n(a0.p2()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_levels_b_l") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 0);
  try { m->get_levels_b_l(a0, a1.p1()); w.ok(); w.a(a1.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_surface_b") {
  double a0 = q.d();
  try { m->set_surface_b(a0); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_surface_b") {
  try { w.retd(m->get_surface_b()); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_surface_b_l_1") {
  int a0 = q.i();
  double a1 = q.d();
  try { m->set_surface_b_l_1(a0, a1); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_surface_b_l_n") {
  Arr<double> a0(q, 1, 1);
  try { m->set_surface_b_l_n(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_surface_b_l") {
  int a0 = q.i();
  try { w.retd(m->get_surface_b_l(a0)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_g_1") {
  int a0 = q.i();
  double a1 = q.d();
  try { m->set_g_1(a0, a1); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_g_n") {
  Arr<double> a0(q, 1, 1);
  try { m->set_g_n(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_g") {
  int a0 = q.i();
  try { w.retd(m->get_g(a0)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_g_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  try { m->set_g_l_11(a0, a1, a2); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_g_l_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  try { m->set_g_l_n1(a0, a1.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_g_l_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  try { m->set_g_l_1n(a0, a1.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_g_l_nn") {
  Arr<double> a0(q, 2, 1);
  try { m->set_g_l_nn(a0.p2()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_g_l") {
  int a0 = q.i();
  int a1 = q.i();
  try { w.retd(m->get_g_l(a0, a1)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_coef_1") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 2, 1);
  try { m->set_coef_1(a0, a1, a2.p2()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_coef_n") {
  Arr<int> a0(q, 1, 1);
  Arr<double> a1(q, 3, 1);
  try { m->set_coef_n(a0.p1(), a1.p3()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_n_coef") {
  int a0 = q.i();
  try { w.reti(m->get_n_coef(a0)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_coef") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  try { w.retd(m->get_coef(a0, a1, a2)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_coef_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 2, 1);
  try { m->set_coef_l_11(a0, a1, a2.p2()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_coef_l_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 3, 1);
  try { m->set_coef_l_n1(a0, a1.p3()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_coef_l_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 3, 1);
  try { m->set_coef_l_1n(a0, a1.p3()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_coef_l_nn") {
  Arr<double> a0(q, 4, 1);
  try { m->set_coef_l_nn(a0.p4()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_coef_l") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  int a3 = q.i();
  try { w.retd(m->get_coef_l(a0, a1, a2, a3)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_omega_1") {
  int a0 = q.i();
  double a1 = q.d();
  try { m->set_omega_1(a0, a1); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_omega_n") {
  Arr<double> a0(q, 1, 1);
  try { m->set_omega_n(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_omega") {
  int a0 = q.i();
  try { w.retd(m->get_omega(a0)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_omega_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  try { m->set_omega_l_11(a0, a1, a2); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_omega_l_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  try { m->set_omega_l_n1(a0, a1.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_omega_l_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  try { m->set_omega_l_1n(a0, a1.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_omega_l_nn") {
  Arr<double> a0(q, 2, 1);
  try { m->set_omega_l_nn(a0.p2()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_omega_l") {
  int a0 = q.i();
  int a1 = q.i();
  try { w.retd(m->get_omega_l(a0, a1)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_ltau_1") {
  int a0 = q.i();
  double a1 = q.d();
  try { m->set_ltau_1(a0, a1); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_ltau_n") {
  Arr<double> a0(q, 1, 1);
  try { m->set_ltau_n(a0.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_ltau") {
  int a0 = q.i();
  try { w.retd(m->get_ltau(a0)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_ltau_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  try { m->set_ltau_l_11(a0, a1, a2); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_ltau_l_n1") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  try { m->set_ltau_l_n1(a0, a1.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_ltau_l_1n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  try { m->set_ltau_l_1n(a0, a1.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_ltau_l_nn") {
  Arr<double> a0(q, 2, 1);
  try { m->set_ltau_l_nn(a0.p2()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_ltau_l") {
  int a0 = q.i();
  int a1 = q.i();
  try { w.retd(m->get_ltau_l(a0, a1)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_kernel_ampfac") {
  int a0 = q.i();
  double a1 = q.d();
  try { m->set_kernel_ampfac(a0, a1); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_kernel_ampfac") {
  int a0 = q.i();
  try { w.retd(m->get_kernel_ampfac(a0)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_kernel_params_1") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  try { m->set_kernel_params_1(a0, a1, a2); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_kernel_params_n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  try { m->set_kernel_params_n(a0, a1.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_kernel_params") {
  int a0 = q.i();
  int a1 = q.i();
  try { w.retd(m->get_kernel_params(a0, a1)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_kernel_ampfac_l_1") {
  int a0 = q.i();
  int a1 = q.i();
  double a2 = q.d();
  try { m->set_kernel_ampfac_l_1(a0, a1, a2); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_kernel_ampfac_l_n") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 1);
  try { m->set_kernel_ampfac_l_n(a0, a1.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_kernel_ampfac_l") {
  int a0 = q.i();
  int a1 = q.i();
  try { w.retd(m->get_kernel_ampfac_l(a0, a1)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_kernel_params_l_11") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  double a3 = q.d();
  try { m->set_kernel_params_l_11(a0, a1, a2, a3); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_kernel_params_l_1n") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 1, 1);
  try { m->set_kernel_params_l_1n(a0, a1, a2.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_kernel_params_l_n1") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 1, 1);
  try { m->set_kernel_params_l_n1(a0, a1, a2.p1()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "set_kernel_params_l_nn") {
  int a0 = q.i();
  Arr<double> a1(q, 2, 1);
  try { m->set_kernel_params_l_nn(a0, a1.p2()); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "get_kernel_params_l") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  try { w.retd(m->get_kernel_params_l(a0, a1, a2)); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "update_varied_layers") {
  try { m->update_varied_layers(); w.ok();  } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "qx") {
  Arr<double> a0(q, 1, 0);
  try { m->qx(a0.p1()); w.ok(); w.a(a0.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "qw") {
  Arr<double> a0(q, 1, 0);
  try { m->qw(a0.p1()); w.ok(); w.a(a0.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "kernel_qx") {
  Arr<double> a0(q, 1, 0);
  try { m->kernel_qx(a0.p1()); w.ok(); w.a(a0.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "kernel_qw") {
  Arr<double> a0(q, 1, 0);
  try { m->kernel_qw(a0.p1()); w.ok(); w.a(a0.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "solution") {
  int a0 = q.i();
  int a1 = q.i();
  int a2 = q.i();
  Arr<double> a3(q, 2, 1);
  Arr<double> a4(q, 4, 0);
  Arr<double> a5(q, 4, 0);
  Arr<double> a6(q, 5, 0);
  Arr<double> a7(q, 5, 0);
  Arr<double> a8(q, 1, 0);
  Arr<double> a9(q, 1, 0);
  Arr<double> a10(q, 2, 0);
  Arr<double> a11(q, 2, 0);
  Arr<double> a12(q, 1, 0);
  Arr<double> a13(q, 1, 0);
  Arr<double> a14(q, 2, 0);
  Arr<double> a15(q, 2, 0);
  Arr<double> a16(q, 1, 0);
  Arr<double> a17(q, 2, 0);
  try { m->solution((xrtm_int_cpp::solver_mask) a0, a1, a2, a3.p2(), a4.p4(), a5.p4(), a6.p5(), a7.p5(), a8.p1(), a9.p1(), a10.p2(), a11.p2(), a12.p1(), a13.p1(), a14.p2(), a15.p2(), a16.p1(), a17.p2()); w.ok(); w.a(a4.v); w.a(a5.v); w.a(a6.v); w.a(a7.v); w.a(a8.v); w.a(a9.v); w.a(a10.v); w.a(a11.v); w.a(a12.v); w.a(a13.v); w.a(a14.v); w.a(a15.v); w.a(a16.v); w.a(a17.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "radiance") {
  int a0 = q.i();
  int a1 = q.i();
  Arr<double> a2(q, 2, 1);
  Arr<double> a3(q, 4, 0);
  Arr<double> a4(q, 4, 0);
  Arr<double> a5(q, 5, 0);
  Arr<double> a6(q, 5, 0);
  try { m->radiance((xrtm_int_cpp::solver_mask) a0, a1, a2.p2(), a3.p4(), a4.p4(), a5.p5(), a6.p5()); w.ok(); w.a(a3.v); w.a(a4.v); w.a(a5.v); w.a(a6.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "mean_radiance") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 0);
  Arr<double> a2(q, 1, 0);
  Arr<double> a3(q, 2, 0);
  Arr<double> a4(q, 2, 0);
  try { m->mean_radiance((xrtm_int_cpp::solver_mask) a0, a1.p1(), a2.p1(), a3.p2(), a4.p2()); w.ok(); w.a(a1.v); w.a(a2.v); w.a(a3.v); w.a(a4.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "flux") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 0);
  Arr<double> a2(q, 1, 0);
  Arr<double> a3(q, 2, 0);
  Arr<double> a4(q, 2, 0);
  try { m->flux((xrtm_int_cpp::solver_mask) a0, a1.p1(), a2.p1(), a3.p2(), a4.p2()); w.ok(); w.a(a1.v); w.a(a2.v); w.a(a3.v); w.a(a4.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
if (nm == "flux_divergence") {
  int a0 = q.i();
  Arr<double> a1(q, 1, 0);
  Arr<double> a2(q, 2, 0);
  try { m->flux_divergence((xrtm_int_cpp::solver_mask) a0, a1.p1(), a2.p2()); w.ok(); w.a(a1.v); w.a(a2.v); } catch (xrtm_int_cpp::xrtm_errors) { w.err(); }
  return true; }
