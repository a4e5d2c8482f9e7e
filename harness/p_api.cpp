// Properties of the interface itself: rejected input, round trips, required inputs, name tables, quadrature, allocation failure,
// threads, uninitialised memory, termination.
#include "xmon.hpp"
#include <malloc.h>
#include <thread>
static std::string D(const Cfg &c, const In &n) { return c.desc() + " | " + n.desc(); }
static double ie(int rc) { return rc == XRTM_INT_ERROR; }

// ---------------------------------------------------------------- what the getters say, and what they should say
struct Item { std::string name; double got, want; double tol; };
// every getter that the configuration allows, next to the value that was set
static std::vector<Item> items(xrtm_data *d, const Cfg &c, const In &n, bool lin_set = true) {
  std::vector<Item> v; int L = c.n_layers, J = c.n_derivs, NK = (int)c.kernels.size();
  auto e = [&](const std::string &nm, double g, double w, double t = 0) { v.push_back({nm, g, w, t}); };
  auto arr = [&](const char *nm, int rc, const VD &g, const VD &w, double t = 0) { e(std::string(nm) + ".rc", rc, 0); for (size_t i = 0; i < w.size(); ++i) e(sf("%s[%d]", nm, (int)i), g[i], w[i], t); };
  e("options", (unsigned)xrtm_get_options(d), (double)(unsigned)c.options); e("solvers", xrtm_get_solvers(d), c.solvers); e("max_coef", xrtm_get_max_coef(d), c.max_coef); e("n_quad", xrtm_get_n_quad(d), c.n_quad); e("n_stokes", xrtm_get_n_stokes(d), c.n_stokes);
  e("n_elem", xrtm_get_n_elem(d), c.n_elem()); e("n_derivs", xrtm_get_n_derivs(d), J); e("n_layers", xrtm_get_n_layers(d), L); e("n_kernels", xrtm_get_n_kernels(d), NK); if (NK) e("n_kernel_quad", xrtm_get_n_kernel_quad(d), c.n_kernel_quad);
  for (int k = 0; k < NK; ++k) e(sf("kernel[%d]", k), xrtm_get_kernel(d, k), c.kernels[k]);
  e("n_out_levels", xrtm_get_n_out_levels(d), c.n_out_levels); e("n_out_thetas", xrtm_get_n_out_thetas(d), c.n_out_thetas); e("n_out_thetas_2", xrtm_get_n_out_thetas_2(d), c.n_out_thetas ? c.n_out_thetas : c.n_quad);
  if (c.solvers & DOUB) e("doub_d_tau", xrtm_get_doub_d_tau(d), n.doub_d_tau);
  if (c.solvers & PADE) { int s = -77, r = -77; e("pade_params", xrtm_get_pade_params(d, &s, &r), 0); e("pade_s", s, n.pade_s); e("pade_r", r, n.pade_r); }
  if (c.solvers & SOS) { int o = -77; double t = -77, q = -77; e("sos_params", xrtm_get_sos_params(d, &o, &t, &q), 0); e("sos_max_os", o, n.sos_max_os); e("sos_max_tau", t, n.sos_max_tau); e("sos_tol", q, n.sos_tol); }
  e("fourier_tol", xrtm_get_fourier_tol(d), n.fourier_tol); if (c.o(O_TH)) e("lambda", xrtm_get_lambda(d), n.lambda);
  if (c.o(O_PSA)) { e("planet_r", xrtm_get_planet_r(d), n.planet_r); VD z(L + 1, -77); int rc = xrtm_get_levels_z(d, z.data()); arr("levels_z", rc, z, n.levels_z); }
  if (c.o(O_LEV)) { std::vector<int> q(c.n_out_levels, -77); e("out_levels.rc", xrtm_get_out_levels(d, q.data()), 0); for (int i = 0; i < c.n_out_levels; ++i) e(sf("out_levels[%d]", i), q[i], n.out_levels[i]); }
  if (c.o(O_TAU)) { VD q(c.n_out_levels, -77); int rc = xrtm_get_out_taus(d, q.data()); arr("out_taus", rc, q, n.out_taus); }
  if (c.n_out_thetas) { VD q(c.n_out_thetas, -77); int rc = xrtm_get_out_thetas(d, q.data()); arr("out_thetas", rc, q, n.out_thetas, 2e-6); }
  e("F_iso_top", xrtm_get_F_iso_top(d), n.Fit); e("F_iso_bot", xrtm_get_F_iso_bot(d), n.Fib);
  if (c.o(O_SOL)) { e("F_0", xrtm_get_F_0(d), n.F0); e("theta_0", xrtm_get_theta_0(d), n.theta0, 2e-6); e("phi_0", xrtm_get_phi_0(d), n.phi0); }
  if (c.o(O_TH)) { VD q(L + 1, -77); int rc = xrtm_get_levels_b(d, q.data()); arr("levels_b", rc, q, n.lb); e("surface_b", xrtm_get_surface_b(d), n.sb); }
  for (int i = 0; i < L; ++i) { e(sf("omega[%d]", i), xrtm_get_omega(d, i), n.omega[i], n.omega[i] > 1 - 2e-5 ? 2e-5 : 0); e(sf("ltau[%d]", i), xrtm_get_ltau(d, i), n.ltau[i]); e(sf("n_coef[%d]", i), xrtm_get_n_coef(d, i), (double)n.coef[i][0].size());
    for (int q = 0; q < c.n_elem(); ++q) for (size_t k = 0; k < n.coef[i][q].size(); ++k) e(sf("coef[%d][%d][%d]", i, q, (int)k), xrtm_get_coef(d, i, q, (int)k), n.coef[i][q][k]); }
  for (int k = 0; k < NK; ++k) { e(sf("ampfac[%d]", k), xrtm_get_kernel_ampfac(d, k), n.amp[k]); for (int p = 0; p < kern_np(c.kernels[k]); ++p) e(sf("param[%d][%d]", k, p), xrtm_get_kernel_params(d, k, p), n.par[k][p]); }
  double s = lin_set ? 1 : 0;
  for (int j = 0; j < J; ++j) { const Lin &l = n.l[j]; e(sf("F_iso_top_l[%d]", j), xrtm_get_F_iso_top_l(d, j), s * l.Fit); e(sf("F_iso_bot_l[%d]", j), xrtm_get_F_iso_bot_l(d, j), s * l.Fib);
    if (c.o(O_TH)) { VD q(L + 1, -77), w = l.lb; for (auto &x : w) x *= s; double rc = xrtm_get_levels_b_l(d, j, q.data()); arr(sf("levels_b_l[%d]", j).c_str(), (int)rc, q, w); e(sf("surface_b_l[%d]", j), xrtm_get_surface_b_l(d, j), s * l.sb); }
    for (int i = 0; i < L; ++i) { e(sf("omega_l[%d][%d]", i, j), xrtm_get_omega_l(d, i, j), s * l.omega[i]); e(sf("ltau_l[%d][%d]", i, j), xrtm_get_ltau_l(d, i, j), s * l.ltau[i]);
      for (int q = 0; q < c.n_elem(); ++q) for (size_t k = 0; k < l.coef[i][q].size() && k < n.coef[i][q].size(); ++k) e(sf("coef_l[%d][%d][%d][%d]", i, j, q, (int)k), xrtm_get_coef_l(d, i, j, q, (int)k), s * l.coef[i][q][k]); }
    for (int k = 0; k < NK; ++k) { e(sf("ampfac_l[%d][%d]", k, j), xrtm_get_kernel_ampfac_l(d, k, j), s * l.amp[k]); for (int p = 0; p < kern_np(c.kernels[k]); ++p) e(sf("param_l[%d][%d][%d]", k, j, p), xrtm_get_kernel_params_l(d, k, j, p), s * l.par[k][p]); } }
  return v;
}
static std::string stem(const std::string &s) { return s.substr(0, s.find('[')); }
static bool check_items(const std::vector<Item> &v, const std::string &where, const std::string &msg) {
  for (auto &x : v) { R().evals++; if (!(std::fabs(x.got - x.want) <= x.tol)) { viol("get." + stem(x.name), sf("%s: %s is %.17g, was set to %.17g; ", where.c_str(), x.name.c_str(), x.got, x.want) + msg); return false; } }
  count("values_read_back", (long long)v.size()); return true;
}
static bool same_items(const std::vector<Item> &a, const std::vector<Item> &b, std::string &what) { for (size_t i = 0; i < a.size(); ++i) if (memcmp(&a[i].got, &b[i].got, 8)) { what = sf("%s was %.17g and is %.17g", a[i].name.c_str(), a[i].got, b[i].got); return false; } return true; }
static void api_gen(Rng &r, Cfg &c, In &n) {
  Gen g; g.user = true; g.nq_max = 4; g.nl_max = 4; g.saves = 0; g.tau_hi = 2; g.p_der = .5; g.p_vec = .25; int t = r.i(0, 5);
  if (t == 0) g.solvers = EIGA | DOUB | PADE; else if (t == 1) g.solvers = EIGB | EIGA; else if (t == 2) g.solvers = EIGB | MEM; else if (t == 3) g.solvers = DOUB | EIGA | EIGB;
  g.om_hi = .999; gen(r, g, c, n); for (auto &x : n.omega) if (x == 0.) x = .3; n.sos_max_tau = .1; if (c.solvers & PADE) { n.pade_s = r.i(4, 6); n.pade_r = r.i(4, 6); }
  for (auto &l : n.l) for (size_t i = 0; i < c.kernels.size(); ++i) if (c.kernels[i] != XRTM_KERNEL_USER_DEFINED && c.kernels[i] != XRTM_KERNEL_DIRECT_AND_DIFFUSE && r.p(.5)) for (auto &y : l.par[i]) y = 0;
}
static int one_solver(Rng &r, const Cfg &c) { std::vector<int> s; for (int x : ALLS) if (c.solvers & x) s.push_back(x); return r.pick(s); }
static double alld(const Res &a, const Res &b, double tol) { return std::max(std::max(rdev(a, b, tol, 1e-14), kdev(a, b, tol, 1e-14)), std::max(fdev(a, b, tol, 1e-14), fldev(a, b, tol, 1e-14))); }

// ---------------------------------------------------------------- C24 round trips
PROP(C24) { UNUSED_K;
  Cfg c; In n; api_gen(r, c, n); Model m(c); if (!m.ok) return skip("create");
  // before anything is set: the getters of inputs refuse, those of linearized inputs say zero
  { R().evals++; double b = 0; auto bad = [&](const char *nm, double v, double want) { count("getters_before_set"); if (v != want && !b) { b = 1; viol(sf("unset.%s", nm), sf("the getter of %s returns %.17g before it was set; ", nm, v) + c.desc()); } };
    bad("fourier_tol", xrtm_get_fourier_tol(m.d), XRTM_DBL_ERROR); bad("F_iso_top", xrtm_get_F_iso_top(m.d), XRTM_DBL_ERROR); bad("F_iso_bot", xrtm_get_F_iso_bot(m.d), XRTM_DBL_ERROR);
    if (c.o(O_SOL)) { bad("F_0", xrtm_get_F_0(m.d), XRTM_DBL_ERROR); bad("theta_0", xrtm_get_theta_0(m.d), XRTM_DBL_ERROR); bad("phi_0", xrtm_get_phi_0(m.d), XRTM_DBL_ERROR); }
    if (c.o(O_TH)) { VD q(c.n_layers + 1); bad("lambda", xrtm_get_lambda(m.d), XRTM_DBL_ERROR); bad("levels_b", xrtm_get_levels_b(m.d, q.data()), XRTM_INT_ERROR); bad("surface_b", xrtm_get_surface_b(m.d), XRTM_DBL_ERROR); }
    if (c.o(O_PSA)) { VD q(c.n_layers + 1); bad("planet_r", xrtm_get_planet_r(m.d), XRTM_DBL_ERROR); bad("levels_z", xrtm_get_levels_z(m.d, q.data()), XRTM_INT_ERROR); }
    if (c.solvers & DOUB) bad("doub_d_tau", xrtm_get_doub_d_tau(m.d), XRTM_DBL_ERROR);
    if (c.n_out_thetas) { VD q(c.n_out_thetas); bad("out_thetas", xrtm_get_out_thetas(m.d, q.data()), XRTM_INT_ERROR); }
    int i = r.i(0, c.n_layers - 1); bad("omega", xrtm_get_omega(m.d, i), XRTM_DBL_ERROR); bad("ltau", xrtm_get_ltau(m.d, i), XRTM_DBL_ERROR); bad("coef", xrtm_get_coef(m.d, i, 0, 0), XRTM_DBL_ERROR); bad("n_coef", xrtm_get_n_coef(m.d, i), XRTM_INT_ERROR);
    for (size_t q = 0; q < c.kernels.size(); ++q) { bad("kernel_ampfac", xrtm_get_kernel_ampfac(m.d, (int)q), XRTM_DBL_ERROR); if (kern_np(c.kernels[q])) bad("kernel_params", xrtm_get_kernel_params(m.d, (int)q, 0), XRTM_DBL_ERROR); }
    for (int j = 0; j < c.n_derivs; ++j) { bad("ltau_l", xrtm_get_ltau_l(m.d, i, j), 0); bad("omega_l", xrtm_get_omega_l(m.d, i, j), 0); bad("coef_l", c.max_coef ? 0 : 0, 0); bad("F_iso_top_l", xrtm_get_F_iso_top_l(m.d, j), 0); bad("F_iso_bot_l", xrtm_get_F_iso_bot_l(m.d, j), 0); if (c.o(O_TH)) bad("surface_b_l", xrtm_get_surface_b_l(m.d, j), 0);
      for (size_t q = 0; q < c.kernels.size(); ++q) bad("kernel_ampfac_l", xrtm_get_kernel_ampfac_l(m.d, (int)q, j), 0); } }
  if (m.set_all(n, &r, false)) return skip(m.last_bad == F_TH0 || m.last_bad == F_OTH ? "angle_singularity" : "setter");
  nontrivial(c.desc()); seen("class", c.cls()); for (int t : c.kernels) seen("kernel", kern_name(t));
  if (!check_items(items(m.d, c, n), "after the setters", D(c, n))) return;
  if (m.update()) return skip("update"); if (!check_items(items(m.d, c, n), "after update", D(c, n))) return;
  int s = one_solver(r, c); Res a = m.run(s, n); if (a.rc) return skip("run_refused"); if (!check_items(items(m.d, c, n), sf("after a solution by %s", sname(s)), D(c, n))) return;
  // change some inputs, one layer / parameter at a time
  Gen g; g.om_hi = .999; g.tau_hi = 2; In x; gen_in(r, g, c, x); int L = c.n_layers;
  for (int q = 0; q < 6; ++q) { int i = r.i(0, L - 1), rc = 0, j = c.n_derivs ? r.i(0, c.n_derivs - 1) : 0, k = c.kernels.empty() ? -1 : r.i(0, (int)c.kernels.size() - 1);
    switch (r.i(0, 12)) {
      case 0: n.omega[i] = r.u(.1, .9); rc = xrtm_set_omega_1(m.d, i, n.omega[i]); break; case 1: n.ltau[i] = r.u(.1, 2); if (c.o(O_TAU)) n.ltau[i] += 5; rc = xrtm_set_ltau_1(m.d, i, n.ltau[i]); break;
      case 2: { n.coef[i] = x.coef[i]; auto v = rows(n.coef[i]); rc = xrtm_set_coef_1(m.d, i, (int)n.coef[i][0].size(), v.data()); for (auto &l : n.l) { l.coef[i] = x.coef[i]; auto w = rows(l.coef[i]); int jj = (int)(&l - n.l.data()); rc |= xrtm_set_coef_l_11(m.d, i, jj, w.data()); } break; }
      case 3: if (k >= 0) { n.amp[k] = r.u(0, .5); rc = xrtm_set_kernel_ampfac(m.d, k, n.amp[k]); } break;
      case 4: if (k >= 0 && kern_np(c.kernels[k])) { int p = r.i(0, kern_np(c.kernels[k]) - 1); n.par[k][p] = x.par[k][p]; rc = xrtm_set_kernel_params_1(m.d, k, p, n.par[k][p]); } break;
      case 5: if (c.n_derivs) { n.l[j].omega[i] = r.u(-1, 1); rc = xrtm_set_omega_l_11(m.d, i, j, n.l[j].omega[i]); } break; case 6: if (c.n_derivs) { n.l[j].ltau[i] = r.u(-1, 1); rc = xrtm_set_ltau_l_11(m.d, i, j, n.l[j].ltau[i]); } break;
      case 7: if (c.n_derivs && k >= 0) { n.l[j].amp[k] = r.u(-1, 1); rc = xrtm_set_kernel_ampfac_l_1(m.d, k, j, n.l[j].amp[k]); } break;
      case 8: if (c.n_derivs && k >= 0 && kern_np(c.kernels[k])) { int p = r.i(0, kern_np(c.kernels[k]) - 1); n.l[j].par[k][p] = r.u(-1, 1); rc = xrtm_set_kernel_params_l_11(m.d, k, j, p, n.l[j].par[k][p]); } break;
      case 9: if (c.n_derivs) { n.l[j].Fit = r.u(); rc = xrtm_set_F_iso_top_l_1(m.d, j, n.l[j].Fit); } break; case 10: if (c.n_derivs) { n.l[j].Fib = r.u(); rc = xrtm_set_F_iso_bot_l_1(m.d, j, n.l[j].Fib); } break;
      case 11: if (c.n_derivs && c.o(O_TH)) { n.l[j].lb = VD(L + 1); for (auto &y : n.l[j].lb) y = r.u(-1, 1); rc = xrtm_set_levels_b_l_1(m.d, j, n.l[j].lb.data()); n.l[j].sb = r.u(); rc |= xrtm_set_surface_b_l_1(m.d, j, n.l[j].sb); } break;
      default: if (c.o(O_TH)) { n.sb = r.u(); rc = xrtm_set_surface_b(m.d, n.sb); n.lambda = r.u(1, 9); rc |= xrtm_set_lambda(m.d, n.lambda); }
    }
    if (rc) { viol("setter_refused", "a valid change of an input was refused; " + D(c, n)); return; } count("single_element_changes"); }
  check_items(items(m.d, c, n), "after changes of single elements", D(c, n));
}

// ---------------------------------------------------------------- C23 invalid input
struct Bad { std::string name; double rc; bool dbl; };
static double nanless(Rng &r, bool pos) { return pos ? r.pick({0., -0., -1e-300, -1., -1e30, -HUGE_VAL}) : r.pick({-1e-300, -1., -1e30, -HUGE_VAL}); } // below an allowed range (pos: zero is outside too)
static int badidx(Rng &r, int n) { return r.pick({-1, n, n + 1, INT_MAX, INT_MIN, -2}); }
// one random invalid call; every pointer passed is valid
static Bad bad_call(Rng &r, xrtm_data *d, const Cfg &c, const In &n) {
  int L = c.n_layers, J = c.n_derivs, NK = (int)c.kernels.size(); bool DER = c.o(O_DER);
  VD lz(L + 1), lv(L + 1, .5); std::vector<int> ol(c.n_out_levels, 0); int kb = badidx(r, NK), lb = badidx(r, L), jb = badidx(r, J), i0 = r.i(0, L - 1), j0 = J ? r.i(0, J - 1) : 0, k0 = NK ? r.i(0, NK - 1) : 0;
  VD big(std::max({L + 1, J, 64, c.max_coef + 8}) + 8, .25); VVD big2(big.size(), big); auto b2 = rows(big2); std::vector<double **> b3(big.size(), b2.data()); std::vector<double ***> b4(big.size(), b3.data());
  for (;;) switch (r.i(0, 68)) {
    case 0: return {"set_doub_d_tau", ie(xrtm_set_doub_d_tau(d, nanless(r, true))), 0};
    case 1: return {"set_sos_params", ie(xrtm_set_sos_params(d, r.pick({0, -1, INT_MIN}), .1, 1e-3)), 0};
    case 2: return {"set_sos_params", ie(xrtm_set_sos_params(d, 4, nanless(r, true), 1e-3)), 0};
    case 3: return {"set_sos_params", ie(xrtm_set_sos_params(d, 4, .1, nanless(r, false))), 0};
    case 4: return {"set_fourier_tol", ie(xrtm_set_fourier_tol(d, nanless(r, false))), 0};
    case 5: return {"set_lambda", ie(xrtm_set_lambda(d, c.o(O_TH) ? nanless(r, false) : 1.)), 0};
    case 6: return {"set_planet_r", ie(xrtm_set_planet_r(d, c.o(O_PSA) ? nanless(r, true) : 6000.)), 0};
    case 7: { for (int i = 0; i <= L; ++i) lz[i] = L - i; if (c.o(O_PSA)) { int q = r.i(1, L); lz[q] = lz[q - 1] + r.pick({1e-9, 1., 100.}); } return {"set_levels_z", ie(xrtm_set_levels_z(d, lz.data())), 0}; }
    case 8: { if (c.o(O_LEV)) { ol = n.out_levels; int q = r.i(0, c.n_out_levels - 1); ol[q] = q && r.p(.5) ? ol[q - 1] : r.pick({-1, L + 1, INT_MAX, INT_MIN}); } return {"set_out_levels", ie(xrtm_set_out_levels(d, ol.data())), 0}; }
    case 9: if (c.o(O_LEV) && L > 1 && (c.solvers & (ADDERS | SOS | TWOOS))) { ol = n.out_levels; if (c.n_out_levels == 1) ol[0] = r.i(1, L - 1); else { ol[0] = 0; ol[1] = r.i(1, L - 1); } return {"set_out_levels_interior", ie(xrtm_set_out_levels(d, ol.data())), 0}; } break;
    case 10: { VD q(c.n_out_levels, .01); for (int i = 0; i < c.n_out_levels; ++i) q[i] = .001 * (i + 1); if (c.o(O_TAU)) q[r.i(0, c.n_out_levels - 1)] = nanless(r, false); return {"set_out_taus", ie(xrtm_set_out_taus(d, q.data())), 0}; }
    case 11: { VD q(std::max(1, c.n_out_thetas), 10.); if (c.n_out_thetas) q[r.i(0, c.n_out_thetas - 1)] = r.pick({-1e-9, 90., 90.0001, 180., -45., HUGE_VAL}); return {"set_out_thetas", ie(xrtm_set_out_thetas(d, q.data())), 0}; }
    case 12: return {"set_F_iso_top", ie(xrtm_set_F_iso_top(d, nanless(r, false))), 0};
    case 13: return {"set_F_iso_bot", ie(xrtm_set_F_iso_bot(d, nanless(r, false))), 0};
    case 14: return {"set_F_0", ie(xrtm_set_F_0(d, c.o(O_SOL) ? nanless(r, false) : 1.)), 0};
    case 15: return {"set_theta_0", ie(xrtm_set_theta_0(d, c.o(O_SOL) ? r.pick({-1e-9, 90., 90.001, 180., -30., HUGE_VAL}) : 30.)), 0};
    case 16: break;
    case 17: { if (c.o(O_TH)) lv[r.i(0, L)] = nanless(r, false); return {"set_levels_b", ie(xrtm_set_levels_b(d, lv.data())), 0}; }
    case 18: return {"set_surface_b", ie(xrtm_set_surface_b(d, c.o(O_TH) ? nanless(r, false) : 1.)), 0};
    case 19: case 20: return {"set_omega_1", ie(xrtm_set_omega_1(d, i0, r.pick({-1e-9, 1 + 1e-9, -1., 2., HUGE_VAL}))), 0};
    case 21: case 22: { VD q(L, .33); q[i0] = r.pick({-1e-9, 1 + 1e-9, -1., 2.}); return {"set_omega_n", ie(xrtm_set_omega_n(d, q.data())), 0}; }
    case 23: case 24: return {"set_ltau_1", ie(xrtm_set_ltau_1(d, i0, nanless(r, true))), 0};
    case 25: case 26: { VD q(L, .33); q[i0] = nanless(r, true); return {"set_ltau_n", ie(xrtm_set_ltau_n(d, q.data())), 0}; }
    case 27: return {"set_omega_1_index", ie(xrtm_set_omega_1(d, lb, .5)), 0}; case 28: return {"set_ltau_1_index", ie(xrtm_set_ltau_1(d, lb, .5)), 0};
    case 29: { VVD q(c.n_elem(), VD(c.max_coef + 4, 0.)); q[0][0] = 1; auto w = rows(q); switch (r.i(0, 2)) { case 0: return {"set_coef_1_index", ie(xrtm_set_coef_1(d, lb, 1, w.data())), 0}; case 1: return {"set_coef_1_n_coef", ie(xrtm_set_coef_1(d, i0, c.max_coef + r.i(1, 3), w.data())), 0}; default: if (c.max_coef < 2) break; q[0][0] = r.pick({.5, 1 + 1e-6, -1.}); return {"set_coef_1_first", ie(xrtm_set_coef_1(d, i0, r.i(2, c.max_coef), w.data())), 0}; } break; }
    case 30: case 31: { std::vector<int> nc; VVVD q = n.coef; for (auto &x : q) nc.push_back((int)x[0].size()); bool f = r.p(.5); if (f) nc[i0] = r.pick({-1, c.max_coef + 1, INT_MAX}); else { if (c.max_coef < 2 || nc[i0] < 2) break; q[i0][0][0] = r.pick({.5, 1 + 1e-6, -1.}); } for (int i = 0; i < i0; ++i) if (nc[i] > 1) q[i][0][1] *= .5; Coef3 w(q); return {f ? "set_coef_n_n_coef" : "set_coef_n_first", ie(xrtm_set_coef_n(d, nc.data(), w.p)), 0}; }
    case 32: return {"set_g_1", ie(xrtm_set_g_1(d, 0, .5)), 0};
    case 33: if (NK) return {"set_kernel_ampfac", ie(xrtm_set_kernel_ampfac(d, k0, r.pick({-1e-9, 1 + 1e-9, -1., 2.}))), 0}; else return {"set_kernel_ampfac_none", ie(xrtm_set_kernel_ampfac(d, 0, .5)), 0};
    case 34: return {"set_kernel_ampfac_index", ie(xrtm_set_kernel_ampfac(d, kb, .5)), 0};
    case 35: return {"set_kernel_params_1_index", ie(xrtm_set_kernel_params_1(d, kb, 0, .5)), 0};
    case 36: if (NK) return {"set_kernel_params_1_param", ie(xrtm_set_kernel_params_1(d, k0, badidx(r, kern_np(c.kernels[k0])), .5)), 0}; break;
    case 37: return {"set_kernel_params_n_index", ie(xrtm_set_kernel_params_n(d, kb, big.data())), 0};
    case 38: if (NK && c.kernels[k0] != XRTM_KERNEL_USER_DEFINED) return {"set_kernel_func", ie(xrtm_set_kernel_func(d, k0, USER_AUX, USER_FUN)), 0}; return {"set_kernel_func_index", ie(xrtm_set_kernel_func(d, kb, USER_AUX, USER_FUN)), 0};
    // linearized inputs: a bad index, or a model without derivatives
    case 39: return {"set_F_iso_top_l_1", ie(xrtm_set_F_iso_top_l_1(d, DER ? jb : 0, .5)), 0}; case 40: return {"set_F_iso_bot_l_1", ie(xrtm_set_F_iso_bot_l_1(d, DER ? jb : 0, .5)), 0};
    case 41: if (DER && c.o(O_TH)) return {"set_levels_b_l_1", ie(xrtm_set_levels_b_l_1(d, jb, big.data())), 0}; return {"set_levels_b_l_n", ie(xrtm_set_levels_b_l_n(d, b2.data())), 0};
    case 42: if (DER && c.o(O_TH)) return {"set_surface_b_l_1", ie(xrtm_set_surface_b_l_1(d, jb, .5)), 0}; return {"set_surface_b_l_n", ie(xrtm_set_surface_b_l_n(d, big.data())), 0};
    case 43: if (DER) { bool q = r.p(.5); return {"set_omega_l_11", ie(xrtm_set_omega_l_11(d, q ? lb : i0, q ? j0 : jb, .5)), 0}; } return {"set_omega_l_nn", ie(xrtm_set_omega_l_nn(d, b2.data())), 0};
    case 44: if (DER) return {"set_omega_l_n1", ie(xrtm_set_omega_l_n1(d, jb, big.data())), 0}; return {"set_omega_l_11", ie(xrtm_set_omega_l_11(d, 0, 0, .5)), 0};
    case 45: if (DER) return {"set_omega_l_1n", ie(xrtm_set_omega_l_1n(d, lb, big.data())), 0}; return {"set_omega_l_1n", ie(xrtm_set_omega_l_1n(d, 0, big.data())), 0};
    case 46: if (DER) { bool q = r.p(.5); return {"set_ltau_l_11", ie(xrtm_set_ltau_l_11(d, q ? lb : i0, q ? j0 : jb, .5)), 0}; } return {"set_ltau_l_nn", ie(xrtm_set_ltau_l_nn(d, b2.data())), 0};
    case 47: if (DER) return {"set_ltau_l_n1", ie(xrtm_set_ltau_l_n1(d, jb, big.data())), 0}; return {"set_ltau_l_n1", ie(xrtm_set_ltau_l_n1(d, 0, big.data())), 0};
    case 48: if (DER) return {"set_ltau_l_1n", ie(xrtm_set_ltau_l_1n(d, lb, big.data())), 0}; break;
    case 49: if (DER) { bool q = r.p(.5); return {"set_coef_l_11", ie(xrtm_set_coef_l_11(d, q ? lb : i0, q ? j0 : jb, b2.data())), 0}; } return {"set_coef_l_nn", ie(xrtm_set_coef_l_nn(d, b4.data())), 0};
    case 50: if (DER) return {"set_coef_l_n1", ie(xrtm_set_coef_l_n1(d, jb, b3.data())), 0}; return {"set_coef_l_11", ie(xrtm_set_coef_l_11(d, 0, 0, b2.data())), 0};
    case 51: if (DER) return {"set_coef_l_1n", ie(xrtm_set_coef_l_1n(d, lb, b3.data())), 0}; break;
    case 52: if (DER && NK) { bool q = r.p(.5); return {"set_kernel_ampfac_l_1", ie(xrtm_set_kernel_ampfac_l_1(d, q ? kb : k0, q ? j0 : jb, .5)), 0}; } return {"set_kernel_ampfac_l_1", ie(xrtm_set_kernel_ampfac_l_1(d, 0, 0, .5)), 0};
    case 53: if (DER && NK) return {"set_kernel_ampfac_l_n", ie(xrtm_set_kernel_ampfac_l_n(d, kb, big.data())), 0}; return {"set_kernel_ampfac_l_n", ie(xrtm_set_kernel_ampfac_l_n(d, 0, big.data())), 0};
    case 54: if (DER && NK) { int q = r.i(0, 2); return {"set_kernel_params_l_11", ie(xrtm_set_kernel_params_l_11(d, q == 0 ? kb : k0, q == 1 ? jb : j0, q == 2 ? badidx(r, kern_np(c.kernels[k0])) : kern_np(c.kernels[k0]) ? 0 : 1, .5)), 0}; } return {"set_kernel_params_l_11", ie(xrtm_set_kernel_params_l_11(d, 0, 0, 0, .5)), 0};
    case 55: if (DER && NK) { bool q = r.p(.5); return {"set_kernel_params_l_1n", ie(xrtm_set_kernel_params_l_1n(d, q ? kb : k0, q ? j0 : jb, big.data())), 0}; } return {"set_kernel_params_l_nn", ie(xrtm_set_kernel_params_l_nn(d, 0, b2.data())), 0};
    case 56: if (DER && NK) { bool q = r.p(.5); return {"set_kernel_params_l_n1", ie(xrtm_set_kernel_params_l_n1(d, q ? kb : k0, q ? 0 : badidx(r, kern_np(c.kernels[k0])), big.data())), 0}; } break;
    // getters
    case 57: { int w = r.i(0, 4); double v = w == 0 ? xrtm_get_omega(d, lb) : w == 1 ? xrtm_get_ltau(d, lb) : w == 2 ? xrtm_get_coef(d, lb, 0, 0) : w == 3 ? xrtm_get_coef(d, i0, badidx(r, c.n_elem()), 0) : xrtm_get_coef(d, i0, 0, badidx(r, (int)n.coef[i0][0].size())); return {sf("get_layer_input_%d", w), v == XRTM_DBL_ERROR ? 1. : 0., 1}; }
    case 58: { int w = r.i(0, 3); if (w == 3) return {"get_n_coef", ie(xrtm_get_n_coef(d, lb)), 0}; double v = w == 0 ? xrtm_get_omega_l(d, lb, j0) : w == 1 ? xrtm_get_ltau_l(d, i0, jb) : xrtm_get_coef_l(d, lb, j0, 0, 0); return {sf("get_layer_input_l_%d", w), v == XRTM_DBL_ERROR ? 1. : 0., 1}; }
    case 59: { int w = r.i(0, 2); double v = w == 0 ? xrtm_get_kernel_ampfac(d, kb) : w == 1 ? xrtm_get_kernel_params(d, kb, 0) : NK ? xrtm_get_kernel_params(d, k0, badidx(r, kern_np(c.kernels[k0]))) : xrtm_get_kernel_params(d, 0, 0); return {sf("get_kernel_%d", w), v == XRTM_DBL_ERROR ? 1. : 0., 1}; }
    case 60: { int w = r.i(0, 3); double v = w == 0 ? xrtm_get_kernel_ampfac_l(d, kb, j0) : w == 1 ? xrtm_get_kernel_ampfac_l(d, k0, jb) : w == 2 ? xrtm_get_kernel_params_l(d, k0, jb, 0) : xrtm_get_F_iso_top_l(d, jb); return {sf("get_kernel_l_%d", w), v == XRTM_DBL_ERROR ? 1. : 0., 1}; }
    case 61: return {"get_kernel", ie((int)xrtm_get_kernel(d, kb)), 0};
    case 62: { if (c.o(O_SOL) && c.o(O_TH) && c.o(O_PSA)) break; std::vector<std::pair<const char *, double>> v; if (!c.o(O_SOL)) { v.push_back({"get_F_0", xrtm_get_F_0(d)}); v.push_back({"get_theta_0", xrtm_get_theta_0(d)}); } if (!c.o(O_TH)) { v.push_back({"get_lambda", xrtm_get_lambda(d)}); v.push_back({"get_surface_b", xrtm_get_surface_b(d)}); v.push_back({"get_surface_b_l", xrtm_get_surface_b_l(d, 0)}); } if (!c.o(O_PSA)) v.push_back({"get_planet_r", xrtm_get_planet_r(d)}); auto q = r.pick(v); return {q.first, q.second == XRTM_DBL_ERROR ? 1. : 0., 1}; }
    // solutions
    case 63: case 64: { int s = 0; for (int q = 0; q < 40 && (!s || (s & c.solvers)); ++q) s = r.pick(std::vector<int>(ALLS, ALLS + 11)); if (s & c.solvers) s = 1 << 20; if (r.p(.2)) s = 1 << 20; auto ph = rows(n.phis); std::vector<double> o(c.n_out_levels, 0.); return {"solution_solver", ie(r.p(.5) ? xrtm_radiance(d, (enum xrtm_solver_mask)s, (int)n.phis[0].size(), ph.data(), 0, 0, 0, 0) : xrtm_flux(d, (enum xrtm_solver_mask)s, o.data(), o.data(), 0, 0)), 0}; }
    case 65: { int s = one_solver(r, c); auto ph = rows(n.phis); return {"solution_n_phis", ie(xrtm_radiance(d, (enum xrtm_solver_mask)s, r.pick({0, -1, INT_MIN}), ph.data(), 0, 0, 0, 0)), 0}; }
    case 66: { int s = one_solver(r, c); auto ph = rows(n.phis); return {"solution_nothing", ie(xrtm_solution(d, (enum xrtm_solver_mask)s, r.pick({0, 1 << 20}), 1, ph.data(), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)), 0}; }
    case 67: if (c.solvers & SING) { VD o(c.n_out_levels, 0.); return {"solution_single_flux", ie(r.p(.5) ? xrtm_flux(d, XRTM_SOLVER_SINGLE, o.data(), o.data(), 0, 0) : xrtm_mean_radiance(d, XRTM_SOLVER_SINGLE, o.data(), o.data(), 0, 0)), 0}; } break;
    case 68: if (!DER) return {"update_varied_layers", ie(xrtm_update_varied_layers(d)), 0}; break;
  }
}
// one configuration argument made invalid; returns what was done, "" if nothing fits
static std::string bad_cfg(Rng &r, Cfg &c, std::vector<enum xrtm_kernel_type> &kt) {
  int NK = (int)c.kernels.size(); bool strm = c.solvers & STREAMS; long o = c.options; (void)strm;
  switch (r.i(0, 36)) {
    case 0: c.max_coef = r.pick({-1, INT_MIN}); return "max_coef"; case 1: c.n_quad = r.pick({0, -1, INT_MIN}); return "n_quad"; case 2: c.n_stokes = r.pick({0, -1, 5, 100}); return "n_stokes"; case 3: c.n_derivs = -1; return "n_derivs";
    case 4: c.n_layers = r.pick({0, -1}); return "n_layers"; case 5: c.n_theta_0s = r.pick({0, -1}); return "n_theta_0s"; case 6: if (!NK) return ""; c.n_kernel_quad = r.pick({0, -1}); return "n_kernel_quad";
    case 7: if (!NK) return ""; kt[r.i(0, NK - 1)] = (enum xrtm_kernel_type)r.pick({-1, 11, 1000}); return "kernel_type"; case 8: c.n_out_levels = r.pick({0, -1}); return "n_out_levels"; case 9: c.n_out_thetas = r.pick({-1, INT_MIN}); return "n_out_thetas";
    case 10: c.options |= O_TD | O_BU; c.n_out_levels = 1; return "top_down+bottom_up"; case 11: c.options |= O_LEV | O_TAU; return "levels+taus"; case 12: c.options |= O_QN | O_QD; return "two_quadratures"; case 13: c.options |= O_PCL | O_PGR; return "two_particular_solutions"; case 14: c.options |= O_FOLD | O_FNEW; return "two_convergences";
    case 15: c.options ^= O_DER; return "calc_derivs_vs_n_derivs"; case 16: c.n_derivs = c.n_derivs ? 0 : 2; return "n_derivs_vs_calc_derivs"; case 17: c.options |= O_SCA | O_GC; return "phase_scalar+gc"; case 18: c.options |= O_GC | O_LC; return "gc+lc";
    case 19: if (!c.o(O_TMS)) return ""; c.options |= O_NOAZ; return "tms+no_azimuthal"; case 20: if (!c.o(O_SFI)) return ""; c.n_out_thetas = 0; return "sfi_without_angles"; case 21: if (c.o(O_LEV)) c.options &= ~(long)O_LEV; else c.options &= ~(long)O_TAU; return "no_level_type"; case 22: if (!c.o(O_DM)) return ""; c.max_coef = 2 * c.n_quad; return "delta_m_max_coef";
    case 23: c.solvers = TWO; if (c.n_quad == 1) return ""; c.options |= O_SFI; return "two_stream_n_quad"; case 24: c.solvers = FOUR; if (c.n_quad == 2) return ""; return "four_stream_n_quad"; case 25: c.solvers = SIX; if (c.n_quad == 3) return ""; return "six_stream_n_quad";
    case 26: if (!(o & O_VEC)) return ""; c.solvers = r.pick({TWO, FOUR, SIX}); c.n_quad = c.solvers == TWO ? 1 : c.solvers == FOUR ? 2 : 3; return "stream_vector"; case 27: if (!(o & O_DER)) return ""; c.solvers = r.pick({FOUR, SIX}); c.n_quad = c.solvers == FOUR ? 2 : 3; return "stream_derivs";
    case 28: c.solvers = r.pick({MEM, SING, SOS, TWOOS, FOUR, SIX}); c.options |= O_TH; return "thermal_solver"; case 29: if (o & O_DER) return ""; c.options |= O_STK; return "stack_without_derivs"; case 30: c.options |= O_STK | O_SLAY; return "stack+save_layer"; case 31: c.solvers = r.pick({DOUB, EIGA, PADE, SOS, TWOOS}); c.n_out_levels = r.i(3, 5); c.options &= ~(long)O_TAU; c.options |= O_LEV; return "too_many_levels";
    case 32: c.solvers = r.pick({DOUB, EIGA, PADE, SOS}); c.options &= ~(long)O_LEV; c.options |= O_TAU; return "taus_solver"; case 33: c.options |= r.pick({O_TD, O_BU}); c.n_out_levels = 2; return "top_down_two_levels"; case 34: return ""; case 35: if (c.o(O_VEC)) return ""; c.n_stokes = 4; return "scalar_n_stokes_4";
    default: c.solvers = r.pick({EIGB, MEM, SING, SOS, TWOOS}); c.options |= r.pick({O_TD, O_BU, O_STK}); c.n_out_levels = 1; return "adding_option_solver";
  }
}
PROP(C23) { UNUSED_K;
  Cfg c; In n; api_gen(r, c, n);
  for (int q = 0; q < 6; ++q) { Cfg b = c; std::vector<enum xrtm_kernel_type> kt; for (int t : c.kernels) kt.push_back((enum xrtm_kernel_type)t); std::string w = bad_cfg(r, b, kt); if (w.empty()) continue;
    xrtm_data *d = (xrtm_data *)malloc(sizeof *d); memset((void *)d, 0x5A, sizeof *d); enum xrtm_kernel_type dm = XRTM_KERNEL_LAMBERTIAN; R().evals++; count("invalid_creates"); seen("invalid_create", w);
    int rc = xrtm_create(d, (int)b.options, b.solvers, b.max_coef, b.n_quad, b.n_stokes, b.n_derivs, b.n_layers, b.n_theta_0s, (int)kt.size(), b.n_kernel_quad, kt.empty() ? &dm : kt.data(), b.n_out_levels, b.n_out_thetas);
    if (rc == 0) { xrtm_destroy(d); viol("create." + w, sf("a model with an invalid configuration (%s) is created; ", w.c_str()) + b.desc()); free(d); return; }
    if (rc != XRTM_INT_ERROR) viol("create_rc." + w, sf("xrtm_create() returned %d; ", rc) + b.desc()); free(d); }
  // two models given the same inputs; one of them is also given invalid calls, before, between and after
  Model a(c), b(c); if (!a.ok || !b.ok) return skip("create"); uint64_t sd = r.next(); int nb = 0; bool fail = false;
  auto attack = [&](Model &m, int cnt, bool full) { for (int q = 0; q < cnt && !fail; ++q) { std::string why; std::vector<Item> s0, s1; if (full) s0 = items(m.d, c, n); Bad x = bad_call(r, m.d, c, n); ++nb; R().evals++; count("invalid_calls"); seen("invalid_call", x.name);
      if (!x.rc) { viol("accepted." + x.name, "an invalid call is not refused with the documented error: " + x.name + "; " + D(c, n)); fail = true; return; }
      if (full) { s1 = items(m.d, c, n); R().evals++; if (!same_items(s0, s1, why)) { viol("changed." + x.name, "a refused call of " + x.name + " changed an input: " + why + "; " + D(c, n)); fail = true; } } } };
  Rng r1(sd), r2(sd); attack(a, r.i(0, 3), false); if (fail) return;
  std::vector<int> fs; for (int f = 0; f < N_FIELD; ++f) if (field_used(c, f)) fs.push_back(f);
  for (int f : fs) { unsigned v = (unsigned)r1.next(); if (a.set(f, n, v) || b.set(f, n, v)) return skip(f == F_TH0 || f == F_OTH ? "angle_singularity" : "setter"); if (r.p(.1)) attack(a, 1, false); if (fail) return; }
  if (a.update() || b.update()) return skip("update"); attack(a, r.i(1, 5), true); if (fail) return;
  nontrivial(c.desc()); seen("class", c.cls());
  for (int q = 0; q < 2; ++q) { int s = one_solver(r, c); Res x = a.run(s, n), y = b.run(s, n); R().evals++; if (x.rc != y.rc) { viol("status", sf("after refused calls the solution returns %d instead of %d; ", x.rc, y.rc) + D(c, n)); return; } if (x.rc) return skip("run_refused");
    if (!verdict("after_refused_calls", alld(x, y, 1e-9), sf("result.%s", sname(s)), D(c, n))) return; attack(a, r.i(1, 6), true); if (fail) return; }
  // rejected at the time of the solution: output optical depths outside the column
  if (c.o(O_TAU)) { VD q = n.out_taus; double tt = sumv(n.ltau); q.back() = tt * 1.5 + 1; int rc = xrtm_set_out_taus(a.d, q.data()); int s = one_solver(r, c); Res x = a.run(s, n); R().evals++; if (rc == 0 && x.rc == 0) { viol("out_taus_beyond", "a solution at an optical depth beyond the column is returned; " + D(c, n)); return; } if (rc == 0) xrtm_set_out_taus(a.d, n.out_taus.data()); x = a.run(s, n); Res y = b.run(s, n); if (x.rc || y.rc) { viol("out_taus_after", "the model is not usable after a refused solution; " + D(c, n)); return; } verdict("after_refused_solution", alld(x, y, 1e-9), sf("result_taus.%s", sname(s)), D(c, n)); }
}
