#include "xmon.hpp"
// C01: what a solution call returns depends only on the inputs in force, not on the calls made before.
// C02: the options that only save or reuse intermediate results do not change what is returned.
static int pick_solvers(Rng &r, bool der, bool vec, bool stk) {
  static const int A[] = {DOUB, EIGA, EIGB, MEM, PADE}, B[] = {SING, SOS, TWOOS};
  if (stk) { int s = 0; for (int x : {DOUB, EIGA, PADE}) if (r.p(.5)) s |= x; return s ? s : (int)EIGA; }
  int s = 0, n = r.pick({1, 1, 2, 3});
  for (int q = 0; q < n; ++q) s |= r.p(.85) ? A[r.i(0, 4)] : B[r.i(0, 2)];
  if (!vec && r.p(.18)) { int t = der ? (int)TWO : r.pick({TWO, FOUR, SIX}); s = r.p(.3) ? t : r.p(.5) ? t | EIGB : s | t; } // a stream solver, alone or with others
  return s;
}
static std::string diffs(const Res &a, const Res &b) {
  std::string s; auto f = [&](const char *n, const VD &x, const VD &y) { double m = 0; size_t at = 0; if (x.size() != y.size()) { s += sf(" %s sizes", n); return; }
    for (size_t i = 0; i < x.size(); ++i) { double e = std::fabs(x[i] - y[i]); if (!(e == e)) e = 1e300; if (e > m) { m = e; at = i; } } if (m > 0) s += sf(" %s[%zu]: %.12g vs %.12g", n, at, x[at], y[at]); };
  f("I_p", a.Ip, b.Ip); f("I_m", a.Im, b.Im); f("I_p_l", a.Kp, b.Kp); f("I_m_l", a.Km, b.Km); f("mean_p", a.mp, b.mp); f("mean_m", a.mm, b.mm); f("flux_p", a.fp, b.fp); f("flux_m", a.fm, b.fm); f("mean_p_l", a.mpl, b.mpl); f("mean_m_l", a.mml, b.mml); f("flux_p_l", a.fpl, b.fpl); f("flux_m_l", a.fml, b.fml);
  return s;
}
static double alldev(const Res &a, const Res &b, double rel) { return std::max(std::max(rdev(a, b, rel), kdev(a, b, rel)), std::max(fdev(a, b, rel), fldev(a, b, rel))); }

// one element (a layer, a derivative, a kernel, a parameter) of one input changes, by the setter of single elements; lin: the set of varied
// layers may have changed (values that stay nonzero do not ask for xrtm_update_varied_layers())
static int one_element(Rng &r, Model &m, const Cfg &c, In &n, const In &x, bool &lin, std::string &hist) {
  int L = c.n_layers, J = c.n_derivs, NK = (int)c.kernels.size(), i = r.i(0, L - 1), j = J ? r.i(0, J - 1) : 0, k = NK ? r.i(0, NK - 1) : -1; xrtm_data *d = m.d; bool sc = r.p(.5); double q = r.pick({.5, 2., -1., 3.});
  auto ch = [&](double &a, double b) { if (sc) a *= q; else a = b; }; if (!sc) q = 0;
  std::vector<int> w = {0, 0, 2}; if (!c.o(O_TAU)) { w.push_back(1); w.push_back(1); } if (k >= 0) { w.push_back(3); if (kern_np(c.kernels[k])) w.push_back(4); } if (J) { for (int y : {5, 5, 6, 6, 7, 10, 12}) w.push_back(y); if (k >= 0) w.push_back(8); if (c.o(O_TH)) w.push_back(11); }
  int t = r.pick(w); static const char *nm[] = {"omega", "ltau", "coef", "ampfac", "param", "omega_l", "ltau_l", "coef_l", "ampfac_l", "", "F_iso_l", "levels_b_l", "rows_l"}; hist += sf(" one_%s(%d,%d,%d%s)", nm[t], i, j, k, t > 4 && sc ? ",scaled" : ""); seen("mutated_element", nm[t]);
  if (t > 4 && !sc) lin = true;
  switch (t) {
    case 0: n.omega[i] = x.omega[i]; return xrtm_set_omega_1(d, i, n.omega[i]); case 1: n.ltau[i] = x.ltau[i]; return xrtm_set_ltau_1(d, i, n.ltau[i]);
    case 2: { n.coef[i] = x.coef[i]; auto a = rows(n.coef[i]); int rc = xrtm_set_coef_1(d, i, (int)n.coef[i][0].size(), a.data()); for (int jj = 0; jj < J; ++jj) { n.l[jj].coef[i] = x.l[jj].coef[i]; auto b = rows(n.l[jj].coef[i]); rc |= xrtm_set_coef_l_11(d, i, jj, b.data()); lin = true; } return rc; }
    case 3: n.amp[k] = x.amp[k]; return xrtm_set_kernel_ampfac(d, k, n.amp[k]); case 4: { int p = r.i(0, kern_np(c.kernels[k]) - 1); n.par[k][p] = x.par[k][p]; return xrtm_set_kernel_params_1(d, k, p, n.par[k][p]); }
    case 5: ch(n.l[j].omega[i], x.l[j].omega[i]); return xrtm_set_omega_l_11(d, i, j, n.l[j].omega[i]); case 6: ch(n.l[j].ltau[i], x.l[j].ltau[i]); return xrtm_set_ltau_l_11(d, i, j, n.l[j].ltau[i]);
    case 7: { for (auto &e : n.l[j].coef[i]) for (auto &y : e) if (sc) y *= q; else y *= .7; auto b = rows(n.l[j].coef[i]); return xrtm_set_coef_l_11(d, i, j, b.data()); }
    case 8: ch(n.l[j].amp[k], x.l[j].amp[k]); return xrtm_set_kernel_ampfac_l_1(d, k, j, n.l[j].amp[k]);
    case 10: ch(n.l[j].Fit, x.l[j].Fit); ch(n.l[j].Fib, x.l[j].Fib); return xrtm_set_F_iso_top_l_1(d, j, n.l[j].Fit) | xrtm_set_F_iso_bot_l_1(d, j, n.l[j].Fib);
    case 11: for (int y = 0; y <= L; ++y) ch(n.l[j].lb[y], x.l[j].lb[y]); ch(n.l[j].sb, x.l[j].sb); return xrtm_set_levels_b_l_1(d, j, n.l[j].lb.data()) | xrtm_set_surface_b_l_1(d, j, n.l[j].sb);
    default: if (r.p(.5)) { VD a(J); for (int y = 0; y < J; ++y) { ch(n.l[y].ltau[i], x.l[y].ltau[i]); a[y] = n.l[y].ltau[i]; } return xrtm_set_ltau_l_1n(d, i, a.data()); } else { for (int y = 0; y < L; ++y) ch(n.l[j].omega[y], x.l[j].omega[y]); return xrtm_set_omega_l_n1(d, j, n.l[j].omega.data()); }
  }
}
static bool is_lin(int f) { return f == F_FIT_L || f == F_FIB_L || f == F_LB_L || f == F_SB_L || f == F_COEF_L || f == F_OMEGA_L || f == F_LTAU_L || f == F_AMP_L || f == F_PAR_L; }
static void history(Rng &r, bool transparency, bool stk) {
  bool der = stk || r.p(.45), vec = r.p(.3);
  Gen g; g.solvers = pick_solvers(r, der, vec, stk);
  g.der = der; g.vec = vec; g.nq_max = 4; g.nl_max = 4; g.saves = transparency && !stk ? -1 : -1; g.stk = stk; g.tau_hi = 2.; g.om_hi = .999; g.up = g.dn = 1;
  if (r.p(.15)) (r.p(.5) ? g.up : g.dn) = 0;
  if (stk) { g.sol = 1; g.th = 0; }  // stacks with thermal sources: probe stack_thermal
  if (r.p(.1) && !stk) g.tdbu = r.i(1, 2);
  bool fm = r.p(.5); if (fm && !stk && r.p(.5)) g.th = 1;
  Cfg c; In n; gen(r, g, c, n);
  if (transparency && fm && !stk && r.p(.5)) c.options |= SAVES;
  if (transparency && !stk && !(c.options & SAVES)) c.options |= r.pick({(long)O_SLEG, (long)O_SPM, (long)O_SLRT, (long)O_SLAY, (long)O_STOT, (long)SAVES});
  Cfg cf = transparency ? without(c, SAVES | O_STK) : c;
  std::vector<int> sol; for (int s : ALLS) if (c.solvers & s) sol.push_back(s);
  std::vector<int> fields; for (int f = 0; f < N_FIELD; ++f) if (field_used(c, f)) fields.push_back(f);
  auto tidy = [&](In &x) { for (auto &s : x.l) for (size_t i = 0; i < x.par.size(); ++i) if (c.kernels[i] != XRTM_KERNEL_USER_DEFINED && c.kernels[i] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &y : s.par[i]) y = 0; x.sos_max_tau = .1; };
  tidy(n);
  Model m(c); if (!ready(m, n, &r)) return;
  int steps = r.i(2, 7), runs = 0; std::string hist;
  // half of the cases keep to one solver and mostly change one input
  int focus = fm ? r.pick(fields) : -1; if (fm && der && r.p(.4)) { std::vector<int> lf; for (int f : fields) if (is_lin(f)) lf.push_back(f); if (lf.size()) focus = r.pick(lf); } if (focus >= 0) { seen("focus", fname(focus)); if (r.p(.7)) sol = {r.pick(sol)}; }
  for (int st = 0; st < steps; ++st) {
    if (st && r.p(.85)) {
      In x; gen_in(r, g, c, x); tidy(x);
      std::set<int> ch; int nf = r.pick({1, 1, 1, 2, 3, 6}); if (focus >= 0 && r.p(.6)) ch.insert(focus); else for (int q = 0; q < nf; ++q) ch.insert(r.pick(fields));
      // values of varied layers that only change size do not ask for xrtm_update_varied_layers()
      bool resize = focus >= 0 && ch.size() == 1 && is_lin(*ch.begin()) && r.p(.6);
      if (resize) { count("linear_inputs_resized"); x.coef = n.coef; x.l = n.l; for (auto &s : x.l) { auto z = [&](VD &a) { for (auto &e : a) e *= r.u(.4, 1.6); }; auto y = [&](double &a) { a *= r.u(.4, 1.6); };
        y(s.Fit); y(s.Fib); y(s.sb); z(s.lb); z(s.omega); z(s.ltau); z(s.amp); for (auto &a : s.par) z(a); for (auto &a : s.coef) for (auto &b : a) z(b); } }
      if (ch.count(F_COEF) && c.o(O_DER)) ch.insert(F_COEF_L);
      if (c.o(O_DER) && ch.count(F_COEF_L) && !resize) ch.insert(F_COEF);
      if (c.o(O_TAU) && (ch.count(F_LTAU) || ch.count(F_OTAU))) { ch.insert(F_LTAU); ch.insert(F_OTAU); }
      std::vector<int> v(ch.begin(), ch.end()); r.shuffle(v);
      auto a = std::find(v.begin(), v.end(), (int)F_COEF), b = std::find(v.begin(), v.end(), (int)F_COEF_L); if (a != v.end() && b != v.end() && b < a) std::iter_swap(a, b);
      bool lin = false;
      if (r.p(focus >= 0 ? .15 : .45)) { int q = r.pick({1, 1, 2, 3}); for (int y = 0; y < q; ++y) { if (one_element(r, m, c, n, x, lin, hist)) { skip("setter_refused"); return; } count("single_element_changes"); } v.clear(); }
      for (int f : v) {
        // take field f from x
        switch (f) {
          case F_DOUB: n.doub_d_tau = x.doub_d_tau = r.pick({1e-8, 1e-6}); break; case F_PADE: if (r.p(.5)) x.pade_s = x.pade_r = -1; else { x.pade_s = r.i(4, 6); x.pade_r = r.i(3, 5); } n.pade_s = x.pade_s; n.pade_r = x.pade_r; break;
          case F_SOS: x.sos_max_tau = r.pick({.1, .05}); x.sos_max_os = r.i(4, 30); n.sos_max_tau = x.sos_max_tau; n.sos_max_os = x.sos_max_os; n.sos_tol = x.sos_tol; break;
          case F_FTOL: x.fourier_tol = r.pick({0., 1e-9, 1e-3, .1}); n.fourier_tol = x.fourier_tol; break; case F_LAMBDA: n.lambda = x.lambda; break; case F_PLANETR: n.planet_r = x.planet_r; break; case F_LZ: n.levels_z = x.levels_z; break;
          case F_OLEV: n.out_levels = x.out_levels; break; case F_OTAU: n.out_taus = x.out_taus; break; case F_OTH: n.out_thetas = x.out_thetas; break;
          case F_FIT: n.Fit = x.Fit; break; case F_FIB: n.Fib = x.Fib; break; case F_F0: if (r.p(.15)) x.F0 = 0; n.F0 = x.F0; break; case F_TH0: n.theta0 = x.theta0; break; case F_PHI0: n.phi0 = x.phi0; break;
          case F_LB: n.lb = x.lb; break; case F_SB: n.sb = x.sb; break; case F_COEF: n.coef = x.coef; break; case F_OMEGA: n.omega = x.omega; break; case F_LTAU: n.ltau = x.ltau; break;
          case F_AMP: n.amp = x.amp; break; case F_PAR: n.par = x.par; break; case F_KFUN: break;
          case F_FIT_L: for (int j = 0; j < c.n_derivs; ++j) n.l[j].Fit = x.l[j].Fit; lin = true; break; case F_FIB_L: for (int j = 0; j < c.n_derivs; ++j) n.l[j].Fib = x.l[j].Fib; lin = true; break;
          case F_LB_L: for (int j = 0; j < c.n_derivs; ++j) n.l[j].lb = x.l[j].lb; lin = true; break; case F_SB_L: for (int j = 0; j < c.n_derivs; ++j) n.l[j].sb = x.l[j].sb; lin = true; break;
          case F_COEF_L: for (int j = 0; j < c.n_derivs; ++j) n.l[j].coef = x.l[j].coef; lin = true; break; case F_OMEGA_L: for (int j = 0; j < c.n_derivs; ++j) n.l[j].omega = x.l[j].omega; lin = true; break;
          case F_LTAU_L: for (int j = 0; j < c.n_derivs; ++j) n.l[j].ltau = x.l[j].ltau; lin = true; break; case F_AMP_L: for (int j = 0; j < c.n_derivs; ++j) n.l[j].amp = x.l[j].amp; lin = true; break;
          case F_PAR_L: for (int j = 0; j < c.n_derivs; ++j) n.l[j].par = x.l[j].par; lin = true; break;
        }
        if (resize) lin = false;
        hist += std::string(resize ? " resize_" : " set_") + fname(f);
        if (m.set(f, n, (unsigned)r.next())) { skip("setter_refused"); return; }
        seen("mutated", fname(f));
      }
      if (lin || r.p(.1)) if (m.update()) { skip("update"); return; }
    }
    if (r.p(.1)) { xrtm_clear_saved(m.d); hist += " clear_saved"; }
    if (r.p(.3)) { int np = r.i(1, 3); VVD ph(n.phis.size(), VD(np)); for (auto &a : ph) for (auto &b : a) b = r.u(0, 360); n.phis = ph; }
    int s = r.pick(sol), what = XRTM_OUTPUT_RADIANCE;
    if (!(c.solvers & SING) && r.p(.25)) what = r.pick({(int)XRTM_OUTPUT_RADIANCE_MEAN, (int)XRTM_OUTPUT_FLUX, XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX, XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX | XRTM_OUTPUT_RADIANCE_MEAN});
    hist += sf(" RUN(%s,%d)", sname(s), what);
    Model f(cf); if (!f.ok) { skip("create_ref"); return; } if (f.set_all(n)) { skip("setter_ref"); return; }
    Res a = m.run(s, n, what), b = f.run(s, n, what);
    if (a.rc != 0 && b.rc != 0) { skip("run_refused"); return; }
    ++runs; seen("solver", sname(s)); seen("class", c.cls());
    if (c.options & SAVES) for (long o : {(long)O_SLEG, (long)O_SPM, (long)O_SLRT, (long)O_SLAY, (long)O_STOT}) if (c.options & o) seen("save", xrtm_option_index_to_name(__builtin_ctzl(o)));
    if (a.rc != b.rc) { R().evals++; viol("status", sf("a call after a history returns %d, the same inputs on a fresh model %d; ", a.rc, b.rc) + c.desc() + " | " + n.desc() + " |" + hist); return; }
    if (runs > 1) { nontrivial(c.desc() + hist); count("reruns_compared"); }
    double tol = stk ? 1e-6 : 1e-8;
    double dv = alldev(a, b, tol);
    if (!verdict(transparency ? "save" : "history", dv, sf("%s.%s.%s", transparency ? (stk ? "stack" : "save") : "history", sname(s), c.cls().c_str()), diffs(a, b) + " " + c.desc() + " | " + n.desc() + " |" + hist)) return;
  }
  sample(c.desc() + " |" + hist);
}
PROP(C01) { UNUSED_K; history(r, false, false); }
PROP(C02) { history(r, true, k % 4 == 3); }

// STACK_REUSE leaves the derivatives of thermal sources out of the stacks it builds
PROBE("C02", stack_thermal) {
  Gen g; g.solvers = EIGA; g.der = 1; g.vec = 0; g.th = 1; g.sol = 1; g.stk = 1; g.nl_min = g.nl_max = 3; g.saves = 0; g.nkern = 1; g.allkern = 0; g.psa = g.tms = g.dm = g.noaz = g.taus = g.tdbu = 0;
  Rng r(77); Cfg c; In n; gen(r, g, c, n);
  for (auto &l : n.l) { for (auto &x : l.omega) x = 0; for (auto &x : l.ltau) x = 0; for (auto &a : l.coef) for (auto &b : a) for (auto &x : b) x = 0; for (auto &x : l.lb) x = .1; l.sb = .2; }
  Cfg cf = without(c, O_STK); Model a(c), b(cf); if (!a.ok || !b.ok || a.set_all(n) || b.set_all(n)) return "setup";
  Res x = a.run(EIGA, n), y = b.run(EIGA, n); if (x.rc || y.rc) return "the run with stack_reuse fails";
  double d = kdev(x, y, 1e-6); return d <= 1 ? "" : sf("derivatives with respect to thermal sources deviate by %.3g x 1e-6 with stack_reuse", d);
}
