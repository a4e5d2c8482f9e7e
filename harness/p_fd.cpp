// C32 the finite difference interface
#include "xmon.hpp"
#include <xrtm_fd_interface.h>
static std::string D(const Cfg &c, const In &n) { return c.desc() + " | " + n.desc(); }
struct FdOut { int rc = 0; Res q; };
static FdOut fd_run(Model &m, xrtm_fd_data &fd, int solver, const In &n, int what, enum xrtm_fd_method_type me, int nd, bool rad_call) {
  FdOut f; Res &q = f.q; const Cfg &c = m.c; q.nl = c.n_out_levels; q.nd = nd; q.nt = xrtm_get_n_out_thetas_2(m.d); q.np = (int)n.phis[0].size(); q.ns = c.n_stokes; bool rad = what & XRTM_OUTPUT_RADIANCE;
  double ****I_p = alloc_array4_d(q.nl, q.nt, q.np, q.ns), ****I_m = alloc_array4_d(q.nl, q.nt, q.np, q.ns), *****K_p = alloc_array5_d(q.nl, nd, q.nt, q.np, q.ns), *****K_m = alloc_array5_d(q.nl, nd, q.nt, q.np, q.ns);
  VD mp(q.nl), mm(q.nl), fp(q.nl), fm(q.nl); VVD l4[4]; for (auto &x : l4) x.assign(q.nl, VD(nd)); std::vector<double *> lp[4]; for (int k = 0; k < 4; ++k) lp[k] = rows(l4[k]); auto ph = rows(n.phis);
  if (setjmp(EXIT_JMP)) { EXIT_ARMED = 0; m.ok = false; m.d = nullptr; throw LibExit{"exit.fd", false}; }
  EXIT_ARMED = 1;
  if (rad_call) f.rc = xrtm_fd_radiance(&fd, (enum xrtm_solver_mask)solver, me, q.np, ph.data(), I_p, I_m, K_p, K_m);
  else f.rc = xrtm_fd_solution(&fd, (enum xrtm_solver_mask)solver, what, me, q.np, ph.data(), rad ? I_p : 0, rad ? I_m : 0, rad ? K_p : 0, rad ? K_m : 0, mp.data(), mm.data(), lp[0].data(), lp[1].data(), fp.data(), fm.data(), lp[2].data(), lp[3].data(), 0, 0);
  EXIT_ARMED = 0;
  size_t N = (size_t)q.nl * q.nt * q.np * q.ns; if (rad) { q.Ip.assign(I_p[0][0][0], I_p[0][0][0] + N); q.Im.assign(I_m[0][0][0], I_m[0][0][0] + N); q.Kp.assign(K_p[0][0][0][0], K_p[0][0][0][0] + N * nd); q.Km.assign(K_m[0][0][0][0], K_m[0][0][0][0] + N * nd); }
  free_array4_d(I_p); free_array4_d(I_m); free_array5_d(K_p); free_array5_d(K_m);
  auto flat = [&](const VVD &v) { VD o; for (auto &x : v) o.insert(o.end(), x.begin(), x.end()); return o; };
  if (what & XRTM_OUTPUT_RADIANCE_MEAN) { q.mp = mp; q.mm = mm; q.mpl = flat(l4[0]); q.mml = flat(l4[1]); } if (what & XRTM_OUTPUT_FLUX) { q.fp = fp; q.fm = fm; q.fpl = flat(l4[2]); q.fml = flat(l4[3]); }
  if (!c.o(O_UP)) for (VD *v : {&q.Ip, &q.Kp, &q.mp, &q.mpl, &q.fp, &q.fpl}) v->clear();
  if (!c.o(O_DN)) for (VD *v : {&q.Im, &q.Km, &q.mm, &q.mml, &q.fm, &q.fml}) v->clear();
  q.rc = f.rc; return f;
}
// give the perturbations of all derivatives (p = h_j x direction_j) through any of the equivalent setters; returns the name of one that failed or does not read back
static std::string fd_inputs(Rng &r, xrtm_fd_data &fd, const Cfg &c, const In &n, const VD &h, const VD &delta) {
  int L = c.n_layers, nd = (int)h.size(); VD dl = delta, back(nd), v;
  if (xrtm_fd_get_n_derivs(&fd) != nd) return "n_derivs"; if (xrtm_fd_set_delta(&fd, dl.data()) || xrtm_fd_get_delta(&fd, back.data()) || !bitsame(back, dl)) return "delta";
  auto slotwise = [&](std::function<double(const Lin &)> f, int (*s1)(xrtm_fd_data *, int, double), int (*sn)(xrtm_fd_data *, double *), double (*g)(xrtm_fd_data *, int)) { VD x; for (int j = 0; j < nd; ++j) x.push_back(h[j] * f(n.l[j]));
    if (r.p(.5)) { if (sn(&fd, x.data())) return false; } else { std::vector<int> o; for (int j = 0; j < nd; ++j) o.push_back(j); r.shuffle(o); for (int j : o) if (s1(&fd, j, x[j])) return false; } for (int j = 0; j < nd; ++j) if (g(&fd, j) != x[j]) return false; return true; };
  if (!slotwise([](const Lin &q) { return q.Fit; }, xrtm_fd_set_F_iso_top_p_1, xrtm_fd_set_F_iso_top_p_n, xrtm_fd_get_F_iso_top_p)) return "F_iso_top_p";
  if (!slotwise([](const Lin &q) { return q.Fib; }, xrtm_fd_set_F_iso_bot_p_1, xrtm_fd_set_F_iso_bot_p_n, xrtm_fd_get_F_iso_bot_p)) return "F_iso_bot_p";
  if (c.o(O_TH)) {
    if (!slotwise([](const Lin &q) { return q.sb; }, xrtm_fd_set_surface_b_p_1, xrtm_fd_set_surface_b_p_n, xrtm_fd_get_surface_b_p)) return "surface_b_p";
    VVD lb(L + 1, VD(nd)); for (int i = 0; i <= L; ++i) for (int j = 0; j < nd; ++j) lb[i][j] = h[j] * n.l[j].lb[i];
    if (r.p(.5)) { auto p = rows(lb); if (xrtm_fd_set_levels_b_p_n(&fd, p.data())) return "levels_b_p"; } else for (int j = nd - 1; j >= 0; --j) { VD x; for (int i = 0; i <= L; ++i) x.push_back(lb[i][j]); if (xrtm_fd_set_levels_b_p_1(&fd, j, x.data())) return "levels_b_p"; }
    for (int j = 0; j < nd; ++j) { VD x(L + 1); xrtm_fd_get_levels_b_p(&fd, j, x.data()); for (int i = 0; i <= L; ++i) if (x[i] != lb[i][j]) return "levels_b_p"; } }
  auto layers = [&](std::function<double(const Lin &, int)> f, int (*s11)(xrtm_fd_data *, int, int, double), int (*sn1)(xrtm_fd_data *, int, double *), int (*s1n)(xrtm_fd_data *, int, double *), int (*snn)(xrtm_fd_data *, double **), double (*g)(xrtm_fd_data *, int, int)) {
    VVD x(L, VD(nd)); for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) x[i][j] = h[j] * f(n.l[j], i); int t = r.i(0, 3);
    if (t == 0) { for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) if (s11(&fd, i, j, x[i][j])) return false; } else if (t == 1) { for (int j = 0; j < nd; ++j) { VD y; for (int i = 0; i < L; ++i) y.push_back(x[i][j]); if (sn1(&fd, j, y.data())) return false; } }
    else if (t == 2) { for (int i = 0; i < L; ++i) if (s1n(&fd, i, x[i].data())) return false; } else { auto p = rows(x); if (snn(&fd, p.data())) return false; }
    for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) if (g(&fd, i, j) != x[i][j]) return false; return true; };
  if (!layers([](const Lin &q, int i) { return q.omega[i]; }, xrtm_fd_set_omega_p_11, xrtm_fd_set_omega_p_n1, xrtm_fd_set_omega_p_1n, xrtm_fd_set_omega_p_nn, xrtm_fd_get_omega_p)) return "omega_p";
  if (!layers([](const Lin &q, int i) { return q.ltau[i]; }, xrtm_fd_set_ltau_p_11, xrtm_fd_set_ltau_p_n1, xrtm_fd_set_ltau_p_1n, xrtm_fd_set_ltau_p_nn, xrtm_fd_get_ltau_p)) return "ltau_p";
  { std::vector<VVVD> x(L, VVVD(nd)); for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) { x[i][j] = n.l[j].coef[i]; for (auto &e : x[i][j]) for (auto &v2 : e) v2 *= h[j]; }
    int t = r.i(0, 3);
    if (t == 0) { for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) { auto p = rows(x[i][j]); if (xrtm_fd_set_coef_p_11(&fd, i, j, p.data())) return "coef_p"; } }
    else if (t == 1) { for (int j = 0; j < nd; ++j) { VVVD y; for (int i = 0; i < L; ++i) y.push_back(x[i][j]); Coef3 p(y); if (xrtm_fd_set_coef_p_n1(&fd, j, p.p)) return "coef_p"; } }
    else if (t == 2) { for (int i = 0; i < L; ++i) { Coef3 p(x[i]); if (xrtm_fd_set_coef_p_1n(&fd, i, p.p)) return "coef_p"; } }
    else { std::vector<Coef3 *> cs; std::vector<double ***> pp; for (int i = 0; i < L; ++i) { cs.push_back(new Coef3(x[i])); pp.push_back(cs.back()->p); } int rc = xrtm_fd_set_coef_p_nn(&fd, pp.data()); for (auto *p : cs) delete p; if (rc) return "coef_p"; }
    for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) for (size_t e = 0; e < x[i][j].size(); ++e) for (size_t k = 0; k < x[i][j][e].size(); ++k) if (xrtm_fd_get_coef_p(&fd, i, j, (int)e, (int)k) != x[i][j][e][k]) return "coef_p"; }
  for (int q = 0; q < (int)c.kernels.size(); ++q) {
    VD a; for (int j = 0; j < nd; ++j) a.push_back(h[j] * n.l[j].amp[q]); if (r.p(.5)) { if (xrtm_fd_set_kernel_ampfac_p_n(&fd, q, a.data())) return "kernel_ampfac_p"; } else for (int j = 0; j < nd; ++j) if (xrtm_fd_set_kernel_ampfac_p_1(&fd, q, j, a[j])) return "kernel_ampfac_p";
    for (int j = 0; j < nd; ++j) if (xrtm_fd_get_kernel_ampfac_p(&fd, q, j) != a[j]) return "kernel_ampfac_p";
    int np = (int)n.par[q].size(); if (!np) continue; VVD x(nd, VD(np)); for (int j = 0; j < nd; ++j) for (int k = 0; k < np; ++k) x[j][k] = h[j] * n.l[j].par[q][k];
    int t = r.i(0, 3);
    if (t == 0) { for (int j = 0; j < nd; ++j) for (int k = 0; k < np; ++k) if (xrtm_fd_set_kernel_params_p_11(&fd, q, j, k, x[j][k])) return "kernel_params_p"; } else if (t == 1) { for (int j = 0; j < nd; ++j) if (xrtm_fd_set_kernel_params_p_1n(&fd, q, j, x[j].data())) return "kernel_params_p"; }
    else if (t == 2) { for (int k = 0; k < np; ++k) { VD y; for (int j = 0; j < nd; ++j) y.push_back(x[j][k]); if (xrtm_fd_set_kernel_params_p_n1(&fd, q, k, y.data())) return "kernel_params_p"; } } else { auto p = rows(x); if (xrtm_fd_set_kernel_params_p_nn(&fd, q, p.data())) return "kernel_params_p"; }
    for (int j = 0; j < nd; ++j) for (int k = 0; k < np; ++k) if (xrtm_fd_get_kernel_params_p(&fd, q, j, k) != x[j][k]) return "kernel_params_p"; }
  return "";
}
// inputs the model holds, read back
static VD held(Model &m, const In &n) {
  VD o; const Cfg &c = m.c; for (int i = 0; i < c.n_layers; ++i) { o.push_back(xrtm_get_omega(m.d, i)); o.push_back(xrtm_get_ltau(m.d, i)); for (size_t e = 0; e < n.coef[i].size(); ++e) for (size_t k = 0; k < n.coef[i][e].size(); ++k) o.push_back(xrtm_get_coef(m.d, i, (int)e, (int)k)); }
  o.push_back(xrtm_get_F_iso_top(m.d)); o.push_back(xrtm_get_F_iso_bot(m.d)); if (c.o(O_TH)) { VD b(c.n_layers + 1); xrtm_get_levels_b(m.d, b.data()); o.insert(o.end(), b.begin(), b.end()); o.push_back(xrtm_get_surface_b(m.d)); }
  for (size_t q = 0; q < c.kernels.size(); ++q) { o.push_back(xrtm_get_kernel_ampfac(m.d, (int)q)); for (size_t k = 0; k < n.par[q].size(); ++k) o.push_back(xrtm_get_kernel_params(m.d, (int)q, (int)k)); } return o;
}
PROP(C32) { UNUSED_K;
  Cfg c; In n; Gen g; g.der = 1; g.p_vec = .2; g.om_hi = .97; g.tau_lo = 5e-3; g.nq_max = 4; g.nl_max = 4; g.nphi = 2; int s = r.pick({EIGA, EIGA, EIGB, EIGB, MEM, DOUB, PADE, SING, TWOOS, SOS, TWO, FOUR, SIX}); g.solvers = s; g.tau_hi = s & (PADE | SOS | MEM) ? .3 : 2.5; if (s & (FOUR | SIX)) g.der = 0;
  if (g.der == 0) { g.solvers = EIGB; g.der = 1; g.p_vec = 0; g.taus = 0; }   // the directions are made for a solver with derivatives
  if (!gen(r, g, c, n)) return skip("gen"); if (c.o(O_STK)) return skip("stack");
  n.fourier_tol = 0.; n.doub_d_tau = 1e-6; n.pade_s = 4; n.pade_r = 4; n.sos_max_tau = .02; n.sos_max_os = 60;
  for (auto &x : n.omega) if (x < .05 || x > .95) x = r.u(.1, .9); for (auto &x : n.amp) if (x < .01) x = .05; else if (x > .95) x = .9;
  if (c.o(O_TAU)) for (auto &x : n.out_taus) x *= .9;
  int nd = (int)n.l.size(); if (!nd) return skip("no_derivs");
  // a model for a finite difference has no derivatives of its own
  Cfg a = c; a.options &= ~O_DER; a.n_derivs = 0; if (s & (FOUR | SIX)) { if (a.o(O_VEC) || a.o(O_TAU) || a.o(O_TH)) return skip("stream"); a.solvers = s; a.n_quad = s & FOUR ? 2 : 3; if (a.n_out_thetas == 0 ) { } else if (!a.o(O_SFI)) return skip("stream_sfi"); if (a.o(O_TMS)) return skip("stream"); }
  if (!a.n_out_thetas) { VD row = n.phis[0]; n.phis.assign(a.n_quad, row); }
  In base = n; base.l.clear(); VD h, delta; for (int j = 0; j < nd; ++j) { h.push_back(r.lu(2e-4, 4e-3) * (r.p(.3) ? -1 : 1)); delta.push_back(r.lu(1e-4, 1.) * (r.p(.3) ? -1 : 1)); }
  Model m(a); if (!ready(m, base)) return;
  if (r.p(.1)) { Model e(c); if (e.ok) { xrtm_fd_data f2; memset(&f2, 0, sizeof f2); if (xrtm_fd_create(&f2, e.d, nd) == 0) { viol("derivs_model_accepted", "xrtm_fd_create() accepts a model with derivatives of its own; " + D(c, n)); xrtm_fd_destroy(&f2); return; } count("derivs_model_refused"); } }
  auto me = r.pick({XRTM_FD_METHOD_FORWARD, XRTM_FD_METHOD_BACKWARD, XRTM_FD_METHOD_CENTRAL}); const char *mn = me == XRTM_FD_METHOD_FORWARD ? "forward" : me == XRTM_FD_METHOD_BACKWARD ? "backward" : "central";
  bool rc = r.p(.4) || s == SING; int what = s == SING || rc || r.p(.4) ? XRTM_OUTPUT_RADIANCE : r.pick({(int)XRTM_OUTPUT_FLUX, (int)XRTM_OUTPUT_RADIANCE_MEAN, (int)(XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX), (int)(XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX)});
  // reference: a model of its own for every perturbed problem
  auto at = [&](int j, double f, Res &o) { In b = j < 0 ? base : perturb(n, j, f * h[j]); b.l.clear(); Model w(a); if (!w.ok || w.set_all(b)) return false; o = w.run(s, b, what); return o.rc == 0; };
  Res r0; if (!at(-1, 0, r0)) return skip("base"); std::vector<Res> P(nd), M(nd); for (int j = 0; j < nd; ++j) { if (me != XRTM_FD_METHOD_BACKWARD && !at(j, 1, P[j])) return skip("perturbed_invalid"); if (me != XRTM_FD_METHOD_FORWARD && !at(j, -1, M[j])) return skip("perturbed_invalid"); }
  xrtm_fd_data fd; memset(&fd, 0, sizeof fd); if (xrtm_fd_create(&fd, m.d, nd)) { viol("valid_create_refused", "xrtm_fd_create() refuses; " + D(a, base)); return; }
  std::string bad = fd_inputs(r, fd, a, n, h, delta); if (bad.size()) { viol("input." + bad, "a perturbation is refused or reads back as another; " + D(a, base)); xrtm_fd_destroy(&fd); return; }
  VD before = held(m, n); int reps = r.p(.3) ? 2 : 1; seen("method", mn); seen("solver", sname(s)); seen("solutions", sf("%d", what)); nontrivial(a.desc() + mn);
  for (int it = 0; it < reps; ++it) {
    FdOut f = fd_run(m, fd, s, base, what, me, nd, rc); R().evals++;
    if (f.rc) { viol(sf("valid_run_refused.%s", mn), D(a, base)); break; }
    Res &q = f.q; double sc = std::max(iscale(r0), 1e-30), scf = std::max(std::max(vmax(r0.fp), vmax(r0.fm)), std::max(vmax(r0.mp), vmax(r0.mm)));
    double d0 = std::max(rdev(r0, q, 1e-9, 1e-14), fdev(r0, q, 1e-9, 1e-14)); if (!verdict("values", d0, sf("values.%s", mn), D(a, base))) break;
    double worst = 0; int wj = 0; double big = 0;
    struct Fld { VD Res::*v; VD Res::*k; bool rad; }; for (Fld fl : {Fld{&Res::Ip, &Res::Kp, true}, Fld{&Res::Im, &Res::Km, true}, Fld{&Res::mp, &Res::mpl, false}, Fld{&Res::mm, &Res::mml, false}, Fld{&Res::fp, &Res::fpl, false}, Fld{&Res::fm, &Res::fml, false}}) {
      const VD &z = r0.*(fl.v); if (z.empty()) continue; const VD &K = q.*(fl.k); size_t per = z.size() / q.nl; double s0 = fl.rad ? sc : std::max(scf, 1e-30);
      for (int j = 0; j < nd; ++j) { const VD &hi = me == XRTM_FD_METHOD_BACKWARD ? M[j].*(fl.v) : P[j].*(fl.v), &lo = me == XRTM_FD_METHOD_CENTRAL ? M[j].*(fl.v) : z;
        for (int i = 0; i < q.nl; ++i) for (size_t t = 0; t < per; ++t) { double e = (hi[i * per + t] - lo[i * per + t]) / delta[j], x = K[(i * nd + j) * per + t], tol = (1e-9 * s0 + 1e-15) / std::fabs(delta[j]); big = std::max(big, std::fabs(e) / tol); double dv = std::isfinite(x) ? std::fabs(x - e) / tol : 1e30; if (dv > worst) { worst = dv; wj = j; } } } }
    maxv("signal_over_tolerance", big);
    if (!verdict(sf("quotient_%s", mn).c_str(), worst, sf("quotient.%s", mn), sf("derivative %d of %d, solutions %d; ", wj, nd, what) + D(a, base))) break;
    VD after = held(m, n); double dv = 0; for (size_t k = 0; k < before.size(); ++k) dv = std::max(dv, std::fabs(after[k] - before[k]) / (1e-12 * std::max(std::fabs(before[k]), 1e-3))); if (!verdict("inputs_restored", dv, sf("inputs_restored.%s", mn), D(a, base))) break;
    Res z = m.run(s, base, what); if (z.rc) { viol("run_after_refused", D(a, base)); break; } if (!verdict("same_results_afterwards", std::max(rdev(r0, z, 1e-8, 1e-14), fdev(r0, z, 1e-8, 1e-14)), sf("afterwards.%s", mn), D(a, base))) break;
  }
  xrtm_fd_destroy(&fd);
}
