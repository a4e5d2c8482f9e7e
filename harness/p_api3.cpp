// Allocation failure, problem size, extreme values, one-pass adding, implied configuration.
#include "xmon.hpp"
#include <malloc.h>
static std::string D(const Cfg &c, const In &n) { return c.desc() + " | " + n.desc(); }
static double alld(const Res &a, const Res &b, double tol, double abs_ = 1e-14) { return std::max(std::max(rdev(a, b, tol, abs_), kdev(a, b, tol, abs_)), std::max(fdev(a, b, tol, abs_), fldev(a, b, tol, abs_))); }
static bool fin(const Res &a) { for (auto *v : {&a.Ip, &a.Im, &a.Kp, &a.Km, &a.mp, &a.mm, &a.fp, &a.fm, &a.mpl, &a.mml, &a.fpl, &a.fml}) if (!finite(*v)) return false; return true; }
static bool fin0(const Res &a) { for (auto *v : {&a.Ip, &a.Im, &a.mp, &a.mm, &a.fp, &a.fm}) if (!finite(*v)) return false; return true; }

// ---------------------------------------------------------------- C37 size and extremes
static bool ready3(Model &m, const In &n) {
  if (!m.ok) { viol("valid_create_refused", "a documented configuration is refused; " + m.c.desc()); return false; }
  if (m.set_all(n)) { if (m.last_bad == F_TH0 || m.last_bad == F_OTH) skip("angle_singularity"); else viol(sf("valid_input_refused.%s", m.last_bad == 99 ? "update" : fname(m.last_bad)), "a valid input is refused; " + D(m.c, n)); return false; }
  return true;
}
// cut every layer into many
static void cut(Rng &r, const Cfg &c, const In &n, Cfg &C, In &N, int total) {
  C = c; N = n; int L = c.n_layers; std::vector<int> m(L, 1); for (int i = L; i < total; ++i) m[r.i(0, L - 1)]++;
  N.ltau.clear(); N.omega.clear(); N.coef.clear(); std::vector<int> first(L + 1);
  for (auto &q : N.l) { q.ltau.clear(); q.omega.clear(); q.coef.clear(); }
  for (int i = 0; i < L; ++i) { first[i] = (int)N.ltau.size();
    for (int k = 0; k < m[i]; ++k) { N.ltau.push_back(n.ltau[i] / m[i]); N.omega.push_back(n.omega[i]); N.coef.push_back(n.coef[i]); for (size_t j = 0; j < n.l.size(); ++j) { N.l[j].ltau.push_back(n.l[j].ltau[i] / m[i]); N.l[j].omega.push_back(n.l[j].omega[i]); N.l[j].coef.push_back(n.l[j].coef[i]); } } }
  first[L] = (int)N.ltau.size(); C.n_layers = (int)N.ltau.size(); for (auto &x : N.out_levels) x = first[x];
}
PROP(C37) { UNUSED_K;
  Cfg c; In n; Gen g; g.p_vec = .2; g.saves = 0; g.th = 0; g.psa = 0; g.taus = 0; g.nl_max = 4; int mode = r.i(0, 5);
  if (mode <= 1) { // many layers
    g.solvers = r.pick({EIGA, EIGB, EIGB, DOUB, PADE, MEM, SING, SOS, TWO, FOUR, SIX, TWOOS}); g.nq_min = 1; g.nq_max = g.solvers & (SOS | MEM) ? 2 : 4; g.p_der = .4; g.om_hi = .999; g.tau_hi = 2; g.stk = r.p(.2); g.saves = r.p(.3) ? -1 : 0; gen(r, g, c, n);
    for (auto &x : n.omega) if (x == 0.) x = .3; if (c.solvers & SOS) { n.sos_max_tau = 4.; for (auto &x : n.ltau) x = std::min(x, .2); } if (c.solvers & PADE) { n.pade_s = n.pade_r = 6; }
    Cfg C; In N; int tot = r.i(20, c.solvers & (MEM | SOS) ? 60 : r.p(.1) ? 400 : 150); cut(r, c, n, C, N, std::max(tot, c.n_layers)); if (c.solvers & SOS) for (auto *q : {&n, &N}) q->sos_max_tau = 1e-3;
    if (c.solvers & SOS) return skip("sos");
    int s = c.solvers; Model a(c), b(C); if (!ready3(a, n) || !ready3(b, N)) return; int what = s == SING || r.p(.6) ? (int)XRTM_OUTPUT_RADIANCE : (int)XRTM_OUTPUT_FLUX; Res x = a.run(s, n, what), y = b.run(s, N, what); R().evals++;
    if (x.rc || y.rc) { viol(sf("valid_run_refused.%s", sname(s)), sf("%d layers: a valid solution is refused; ", C.n_layers) + D(c, n)); return; }
    seen("solver", sname(s)); seen("layers", sf("%d", C.n_layers / 50 * 50)); nontrivial(C.desc());
    double tol = s == DOUB ? 3e-5 : s == PADE ? 3e-4 : s == MEM ? 1e-4 : 1e-5, sc = std::max(iscale(x), std::max(vmax(x.fp), vmax(x.fm))); verdict(sf("many_layers.%s", sname(s)).c_str(), std::max(std::max(rdev(x, y, tol, 1e-9), fdev(x, y, tol, 1e-9)), std::max(kdev(x, y, 100 * tol, 1e-5 * sc), fldev(x, y, 100 * tol, 1e-5 * sc))), sf("many_layers.%s", sname(s)), sf("%d layers: ", C.n_layers) + D(c, n)); return; }
  if (mode == 2) { // many streams
    g.solvers = r.pick({(int)(EIGA | EIGB), (int)(EIGA | DOUB), (int)EIGB}); g.p_der = .3; g.om_hi = .999; g.nq_min = 8; g.nq_max = r.p(.15) ? 40 : 20; g.nl_max = 2; g.p_vec = .1; g.interior = 0; gen(r, g, c, n); for (auto &x : n.omega) if (x == 0.) x = .3;
    if (c.o(O_VEC) && c.o(O_DER)) return skip("vector_derivs"); c.n_kernel_quad = 40 + 2 * c.n_quad; Model a(c); if (!ready3(a, n)) return; seen("streams", sf("%d", c.n_quad)); nontrivial(c.desc()); Res first; int s0 = 0;
    for (int s : ALLS) if (c.solvers & s) { Res x = a.run(s, n, XRTM_OUTPUT_RADIANCE); R().evals++; if (x.rc) { viol(sf("valid_run_refused.%s", sname(s)), D(c, n)); return; } if (!fin(x)) { viol(sf("not_finite.%s", sname(s)), "a result is not finite; " + D(c, n)); return; }
      if (!s0) { s0 = s; first = x; } else if (!verdict("many_streams", std::max(rdev(first, x, 2e-4, 1e-9), kdev(first, x, 5e-3, 1e-7)), sf("many_streams.%s_%s", sname(s0), sname(s)), show(first.Ip, 400) + show(x.Ip, 400) + "M" + show(first.Im, 400) + show(x.Im, 400) + D(c, n))) return; }
    return; }
  // extreme values
  g.solvers = 0; g.p_der = .3; g.nl_max = 4; g.nq_max = 4; g.psa = -1; g.th = -1; g.taus = -1; gen(r, g, c, n); if (c.solvers & PADE) { n.pade_s = n.pade_r = 6; } n.sos_max_tau = .1;
  bool thin = c.solvers & (SOS | MEM | PADE); std::string ex;
  for (int i = 0; i < c.n_layers; ++i) { if (r.p(.4)) { n.ltau[i] = thin ? r.pick({1e-10, 1e-8, 1e-6, 1e-3}) : r.pick({1e-10, 1e-8, 1e-6, 50., 300., 3000.}); ex += sf(" ltau[%d]=%g", i, n.ltau[i]); } if (r.p(.3)) { n.omega[i] = r.pick({0., 1., 1e-12, 1e-6, 1. - 1e-9}); ex += sf(" omega[%d]=%.12g", i, n.omega[i]); } }
  if (c.o(O_TH)) { if (r.p(.3)) { for (auto &x : n.lb) x = r.pick({0., 1e-20, 1., 1e10}); ex += " levels_b"; } }
  if (c.o(O_SOL) && r.p(.4)) { n.theta0 = r.pick({0., 1e-9, 85., 89., 89.9}); ex += sf(" theta0=%.9g", n.theta0); }
  for (auto &t : n.out_thetas) if (r.p(.3)) { t = r.pick({0., 1e-9, 88., 89.9, 89.999}); ex += sf(" theta=%.9g", t); }
  if (c.o(O_PSA) && r.p(.4)) { n.planet_r = r.pick({1000., 6371., 70000.}); ex += sf(" planet_r=%g", n.planet_r); }
  for (size_t k = 0; k < c.kernels.size(); ++k) if (c.kernels[k] == XRTM_KERNEL_LAMBERTIAN && r.p(.3)) { n.amp[k] = r.pick({0., 1.}); ex += sf(" albedo=%g", n.amp[k]); }
  // an average secant is the ratio of two path lengths: below a thick layer it grows beyond any range when the sun is low
  if (c.o(O_PSA)) { n.theta0 = std::min(n.theta0, 80.); for (auto &x : n.ltau) x = std::min(x, 20.); }
  if (c.o(O_TAU)) { double tt = sumv(n.ltau), q = 0; for (auto &x : n.out_taus) { q += r.u(.01, .9) * (tt - q); x = q; } }
  int s = c.solvers; for (int t : ALLS) if ((c.solvers & t) && r.p(.5)) s = t; if (s & (s - 1)) { for (int t : ALLS) if (s & t) { s = t; break; } }
  Model a(c); if (!ready3(a, n)) return; int what = s == SING || r.p(.6) ? (int)XRTM_OUTPUT_RADIANCE : XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX; Res x = a.run(s, n, what); R().evals++;
  if (ex.size()) nontrivial(c.desc() + ex); seen("solver", sname(s));
  if (x.rc) { viol(sf("valid_run_refused.%s", sname(s)), "a valid solution is refused;" + ex + "; " + D(c, n)); return; }
  if (!fin(x)) { viol(sf("not_finite.%s%s", sname(s), fin0(x) ? "_l" : ""), "a result is not finite;" + ex + "; " + D(c, n)); return; }
}

// ---------------------------------------------------------------- C30 an allocation that fails while a model is created
extern "C" { extern thread_local long AL_N, AL_FAIL; extern thread_local bool AL_ON; } // (xmon.cpp) allocations counted, the one that fails
extern int LSAN_OFF;
PROP(C30) { UNUSED_K; LSAN_OFF = 1; // what a failed creation leaves behind: see the probe
  Cfg c; In n; Gen g; g.saves = -1; g.stk = r.p(.2); if (g.stk) g.th = 0; g.nq_max = 3; g.nl_max = 3; gen(r, g, c, n); std::vector<enum xrtm_kernel_type> kk; for (int t : c.kernels) kk.push_back((enum xrtm_kernel_type)t); kk.push_back(XRTM_KERNEL_LAMBERTIAN);
  auto mk = [&](xrtm_data *d, long fail) { AL_N = 0; AL_FAIL = fail; AL_ON = true; int rc = xrtm_create(d, (int)c.options, c.solvers, c.max_coef, c.n_quad, c.n_stokes, c.n_derivs, c.n_layers, c.n_theta_0s, (int)c.kernels.size(), c.n_kernel_quad, kk.data(), c.n_out_levels, c.n_out_thetas); AL_ON = false; return rc; };
  Model other(c); if (!other.ok || other.set_all(n)) return skip("setter"); int s = c.solvers, what = s == SING ? (int)XRTM_OUTPUT_RADIANCE : XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX; for (int t : ALLS) if (c.solvers & t) { s = t; break; } if (s == SING) what = XRTM_OUTPUT_RADIANCE;
  Res a = other.run(s, n, what); xrtm_data d; memset((void *)&d, 0x5a, sizeof d); if (mk(&d, 0)) return skip("create"); long N = AL_N; xrtm_destroy(&d); nontrivial(c.desc()); count("allocations_in_create", N);
  for (int q = 0; q < 12; ++q) { long i = q == 0 ? N : q == 1 ? 1 : r.i(1, (int)N); memset((void *)&d, 0x5a, sizeof d); int rc = mk(&d, i); R().evals++; count("allocations_failed");
    if (rc == 0) { viol("created_without_memory", sf("allocation %ld of %ld failed and xrtm_create() returned success; ", i, N) + c.desc()); return; }
    if (rc != XRTM_INT_ERROR) { viol("create_error_value", sf("allocation %ld of %ld failed and xrtm_create() returned %d; ", i, N, rc) + c.desc()); return; } }
  Res b = other.run(s, n, what); if (!bitsame(a, b)) { viol("other_model", "a model changed its results while the creation of another failed; " + D(c, n)); return; }
  memset((void *)&d, 0xa5, sizeof d); if (mk(&d, 0)) { viol("create_after_failure", "a model cannot be created after creations failed; " + c.desc()); return; } xrtm_destroy(&d);
}
PROBE("C30", failed_create_leaks) {
  xrtm_data d; enum xrtm_kernel_type k[1] = {XRTM_KERNEL_LAMBERTIAN}; auto once = [&](long f) { AL_N = 0; AL_FAIL = f; AL_ON = true; int rc = xrtm_create(&d, (int)(O_SCA | O_SOL | O_LEV | O_UP | O_DN | O_FNEW | O_PCL | O_QD), EIGA, 16, 8, 1, 0, 4, 1, 1, 16, k, 2, 1); AL_ON = false; return rc; };
  if (once(0)) return "cannot create"; long N = AL_N; xrtm_destroy(&d); size_t a = mallinfo2().uordblks; for (int i = 0; i < 20; ++i) if (once(N) != XRTM_INT_ERROR) return "created without memory"; size_t b = mallinfo2().uordblks;
  if (b > a + 20 * 1024) return sf("20 creations that failed for lack of memory left %zu bytes allocated", b - a);
  return "";
}

// ---------------------------------------------------------------- C34 adding from one side only
// the probes top_down_F_iso_top and bottom_up_F_iso_bot_l: those inputs are left zero here
PROP(C34) { UNUSED_K;
  Cfg c; In n; Gen g; g.solvers = r.pick({EIGA, DOUB, PADE}); g.tdbu = r.i(1, 2); g.nl_max = 6; g.nq_max = 4; g.p_der = .5; g.saves = r.p(.3) ? -1 : 0; g.stk = 0; g.taus = 0; g.om_hi = .999; if (g.solvers & PADE) g.tau_hi = .4; gen(r, g, c, n); gas_layers(r, c, n);
  if (!c.o(O_TD) && !c.o(O_BU)) return skip("no_option");
  int s = c.solvers; n.doub_d_tau = 1e-8; n.pade_s = n.pade_r = 6; n.fourier_tol = 0; bool td = c.o(O_TD); if (td) { n.Fit = 0; for (auto &q : n.l) q.Fit = 0; } else for (auto &q : n.l) q.Fib = 0;
  Cfg b = c; b.options &= ~(long)(O_TD | O_BU); bool two = r.p(.5); if (two) b.n_out_levels = 2; auto M = [&](const In &x) { In y = x; if (two) y.out_levels = {0, c.n_layers}; return y; };
  Model A(c), B(b); if (!ready3(A, n) || !ready3(B, M(n))) return; int what = r.pick({(int)XRTM_OUTPUT_RADIANCE, XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX, XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX}); int reps = r.i(1, 3);
  seen("solver", sname(s)); seen("direction", td ? "top_down" : "bottom_up"); seen("class", c.cls()); nontrivial(c.desc());
  for (int q = 0; q < reps; ++q) { // again with other inputs: what was saved must follow
    if (q) { int i = r.i(0, c.n_layers - 1); std::vector<int> fs; if (r.p(.5)) { n.omega[i] = std::min(.999, n.omega[i] * .8 + .01); fs.push_back(F_OMEGA); } if (c.o(O_SOL) && r.p(.5)) { n.F0 = r.u(.1, 3); fs.push_back(F_F0); } if (r.p(.4)) { (td ? n.Fib : n.Fit) = r.u(0, 2); fs.push_back(td ? F_FIB : F_FIT); } if (c.o(O_TH) && r.p(.4)) { n.lb[i] = r.u(0, 2); fs.push_back(F_LB); }
      for (int f : fs) if (A.set(f, n) || B.set(f, n)) { viol(sf("valid_input_refused.%s", fname(f)), D(c, n)); return; } if (c.n_derivs && fs.size() && fs[0] == F_OMEGA && (A.update() || B.update())) { viol("valid_input_refused.update", D(c, n)); return; } }
    Res x = A.run(s, n, what), y = B.run(s, M(n), what), z = y; R().evals++; if (x.rc || y.rc) { viol(sf("valid_run_refused.%s", sname(s)), D(c, n)); return; }
    if (two) { int l = td ? 1 : 0; z.nl = 1; auto one = [&](VD &v) { size_t w = v.size() / 2; v = VD(v.begin() + l * w, v.begin() + (l + 1) * w); }; for (VD *v : {&z.Ip, &z.Im, &z.Kp, &z.Km, &z.mp, &z.mm, &z.fp, &z.fm, &z.mpl, &z.mml, &z.fpl, &z.fml}) if (v->size()) one(*v); }
    double tol = 1e-7, sc = std::max(iscale(y), std::max(vmax(y.fp), vmax(y.fm))); const char *nm = td ? "top_down" : "bottom_up"; std::string d = sf("call %d: ", q) + show(cat(x.Ip, x.Im), 300) + show(cat(z.Ip, z.Im), 300) + D(c, n);
    if (!verdict("one_sided_adding", std::max(rdev(x, z, tol, 1e-9 * sc), fdev(x, z, tol, 1e-9 * sc)), sf("%s.%s.%s", nm, sname(s), c.cls().c_str()), d)) return;
    if (c.n_derivs && !verdict("one_sided_adding_l", std::max(kdev(x, z, 20 * tol, 1e-7 * sc), fldev(x, z, 20 * tol, 1e-7 * sc)), sf("%s_l.%s.%s", nm, sname(s), c.cls().c_str()), show(cat(x.Kp, x.Km), 300) + show(cat(z.Kp, z.Km), 300) + d)) return; }
}
