// C07 analytic derivatives = finite differences;  C08 derivatives are a linear, slot-wise map
#include "xmon.hpp"
static int slots_of(In &n) { return (int)n.l.size(); }
// inputs the derivatives of which are not provided by the library
static void drop_builtin_params(const Cfg &c, In &n) {
  for (auto &q : n.l) for (size_t k = 0; k < c.kernels.size(); ++k) if (c.kernels[k] != XRTM_KERNEL_USER_DEFINED && c.kernels[k] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &x : q.par[k]) x = 0;
}
static In perturb_taus(const Cfg &c, const In &n, int j, double h) {
  In b = perturb(n, j, h);
  if (c.o(O_TAU)) for (auto &t : b.out_taus) { double a = 0, a2 = 0; size_t i = 0; for (; i + 1 < n.ltau.size() && t > a + n.ltau[i]; ++i) { a += n.ltau[i]; a2 += b.ltau[i]; } t = a2 + (t - a) / n.ltau[i] * b.ltau[i]; }
  return b;
}
static VD slice(const Res &q, const VD &K, int j) { VD o; for (int i = 0; i < q.nl; ++i) for (int t = 0; t < q.nt; ++t) for (int p = 0; p < q.np; ++p) for (int s = 0; s < q.ns; ++s) o.push_back(K[q.kx(i, j, t, p, s)]); return o; }
static VD fslice(const Res &q, const VD &K, int j) { VD o; if (K.empty()) return o; for (int i = 0; i < q.nl; ++i) o.push_back(K[i * q.nd + j]); return o; }
static VD derv(const Res &q, int j, int what) {
  VD o; auto add = [&](const VD &v) { o.insert(o.end(), v.begin(), v.end()); };
  if (what & 1) { if (!q.Kp.empty()) add(slice(q, q.Kp, j)); if (!q.Km.empty()) add(slice(q, q.Km, j)); }
  if (what & 2) for (auto *v : {&q.mpl, &q.mml, &q.fpl, &q.fml}) add(fslice(q, *v, j));
  return o;
}
static VD valv(const Res &q, int what) {
  VD o; auto add = [&](const VD &v) { o.insert(o.end(), v.begin(), v.end()); };
  if (what & 1) { add(q.Ip); add(q.Im); } if (what & 2) { add(q.mp); add(q.mm); add(q.fp); add(q.fm); } return o;
}
static const char *kind_of(const Cfg &c, const Lin &q) {
  bool lt = false, om = false, co = false, su = false, th = false, is = q.Fit != 0 || q.Fib != 0;
  for (double x : q.ltau) lt |= x != 0; for (double x : q.omega) om |= x != 0; for (auto &a : q.coef) for (auto &b : a) for (double x : b) co |= x != 0;
  for (double x : q.amp) su |= x != 0; for (auto &a : q.par) for (double x : a) su |= x != 0; for (double x : q.lb) th |= x != 0; th |= q.sb != 0; (void)c;
  int k = lt + om + co + su + th + is; return k > 1 ? "mixed" : lt ? "ltau" : om ? "omega" : co ? "coef" : su ? "surface" : th ? "thermal" : is ? "iso" : "none";
}
static bool draw(Rng &r, Cfg &c, In &n, int &s) {
  Gen g; s = r.pick({EIGA, EIGA, EIGB, EIGB, MEM, DOUB, PADE, SING, TWOOS, SOS, TWO}); g.solvers = s; g.der = 1; g.om_hi = .97; g.fold = 0; g.tau_lo = 5e-3; g.tau_hi = s & (PADE | SOS) ? .3 : 2.5; g.nq_max = 4; g.nl_max = 4; g.p_vec = .25; g.nphi = 2;
  if (r.p(.12) && (s & (EIGA | DOUB | PADE))) g.tdbu = r.i(1, 2);
  if (!gen(r, g, c, n)) return false;
  n.fourier_tol = 0.; n.doub_d_tau = 1e-6; n.pade_s = 4; n.pade_r = 4; n.sos_tol = 1e-12; n.sos_max_tau = .01; n.sos_max_os = 60;
  for (auto &x : n.omega) if (x == 0. || x > .97) x = r.u(.1, .95);
  if (g.tdbu) { n.Fit = n.Fib = 0; for (auto &q : n.l) q.Fit = q.Fib = 0; }
  drop_builtin_params(c, n);
  // vector: keep every element of the phase matrix away from zero, where eigenvalues are degenerate and the library sets their derivatives to zero
  if (c.o(O_VEC)) for (auto &x : n.coef) x = phase_mix(phase_mie(c.n_elem(), (int)x[0].size()), x, .3);
  gas_layers(r, c, n);
  if (c.o(O_TAU)) { double tt = sumv(n.ltau); std::set<double> q; while ((int)q.size() < c.n_out_levels) { double t = tt * r.u(.02, .98), a = 0; bool near_ = false; for (double x : n.ltau) { a += x; near_ |= std::fabs(t - a) < 1e-3 * tt; } if (!near_) q.insert(t); } n.out_taus.assign(q.begin(), q.end()); }
  return true;
}
struct Fd { bool ok = false; double worst = 0, sc = 0, noise = 0, fd_at = 0, K_at = 0; size_t at = 0, n = 0; };
// the derivatives of slot j against differences of a model without derivatives
static Fd against_differences(const Cfg &c, const In &n, Model &v, int s, int j, int what, int w, const Res &a, double Is) {
  Fd f; auto val = [&](double h, bool &ok) { In b = perturb_taus(c, n, j, h); if (v.set_all(b)) { ok = false; return VD(); } Res q = v.run(s, b, w); if (q.rc) ok = false; return valv(q, what); };
  bool ok = true; double h = 2e-4; VD p1 = val(h, ok), m1 = val(-h, ok), p2 = val(h / 2, ok), m2 = val(-h / 2, ok); if (!ok) { skip("fd_refused"); return f; }
  VD K = derv(a, j, what); if (K.size() != p1.size()) { R().evals++; viol("shape", "number of derivatives"); return f; }
  f.n = K.size(); f.sc = vmax(K); VD D(K.size());
  for (size_t i = 0; i < K.size(); ++i) { double d1 = (p1[i] - m1[i]) / (2 * h), d2 = (p2[i] - m2[i]) / h; D[i] = (4 * d2 - d1) / 3; f.noise = std::max(f.noise, std::fabs(d1 - d2)); f.sc = std::max(f.sc, std::fabs(D[i])); }
  double tol = (s & SOS ? 1e-4 : s & PADE ? 1e-3 : s & DOUB ? 2e-4 : 2e-5) * f.sc + 1e-6 * Is + 1e-13;
  if (!clear_mu0(c, n)) tol *= 100; // view and sun are the same but for 1e-5: digits are lost
  if (f.noise > (s & SOS ? .003 : .05) * f.sc + 1e-5 * Is) { count("fd_inconclusive"); return f; }
  tol += 4 * f.noise; // a step over a jump of the method (the number of doublings, of orders) is off by 2.4 times this estimate
  for (size_t i = 0; i < K.size(); ++i) { double e = std::fabs(K[i] - D[i]) / tol; if (!std::isfinite(K[i])) e = HUGE_VAL; if (e > f.worst) { f.worst = e; f.at = i; f.fd_at = D[i]; f.K_at = K[i]; } }
  f.ok = true; return f;
}
PROP(C07) { UNUSED_K;
  Cfg c; In n; int s; if (!draw(r, c, n, s)) return;
  Model m(c); if (!ready(m, n, &r)) return;
  int what = (s & SING) || r.p(.7) ? 1 : c.n_out_thetas && r.p(.3) ? 3 : 2; int w = (what & 1 ? XRTM_OUTPUT_RADIANCE : 0) | (what & 2 ? XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX : 0);
  Res a = m.run(s, n, w); if (a.rc) { skip("run_refused"); return; }
  Cfg cv = without(c, O_DER | O_STK); cv.n_derivs = 0; Model v(cv); if (!v.ok) { skip("create_value"); return; }
  seen("solver", sname(s)); seen("class", c.cls());
  double Is = vmax(valv(a, what));
  for (int j = 0; j < c.n_derivs; ++j) {
    Fd f = against_differences(c, n, v, s, j, what, w, a, Is); if (!f.ok) continue;
    // a particular solution that is nearly in resonance with an eigenvalue loses digits: not so with other albedos
    if (f.worst > 1 && f.worst < 1e3) { In x = n; resonance_free(x);
      if (s & SOS) for (auto &y : x.coef) y = phase_mix(phase_hg(c.n_elem(), (int)y[0].size(), .6), y, .3); // sos ends when the values converge: with Fourier terms that are zero but for their derivatives, too early for those
      Model q(c); Res b; bool ok = q.ok && !q.set_all(x); if (ok) { b = q.run(s, x, w); ok = !b.rc; }
      if (ok) { count("repeated_with_other_albedos"); Fd g = against_differences(c, x, v, s, j, what, w, b, vmax(valv(b, what))); if (g.ok && g.worst <= 1) f.worst = g.worst; } }
    const char *kd = kind_of(c, n.l[j]); seen("kind", kd); seen("solver_x_kind", sf("%s:%s", sname(s), kd)); if (f.sc > 1e-8) nontrivial(c.desc() + n.desc() + sf("%d", j));
    verdict(what == 1 ? "radiance_derivative" : "mean_flux_derivative", f.worst, sf("fd.%s.%s.%s.%s", sname(s), what == 1 ? "rad" : "flux", kd, c.cls().c_str()),
      sf("slot %d (%s): analytic %.9g, finite difference %.9g (element %d of %d), largest %.3g, noise %.2g; ", j, kd, f.K_at, f.fd_at, (int)f.at, (int)f.n, f.sc, f.noise) + c.desc() + " | " + n.desc());
  }
  sample(c.desc());
}
static Lin combine(const Lin &p, const Lin &q, double a, double b) {
  Lin o = p; o.Fit = a * p.Fit + b * q.Fit; o.Fib = a * p.Fib + b * q.Fib; o.sb = a * p.sb + b * q.sb;
  for (size_t i = 0; i < o.lb.size(); ++i) o.lb[i] = a * p.lb[i] + b * q.lb[i];
  for (size_t i = 0; i < o.omega.size(); ++i) { o.omega[i] = a * p.omega[i] + b * q.omega[i]; o.ltau[i] = a * p.ltau[i] + b * q.ltau[i]; }
  for (size_t i = 0; i < o.coef.size(); ++i) for (size_t e = 0; e < o.coef[i].size(); ++e) for (size_t k = 0; k < o.coef[i][e].size(); ++k) o.coef[i][e][k] = a * p.coef[i][e][k] + b * q.coef[i][e][k];
  for (size_t i = 0; i < o.amp.size(); ++i) { o.amp[i] = a * p.amp[i] + b * q.amp[i]; for (size_t k = 0; k < o.par[i].size(); ++k) o.par[i][k] = a * p.par[i][k] + b * q.par[i][k]; }
  return o;
}
PROP(C08) { UNUSED_K;
  Cfg c; In n; int s; if (!draw(r, c, n, s)) return;
  int what = (s & SING) || r.p(.7) ? 1 : c.n_out_thetas && r.p(.3) ? 3 : 2; int w = (what & 1 ? XRTM_OUTPUT_RADIANCE : 0) | (what & 2 ? XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX : 0);
  int D = slots_of(n); Cfg c1 = c; c1.n_derivs = D + 2; In n1 = n; double A = r.u(-2, 2), B = r.u(-2, 2); int p = r.i(0, D - 1), q = r.i(0, D - 1);
  n1.l.push_back(combine(n.l[p], n.l[q], A, B)); n1.l.push_back(combine(n.l[p], n.l[p], 0, 0));
  std::vector<int> perm; for (int j = 0; j < D + 2; ++j) perm.push_back(j); r.shuffle(perm);
  In n2 = n1; for (int j = 0; j < D + 2; ++j) n2.l[perm[j]] = n1.l[j];
  Model m(c), m2(c1); if (!ready(m, n, &r)) return; if (!ready(m2, n2, &r)) return;
  Res a = m.run(s, n, w), b = m2.run(s, n2, w); if (a.rc || b.rc) { if (a.rc != b.rc) { R().evals++; viol("status", "status depends on the number of derivatives; " + c.desc()); } skip("run_refused"); return; }
  Cfg cv = without(c, O_DER | O_STK); cv.n_derivs = 0; Model v(cv); if (!ready(v, n)) return; Res z = v.run(s, n, w);
  seen("solver", sname(s)); seen("class", c.cls());
  std::string d = c.desc() + " | " + n.desc();
  VD va = valv(a, what), vb = valv(b, what), vz = valv(z, what);
  verdict("value_with_and_without_derivatives", z.rc ? HUGE_VAL : dev(va, vz, 1e-7, 1e-13), sf("value.%s.%s", sname(s), c.cls().c_str()), show(va) + " " + show(vz) + " " + d);
  verdict("value_with_more_derivatives", dev(va, vb, 1e-8, 1e-13), sf("nslots.%s", sname(s)), show(va) + " " + show(vb) + " " + d);
  double Is = vmax(va);
  for (int j = 0; j < D; ++j) { VD x = derv(a, j, what), y = derv(b, perm[j], what); if (vmax(x) > 0) nontrivial(d + sf("%d", j));
    if (!verdict("slot_moved", dev(x, y, 1e-7, 1e-9 * Is), sf("slot.%s.%s", sname(s), c.cls().c_str()), sf("slot %d of %d moved to %d of %d: ", j, D, perm[j], D + 2) + show(x) + " " + show(y) + " " + d)) return; }
  VD x = derv(a, p, what), y = derv(a, q, what), u = derv(b, perm[D], what), t(x.size()); for (size_t i = 0; i < x.size(); ++i) t[i] = A * x[i] + B * y[i];
  verdict("linear_combination", dev(t, u, 1e-5, 1e-8 * Is, std::max(vmax(x) * std::fabs(A), vmax(y) * std::fabs(B))), sf("linear.%s.%s", sname(s), c.cls().c_str()), sf("%g*slot%d+%g*slot%d: ", A, p, B, q) + show(t) + " " + show(u) + " " + d);
  VD o = derv(b, perm[D + 1], what); verdict("zero_slot", vmax(o) / (1e-12 * Is + 1e-300), sf("zero.%s", sname(s)), show(o) + " " + d);
}
