// Physical and structural invariants of the solutions, at the public API.
#include "xmon.hpp"
static const int RADX = XRTM_OUTPUT_RADIANCE, FLX = XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX;
static Gen exact(Rng &r) { Gen g; g.full = 1; g.nq_max = 6; g.tau_hi = 3.; g.om_hi = 1.; g.fold = 0; g.saves = r.p(.3) ? -1 : 0; return g; }
static void fine(In &n) { n.fourier_tol = 0.; n.doub_d_tau = 1e-8; n.pade_s = n.pade_r = 6; n.sos_tol = 1e-12; n.sos_max_tau = .01; n.sos_max_os = 80; }
static void no_iso_l(In &n) { for (auto &q : n.l) q.Fit = q.Fib = 0; }
static void drop_params(const Cfg &c, In &n) { for (auto &q : n.l) for (size_t k = 0; k < c.kernels.size(); ++k) if (c.kernels[k] != XRTM_KERNEL_USER_DEFINED && c.kernels[k] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &x : q.par[k]) x = 0; }
static void mie_mix(const Cfg &c, In &n) { if (c.o(O_VEC)) for (auto &x : n.coef) x = phase_mix(phase_mie(c.n_elem(), (int)x[0].size()), x, .3); }
static void no_zero_omega(Rng &r, In &n, double hi) { for (auto &x : n.omega) if (x == 0. || x > hi) x = r.u(.1, hi); }
// one complete solution of a fresh model; false: the case says nothing
static bool sol(const Cfg &c, const In &n, int s, int what, Res &q, Rng *r = nullptr) { Model m(c); if (!ready(m, n, r)) return false; q = m.run(s, n, what); if (q.rc) { skip("run_refused"); return false; } return true; }
static std::string D(const Cfg &c, const In &n) { return c.desc() + " | " + n.desc(); }
static double pade_cap(Rng &r, int s) { return s & PADE ? .4 : r.p(.3) ? 20. : 3.; }

static std::string worst_at(const VD &a, const VD &b) { size_t j = 0; double w = -1; for (size_t i = 0; i < a.size(); ++i) if (std::fabs(a[i] - b[i]) > w) { w = std::fabs(a[i] - b[i]); j = i; } return a.empty() ? "" : sf("worst at %d of %d: %.10g %.10g; ", (int)j, (int)a.size(), a[j], b[j]); }
// ---------------------------------------------------------------- C06 the solvers agree
PROP(C06) { UNUSED_K;
  int mode = r.i(0, 9);
  if (mode == 9 && r.p(.5)) { // streams against eig_bvp with the same number of quadrature points, in a model of its own
    int s = r.pick({TWO, FOUR, SIX}); Gen g = exact(r); g.solvers = s; g.saves = 0; g.noaz = r.p(.1); Cfg c; In n; gen(r, g, c, n); fine(n); no_zero_omega(r, n, .999); c.solvers = s; c.options &= ~(O_TH);
    Cfg c2 = c; c2.solvers = EIGB; int w = r.p(.5) ? RADX : FLX; Res a, b; if (!sol(c, n, s, w, a, &r) || !sol(c2, n, EIGB, w, b, &r)) return;
    seen("pair", sf("%s/eig_bvp", sname(s))); if (w == RADX ? iscale(b) > 0 : true) nontrivial(D(c, n));
    verdict("stream_solver", w == RADX ? rdev(a, b, 1e-5) : fdev(a, b, 1e-5), sf("agree.%s.%s", sname(s), c.cls().c_str()), show(cat(a.Ip, a.fp)) + " " + show(cat(b.Ip, b.fp)) + " " + D(c, n)); return;
  }
  if (mode == 9) { // the same, both in one model, in either order
    int s = r.pick({TWO, TWO, FOUR, SIX}); Gen g = exact(r); g.solvers = s | EIGB; g.saves = -1; g.noaz = r.p(.1); g.der = s == TWO && r.p(.6); Cfg c; In n; gen(r, g, c, n); fine(n); n.Fit = n.Fib = 0; no_iso_l(n); bool der = c.o(O_DER); no_zero_omega(r, n, der ? .97 : .999); if (der) drop_params(c, n);
    int w = r.p(.5) ? RADX : FLX; Model m(c); if (!ready(m, n, &r)) return; bool first = r.p(.5); Res a, b; if (first) a = m.run(s, n, w); b = m.run(EIGB, n, w); if (!first) a = m.run(s, n, w); if (a.rc || b.rc) { skip("run_refused"); return; }
    seen("pair", sf("%s+eig_bvp", sname(s))); nontrivial(D(c, n));
    if (!verdict("stream_solver", w == RADX ? rdev(a, b, 1e-5) : fdev(a, b, 1e-5), sf("agree2.%s.%s", sname(s), c.cls().c_str()), show(cat(a.Ip, a.fp)) + " " + show(cat(b.Ip, b.fp)) + " " + D(c, n))) return;
    if (der) verdict("stream_derivative", w == RADX ? kdev(a, b, 1e-4, 1e-6 * iscale(a)) : fldev(a, b, 1e-4, 1e-6 * std::max(vmax(a.fp), vmax(a.fm))), sf("agree2_l.%s.%s", sname(s), c.cls().c_str()), show(cat(a.Kp, a.fpl)) + " " + show(cat(b.Kp, b.fpl)) + " " + D(c, n)); return;
  }
  bool sfi = mode == 8; std::vector<int> A = sfi ? std::vector<int>{EIGB, MEM} : std::vector<int>{EIGA, EIGB, DOUB, PADE, MEM}; r.shuffle(A); int s1 = A[0], s2 = A[1];
  Gen g = exact(r); g.solvers = s1 | s2; g.sfi = sfi; g.tau_hi = pade_cap(r, s1 | s2); g.der = r.p(.4); g.p_vec = .4; g.taus = sfi ? -1 : 0; g.noaz = r.p(.05); Cfg c; In n; gen(r, g, c, n); fine(n); 
  bool der = c.o(O_DER); no_zero_omega(r, n, der ? .97 : .9999); if (der) { mie_mix(c, n); drop_params(c, n); } gas_layers(r, c, n);
  int w = r.p(.6) ? RADX : FLX; Model m(c); if (!ready(m, n, &r)) return;
  Res a = m.run(s1, n, w), b = m.run(s2, n, w); if (a.rc || b.rc) { skip("run_refused"); return; }
  seen("pair", std::string(sname(s1)) + "/" + sname(s2)); seen("class", c.cls()); nontrivial(D(c, n));
  double tol = (s1 | s2) & PADE ? 1e-4 : (s1 | s2) & DOUB ? 2e-5 : 2e-6; std::string sg = sf("%s-%s.%s.%s", sname(std::min(s1, s2)), sname(std::max(s1, s2)), w == RADX ? "rad" : "flux", c.cls().c_str());
  auto dv = [&]() { return w == RADX ? rdev(a, b, tol) : fdev(a, b, tol, 1e-10); }; auto dl = [&]() { return !der ? 0. : w == RADX ? kdev(a, b, 20 * tol, 1e-6 * iscale(a)) : fldev(a, b, 20 * tol, 1e-6 * std::max(vmax(a.fp), vmax(a.fm))); };
  double v = dv(), vl = dl();
  // a small disagreement is only one if it is there in a neighbouring problem too: near a resonance of the beam, an eigenvalue and a view digits are lost
  if (std::max(v, vl) > 1 && std::max(v, vl) < 1e3) { In x = n; resonance_free(x); Model q(c); if (q.ok && !q.set_all(x)) { Res a0 = a, b0 = b; a = q.run(s1, x, w); b = q.run(s2, x, w); if (!a.rc && !b.rc) { count("repeated_in_a_neighbouring_problem"); v = std::min(v, dv()); vl = std::min(vl, dl()); } a = a0; b = b0; } }
  if (!verdict("solver_agreement", v, "agree." + sg, show(cat(a.Ip, a.fp)) + " " + show(cat(b.Ip, b.fp)) + show(cat(a.Im, a.fm)) + " " + show(cat(b.Im, b.fm)) + " " + D(c, n))) return;
  if (der) verdict("solver_derivative_agreement", vl, "agree_l." + sg, show(cat(a.Kp, a.fpl)) + " " + show(cat(b.Kp, b.fpl)) + " " + D(c, n));
}

// ---------------------------------------------------------------- C10 splitting a layer changes nothing
PROP(C10) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, MEM, DOUB, PADE, SING, TWOOS, SOS, TWO, FOUR, SIX}); Gen g = exact(r); g.full = r.p(.5); g.solvers = s; g.psa = 0; g.tau_lo = 1e-2; g.tau_hi = s & (PADE | SOS) ? .4 : pade_cap(r, s); g.nl_max = 4; g.taus = r.p(.2) ? -1 : 0; Cfg c; In n; gen(r, g, c, n); fine(n); 
  bool der = c.o(O_DER); if (der) { no_zero_omega(r, n, .97); mie_mix(c, n); drop_params(c, n); } else no_zero_omega(r, n, .9999); gas_layers(r, c, n);
  int i = r.i(0, c.n_layers - 1); double f = r.u(.1, .9);
  Cfg c2 = c; In b = n; c2.n_layers++; auto dup = [&](auto &v) { auto x = v[i]; v.insert(v.begin() + i, x); };
  dup(b.omega); dup(b.coef); dup(b.ltau); b.ltau[i] *= f; b.ltau[i + 1] *= 1 - f; for (auto &q : b.l) { dup(q.omega); dup(q.coef); dup(q.ltau); q.ltau[i] *= f; q.ltau[i + 1] *= 1 - f; if (!q.lb.empty()) q.lb.insert(q.lb.begin() + i + 1, (1 - f) * q.lb[i] + f * q.lb[i + 1]); }
  if (!b.lb.empty()) b.lb.insert(b.lb.begin() + i + 1, (1 - f) * n.lb[i] + f * n.lb[i + 1]);
  for (auto &l : b.out_levels) if (l > i) ++l;
  // the source inside a layer is linear in optical depth, so a derivative with respect to ltau moves with the fraction
  int w = (s & SING) || r.p(.6) ? RADX : FLX; Res x, y; if (!sol(c, n, s, w, x, &r) || !sol(c2, b, s, w, y, &r)) return;
  seen("solver", sname(s)); seen("class", c.cls()); nontrivial(D(c, n)); double tol = s & SOS ? 2e-3 : s & PADE ? 1e-4 : s & DOUB ? 2e-5 : 1e-6; std::string sg = sf("%s.%s.%s", sname(s), w == RADX ? "rad" : "flux", c.cls().c_str());
  if (!verdict("split_layer", w == RADX ? rdev(x, y, tol) : fdev(x, y, tol, 1e-10), "split." + sg, sf("layer %d at %.3f: ", i, f) + show(cat(x.Ip, x.fp)) + " " + show(cat(y.Ip, y.fp)) + show(cat(x.Im, x.fm)) + " " + show(cat(y.Im, y.fm)) + D(c, n))) return;
  if (der) verdict("split_layer_derivatives", w == RADX ? kdev(x, y, 20 * tol, 1e-6 * iscale(x)) : fldev(x, y, 20 * tol, 1e-6 * std::max(vmax(x.fp), vmax(x.fm))), "split_l." + sg, sf("layer %d at %.3f: ", i, f) + show(cat(x.Kp, x.fpl)) + " " + show(cat(y.Kp, y.fpl)) + D(c, n));
}

// ---------------------------------------------------------------- C11 what is asked for does not change what is returned
static Res pickres(const Res &a, const std::vector<int> &lv, const std::vector<int> &th, const std::vector<int> &ph) {
  Res q = a; q.nl = lv.size(); q.nt = th.size(); q.np = ph.size(); q.Ip.clear(); q.Im.clear(); q.Kp.clear(); q.Km.clear();
  for (int i : lv) { for (int t : th) for (int p : ph) for (int s = 0; s < a.ns; ++s) { if (!a.Ip.empty()) q.Ip.push_back(a.Ip[a.ix(i, t, p, s)]); if (!a.Im.empty()) q.Im.push_back(a.Im[a.ix(i, t, p, s)]); }
    for (int d = 0; d < a.nd; ++d) for (int t : th) for (int p : ph) for (int s = 0; s < a.ns; ++s) { if (!a.Kp.empty()) q.Kp.push_back(a.Kp[a.kx(i, d, t, p, s)]); if (!a.Km.empty()) q.Km.push_back(a.Km[a.kx(i, d, t, p, s)]); } }
  auto sub = [&](VD &v, int w) { if (v.empty()) return; VD o; for (int i : lv) for (int d = 0; d < w; ++d) o.push_back(v[i * w + d]); v = o; };
  sub(q.mp, 1); sub(q.mm, 1); sub(q.fp, 1); sub(q.fm, 1); sub(q.mpl, a.nd); sub(q.mml, a.nd); sub(q.fpl, a.nd); sub(q.fml, a.nd); return q;
}
PROP(C11) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, EIGB, MEM, MEM, DOUB, PADE, SING, TWOOS, SOS, TWO, FOUR, SIX}); Gen g = exact(r); g.full = 0; g.solvers = s; g.tau_hi = s & (PADE | SOS) ? .4 : 3.; g.thetas = r.i(2, 4); g.nphi = r.i(2, 4); g.om_hi = .999; Cfg c; In n; gen(r, g, c, n); fine(n); drop_params(c, n); if (c.o(O_DER)) { no_zero_omega(r, n, .97); mie_mix(c, n); }
  int w = s & SING ? RADX : r.pick({RADX, RADX | FLX, RADX | (int)XRTM_OUTPUT_FLUX});
  for (size_t t = 1; t < n.out_thetas.size(); ++t) if (n.out_thetas[t] == 0.) n.out_thetas[t] = r.u(1, 80); 
  c.n_kernel_quad = 40; /* every Fourier term of the surface resolved */ if (n.theta0 < 3 && c.o(O_SOL)) for (auto &x : n.out_thetas) if (x < 3) n.theta0 = 5; /* the sun is moved off the viewing direction by 1e-5 in cosine */
  while (c.o(O_SOL) && !clear_mu0(c, n)) n.theta0 += n.theta0 < 60 ? .37 : -7.1; // as above
  if (s & TWOOS) { c.n_out_levels = 1; n.out_levels = {0}; } // two_os computes the top only: see the probe two_os_bottom
  Model m(c); if (!ready(m, n, &r)) return; Res a = m.run(s, n, w); if (a.rc) { skip("run_refused"); return; }
  // a second request: other levels, angles, azimuths, directions, outputs
  int mode = r.i(0, 5); Cfg c2 = c; In b = n; int w2 = w; std::vector<int> lv, th, ph; for (int i = 0; i < a.nl; ++i) lv.push_back(i); for (int i = 0; i < a.nt; ++i) th.push_back(i); for (int i = 0; i < a.np; ++i) ph.push_back(i);
  if (mode == 0 || mode == 5) { r.shuffle(th); th.resize(r.i(1, a.nt)); c2.n_out_thetas = th.size(); b.out_thetas.clear(); b.phis.clear(); for (int t : th) { b.out_thetas.push_back(n.out_thetas[t]); b.phis.push_back(n.phis[t]); } }
  if (mode == 1 || mode == 5) { r.shuffle(ph); ph.resize(r.i(1, a.np)); for (auto &q : b.phis) { VD o; for (int p : ph) o.push_back(q[p]); q = o; } }
  if (mode == 2 && a.nl > 1) { r.shuffle(lv); lv.resize(r.i(1, a.nl)); std::sort(lv.begin(), lv.end()); c2.n_out_levels = lv.size(); if (c.o(O_LEV)) { b.out_levels.clear(); for (int l : lv) b.out_levels.push_back(n.out_levels[l]); } else { b.out_taus.clear(); for (int l : lv) b.out_taus.push_back(n.out_taus[l]); } }
  bool up = true, dn = true; if (mode == 3) { if (r.p(.5)) { c2.options &= ~O_UP; up = false; } else { c2.options &= ~O_DN; dn = false; } }
  if (mode == 4) { if (c.o(O_LEV) && !(s & (ADDERS | SOS | TWOOS)) && r.p(.7)) { // levels as optical depths
      c2.options = (c2.options & ~O_LEV) | O_TAU; std::set<double> q; for (int l : n.out_levels) { double t = 0; for (int i = 0; i < l; ++i) t += n.ltau[i]; q.insert(t); } b.out_taus.assign(q.begin(), q.end()); double tt = 0; for (double x : n.ltau) tt += x; for (auto &x : b.out_taus) x = std::min(x, tt);
      if (c.o(O_DER)) { c2.options &= ~O_DER; c2.n_derivs = 0; } }
    else { w2 = w == RADX ? RADX | (s & SING ? 0 : FLX) : RADX; } }
  Model m2(c2); if (!ready(m2, b, &r)) return; Res e = m2.run(s, b, w2); if (e.rc) { skip("run_refused"); return; }
  Res q = pickres(a, lv, th, ph); if (!up) { q.Ip.clear(); q.Kp.clear(); q.mp.clear(); q.fp.clear(); q.mpl.clear(); q.fpl.clear(); } if (!dn) { q.Im.clear(); q.Km.clear(); q.mm.clear(); q.fm.clear(); q.mml.clear(); q.fml.clear(); }
  if (w2 != w) { if (e.fp.empty()) { q.fp.clear(); q.fm.clear(); q.fpl.clear(); q.fml.clear(); } if (e.mp.empty()) { q.mp.clear(); q.mm.clear(); q.mpl.clear(); q.mml.clear(); } if (q.fp.empty()) { e.fp.clear(); e.fm.clear(); e.fpl.clear(); e.fml.clear(); } if (q.mp.empty()) { e.mp.clear(); e.mm.clear(); e.mpl.clear(); e.mml.clear(); } }
  if (c2.n_derivs != c.n_derivs) { q.Kp.clear(); q.Km.clear(); q.mpl.clear(); q.mml.clear(); q.fpl.clear(); q.fml.clear(); }
  static const char *mn[] = {"thetas", "phis", "levels", "direction", "taus_or_outputs", "thetas_and_phis"}; seen("varied", mn[mode]); seen("solver", sname(s)); seen("class", c.cls()); nontrivial(D(c, n) + D(c2, b));
  double tol = 1e-6; std::string sg = sf("%s.%s.%s", mn[mode], sname(s), c.cls().c_str()), d = show(cat(q.Ip, q.Im)) + " " + show(cat(e.Ip, e.Im)) + " " + D(c, n) + " || " + D(c2, b);
  if (!verdict("selection", std::max(rdev(q, e, tol), fdev(q, e, tol)), "select." + sg, d)) return;
  if (c2.n_derivs) verdict("selection_derivatives", std::max(kdev(q, e, 20 * tol, 1e-7 * iscale(a)), fldev(q, e, 20 * tol, 1e-7 * std::max(vmax(a.fp), vmax(a.fm)))), "select_l." + sg, d);
}

// ---------------------------------------------------------------- C12 linear in the sources
PROP(C12) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, EIGB, DOUB, PADE, MEM, SING, TWOOS, SOS, TWO, FOUR, SIX}); Gen g = exact(r); g.full = 0; g.solvers = s; g.tau_hi = s & (PADE | SOS) ? .4 : 3.; g.sol = 1; if (s & (ADDERS | EIGB)) g.th = r.p(.6); g.om_hi = .999; Cfg c; In n; gen(r, g, c, n); fine(n); drop_params(c, n); no_zero_omega(r, n, c.o(O_DER) ? .97 : .999); if (c.o(O_DER)) mie_mix(c, n); gas_layers(r, c, n);
  // with corrections and a Fourier tolerance (probe tms_tolerance_brdf: not over anisotropic kernels) another code path corrects
  bool lamb = true; for (int y : c.kernels) if (y != XRTM_KERNEL_LAMBERTIAN) lamb = false;
  double ft = c.o(O_TMS) && lamb && r.p(.5) ? 1e-10 : 0.; n.fourier_tol = ft; double tl = ft > 0 ? 1e-6 : 1e-7; if (ft > 0) count("with_fourier_tolerance");
  bool iso = s & (ADDERS | EIGB); if (iso && !c.o(O_TD) && !c.o(O_BU)) { n.Fit = r.u(0, 1); n.Fib = r.p(.5) ? r.u(0, 1) : 0; }
  // parts: solar, thermal atmosphere, thermal surface, isotropic
  auto part = [&](double a, double b, double t, double u) { In x = n; x.F0 *= a; for (auto &y : x.lb) y *= b; x.sb *= t; x.Fit *= u; x.Fib *= u; for (auto &q : x.l) { for (auto &y : q.lb) y *= b; q.sb *= t; q.Fit *= u; q.Fib *= u; } return x; };
  double A = r.u(.2, 3), B = r.u(.2, 3), T = r.u(.2, 3), U = r.u(.2, 3); int w = (s & SING) || r.p(.6) ? RADX : FLX; Model m(c); if (!m.ok) { skip("create"); return; }
  In all = part(A, B, T, U); if (!ready(m, all, &r)) return; Res t = m.run(s, all, w); if (t.rc) { skip("run_refused"); return; }
  Res acc; bool first = true; int np = 0; for (int q4 = 0; q4 < 4; ++q4) { if ((q4 == 1 || q4 == 2) && !c.o(O_TH)) continue; if (q4 == 3 && !iso) continue;
    double f = q4 == 0 ? A : q4 == 1 ? B : q4 == 2 ? T : U; In x = part(q4 == 0, q4 == 1, q4 == 2, q4 == 3); if (!ready(m, x, &r)) return; Res q = m.run(s, x, w); if (q.rc) { skip("run_refused"); return; } ++np;
    auto add = [&](VD &o, VD &v) { if (first) o.assign(v.size(), 0.); for (size_t i = 0; i < v.size(); ++i) o[i] += f * v[i]; };
    if (first) { acc = q; } add(acc.Ip, q.Ip); add(acc.Im, q.Im); add(acc.Kp, q.Kp); add(acc.Km, q.Km); add(acc.mp, q.mp); add(acc.mm, q.mm); add(acc.fp, q.fp); add(acc.fm, q.fm); add(acc.mpl, q.mpl); add(acc.mml, q.mml); add(acc.fpl, q.fpl); add(acc.fml, q.fml); first = false; }
  seen("solver", sname(s)); seen("class", c.cls()); seen("parts", sf("%d", np)); nontrivial(D(c, n)); if (c.o(O_TMS)) count("tms"); std::string sg = sf("%s.%s.%s", sname(s), w == RADX ? "rad" : "flux", c.cls().c_str()), d = show(cat(t.Ip, t.fp)) + " " + show(cat(acc.Ip, acc.fp)) + " " + D(c, all);
  if (!verdict("superposition", w == RADX ? rdev(t, acc, s & SOS ? 1e-4 : tl) : fdev(t, acc, s & SOS ? 1e-4 : tl), "super." + sg, d)) return;
  if (c.o(O_DER)) verdict("superposition_derivatives", w == RADX ? kdev(t, acc, s & SOS ? 1e-3 : 1e-5, 1e-8 * iscale(t)) : fldev(t, acc, s & SOS ? 1e-3 : 1e-5, 1e-8 * std::max(vmax(t.fp), vmax(t.fm))), "super_l." + sg, show(cat(t.Kp, t.fpl)) + " " + show(cat(acc.Kp, acc.fpl)) + " " + D(c, all));
}

// ---------------------------------------------------------------- C13 energy
PROP(C13) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, EIGB, MEM, DOUB, PADE, TWO, FOUR, SIX}); Gen g = exact(r); g.solvers = s; g.tau_hi = s & PADE ? .4 : r.p(.3) ? 20. : 3.; g.der = 0; g.th = 0; g.sol = 1; g.psa = 0; g.tms = 0; g.dm = 0; g.nkern = r.i(0, 1); g.allkern = 0; g.noaz = 0; Cfg c; In n; gen(r, g, c, n); fine(n); 
  bool cons = r.p(.5); if (cons) for (auto &x : n.omega) x = r.p(.7) ? 1. : 1 - 1e-9; int nk = c.kernels.size(); if (nk && r.p(.3)) n.amp[0] = 1.;
  if (!(s & (ADDERS | EIGB))) n.Fit = n.Fib = 0;
  Res a; if (!sol(c, n, s, FLX, a, &r)) return; seen("solver", sname(s)); seen("class", c.cls()); nontrivial(D(c, n));
  double F = n.F0 * std::cos(n.theta0 * D2R_) + PI * std::max(n.Fit, 0.) + PI * n.Fib, tol = s & PADE ? 1e-4 : s & DOUB ? 2e-5 : 1e-5; std::string sg = sf("%s.%s", sname(s), c.cls().c_str());
  std::vector<double> net; for (int i = 0; i < a.nl; ++i) net.push_back(a.fp[i] - a.fm[i]);
  double m = 0; for (double x : a.fp) m = std::max(m, -x); for (double x : a.fm) m = std::max(m, -x);
  verdict("no_negative_flux", m / (tol * F), "neg." + sg, show(a.fp) + show(a.fm) + D(c, n));
  if (c.o(O_LEV)) { double up = 0, gain = 0; for (int i = 0; i + 1 < a.nl; ++i) { double e = net[i + 1] - net[i]; /* net upward flux below minus above = absorbed with a minus */ gain = std::max(gain, -(-e)); up = std::max(up, std::fabs(e)); (void)gain; }
    double worst = 0; for (int i = 0; i + 1 < a.nl; ++i) worst = std::max(worst, (net[i] - net[i + 1])); // net upward flux must not increase with height
    verdict("no_energy_created", worst / (tol * F), "create." + sg, show(a.fp) + show(a.fm) + D(c, n));
    if (cons && a.nl > 1) { count("conservative_cases"); verdict("energy_conserved", up / ((10 * tol + 3e-4 * sumv(n.ltau)) * F) /* the library takes omega = 1 as 1 - 1e-5 */, "conserve." + sg, show(a.fp) + show(a.fm) + D(c, n)); } }
  if (nk && c.o(O_LEV)) for (int i = 0; i < a.nl; ++i) if (n.out_levels[i] == c.n_layers) { double e = a.fp[i] - n.amp[0] * a.fm[i] - PI * 0 * n.Fib; if (n.Fib == 0) verdict("lambertian_surface", std::fabs(e) / (20 * tol * F), "lambert." + sg, show(a.fp) + show(a.fm) + D(c, n)); }
}

// ---------------------------------------------------------------- C14 reciprocity
PROP(C14) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, MEM, DOUB, PADE, SING, TWOOS, SOS}); Gen g = exact(r); g.full = r.p(.6); g.solvers = s; g.tau_hi = s & (PADE | SOS) ? .4 : 3.; g.der = 0; g.th = 0; g.sol = 1; g.psa = 0; g.taus = 0; g.nlev = 2; g.interior = 0; g.thetas = 1; g.nphi = 2; g.noaz = r.p(.05); g.allkern = 1; Cfg c; In n; gen(r, g, c, n); fine(n);  no_zero_omega(r, n, .9999);
  for (int kt : c.kernels) if (kt == XRTM_KERNEL_DIRECT_AND_DIFFUSE || kt == XRTM_KERNEL_LI_SPARSE || kt == XRTM_KERNEL_LI_DENSE) return skip("kernel"); // not symmetric by definition
  n.F0 = 1; n.Fit = n.Fib = 0; c.n_out_levels = 2; n.out_levels = {0, c.n_layers}; n.theta0 = r.u(1, 70); n.out_thetas = {r.u(1, 70)}; bool trans = c.kernels.empty();
  In b = n; std::swap(b.theta0, b.out_thetas[0]); if (r.p(.5)) for (auto &p : b.phis) for (auto &x : p) x = 2 * n.phi0 - x;
  if (trans) { std::reverse(b.ltau.begin(), b.ltau.end()); std::reverse(b.omega.begin(), b.omega.end()); std::reverse(b.coef.begin(), b.coef.end()); }
  Res x, y, z; if (!sol(c, n, s, RADX, x, &r)) return; if (!sol(c, b, s, RADX, y, &r)) return;
  if (trans) { In e = b; e.ltau = n.ltau; e.omega = n.omega; e.coef = n.coef; if (!sol(c, e, s, RADX, z, &r)) return; } else z = y;
  double m0 = std::cos(n.theta0 * D2R_), m1 = std::cos(n.out_thetas[0] * D2R_), tol = s & SOS ? 2e-2 : s & PADE ? 5e-4 : 1e-4; seen("solver", sname(s)); seen("class", c.cls()); for (int kt : c.kernels) seen("kernel", kern_name(kt)); nontrivial(D(c, n));
  std::string sg = sf("%s.%s%s", sname(s), c.cls().c_str(), c.kernels.size() ? ("." + std::string(kern_name(c.kernels[0]))).c_str() : "");
  for (int p = 0; p < x.np; ++p) {
    double u = x.Ip[x.ix(0, 0, p, 0)] / m0, v = z.Ip[z.ix(0, 0, p, 0)] / m1; if (!verdict("reflected", std::fabs(u - v) / (tol * std::max(std::fabs(u), std::fabs(v)) + 1e-2 * tol), "recip.R." + sg, sf("%.10g %.10g ", u, v) + D(c, n))) return;
    if (trans && s != TWOOS && s != SOS) { double u2 = x.Im[x.ix(1, 0, p, 0)] / m0, v2 = y.Im[y.ix(1, 0, p, 0)] / m1; if (!verdict("transmitted", std::fabs(u2 - v2) / (tol * std::max(std::fabs(u2), std::fabs(v2)) + 1e-2 * tol), "recip.T." + sg, sf("%.10g %.10g ", u2, v2) + D(c, n))) return; }
  }
}

// ---------------------------------------------------------------- C15 fluxes are integrals of the radiances
PROP(C15) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, MEM, DOUB, PADE, TWO, FOUR, SIX, TWOOS, SOS}); Gen g; g.solvers = s; g.sfi = 0; g.thetas = 0; g.tms = 0; g.fold = 0; g.nq_max = 5; g.tau_hi = s & (PADE | SOS) ? .4 : 3.; g.om_hi = .999; g.p_der = .5; Cfg c; In n; gen(r, g, c, n); c.options &= ~O_SFI; c.n_out_thetas = 0; n.out_thetas.clear(); fine(n); drop_params(c, n); no_zero_omega(r, n, c.o(O_DER) ? .97 : .999); if (c.o(O_DER)) mie_mix(c, n);
  if (s & (SOS | TWOOS)) c.options &= ~O_DER, c.n_derivs = 0, n.l.clear();
  int np = 2 * std::max(c.max_coef, 2 * c.n_quad) + 3; VD ph; double o = r.u(0, 360); for (int i = 0; i < np; ++i) ph.push_back(o + i * 360. / np); n.phis.assign(c.n_quad, ph);
  Model m(c); if (!ready(m, n, &r)) return; Res a = m.run(s, n, RADX | FLX); if (a.rc) { skip("run_refused"); return; }
  VD mu(c.n_quad), wt(c.n_quad); xrtm_qx(m.d, mu.data()); xrtm_qw(m.d, wt.data()); seen("solver", sname(s)); seen("class", c.cls()); nontrivial(D(c, n));
  auto avg = [&](const VD &I, int i, int d, int t) { double x = 0; for (int p = 0; p < a.np; ++p) x += I[d < 0 ? a.ix(i, t, p, 0) : a.kx(i, d, t, p, 0)]; return x / a.np; };
  double ttau = 0; VD lt{0}; for (double x : n.ltau) { ttau += x; lt.push_back(ttau); }
  std::string sg = sf("%s.%s", sname(s), c.cls().c_str()); double sc = std::max(vmax(a.fp), vmax(a.fm));
  bool plain = !c.o(O_DM) && !c.o(O_PSA); double mu0 = std::cos(n.theta0 * D2R_);
  for (int i = 0; i < a.nl; ++i) for (int d = -1; d < a.nd; ++d) {
    double up = 0, dn = 0, um = 0, dm = 0; for (int t = 0; t < c.n_quad; ++t) { double x = avg(d < 0 ? a.Ip : a.Kp, i, d, t), y = avg(d < 0 ? a.Im : a.Km, i, d, t); up += 2 * PI * wt[t] * mu[t] * x; dn += 2 * PI * wt[t] * mu[t] * y; um += .5 * wt[t] * x; dm += .5 * wt[t] * y; }
    double f1 = d < 0 ? a.fp[i] : a.fpl[i * a.nd + d], f2 = d < 0 ? a.fm[i] : a.fml[i * a.nd + d], g1 = d < 0 ? a.mp[i] : a.mpl[i * a.nd + d], g2 = d < 0 ? a.mm[i] : a.mml[i * a.nd + d];
    double S = std::max(sc, d < 0 ? 0. : std::max(vmax(a.fpl), vmax(a.fml))), tol = 1e-6 * S + 1e-14; std::string msg = sf("level %d slot %d up %.10g %.10g mean %.10g %.10g down (diffuse) %.10g total %.10g; ", i, d, up, f1, um, g1, dn, f2) + D(c, n);
    if (!verdict("flux_up", std::fabs(up - f1) / tol, "flux_up." + sg, msg)) return; if (!verdict("mean_up", std::fabs(um - g1) / tol, "mean_up." + sg, msg)) return;
    // the direct beam is the rest of the downward flux; mean and flux must agree on it
    double b1 = f2 - dn, b2 = g2 - dm; if (c.o(O_SOL)) { if (!verdict("direct_beam", std::fabs(b1 - 4 * PI * b2 * mu0) / (20 * tol), "direct." + sg, sf("flux %.10g mean %.10g ", b1, b2) + msg)) return; }
    else if (!verdict("no_direct_beam", std::max(std::fabs(b1), std::fabs(b2)) / tol, "nodirect." + sg, msg)) return;
    if (d < 0 && c.o(O_SOL) && plain) { double t = c.o(O_TAU) ? n.out_taus[i] : lt[n.out_levels[i]]; if (!verdict("direct_beam_value", std::fabs(b1 - n.F0 * mu0 * std::exp(-t / mu0)) / (10 * tol + 1e-6 * n.F0), "direct_value." + sg, sf("%.10g %.10g ", b1, n.F0 * mu0 * std::exp(-t / mu0)) + msg)) return; }
    if (d >= 0 && c.o(O_SOL) && plain && c.o(O_LEV)) { double t = 0, tl = 0; for (int j = 0; j < n.out_levels[i]; ++j) { t += n.ltau[j]; tl += n.l[d].ltau[j]; } double ex = -n.F0 * std::exp(-t / mu0) * tl; if (!verdict("direct_beam_derivative", std::fabs(b1 - ex) / (20 * tol + 1e-5 * n.F0), "direct_l." + sg, sf("%.10g %.10g ", b1, ex) + msg)) return; }
  }
}

// ---------------------------------------------------------------- C16 azimuth
PROP(C16) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, EIGB, MEM, DOUB, PADE, SING, TWOOS, SOS, TWO, FOUR, SIX}); Gen g; g.solvers = s; g.nq_max = 4; g.tau_hi = s & (PADE | SOS) ? .4 : 3.; g.om_hi = .999; g.nphi = 3; g.p_der = .3; g.fold = 0; Cfg c; In n; gen(r, g, c, n); fine(n); drop_params(c, n); no_zero_omega(r, n, c.o(O_DER) ? .97 : .999); if (c.o(O_DER)) mie_mix(c, n);
  Model m(c); if (!ready(m, n, &r)) return; Res a = m.run(s, n, RADX); if (a.rc) { skip("run_refused"); return; } seen("solver", sname(s)); seen("class", c.cls()); nontrivial(D(c, n)); std::string sg = sf("%s.%s", sname(s), c.cls().c_str());
  int mode = r.i(0, 4); static const char *mn[] = {"periodic", "rotation", "mirror", "nadir", "average"}; seen("law", mn[mode]); In b = n;
  if (mode == 0) { for (auto &p : b.phis) for (auto &x : p) x += x < 0 ? 360 : -360; Res q = m.run(s, b, RADX); verdict("periodic", std::max(rdev(a, q, 1e-6), kdev(a, q, 1e-6)), "azi0." + sg, show(a.Ip) + show(q.Ip) + D(c, n)); }
  if (mode == 1) { if (!c.o(O_SOL)) return skip("no_sun"); double e = r.u(-180, 180); b.phi0 = n.phi0 + e; for (auto &p : b.phis) for (auto &x : p) x += e; if (m.set(F_PHI0, b)) return skip("phi0"); Res q = m.run(s, b, RADX); verdict("rotation", std::max(rdev(a, q, 1e-7), kdev(a, q, 1e-7)), "azi1." + sg, sf("by %.3f ", e) + show(a.Ip) + show(q.Ip) + D(c, n)); }
  if (mode == 2) { for (auto &p : b.phis) for (auto &x : p) x = 2 * n.phi0 - x; Res q = m.run(s, b, RADX); auto flip = [&](VD &v) { for (size_t i = 0; i < v.size(); ++i) if ((int)(i % a.ns) >= 2) v[i] = -v[i]; }; flip(q.Ip); flip(q.Im); flip(q.Kp); flip(q.Km); verdict("mirror", std::max(rdev(a, q, 1e-7), kdev(a, q, 1e-7)), "azi2." + sg, worst_at(a.Ip, q.Ip) + worst_at(a.Im, q.Im) + show(a.Ip, 8) + show(q.Ip, 8) + D(c, n)); }
  if (mode == 3) { if (c.o(O_VEC)) return skip("vector"); for (auto &x : n.out_thetas) if (x < 3) x = r.u(5, 80); n.theta0 = 0; if (c.n_out_thetas && m.set(F_OTH, n)) return skip("angle_singularity"); if (c.o(O_SOL)) { if (m.set(F_TH0, n)) return skip("angle_singularity"); } a = m.run(s, n, RADX); if (a.rc) return skip("run_refused"); double e = 0, sc = std::max(iscale(a), kscale(a)); auto f = [&](const VD &v) { for (size_t i = 0; i < v.size(); i += a.np) for (int p = 1; p < a.np; ++p) e = std::max(e, std::fabs(v[i + p] - v[i])); }; f(a.Ip); f(a.Im); f(a.Kp); f(a.Km); verdict("overhead_sun", e / (1e-7 * sc + 1e-14), "azi3." + sg, show(a.Ip) + D(c, n)); }
  if (mode == 4) { if (s & (SING) || c.o(O_TMS) || c.o(O_NOAZ)) return skip("tms"); Cfg c2 = c; c2.options |= O_NOAZ; int np = 2 * std::max(c.max_coef, 2 * c.n_quad) + 3; VD ph; for (int i = 0; i < np; ++i) ph.push_back(13 + i * 360. / np); n.phis.assign(n.phis.size(), ph); b = n; b.phis.assign(n.phis.size(), VD(1, r.u(0, 360)));
    if (c2.o(O_TMS)) return; Model m2(c2); if (!ready(m2, b)) return; a = m.run(s, n, RADX); Res q = m2.run(s, b, RADX); if (a.rc || q.rc) return skip("run_refused"); auto av = [&](const VD &v) { VD o; for (size_t i = 0; i < v.size(); i += (size_t)a.np * a.ns) for (int t = 0; t < a.ns; ++t) { double x = 0; for (int p = 0; p < a.np; ++p) x += v[i + p * a.ns + t]; o.push_back(x / a.np); } return o; };
    Res e = q; e.Ip = av(a.Ip); e.Im = av(a.Im); e.Kp = av(a.Kp); e.Km = av(a.Km); verdict("azimuthal_mean", std::max(rdev(e, q, 1e-7), kdev(e, q, 1e-6, 1e-8 * iscale(e))), "azi4." + sg, show(e.Ip, 8) + show(q.Ip, 8) + D(c, n)); }
}
