// Probes: deterministic demonstrations of recorded defects (KNOWN-FINDINGS.txt).  "" means the behaviour is right.
#include "xmon.hpp"
static Gen plain(int s) { Gen g; g.solvers = s; g.der = 0; g.vec = 0; g.th = 0; g.sol = 1; g.psa = g.tms = g.dm = g.noaz = g.taus = g.tdbu = 0; g.saves = 0; g.nl_min = g.nl_max = 3; g.nkern = 1; g.allkern = 0; g.sfi = 0; g.thetas = 2; return g; }
PROBE("C11", two_os_bottom) {
  Gen g = plain(TWOOS); Rng r(5); Cfg c; In n; gen(r, g, c, n); c.n_out_levels = 1; n.out_levels = {c.n_layers}; Cfg c0 = c; In n0 = n; n0.out_levels = {0};
  Model a(c), b(c0); if (!a.ok || !b.ok || a.set_all(n) || b.set_all(n0)) return "";
  Res x = a.run(TWOOS, n), y = b.run(TWOOS, n0); if (x.rc || y.rc) return "";
  return dev(x.Ip, y.Ip, 1e-9, 0) <= 1 && iscale(x) > 0 ? "two_os asked for the level at the bottom returns the radiance at the top of the atmosphere" : "";
}
PROBE("C07", builtin_kernel_parameters) {
  std::string bad;
  for (int t : {3, 4, 7, 8}) {
    Gen g = plain(EIGB); g.der = 1; g.allkern = 2; g.sfi = 1; Rng r(11); Cfg c; In n; gen(r, g, c, n); c.kernels = {t}; c.n_derivs = 1; n.amp.assign(1, 0); n.par.assign(1, VD()); n.ufun.assign(1, {nullptr, nullptr}); gen_kernel(r, t, n.amp[0], n.par[0]); n.amp[0] = .1;
    Lin q; q.omega.assign(c.n_layers, 0.); q.ltau.assign(c.n_layers, 0.); q.amp = {0.}; q.par = {VD(n.par[0].size(), 0.)}; q.par[0][0] = .1; for (auto &x : n.coef) q.coef.push_back(phase_zero(1, (int)x[0].size())); n.l = {q};
    Model m(c); if (!m.ok || m.set_all(n)) continue; Res a = m.run(EIGB, n); In p = perturb(n, 0, 1e-4), k = perturb(n, 0, -1e-4); Model v(c); if (v.set_all(p)) continue; Res u = v.run(EIGB, p); if (v.set_all(k)) continue; Res w = v.run(EIGB, k);
    double e = 0, s = 0; for (size_t i = 0; i < a.Kp.size() && i < u.Ip.size(); ++i) { double d = (u.Ip[i] - w.Ip[i]) / 2e-4; e = std::max(e, std::fabs(d - a.Kp[i])); s = std::max(s, std::fabs(d)); }
    if (e > 1e-3 * s) bad += std::string(bad.empty() ? "" : ", ") + kern_name(t);
  }
  return bad.empty() ? "" : "derivatives with respect to the parameters of the built-in kernels are not provided (zero or nan): " + bad;
}
PROBE("C31", tms_tolerance_brdf) {
  Gen g = plain(EIGB); g.full = 1; g.sfi = 1; g.tms = 1; g.fold = 0; g.allkern = 2; g.tau_lo = .01; g.tau_hi = .05; Rng r(7); Cfg c; In n; gen(r, g, c, n); c.kernels = {XRTM_KERNEL_HAPKE}; c.n_kernel_quad = 40; n.amp = {.8}; n.par = {VD{.6, .8, .1}}; n.ufun.assign(1, {nullptr, nullptr}); n.theta0 = 40; n.phi0 = 0; n.Fit = n.Fib = 0; n.out_thetas = {30, 50};
  Model m(c); if (!m.ok || m.set_all(n)) return ""; xrtm_set_fourier_tol(m.d, 0.); Res a = m.run(EIGB, n); xrtm_set_fourier_tol(m.d, 1e-10); Res b = m.run(EIGB, n); if (a.rc || b.rc) return "";
  return rdev(a, b, 1e-4) > 1 ? "with n_t_tms, four_conv_new and an anisotropic surface a Fourier tolerance of 1e-10 gives other radiances than a tolerance of 0: the azimuth terms of the reflected beam are subtracted and not added back" : "";
}
static std::string one_sided(bool td, bool deriv) { // top_down / bottom_up with isotropic radiance at the far end, against adding in both directions
  Gen g = plain(EIGA); g.der = deriv ? 1 : 0; g.nl_min = g.nl_max = 3; Rng r(21); Cfg c; In n; gen(r, g, c, n); c.n_out_levels = 1; n.out_levels = {td ? c.n_layers : 0}; n.Fit = td ? 1. : 0.; n.Fib = 0; for (auto &q : n.l) q = n.l[0];
  if (deriv) { Lin &q = n.l[0]; std::fill(q.omega.begin(), q.omega.end(), 0.); std::fill(q.ltau.begin(), q.ltau.end(), 0.); for (auto &x : q.coef) for (auto &y : x) std::fill(y.begin(), y.end(), 0.); for (auto &x : q.par) std::fill(x.begin(), x.end(), 0.); std::fill(q.amp.begin(), q.amp.end(), 0.); q.Fit = 0; q.Fib = 1; for (auto &x : n.l) x = q; }
  Cfg b = c; b.options &= ~(long)(O_TD | O_BU); c.options = b.options | (td ? O_TD : O_BU);
  Model A(c), B(b); if (!A.ok || !B.ok || A.set_all(n) || B.set_all(n)) return ""; if (c.n_derivs && (A.update() || B.update())) return ""; Res x = A.run(EIGA, n), y = B.run(EIGA, n); if (x.rc || y.rc) return "";
  return (deriv ? kdev(x, y, 1e-5, 1e-7) : rdev(x, y, 1e-5)) > 1 ? "other" : ""; }
PROBE("C34", top_down_F_iso_top) { return one_sided(true, false).size() ? "with top_down the isotropic radiance at the top (F_iso_top) has no effect" : ""; }
PROBE("C34", bottom_up_F_iso_bot_l) { return one_sided(false, true).size() ? "with bottom_up and nothing else varied the derivative with respect to F_iso_bot has no effect" : ""; }
