// Physical laws, part two: single scattering, vector/scalar relations, delta-M, surfaces, thermal equilibrium, pseudo-spherical geometry.
#include "xmon.hpp"
static const int RADX = XRTM_OUTPUT_RADIANCE, FLX = XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX;
static std::string D(const Cfg &c, const In &n) { return c.desc() + " | " + n.desc(); }
static void fine(In &n) { n.fourier_tol = 0.; n.doub_d_tau = 1e-8; n.pade_s = n.pade_r = 6; n.sos_tol = 1e-12; n.sos_max_tau = .01; n.sos_max_os = 80; }
static bool sol(const Cfg &c, const In &n, int s, int what, Res &q, Rng *r = nullptr) { Model m(c); if (!ready(m, n, r)) return false; q = m.run(s, n, what); if (q.rc) { skip("run_refused"); return false; } return true; }

// the library moves mu_0 off quadrature and user cosines by up to 1e-5: keep away from that
// ---------------------------------------------------------------- C19 single scattering
static const double USIGN = 1;
// independent evaluation of the phase matrix: Legendre series for P11, generalized spherical functions P^l_02 for P12
static double series(const VD &c, int n, int nc, double x) { // n = 0: sum c_l P_l(x); n = 2: sum c_l P^l_02(x), with P^2_02 = sqrt(6)/4 (1 - x^2)
  double s = 0, a, b; int l0 = n; if (n == 0) { a = 0; b = 1; } else { a = 0; b = std::sqrt(6.) / 4 * (1 - x * x); }
  for (int l = l0; l < nc && l < (int)c.size(); ++l) { s += c[l] * b; double k = l, t = n == 0 ? ((2 * k + 1) * x * b - k * a) / (k + 1) : ((2 * k + 1) * x * b - std::sqrt(k * k - 4) * a) / std::sqrt((k + 1) * (k + 1) - 4); a = b; b = t; }
  return s;
}
// Stokes vector scattered once from an unpolarized beam with direction cosine u0 = -mu0 (down) into u (> 0 up), azimuth difference p (radians)
static void scatter1(const VVD &coef, int nc, int ns, double mu0, double u, double p, double *out) {
  double u0 = -mu0, s0 = std::sqrt(1 - u0 * u0), s1 = std::sqrt(std::max(0., 1 - u * u)), c = u * u0 + s0 * s1 * std::cos(p); c = std::max(-1., std::min(1., c));
  out[0] = series(coef[0], 0, nc, c); if (ns == 1) return; double b1 = -series(coef[4], 2, nc, c), st = std::sqrt(std::max(0., 1 - c * c)), cs = 1, sn = 0;
  // the angle at the scattered direction between the meridian and the scattering plane, from the spherical triangle
  if (st > 1e-9) { if (s1 > 1e-9) { cs = (u0 - u * c) / (s1 * st); sn = s0 * std::sin(p) / st; } else { cs = -std::cos(p) * (u > 0 ? 1 : -1); sn = std::sin(p); } }
  double c2 = cs * cs - sn * sn, s2 = 2 * sn * cs; out[1] = b1 * c2; out[2] = b1 * s2 * USIGN; if (ns > 3) out[3] = 0;
}
struct Beam { VD tau, as, tran; }; // optical depths of layers, average secant and transmittance to layer tops (+ bottom)
static Beam beam(const Cfg &c, const In &n, const VD &tau) { Beam b; int L = c.n_layers; b.tau = tau; b.as.resize(L); b.tran.assign(L + 1, 1.); double m = std::cos(n.theta0 * D2R_), prev = 0;
  for (int i = 0; i < L; ++i) { double s = 0; if (!c.o(O_PSA)) for (int j = 0; j <= i; ++j) s += tau[j] / m;
    else { double R = n.planet_r + n.levels_z[i + 1], q = R * std::sin(n.theta0 * D2R_); for (int j = 0; j <= i; ++j) { double r1 = n.planet_r + n.levels_z[j], r2 = n.planet_r + n.levels_z[j + 1]; s += tau[j] * (r1 + r2) / (std::sqrt(r1 * r1 - q * q) + std::sqrt(r2 * r2 - q * q)); } }
    b.as[i] = (s - prev) / tau[i]; b.tran[i + 1] = std::exp(-s); prev = s; }
  return b; }
// what the single scattering solver has to return: upward at level x (optical depth from the top in the unscaled column)
static double trap(double a, double b) { double d = a - b; return std::fabs(d) < 1e-12 ? std::exp(-a) : (std::exp(-b) - std::exp(-a)) / d; } // int_0^1 exp(-a t - b (1 - t)) dt
static void single_ref(const Cfg &c, const In &n, double lev_layer, int lev, bool up, double mu, double p, double qf, double *out) {
  int L = c.n_layers, ns = c.n_stokes; VD tau = n.ltau, om = n.omega; for (int i = 0; i < L; ++i) if (c.o(O_DM)) { int N = 2 * c.n_quad; double f = (int)n.coef[i][0].size() > N ? n.coef[i][0][N] / (2 * N + 1) : 0; double s = 1 - om[i] * f; tau[i] *= s; om[i] /= s; }
  Beam b = beam(c, n, tau); for (int s = 0; s < ns; ++s) out[s] = 0; double T = 1; VD P(ns);
  // lev: the layer index whose top (fraction lev_layer into it) is the level
  if (up) { for (int i = lev; i < L; ++i) { double f = i == lev ? lev_layer : 0., t = tau[i] * (1 - f); if (t > 0) { scatter1(n.coef[i], (int)n.coef[i][0].size(), ns, std::cos(n.theta0 * D2R_), mu, p, P.data()); double w = n.F0 * om[i] / (4 * PI) * b.tran[i] * std::exp(-tau[i] * f * b.as[i]) * T / mu * t * trap(t / mu + t * b.as[i], 0.); for (int s = 0; s < ns; ++s) out[s] += w * P[s]; T *= std::exp(-t / mu); } }
    if (!c.kernels.empty()) out[0] += T * b.tran[L] * n.F0 * std::cos(n.theta0 * D2R_) / PI * n.amp[0] * qf; }
  else { for (int i = std::min(lev, L - 1); i >= 0; --i) { double f = i == lev ? lev_layer : 1., t = tau[i] * f; if (t > 0) { scatter1(n.coef[i], (int)n.coef[i][0].size(), ns, std::cos(n.theta0 * D2R_), -mu, p, P.data()); double w = n.F0 * om[i] / (4 * PI) * b.tran[i] * T / mu * t * trap(t * b.as[i], t / mu); for (int s = 0; s < ns; ++s) out[s] += w * P[s]; T *= std::exp(-t / mu); } } }
}
PROP(C19) { UNUSED_K;
  if (r.p(.6)) { // closed form
    Gen g; g.solvers = SING; g.nkern = r.i(0, 1); g.allkern = 0; g.der = 0; g.sol = 1; g.nphi = r.i(1, 3); g.thetas = r.i(1, 3); g.psa = r.p(.3); g.dm = g.tms = r.p(.4); g.p_vec = .5; g.om_hi = 1.; Cfg c; In n; gen(r, g, c, n); if (n.theta0 < 2) n.theta0 = r.u(2, 80); for (auto &o : n.omega) if (o > .9999) o = .9999;
    if (!c.kernels.empty()) n.amp[0] = std::min(n.amp[0], .9); if (!clear_mu0(c, n)) return skip("angle_singularity"); Model m(c); if (!ready(m, n, &r)) return; { VD x(c.n_quad + 8); xrtm_qx(m.d, x.data()); for (int j = 0; j < c.n_quad; ++j) if (std::fabs(x[j] - std::cos(n.theta0 * D2R_)) < 2.5e-5) return skip("angle_singularity"); } /* the sun is moved off the streams */ Res a = m.run(SING, n, RADX); if (a.rc) return skip("run_refused");
    seen("class", c.cls()); nontrivial(D(c, n)); double qf = 1; if (c.o(O_QN)) { VD x(c.n_quad + 8), w(c.n_quad + 8); xrtm_qx(m.d, x.data()); xrtm_qw(m.d, w.data()); qf = 0; for (int j = 0; j < c.n_quad; ++j) qf += x[j] * w[j]; qf = .5 / qf; } VD up, dn; std::vector<double> q(c.n_stokes);
    for (int l = 0; l < a.nl; ++l) { int lev; double f = 0; if (c.o(O_TAU)) { double x = n.out_taus[l]; lev = 0; while (lev < c.n_layers - 1 && x > n.ltau[lev]) x -= n.ltau[lev++]; f = x / n.ltau[lev]; } else lev = n.out_levels[l];
      for (int t = 0; t < a.nt; ++t) for (int p = 0; p < a.np; ++p) { double ph = (n.phis[t][p] - n.phi0) * D2R_, mu = std::cos(n.out_thetas[t] * D2R_); single_ref(c, n, f, lev, true, mu, ph, qf, q.data()); up.insert(up.end(), q.begin(), q.end()); single_ref(c, n, f, lev, false, mu, ph, qf, q.data()); dn.insert(dn.end(), q.begin(), q.end()); } }
    Res b = a; b.Ip = up; b.Im = dn; if (a.Ip.empty()) b.Ip.clear(); if (a.Im.empty()) b.Im.clear();
    verdict("closed_form", rdev(a, b, c.o(O_VEC) ? 1e-7 : 1e-8), sf("closed.%s", c.cls().c_str()), show(a.Ip, 12) + show(b.Ip, 12) + "M" + show(a.Im, 12) + show(b.Im, 12) + D(c, n)); return;
  }
  // thin atmosphere: every solver tends to single scattering
  int s = r.pick({EIGA, EIGB, MEM, DOUB, PADE}); Gen g; g.full = 1; g.solvers = s | SING; g.nkern = 0; g.der = 0; g.sol = 1; g.taus = 0; g.tms = 0; g.dm = 0; g.noaz = 0; g.tau_lo = 1e-6; g.tau_hi = 1e-5; g.om_hi = .99; g.thetas = r.i(1, 3); g.nphi = 4; g.fold = 0;
  Cfg c; In n; gen(r, g, c, n); fine(n); if (n.theta0 < 2) n.theta0 = r.u(2, 80); if (!clear_mu0(c, n)) return skip("angle_singularity"); Model m(c); if (!ready(m, n, &r)) return; Res a = m.run(SING, n, RADX), b = m.run(s, n, RADX); if (a.rc || b.rc) return skip("run_refused");
  seen("solver", sname(s)); nontrivial(D(c, n));
  std::string w; size_t j = 0; double x = 0; for (size_t i = 0; i < a.Ip.size(); ++i) if (std::fabs(a.Ip[i] - b.Ip[i]) > x) { x = std::fabs(a.Ip[i] - b.Ip[i]); j = i; }
  verdict("thin_limit", rdev(a, b, s & PADE ? 2e-2 : 1e-3), sf("thin.%s.%s", sname(s), c.cls().c_str()), show(a.Ip, 12) + show(b.Ip, 12) + "M" + show(a.Im, 12) + show(b.Im, 12) + D(c, n));
}

// ---------------------------------------------------------------- C17 scalar and vector solutions
static const int VS[] = {EIGA, EIGB, MEM, DOUB, PADE, SING, SOS, TWOOS};
static Res part(const Res &a, int ns) { // the first ns Stokes elements
  Res q = a; q.ns = ns; auto cut = [&](VD &v) { VD o; for (size_t i = 0; i < v.size(); i += a.ns) for (int s = 0; s < ns; ++s) o.push_back(v[i + s]); v = o; }; cut(q.Ip); cut(q.Im); cut(q.Kp); cut(q.Km); return q;
}
static VD rest(const VD &v, int ns) { VD o; for (size_t i = 0; i < v.size(); i += ns) for (int s = 1; s < ns; ++s) o.push_back(v[i + s]); return o; }
PROP(C17) { UNUSED_K;
  int s = r.pick(std::vector<int>(VS, VS + 8)); bool unpol = r.p(.5); Gen g; g.full = 1; g.solvers = s; g.vec = 1; g.lc = 0; g.der = -1; g.fold = 0; g.tau_hi = s & (PADE | SOS) ? .4 : 3; g.stk = 0; Cfg c; In n; gen(r, g, c, n); fine(n);
  bool der = c.o(O_DER); for (auto &x : n.omega) if (x == 0. || x > .97) x = r.u(.1, .97);
  if (!der) gas_layers(r, c, n, .2);
  for (size_t i = 0; i < n.coef.size(); ++i) { int m = (int)n.coef[i][0].size();
    if (unpol) for (int e = 0; e < 6; ++e) { if (e == 4 || e == 5) for (auto &x : n.coef[i][e]) x = 0; }
    else { n.coef[i] = phase_mix(phase_ray(6, std::max(3, m)), phase_hg(6, std::max(3, m), .3), r.u(.3, 1)); for (auto &v : n.coef[i]) v.resize(m); } }
  for (auto &q : n.l) for (size_t i = 0; i < q.coef.size(); ++i) for (int e = 0; e < 6; ++e) for (auto &x : q.coef[i][e]) if (e == 5 || (unpol && e == 4)) x = 0;
  for (auto &q : n.l) for (size_t k = 0; k < c.kernels.size(); ++k) if (c.kernels[k] != XRTM_KERNEL_USER_DEFINED && c.kernels[k] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &x : q.par[k]) x = 0;
  Res a, b; int w = s & SING || r.p(.7) ? RADX : FLX; Cfg c2 = c; In n2 = n; double tol = s & PADE ? 1e-4 : s & DOUB ? 1e-5 : 1e-6;
  if (unpol && !clear_mu0(c, n)) return skip("angle_singularity"); // the sun is moved away from the angle by up to 1e-5, and only the vector model has azimuth terms then
  c.n_kernel_quad = std::max(c.n_kernel_quad, 40); // the scalar model skips the azimuth terms of a sun or view at the zenith, which few nodes would not make zero
  if (unpol) { c.n_stokes = r.pick({3, 4}); c2 = c; c2.n_stokes = 1; c2.options &= ~(O_VEC | O_GC); c2.options |= O_SCA; for (auto &x : n2.coef) x.resize(1); for (auto &q : n2.l) for (auto &x : q.coef) x.resize(1); }
  else { c.n_stokes = 4; c2 = c; c2.n_stokes = 3; }
  // the derivative of degenerate eigenvalues is not judged here (see C07): without polarization Q and U have the same eigenvalues
  if (unpol && der && (s & (EIGA | EIGB | MEM))) { c.options &= ~(long)O_DER; c.n_derivs = 0; n.l.clear(); c2.options &= ~(long)O_DER; c2.n_derivs = 0; n2.l.clear(); der = false; }
  if (!sol(c, n, s, w, a, &r) || !sol(c2, n2, s, w, b, &r)) return;
  seen("solver", sname(s)); seen("class", c.cls()); nontrivial(D(c, n)); std::string sg = sf("%s.%s.%s.%s", unpol ? "unpol" : "ns34", sname(s), w == RADX ? "rad" : "flux", c.cls().c_str());
  Res p = part(a, b.ns); double sc = std::max(iscale(a), 1e-30);
  if (!verdict("intensity", w == RADX ? rdev(p, b, tol) : fdev(a, b, tol, 1e-10), sg, show(cat(a.Ip, a.fp), 12) + show(cat(b.Ip, b.fp), 12) + "M" + show(cat(a.Im, a.fm), 12) + show(cat(b.Im, b.fm), 12) + D(c, n))) return;
  if (unpol && w == RADX) verdict("no_polarization", std::max(vmax(rest(a.Ip, a.ns)), vmax(rest(a.Im, a.ns))) / (1e-8 * sc), "pol." + sg, show(a.Ip, 12) + D(c, n));
  if (!unpol && w == RADX) { double v = 0; for (auto *x : {&a.Ip, &a.Im}) for (size_t i = 3; i < x->size(); i += 4) v = std::max(v, std::fabs((*x)[i])); verdict("no_circular", v / (1e-8 * sc), "circ." + sg, show(a.Ip, 12) + D(c, n)); }
  if (der) verdict("derivatives", w == RADX ? kdev(p, b, 20 * tol, 1e-6 * sc) : fldev(a, b, 20 * tol, 1e-6 * std::max(vmax(a.fp), vmax(a.fm))), "l." + sg, show(cat(p.Kp, a.fpl), 12) + show(cat(b.Kp, b.fpl), 12) + D(c, n));
}

// ---------------------------------------------------------------- C18 delta-M scaling
static void scale_dm(const Cfg &c, const In &n, In &m) { int N = 2 * c.n_quad; m = n;
  for (int i = 0; i < c.n_layers; ++i) { int nc = (int)n.coef[i][0].size(); double f = nc > N ? n.coef[i][0][N] / (2 * N + 1) : 0, w = n.omega[i], t = n.ltau[i]; m.ltau[i] = (1 - w * f) * t; m.omega[i] = w * (1 - f) / (1 - w * f);
    auto sub = [&](int e, int l) { return e < 4 ? f * (2 * l + 1) * ((e == 1 || e == 2) && l < 2 ? 0 : 1) : 0.; };
    for (size_t e = 0; e < m.coef[i].size(); ++e) { auto &v = m.coef[i][e]; v.resize(std::min(nc, N)); for (int l = 0; l < (int)v.size(); ++l) v[l] = (v[l] - sub((int)e, l)) / (1 - f); }
    for (size_t j = 0; j < n.l.size(); ++j) { const Lin &q = n.l[j]; Lin &o = m.l[j]; double fl = nc > N ? q.coef[i][0][N] / (2 * N + 1) : 0, wl = q.omega[i], x = wl * f + w * fl;
      o.ltau[i] = -x * t + (1 - w * f) * q.ltau[i]; o.omega[i] = (wl * (1 - f) - w * fl) / (1 - w * f) + w * (1 - f) * x / ((1 - w * f) * (1 - w * f));
      for (size_t e = 0; e < o.coef[i].size(); ++e) { auto &v = o.coef[i][e]; v.resize(std::min(nc, N)); for (int l = 0; l < (int)v.size(); ++l) { double sl = f > 0 || fl != 0 ? (e < 4 ? fl * (2 * l + 1) * ((e == 1 || e == 2) && l < 2 ? 0 : 1) : 0.) : 0.; v[l] = (v[l] - sl) / (1 - f) + (n.coef[i][e][l] - sub((int)e, l)) * fl / ((1 - f) * (1 - f)); } } } } }
PROP(C18) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, MEM, DOUB, PADE, SOS, TWOOS, TWO, FOUR, SIX}); bool tms = r.p(.4) && s != TWOOS; Gen g; g.solvers = s; g.dm = 1; g.tms = tms; g.noaz = tms ? 0 : -1; g.fold = 0; g.taus = 0; g.stk = 0; g.tau_hi = s & (PADE | SOS) ? .4 : 3; if (tms) { g.sol = 1; g.th = 0; g.der = 0; g.thetas = r.i(1, 3); }
  Cfg c; In n; gen(r, g, c, n); fine(n); if (tms && n.theta0 < 2) n.theta0 = r.u(2, 80); if (tms && !clear_mu0(c, n)) return skip("angle_singularity"); if (tms && !c.o(O_TMS)) return skip("no_tms");
  for (auto &x : n.omega) if (x > .999 || (x == 0. && c.o(O_DER))) x = .999 - r.u(0, .3);
  for (auto &x : n.coef) if (r.p(.7)) { int N = 2 * c.n_quad, m = std::max((int)x[0].size(), N + 1); if (m <= c.max_coef && c.n_elem() == 1) x = phase_hg(1, m, r.u(.3, .8)); }
  for (auto &q : n.l) { for (size_t i = 0; i < q.coef.size(); ++i) for (auto &v : q.coef[i]) { size_t m = n.coef[i][0].size(); if (v.size() != m) v.resize(m, 0.); } for (size_t k = 0; k < c.kernels.size(); ++k) if (c.kernels[k] != XRTM_KERNEL_USER_DEFINED && c.kernels[k] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &x : q.par[k]) x = 0; }
  seen("solver", sname(s)); seen("class", c.cls());
  if (tms) { // the correction is the difference of the exact and the truncated single scattering
    Cfg c2 = c; c2.options &= ~(long)O_TMS; Res a, b; Model m(c), m2(c2); if (!ready(m, n, &r) || !ready(m2, n, &r)) return; a = m.run(s, n, RADX); b = m2.run(s, n, RADX); if (a.rc || b.rc) return skip("run_refused"); nontrivial(D(c, n));
    In t; scale_dm(c, n, t); Cfg cd = c; cd.options &= ~(long)(O_DM | O_TMS); cd.kernels.clear(); Cfg cs = c; cs.kernels.clear(); VD x(c.n_stokes), y(c.n_stokes); Res d = b;
    for (int l = 0; l < a.nl; ++l) for (int th = 0; th < a.nt; ++th) for (int p = 0; p < a.np; ++p) { double ph = (n.phis[th][p] - n.phi0) * D2R_, mu = std::cos(n.out_thetas[th] * D2R_);
      for (int up = 0; up < 2; ++up) { VD &o = up ? d.Ip : d.Im; if (o.empty()) continue; single_ref(cs, n, 0, n.out_levels[l], up, mu, ph, 1, x.data()); single_ref(cd, t, 0, n.out_levels[l], up, mu, ph, 1, y.data()); for (int q = 0; q < c.n_stokes; ++q) o[d.ix(l, th, p, q)] += x[q] - y[q]; } }
    verdict("tms_correction", rdev(a, d, 2e-7), sf("tms.%s.%s", sname(s), c.cls().c_str()), show(a.Ip, 12) + show(d.Ip, 12) + "M" + show(a.Im, 12) + show(d.Im, 12) + D(c, n)); return; }
  c.options &= ~(long)O_TMS; In t; scale_dm(c, n, t); Cfg c2 = c; c2.options &= ~(long)O_DM; c2.max_coef = std::min(c.max_coef, 2 * c.n_quad); bool der = c.o(O_DER);
  int w = r.p(.6) ? RADX : FLX; Res a, b; if (!sol(c, n, s, w, a, &r) || !sol(c2, t, s, w, b, &r)) return; nontrivial(D(c, n)); double tol = s & PADE ? 1e-5 : s & SOS ? 1e-5 : 1e-6; std::string sg = sf("%s.%s.%s", sname(s), w == RADX ? "rad" : "flux", c.cls().c_str());
  if (!verdict("scaled_problem", w == RADX ? rdev(a, b, tol) : fdev(a, b, tol, 1e-10), "dm." + sg, show(cat(a.Ip, a.fp), 12) + show(cat(b.Ip, b.fp), 12) + "M" + show(cat(a.Im, a.fm), 12) + show(cat(b.Im, b.fm), 12) + D(c, n))) return;
  if (der) verdict("scaled_problem_derivatives", w == RADX ? kdev(a, b, 20 * tol, 1e-6 * iscale(a)) : fldev(a, b, 20 * tol, 1e-6 * std::max(vmax(a.fp), vmax(a.fm))), "dm_l." + sg, show(cat(a.Kp, a.fpl), 12) + show(cat(b.Kp, b.fpl), 12) + D(c, n));
}

// ---------------------------------------------------------------- C20 surface reflection
// the kernels, written from their published definitions (Wanner 1995, Spurr 2004), at incidence i (sun), reflection j (view)
static double kern_ref(int t, const VD &p, double mi, double mj, double phi) {
  double ci = mi, cj = mj, si = std::sqrt(1 - ci * ci), sj = std::sqrt(1 - cj * cj), ti = si / ci, tj = sj / cj, cp = std::cos(phi), sp = std::fabs(std::sin(phi)); auto cl = [](double x) { return std::max(-1., std::min(1., x)); };
  double cx = cl(ci * cj + si * sj * cp), xi = std::acos(cx);
  switch (t) {
    case XRTM_KERNEL_LAMBERTIAN: return 1.;
    case XRTM_KERNEL_ROUJEAN: { double ph = std::acos(cl(cp)); return ((PI - ph) * cp + sp) * ti * tj / (2 * PI) - (ti + tj + std::sqrt(std::max(0., ti * ti + tj * tj - 2 * ti * tj * cp))) / PI; }
    case XRTM_KERNEL_LI_SPARSE: case XRTM_KERNEL_LI_DENSE: { double a = std::atan(p[0] * ti), b = std::atan(p[0] * tj), ta = std::tan(a), tb = std::tan(b), sec = 1 / std::cos(a) + 1 / std::cos(b), d2 = std::max(0., ta * ta + tb * tb - 2 * ta * tb * cp), ct = std::min(1., p[1] * std::sqrt(d2 + ta * ta * tb * tb * sp * sp) / sec), tt = std::acos(ct);
      double O = (tt - std::sin(tt) * ct) * sec / PI, c2 = std::cos(a) * std::cos(b) + std::sin(a) * std::sin(b) * cp; return t == XRTM_KERNEL_LI_SPARSE ? O - sec + .5 * (1 + c2) / std::cos(b) : (1 + c2) / std::cos(b) / (sec - O) - 2; }
    case XRTM_KERNEL_ROSS_THIN: return ((PI / 2 - xi) * cx + std::sin(xi)) / (ci * cj) - PI / 2;
    case XRTM_KERNEL_ROSS_THICK: return ((PI / 2 - xi) * cx + std::sin(xi)) / (ci + cj) - PI / 4;
    case XRTM_KERNEL_HAPKE: { double gm = std::sqrt(1 - p[0]), H = (1 + 2 * ci) / (1 + 2 * ci * gm) * (1 + 2 * cj) / (1 + 2 * cj * gm), B = p[1] * p[2] / (p[2] + std::tan(xi / 2)); return p[0] / (4 * (ci + cj)) * ((1 + B) * (1 + .5 * cx) + H - 1); }
    case XRTM_KERNEL_RAHMAN: { double G = std::sqrt(std::max(0., ti * ti + tj * tj - 2 * ti * tj * cp)), P = (1 - p[1] * p[1]) / std::pow(1 + p[1] * p[1] + 2 * p[1] * cx, 1.5); return p[0] * std::pow(ci * cj * (ci + cj), p[2] - 1) * P * (1 + (1 - p[0]) / (1 + G)); }
    case XRTM_KERNEL_USER_DEFINED: return p[0] + p[1] * ci * cj + p[2] * (1 + si * sj * cp) + p[3] * (ci + cj) * (ci + cj) / 4;
  }
  return NAN;
}
static double rt_user(brdf_aux_data *a, void *, enum xrtm_brdf_geometry, int i, int j, int k, double, int nd, uchar *dv, double *, double **, double *fl) { for (int q = 0; q < nd; ++q) if (dv[q]) fl[q] = 0; return kern_ref(XRTM_KERNEL_ROSS_THICK, VD(), a->cos_theta[i], a->cos_theta[j], std::atan2(a->sin_phi[k], a->cos_phi[k])); }
PROP(C20) { UNUSED_K;
  int mode = r.i(0, 2); Gen g; g.noaz = 0; g.fold = 0; g.full = 1; g.stk = 0;
  if (mode == 0) { // thin atmosphere: the reflected beam is the Fourier series of the sum of kernels
    int s = r.pick({EIGB, EIGA, DOUB, SING, MEM}); g.solvers = s; g.der = 0; g.sol = 1; g.th = 0; g.taus = 0; g.tms = g.dm = 0; g.psa = -1; g.allkern = r.p(.7) ? 2 : 1; g.nkern = r.i(1, 3); g.tau_lo = 1e-9; g.tau_hi = 1e-8; g.thetas = r.i(1, 3); g.nphi = r.i(1, 4); g.om_hi = .5; g.up = 1; g.p_vec = .2;
    Cfg c; In n; gen(r, g, c, n); fine(n); n.Fit = n.Fib = 0; if (n.theta0 < 2) n.theta0 = r.u(2, 75); if (!clear_mu0(c, n)) return skip("angle_singularity");
    bool li = false; for (int t : c.kernels) if (t == XRTM_KERNEL_LI_SPARSE || t == XRTM_KERNEL_LI_DENSE) li = true; n.theta0 = std::min(n.theta0, 65.); for (auto &x : n.out_thetas) x = std::min(x, li ? 60. : 75.); if (!clear_mu0(c, n)) return skip("angle_singularity");
    for (double x : n.out_thetas) if (x < 1) c.n_kernel_quad = std::max(c.n_kernel_quad, 40); c.n_out_levels = 1; n.out_levels = {c.n_layers}; Model m(c); if (!ready(m, n, &r)) return; Res a = m.run(s, n, RADX); if (a.rc) return skip("run_refused"); nontrivial(D(c, n)); seen("solver", sname(s)); for (int t : c.kernels) seen("kernel", kern_name(t));
    VD kx(c.n_kernel_quad), kw(c.n_kernel_quad), x(c.n_quad + 8), w(c.n_quad + 8); bool four = false; for (int t : c.kernels) if (t != XRTM_KERNEL_LAMBERTIAN && t != XRTM_KERNEL_DIRECT_AND_DIFFUSE) four = true;
    xrtm_kernel_qx(m.d, kx.data()); xrtm_kernel_qw(m.d, kw.data()); xrtm_qx(m.d, x.data()); xrtm_qw(m.d, w.data()); double qf = 1; if (c.o(O_QN)) { qf = 0; for (int j = 0; j < c.n_quad; ++j) qf += x[j] * w[j]; qf = .5 / qf; }
    double mi = std::cos(n.theta0 * D2R_); Res b = a; std::fill(b.Ip.begin(), b.Ip.end(), 0.);
    for (int t = 0; t < a.nt; ++t) { double mj = std::cos(n.out_thetas[t] * D2R_); int NF = four ? 2 * c.n_quad : 1; for (int f = 0; f < NF; ++f) { double am = 0; for (size_t k = 0; k < c.kernels.size(); ++k) { int T = c.kernels[k]; if (T == XRTM_KERNEL_LAMBERTIAN || T == XRTM_KERNEL_DIRECT_AND_DIFFUSE) { if (!f) am += n.amp[k] * (T == XRTM_KERNEL_LAMBERTIAN ? 1. : n.par[k][c.o(O_SFI) ? 0 : 1]); } else for (int q = 0; q < c.n_kernel_quad; ++q) am += n.amp[k] * kw[q] * std::cos(f * kx[q]) * kern_ref(T, n.par[k], mi, mj, kx[q]); }
      for (int p = 0; p < a.np; ++p) b.Ip[b.ix(0, t, p, 0)] += (f ? 2 : 1) * am * std::cos(f * (n.phis[t][p] - n.phi0) * D2R_) * qf * n.F0 * mi / PI; } }
    b.Im = a.Im; verdict("kernel_value", pdev(a.Ip, VD(), b.Ip, VD(), 2e-5, 1e-9), sf("kernel.%s.%s%s", sname(s), kern_name(c.kernels[0]), c.kernels.size() > 1 ? "+" : ""), show(a.Ip, 12) + show(b.Ip, 12) + D(c, n)); return;
  }
  // the order of kernels does not matter; a user-defined kernel equals the built-in one of the same formula
  int s = r.pick({EIGB, EIGA, DOUB, PADE, SING, TWOOS, MEM, SOS, TWO, FOUR, SIX}); g.solvers = s; g.nkern = 3; g.tau_hi = s & PADE ? .4 : 2; g.der = mode == 1 ? -1 : 0; Cfg c; In n; gen(r, g, c, n); fine(n); for (auto &x : n.omega) if (x > .97 || x == 0.) x = r.u(.1, .97); n.theta0 = std::min(n.theta0, 65.);
  for (auto &q : n.l) for (size_t k = 0; k < c.kernels.size(); ++k) if (c.kernels[k] != XRTM_KERNEL_USER_DEFINED && c.kernels[k] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &x : q.par[k]) x = 0;
  Cfg c2 = c; In n2 = n; const char *what;
  if (mode == 1) { std::vector<int> o = {0, 1, 2}; r.shuffle(o); for (int k = 0; k < 3; ++k) { c2.kernels[k] = c.kernels[o[k]]; n2.amp[k] = n.amp[o[k]]; n2.par[k] = n.par[o[k]]; n2.ufun[k] = n.ufun[o[k]]; for (size_t j = 0; j < n.l.size(); ++j) { n2.l[j].amp[k] = n.l[j].amp[o[k]]; n2.l[j].par[k] = n.l[j].par[o[k]]; } } what = "kernel_order"; }
  else { c.kernels[1] = XRTM_KERNEL_ROSS_THICK; n.par[1].clear(); n.amp[1] = .1; c2 = c; n2 = n; c2.kernels[1] = XRTM_KERNEL_USER_DEFINED; n2.par[1].assign(MAX_KERNEL_PARAMS, .3); n2.ufun[1] = {USER_AUX, rt_user}; what = "user_kernel"; }
  int w = s & (SING | TWOOS | SOS) || r.p(.6) ? RADX : FLX; Res a, b; if (!sol(c, n, s, w, a, &r) || !sol(c2, n2, s, w, b, &r)) return; nontrivial(D(c, n)); seen("solver", sname(s)); for (int t : c.kernels) seen("kernel", kern_name(t));
  double tol = s & PADE ? 1e-5 : 1e-7; verdict(what, std::max(w == RADX ? rdev(a, b, tol) : fdev(a, b, tol, 1e-10), w == RADX ? kdev(a, b, 10 * tol, 1e-7 * iscale(a)) : fldev(a, b, 10 * tol, 1e-9)), sf("%s.%s.%s", what, sname(s), c.cls().c_str()), show(cat(a.Ip, a.fp), 12) + show(cat(b.Ip, b.fp), 12) + D(c, n));
}

// ---------------------------------------------------------------- C21 isothermal enclosure
PROP(C21) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, DOUB, PADE}); Gen g; g.full = 1; g.solvers = s; g.th = 1; g.sol = 0; g.der = 0; g.psa = 0; g.tms = 0; g.fold = 0; g.om_hi = .9999; g.tau_hi = s & PADE ? .4 : 6; g.nkern = r.pick({0, 1, 1, 2}); g.p_vec = .3; Cfg c; In n; gen(r, g, c, n); c.options &= ~(long)(O_SOL | O_TMS | O_PSA); fine(n);
  double B = r.u(.2, 5); for (auto &x : n.lb) x = B; n.sb = B; n.Fit = B; n.Fib = 0; if (c.kernels.empty()) n.Fib = B; for (auto &x : n.omega) if (x == 0. || x > .999) x = r.u(.1, .999); gas_layers(r, c, n);
  if (c.kernels.empty()) n.sb = 0;
  int w = r.p(.6) ? RADX : FLX; Res a; if (!sol(c, n, s, w, a, &r)) return; nontrivial(D(c, n)); seen("solver", sname(s)); seen("class", c.cls()); Res b = a; std::string sg = sf("%s.%s%s", sname(s), c.cls().c_str(), c.kernels.empty() ? "" : c.kernels[0] ? "+brdf" : "+lambert");
  double tol = s & PADE ? 1e-4 : 2e-5;
  if (w == RADX) { for (auto *v : {&b.Ip, &b.Im}) for (size_t i = 0; i < v->size(); ++i) (*v)[i] = i % c.n_stokes ? 0 : B; verdict("equilibrium_radiance", rdev(a, b, tol), "iso." + sg, sf("B=%g ", B) + show(a.Ip, 12) + show(a.Im, 12) + D(c, n)); }
  else { VD x(c.n_quad + 8), q(c.n_quad + 8); Model m(c); xrtm_qx(m.d, x.data()); xrtm_qw(m.d, q.data()); double qm = 0, q0 = 0; for (int j = 0; j < c.n_quad; ++j) { qm += x[j] * q[j]; q0 += q[j]; }
    for (auto *v : {&b.fp, &b.fm}) for (auto &y : *v) y = 2 * PI * qm * B; for (auto *v : {&b.mp, &b.mm}) for (auto &y : *v) y = .5 * q0 * B; verdict("equilibrium_flux", fdev(a, b, tol), "isoflux." + sg, sf("B=%g ", B) + show(a.fp) + show(b.fp) + show(a.fm) + show(a.mp) + show(b.mp) + D(c, n)); }
}

// ---------------------------------------------------------------- C22 the plane-parallel limit
PROP(C22) { UNUSED_K;
  int s = r.pick({EIGA, EIGB, MEM, DOUB, PADE, SING, TWOOS, SOS, TWO, FOUR, SIX}); Gen g; g.solvers = s; g.psa = 1; g.sol = 1; g.fold = 0; g.full = r.p(.5); g.tau_hi = s & (PADE | SOS) ? .4 : 3; Cfg c; In n; gen(r, g, c, n); fine(n); if (!c.o(O_PSA)) return skip("no_psa"); for (auto &x : n.omega) if (x == 0. || x > .97) x = r.u(.1, .97); n.planet_r = 1e8; gas_layers(r, c, n);
  for (auto &q : n.l) for (size_t k = 0; k < c.kernels.size(); ++k) if (c.kernels[k] != XRTM_KERNEL_USER_DEFINED && c.kernels[k] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &x : q.par[k]) x = 0;
  Cfg c2 = c; c2.options &= ~(long)O_PSA; int w = s & SING || r.p(.6) ? RADX : FLX; Res a, b; if (!sol(c, n, s, w, a, &r) || !sol(c2, n, s, w, b, &r)) return; nontrivial(D(c, n)); seen("solver", sname(s)); seen("class", c.cls());
  double tol = s & SOS ? 1e-3 : 1e-4; std::string sg = sf("%s.%s.%s", sname(s), w == RADX ? "rad" : "flux", c.cls().c_str()); double sc = w == RADX ? iscale(b) : std::max(vmax(b.fp), vmax(b.fm));
  if (!verdict("limit", w == RADX ? rdev(a, b, tol) : fdev(a, b, tol, 1e-9), "psa." + sg, show(cat(a.Ip, a.fp), 12) + show(cat(b.Ip, b.fp), 12) + "M" + show(cat(a.Im, a.fm), 12) + show(cat(b.Im, b.fm), 12) + D(c, n))) return;
  if (c.o(O_DER)) verdict("limit_derivatives", w == RADX ? kdev(a, b, 20 * tol, 1e-5 * sc) : fldev(a, b, 20 * tol, 1e-5 * sc), "psa_l." + sg, show(cat(a.Kp, a.fpl), 12) + show(cat(b.Kp, b.fpl), 12) + D(c, n));
}

// ---------------------------------------------------------------- C31 accuracy parameters
PROP(C31) { UNUSED_K;
  int mode = r.pick({0, 0, 1, 3}), s = mode == 1 ? DOUB : mode == 3 ? SOS : r.pick({EIGA, EIGB, MEM, DOUB, SOS, SING, TWOOS}); Gen g; g.solvers = s; g.full = 1; g.nq_min = mode ? 2 : 4; g.nq_max = 8; g.tau_hi = s & SOS ? .5 : 3; g.der = 0; g.stk = 0; g.noaz = 0; g.fold = mode ? 0 : -1; g.thetas = r.i(1, 3); g.nphi = r.i(1, 3); g.p_vec = .2; if (mode) g.taus = 0; if (!mode) g.allkern = 0; // the series of an anisotropic kernel need not fall off monotonically
  Cfg c; In n; gen(r, g, c, n); fine(n); for (auto &x : n.omega) if (x == 0. || x > .99) x = r.u(.1, .99); Model m(c); Res a, b; double tol = 0;
  if (mode == 0) { for (size_t i = 0; i < n.coef.size(); ++i) n.coef[i] = phase_mix(phase_hg(c.n_elem(), (int)n.coef[i][0].size(), r.u(.3, .7)), phase_ray(c.n_elem(), 3), r.u(.3, 1)); for (auto &x : n.coef) for (auto &v : x) if ((int)v.size() > c.max_coef) v.resize(c.max_coef); }
  if (!clear_mu0(c, n)) return skip("angle_singularity"); Model M(c); Model *p = &M; (void)m;
  if (!ready(*p, n, &r)) return; a = p->run(s, n, RADX); if (a.rc) return skip("run_refused"); nontrivial(D(c, n)); const char *what;
  if (mode == 0) { double t = r.lu(1e-7, 1e-2); tol = 60 * t; what = "fourier_tol"; if (xrtm_set_fourier_tol(p->d, t)) return; b = p->run(s, n, RADX); }
  else if (mode == 1) { double t = r.lu(1e-8, 1e-3); tol = 300 * t + 2e-6; what = "doub_d_tau"; if (xrtm_set_doub_d_tau(p->d, t)) return; b = p->run(s, n, RADX); }
  else { double t = r.lu(1e-9, 1e-3), dt = r.lu(.01, .05); tol = 300 * t + 30 * dt * dt + 1e-5; what = "sos_params"; if (xrtm_set_sos_params(p->d, 128, dt, t)) return; b = p->run(s, n, RADX); }
  if (b.rc) return skip("run_refused"); seen("parameter", what); seen("solver", sname(s)); maxv(std::string("worst_raw_") + what, rdev(a, b, tol)); verdict(what, rdev(a, b, tol, 1e-4 * tol * n.F0), sf("acc.%s.%s.%s", what, sname(s), c.cls().c_str()), sf("tol=%g ", tol) + show(a.Ip, 12) + show(b.Ip, 12) + "M" + show(a.Im, 12) + show(b.Im, 12) + D(c, n));
}
