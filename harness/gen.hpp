// Random but valid model configurations and physically meaningful inputs.
#include "mie_tab.inc"

// ---------------------------------------------------------------- phase functions
// returned as [elem][coef] in xrtm's convention (the expansion coefficients include 2l+1)
inline VVD phase_zero(int ne, int n) { return VVD(ne, VD(n, 0.)); }
inline VVD phase_hg(int ne, int n, double g) { VVD c = phase_zero(ne, n); for (int l = 0; l < n; ++l) c[0][l] = (2 * l + 1) * std::pow(g, l); c[0][0] = 1.; return c; }
inline VVD phase_ray(int ne, int n, double dep = 0.0279) {
  static const double ray[3][6] = {{1, 0, 0, 0, 0, 0}, {0, 0, 0, 1.399371, 0, 0}, {.4798741, 2.879245, 0, 0, 1.175447, 0}};
  (void)dep; VVD c = phase_zero(ne, n);
  for (int e = 0; e < ne; ++e) for (int l = 0; l < n && l < 3; ++l) c[e][l] = ray[l][e];
  return c;
}
inline VVD phase_mie(int ne, int n) { VVD c = phase_zero(ne, n); for (int e = 0; e < ne; ++e) for (int l = 0; l < n && l < N_MIE; ++l) c[e][l] = MIE[l][e]; return c; }
inline VVD phase_mix(const VVD &a, const VVD &b, double w) { size_t n = std::max(a[0].size(), b[0].size()); VVD c = phase_zero((int)a.size(), (int)n);
  for (size_t e = 0; e < a.size(); ++e) { for (size_t l = 0; l < a[e].size(); ++l) c[e][l] += w * a[e][l]; for (size_t l = 0; l < b[e].size(); ++l) c[e][l] += (1 - w) * b[e][l]; } c[0][0] = 1.; return c; }
// n: number of coefficients
inline VVD phase_rand(Rng &r, int ne, int n, double gmax = .8) {
  if (n < 3) { VVD c = phase_zero(ne, n); c[0][0] = 1; if (n > 1) c[0][1] = 3 * r.u(-.3, std::min(.33, gmax)); return c; }
  switch (r.i(0, ne > 1 ? 3 : 4)) {
    case 0: return phase_ray(ne, std::max(3, std::min(n, 3 + (r.p(.5) ? n - 3 : 0))));
    case 1: return phase_mix(phase_mie(ne, n), phase_ray(ne, 3), r.u());
    case 2: return phase_mix(phase_hg(ne, n, r.u(-.3, gmax)), phase_ray(ne, 3), r.u(0, .95));
    case 3: return phase_mie(ne, n);
    default: return phase_hg(ne, n, r.u(-.4, gmax));
  }
}

// ---------------------------------------------------------------- generator
struct Gen {
  int solvers = 0;                 // solvers to enable (0: random)
  int vec = -1, der = -1, th = -1, sol = -1, psa = -1, dm = -1, tms = -1, sfi = -1, taus = -1, noaz = -1, greens = -1, saves = -1, norm = -1, fold = -1, lc = 0, stk = 0, tdbu = 0, up = 1, dn = 1;
  int nq_min = 2, nq_max = 6, nl_min = 1, nl_max = 5, thetas = -1, nlev = -1, interior = -1, nkern = -1, allkern = 1, nphi = -1, nt0 = 1;
  int ns = -1; double p_der = .35, p_vec = .35; int full = 0; // full: 1 => phase functions fully resolved by the quadrature
  double tau_lo = 1e-3, tau_hi = 5.; double om_hi = 1.; bool user = true;
};
inline int pk(Rng &r, int want, bool can, double p) { if (!can) return 0; if (want >= 0) return want; return r.p(p); }

inline void gen_kernel(Rng &r, int t, double &amp, VD &par, bool strong = true) {
  par.clear();
  switch (t) {
    case XRTM_KERNEL_LAMBERTIAN: amp = r.p(.15) ? 0. : r.u(0, strong ? .9 : .4); break;
    case XRTM_KERNEL_DIRECT_AND_DIFFUSE: amp = r.u(.1, 1); par = {r.u(0, .9), r.u(0, .9), r.u(0, .9), r.u(0, .9)}; break;
    case XRTM_KERNEL_ROUJEAN: amp = r.u(0, .1); break;
    case XRTM_KERNEL_LI_SPARSE: case XRTM_KERNEL_LI_DENSE: amp = r.u(0, .1); par = {r.u(1, 2.5), r.u(.8, 2.)}; break;
    case XRTM_KERNEL_ROSS_THIN: case XRTM_KERNEL_ROSS_THICK: amp = r.u(0, .1); break;
    case XRTM_KERNEL_HAPKE: amp = r.u(.1, .9); par = {r.u(.2, .8), r.u(.2, 1.), r.u(.05, .3)}; break;
    case XRTM_KERNEL_RAHMAN: amp = r.u(.1, .6); par = {r.u(.1, .5), r.u(-.3, .1), r.u(.5, .95)}; break;
    case XRTM_KERNEL_COX_MUNK: amp = r.u(.2, .6); par = {r.u(.05, .2), r.u(1.3, 1.5)}; break;
    default: amp = r.u(0, .5); par = VD(MAX_KERNEL_PARAMS); for (auto &x : par) x = r.u(.1, .9);
  }
}

extern kaux_t USER_AUX; extern kfun_t USER_FUN;

inline void gen_in(Rng &r, const Gen &g, const Cfg &c, In &n);
inline bool gen(Rng &r, const Gen &g, Cfg &c, In &n) {
  c = Cfg(); n = In();
  int S = g.solvers; if (!S) S = r.pick(std::vector<int>(ALLS, ALLS + 11));
  auto any = [&](int m) { return (S & m) != 0; };
  bool v = pk(r, g.vec, !any(STREAMS), g.p_vec), der = pk(r, g.der, !any(FOUR | SIX), g.p_der), tms, dm;
  bool sfi_ok = !any(DOUB | EIGA | PADE | MEM | SOS), sfi = any(STREAMS) && g.thetas > 0 ? true : pk(r, g.sfi, sfi_ok, any(STREAMS) ? .75 : .4);
  bool th = pk(r, g.th, !any(~(DOUB | EIGA | EIGB | PADE)) || (!any(~(DOUB | EIGA | EIGB | PADE | TWO)) && 0), .25);
  bool sol = (g.sol == 0 && !any(MEM | SING | SOS | TWOOS)) ? false : true; if (g.sol < 0 && th && !any(MEM | SING | SOS | TWOOS)) sol = r.p(.6);
  bool taus = pk(r, g.taus, !any(DOUB | EIGA | PADE | SOS | TWOOS), .25);
  bool noaz = pk(r, g.noaz, !any(SING), .08);
  tms = pk(r, g.tms, sol && !noaz && !any(TWOOS), .25); dm = tms || pk(r, g.dm, !any(SING), .2);
  if (any(SING) && dm) tms = true; if (any(TWOOS)) tms = false;
  bool psa = pk(r, g.psa, sol, .25);
  c.solvers = S; long o = 0;
  if (v) o |= O_VEC | (g.lc ? O_LC : O_GC); else o |= O_SCA;
  if (der) o |= O_DER; if (th) o |= O_TH; if (sol) o |= O_SOL; if (tms) o |= O_TMS; if (dm) o |= O_DM; if (psa) o |= O_PSA; if (sfi) o |= O_SFI; if (noaz) o |= O_NOAZ;
  o |= taus ? O_TAU : O_LEV; o |= pk(r, g.fold, true, .3) ? O_FOLD : O_FNEW; o |= pk(r, g.greens, true, 0.) ? O_PGR : O_PCL; o |= pk(r, g.norm, true, .4) ? O_QN : O_QD;
  if (g.up) { o |= O_UP; } if (g.dn) o |= O_DN;
  if (g.saves != 0) { for (long b : {(long)O_SLEG, (long)O_SPM, (long)O_SLRT, (long)O_SLAY, (long)O_STOT}) if (g.saves == 1 || r.p(.25)) o |= b; }
  if (g.stk && der && !any(EIGB | MEM | SING | SOS | TWOOS)) { o |= O_STK; o &= ~(long)O_SLAY; }
  c.n_quad = any(TWO) ? 1 : any(FOUR) ? 2 : any(SIX) ? 3 : r.i(g.nq_min, g.nq_max);
  c.n_stokes = v ? (g.ns > 0 ? g.ns : r.pick({3, 4, 4})) : 1;
  c.n_derivs = der ? r.i(1, 4) : 0;
  c.n_layers = r.i(g.nl_min, g.nl_max);
  c.n_theta_0s = g.nt0;
  c.n_kernel_quad = r.i(4, 16);
  // surface
  int nk = g.nkern >= 0 ? g.nkern : r.pick({0, 1, 1, 1, 2, 3});
  for (int k = 0; k < nk; ++k) { int t = g.allkern ? r.pick({0, 0, 0, 2, 3, 4, 5, 6, 7, 8, 1, 10}) : 0; if (t == 10 && (!g.user || k)) t = 0; if (t == 9) t = 0;
    if (v && t) t = r.pick({0, 0, t}); c.kernels.push_back(t); }
  if (g.allkern == 2 && nk) c.kernels[0] = r.pick({1, 2, 3, 4, 5, 6, 7, 8});
  // output levels
  bool levs_ok = !any(DOUB | EIGA | PADE | SOS | TWOOS);
  int NL = c.n_layers;
  if (taus || !levs_ok) c.n_out_levels = taus ? r.i(1, 5) : r.i(1, 2); else c.n_out_levels = g.nlev > 0 ? std::min(g.nlev, NL + 1) : r.i(1, std::min(NL + 1, 4));
  if (g.nlev == 2 && !taus) c.n_out_levels = 2;
  if (g.interior == 0) c.n_out_levels = std::min(c.n_out_levels, 2);
  if (g.tdbu && !any(EIGB | MEM | SING | SOS | TWOOS) && !(o & O_STK)) { c.n_out_levels = 1; o |= g.tdbu == 1 ? O_TD : O_BU; }
  // angles
  int nt = g.thetas >= 0 ? g.thetas : (sfi ? r.i(1, 3) : r.pick({0, 1, 2, 3})); if (sfi && !nt) nt = 1;
  if (any(SING | TWOOS) && !nt && g.thetas < 0) nt = r.i(1, 3);
  if (any(STREAMS) && !sfi) nt = 0; // output angles need sfi with these
  // phase function expansion
  int nc2 = 2 * c.n_quad; int maxc = dm ? std::max(nc2 + 1, r.i(nc2 + 1, nc2 + 20)) : (g.full ? nc2 : r.pick({nc2, nc2, r.i(std::max(1, nc2 - 3), nc2), nc2 + 6}));
  c.max_coef = std::max(1, maxc);
  c.n_out_thetas = nt; c.options = o;
  gen_in(r, g, c, n);
  return true;
}

// new inputs for an existing configuration
inline void gen_in(Rng &r, const Gen &g, const Cfg &c, In &n) {
  const int NL = c.n_layers, nk = (int)c.kernels.size(); n = In();
  auto any = [&](int m) { return (c.solvers & m) != 0; };
  bool th = c.o(O_TH), sol = c.o(O_SOL), taus = c.o(O_TAU), psa = c.o(O_PSA);
  n.amp.assign(nk, 0); n.par.assign(nk, VD()); n.ufun.assign(nk, {nullptr, nullptr});
  for (int k = 0; k < nk; ++k) { gen_kernel(r, c.kernels[k], n.amp[k], n.par[k]); if (nk > 1) n.amp[k] /= nk; if (c.kernels[k] == XRTM_KERNEL_USER_DEFINED) n.ufun[k] = {USER_AUX, USER_FUN}; }
  // output levels
  if (!taus) {
    bool levs_ok = !any(DOUB | EIGA | PADE | SOS | TWOOS);
    if (c.o(O_TD)) n.out_levels = {NL}; else if (c.o(O_BU)) n.out_levels = {0};
    else if (!levs_ok || g.interior == 0 || NL == 0) { n.out_levels = c.n_out_levels == 2 ? std::vector<int>{0, NL} : std::vector<int>{r.p(.5) ? 0 : NL}; }
    else { std::vector<int> a; for (int i = 0; i <= NL; ++i) a.push_back(i); r.shuffle(a); a.resize(c.n_out_levels); std::sort(a.begin(), a.end()); n.out_levels = a; }
  }
  // optical depths
  n.ltau.resize(NL); n.omega.resize(NL);
  for (int i = 0; i < NL; ++i) { n.ltau[i] = r.lu(g.tau_lo, g.tau_hi); n.omega[i] = r.p(.12) ? g.om_hi : r.p(.06) && !any(SING | TWOOS | SOS) ? 0. : r.u(.05, std::min(.999, g.om_hi)); }
  double tt = 0; for (double x : n.ltau) tt += x;
  if (taus) for (bool again = true; again;) { std::set<double> q; while ((int)q.size() < c.n_out_levels) { int w = r.i(0, 5); if (w == 0) q.insert(0.); else if (w == 1) { double a = 0; int m = r.i(1, NL); for (int i = 0; i < m; ++i) a += n.ltau[i]; q.insert(a * (1 - 1e-14)); } else if (w < 4 && q.size()) q.insert(*std::next(q.begin(), r.i(0, (int)q.size() - 1)) + .2 * r.u() * tt / NL); else q.insert(tt * r.u()); }
    n.out_taus.assign(q.begin(), q.end()); for (auto &x : n.out_taus) x = std::min(x, tt * (1 - 1e-14)); again = false; for (size_t k = 1; k < n.out_taus.size(); ++k) if (n.out_taus[k] <= n.out_taus[k - 1]) again = true; }
  for (int k = 0; k < c.n_out_thetas; ++k) n.out_thetas.push_back(r.p(.15) ? 0. : r.u(1., 80.));
  // phase function
  int ne = c.n_elem();
  for (int i = 0; i < NL; ++i) { int m = r.p(.5) ? c.max_coef : r.i(std::min(3, c.max_coef), c.max_coef); n.coef.push_back(phase_rand(r, ne, m, c.n_quad < 4 ? .5 : .75)); }
  // sources
  n.F0 = sol ? (r.p(.5) ? 1. : r.u(.1, 5.)) : 0; n.theta0 = r.p(.1) ? 0. : r.u(1, 80); n.phi0 = r.p(.5) ? 0. : r.u(0, 360);
  bool iso = !any(SING | TWOOS | SOS | MEM);
  n.Fit = iso && r.p(.3) ? r.u(0, 1) : 0; n.Fib = iso && r.p(.2) ? r.u(0, .5) : 0; if (any(~(DOUB | EIGA | PADE | EIGB))) n.Fit = n.Fib = 0;
  if (th) { double b = r.u(.1, 1.); for (int i = 0; i <= NL; ++i) { n.lb.push_back(b); b *= r.u(.6, 1.6); } if (r.p(.15)) n.lb[r.i(0, NL)] = 0; n.sb = r.u(.1, 2.); n.lambda = r.u(.3, 15); }
  if (psa) { n.planet_r = r.u(3000, 7000); double z = 0; VD zz; for (int i = 0; i <= NL; ++i) { zz.push_back(z); z += r.p(.08) ? 0. : r.u(1, 15); } n.levels_z.assign(zz.rbegin(), zz.rend()); n.theta0 = std::min(n.theta0, 75.); }
  // accuracy
  n.fourier_tol = g.full ? 0. : 1e-9; n.doub_d_tau = 1e-8;
  // azimuths
  int np = g.nphi > 0 ? g.nphi : r.i(1, 3); int rows_ = c.n_out_thetas ? c.n_out_thetas : c.n_quad; n.phis.assign(rows_, VD(np)); for (auto &x : n.phis) for (auto &y : x) y = r.p(.15) ? r.pick({0., 90., 180.}) : r.u(0, 360);
  // linearized inputs
  for (int j = 0; j < c.n_derivs; ++j) {
    Lin q; q.lb.assign(th ? NL + 1 : 0, 0.); q.omega.assign(NL, 0.); q.ltau.assign(NL, 0.); q.amp.assign(nk, 0.); q.par.resize(nk); for (int k = 0; k < nk; ++k) q.par[k].assign(n.par[k].size(), 0.);
    for (int i = 0; i < NL; ++i) q.coef.push_back(phase_zero(ne, (int)n.coef[i][0].size()));
    auto setl = [&](int i, int what) {
      if (what & 1) q.ltau[i] = n.ltau[i] * r.u(.2, 1.);
      if (what & 2) q.omega[i] = n.omega[i] > .9 ? -r.u(.1, .5) : r.u(-.5, .5) * (n.omega[i] < .05 ? 0 : 1);
      if (what & 4) { VVD x = phase_rand(r, ne, (int)n.coef[i][0].size(), .6); for (int e = 0; e < ne; ++e) for (size_t l = 0; l < q.coef[i][e].size(); ++l) q.coef[i][e][l] = (l < x[e].size() ? x[e][l] : 0.) - n.coef[i][e][l]; q.coef[i][0][0] = 0.;
        if (r.p(.3)) { int e0 = r.i(0, ne - 1), m0 = (int)q.coef[i][0].size(), l0 = r.p(.5) || m0 < 2 ? -1 : r.i(1, m0 - 1); // only one element of the matrix or one coefficient varies
          for (int e = 0; e < ne; ++e) for (int l = 0; l < m0; ++l) if (e != e0 || (l0 >= 0 && l != l0)) q.coef[i][e][l] = 0.; } }
    };
    auto setk = [&](int k) { if (r.p(.6)) q.amp[k] = r.u(-.3, .3); if (!q.par[k].empty() && r.p(.5)) { int p = r.i(0, kern_np(c.kernels[k]) - 1); q.par[k][p] = r.u(.1, .5) * n.par[k][p]; } };
    auto sett = [&]() { int t = r.i(0, 3); if (t == 0) q.lb[r.i(0, NL)] = r.u(-.5, .5); else if (t == 1) q.sb = r.u(-.5, .5); else { for (auto &x : q.lb) x = r.p(.5) ? r.u(-.5, .5) : 0.; if (r.p(.5)) q.sb = r.u(-.5, .5); } };
    switch (r.i(0, 5)) {
      case 0: setl(r.i(0, NL - 1), 1); break;
      case 1: setl(r.i(0, NL - 1), 2); break;
      case 2: setl(r.i(0, NL - 1), 4); break;
      case 3: if (nk) { int k = r.i(0, nk - 1); q.amp[k] = r.u(.2, 1.); if (!q.par[k].empty() && r.p(.5)) { int p = r.i(0, kern_np(c.kernels[k]) - 1); q.par[k][p] = r.u(.1, .5) * n.par[k][p]; } } else setl(0, 1); break;
      case 4: for (int i = 0; i < NL; ++i) setl(i, r.i(0, 7)); if (nk && r.p(.7)) setk(r.i(0, nk - 1)); if (th && r.p(.4)) sett(); break;
      default: if (th) sett(); else setl(NL - 1, r.i(1, 7));
    }
    if (r.p(.15) && n.Fit > 0) q.Fit = r.u(.1, 1); if (r.p(.15) && n.Fib > 0) q.Fib = r.u(.1, 1);
    n.l.push_back(q);
  }
}
// a neighbouring problem
inline void resonance_free(In &n) { for (auto &y : n.omega) y *= .985; n.theta0 += n.theta0 < 60 ? .9 : -.9; }
// no view in the direction of the sun (closed forms are singular there)
inline bool clear_mu0(const Cfg &c, const In &n) { (void)c; for (double t : n.out_thetas) if (std::fabs(std::cos(t * (M_PI / 180)) - std::cos(n.theta0 * (M_PI / 180))) < 2.5e-5) return false; return true; }
// some layers that absorb and do not scatter.  Their albedo has no derivative (the library leaves it out where nothing is scattered), and vector eigenvalues are degenerate there
inline void gas_layers(Rng &r, const Cfg &c, In &n, double p = .12) {
  if (!r.p(2 * p) || (c.solvers & (SING | TWOOS | SOS)) || (c.o(O_VEC) && c.o(O_DER))) return;
  for (int i = 0; i < c.n_layers; ++i) if (r.p(.4)) { n.omega[i] = 0.; count("layers_without_scattering"); for (auto &q : n.l) { q.omega[i] = 0.; q.coef[i] = phase_zero(c.n_elem(), (int)n.coef[i][0].size()); } }
}
