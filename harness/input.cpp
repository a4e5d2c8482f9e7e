// C27 the input language: a model written down as an input file or an input string is the model set through the API
#include "xmon.hpp"
#include <xrtm_fd_interface.h>
#include <input_util.h>
#include <unistd.h>
#include <csignal>
#include <sys/wait.h>
static std::string D(const Cfg &c, const In &n) { return c.desc() + " | " + n.desc(); }
// ---------------------------------------------------------------- a writer of its own for the input language
struct Text {
  Rng &r; bool str;   // str: the command line's string form, otherwise the input file's form
  std::string num(double x) { if (x == std::floor(x) && std::fabs(x) < 1000 && r.p(.3)) return sf(r.p(.5) ? "%.0f." : "%.1f", x); return sf("%.17e", x); }
  std::string ws() { if (str) return r.p(.8) ? " " : "  "; static const char *w[] = {" ", "  ", "\t", " /* note */ ", "\n    "}; return w[r.p(.9) ? r.i(0, 2) : r.i(0, 4)]; }
  std::string sep(int depth) { std::string s = str && depth > 1 ? ";" : ","; return (r.p(.2) ? ws() : "") + s + (r.p(.7) ? ws() : ""); }
  std::string join(const std::vector<std::string> &v, int depth) { std::string s; for (size_t k = 0; k < v.size(); ++k) s += (k ? sep(depth) : "") + v[k]; return str ? s : "{" + s + "}"; }
  std::string a1(const VD &v) { std::vector<std::string> s; for (double x : v) s.push_back(num(x)); return join(s, 1); }
  std::string a1i(const std::vector<int> &v) { std::vector<std::string> s; for (int x : v) s.push_back(sf("%d", x)); return join(s, 1); }
  std::string as(const std::vector<std::string> &v) { std::vector<std::string> s; for (auto &x : v) s.push_back("'" + x + "'"); return join(s, 1); }
  std::string a2(const VVD &v) { std::vector<std::string> s; for (auto &x : v) s.push_back(a1(x)); return join(s, 2); }
  std::string a3(const VVVD &v) { std::vector<std::string> s; for (auto &x : v) s.push_back(a2(x)); return join(s, 3); }
  std::string a4(const std::vector<VVVD> &v) { std::vector<std::string> s; for (auto &x : v) s.push_back(a3(x)); return join(s, 4); }
  std::string list(const std::vector<std::string> &v) { std::string s, q = r.p(.5) ? "\"" : "'"; if (str) q = "'"; for (size_t k = 0; k < v.size(); ++k) s += (k ? sep(1) : "") + q + v[k] + q; return str ? s : "(" + s + ")"; }
  std::string st(const std::string &name, const std::string &val) { return str ? "-" + name + ws() + val : name + (r.p(.9) ? ws() : "") + "=" + (r.p(.9) ? ws() : "") + val; }
};
static std::string ix(int i) { return i < 0 ? "[:]" : sf("[%d]", i); }
static VVD trans(const VVD &a, size_t n) { VVD b(n, VD(a.size(), 0.)); for (size_t e = 0; e < a.size(); ++e) for (size_t k = 0; k < a[e].size(); ++k) b[k][e] = a[e][k]; return b; }
typedef std::vector<std::string> VS;
static const std::string &scratch(); static void put(const std::string &p, const std::string &s);
// coefficients given by name: the name and the values it stands for, by formulas of their own
struct Named { bool on = false; VS base; std::vector<VS> lin; };
static VVD cut(const VVD &a, int E, int n) { VVD b(E, VD(n, 0.)); for (int e = 0; e < E; ++e) for (int k = 0; k < n && k < (int)a[e].size(); ++k) b[e][k] = a[e][k]; return b; }
static std::string coef_file(Rng &r, int i, int j, const VVD &v, double fac) { std::string f = sf("/c%d_%d.gc", i, j + 1), t; static const char *h[] = {"lambda", "mr", "mi", "dist_type", "a1", "a2", "a3", "a4", "a5", "r1", "r2", "n_int1", "n_int2", "n_quad", "norm", "reff", "veff", "gavg", "vavg", "ravg", "rvw", "cext", "csca", "cbak", "g"};
  for (const char *q : h) t += sf("%-9s = %s\n", q, !strcmp(q, "dist_type") ? "log_normal" : q[0] == 'n' && q[1] != 'o' ? "64" : sf("%e", r.u(0, 2)).c_str()); t += sf("%d\n", (int)v[0].size()); for (size_t k = 0; k < v[0].size(); ++k) { for (int e = 0; e < 6; ++e) t += sf("%.17e ", v[e][k] * fac); t += "\n"; } put(scratch() + f, t); return scratch() + f; }
static Named name_coefs(Rng &r, const Cfg &c, In &n, bool all_slots) {
  Named q; q.on = true; int E = c.o(O_VEC) ? 6 : 1, M = c.max_coef; auto N = [&](double x) { return sf("%.17e", x); };
  for (int i = 0; i < c.n_layers; ++i) { int t = r.i(0, 4); if (t == 2 && M < 3) t = 0; VVD v(6, VD(M, 0.)); std::string nm; double g = r.u(-.3, .8), g2 = r.u(-.6, .2), f = r.u(.3, 1), rho = r.u(0, .1); int nc = M;
    if (t == 0) { nm = "hg:" + N(g); for (int k = 0; k < M; ++k) v[0][k] = (2 * k + 1) * std::pow(g, k); }
    else if (t == 1) { nm = "dhg:" + N(g) + ":" + N(g2) + ":" + N(f); for (int k = 0; k < M; ++k) v[0][k] = (2 * k + 1) * (f * std::pow(g, k) + (1 - f) * std::pow(g2, k)); }
    else if (t == 2) { nc = 3; nm = "ray:" + N(rho); double d = (1 - rho) / (2 + rho); v[0][0] = 1; v[0][2] = d; v[3][1] = 3 * (1 - 2 * rho) / (2 + rho); v[1][2] = 6 * d; v[4][2] = std::sqrt(6.) * d; }
    else { int len = r.i(1, M + 4); nc = std::min(len, M); bool six = t == 4; VVD w(6, VD(len)); for (int e = 0; e < 6; ++e) for (int k = 0; k < len; ++k) w[e][k] = e ? r.u(-.3, .3) : k ? r.u(-.2, .5) : 1.; for (int e = 1; e < 6; ++e) for (int k = 0; k < std::min(len, 2); ++k) w[e][k] = 0; double fac = r.p(.7) ? 1. : r.u(.5, 3.); nm = std::string(six ? "gc6:" : "gc:") + coef_file(r, i, -1, w, fac); for (int e = 0; e < (six ? 6 : 1); ++e) for (int k = 0; k < nc; ++k) v[e][k] = w[e][k]; }
    q.base.push_back(nm); n.coef[i] = cut(v, E, nc); VS ln;
    for (size_t j = 0; j < n.l.size(); ++j) { VVD u(6, VD(M, 0.)); std::string s = "none"; bool own = r.p(.5), nonzero = all_slots || vmax(n.l[j].coef[i][0]) > 0;
      if (nonzero && own && t == 0) { double gl = r.u(-1, 1); s = "hg_l:" + N(g) + ":" + N(gl); for (int k = 1; k < M; ++k) u[0][k] = (2 * k + 1) * k * std::pow(g, k - 1) * gl; }
      else if (nonzero && own && t == 1) { double a = r.u(-1, 1), b = r.u(-1, 1), d = r.u(-1, 1); s = "dhg_l:" + N(g) + ":" + N(g2) + ":" + N(f) + ":" + N(a) + ":" + N(b) + ":" + N(d); for (int k = 1; k < M; ++k) u[0][k] = (2 * k + 1) * (d * (std::pow(g, k) - std::pow(g2, k)) + f * k * std::pow(g, k - 1) * a + (1 - f) * k * std::pow(g2, k - 1) * b); }
      else if (nonzero && own && t == 2) { double rl = r.u(-1, 1), z = (2 + rho) * (2 + rho); s = "ray_l:" + N(rho) + ":" + N(rl); double d = -3 * rl / z; u[0][2] = d; u[1][2] = 6 * d; u[4][2] = std::sqrt(6.) * d; u[3][1] = -15 * rl / z; }
      else if (nonzero && own) { VVD w(6, VD(nc + r.i(0, 3), 0.)); for (int e = 0; e < 6; ++e) for (size_t k = 2; k < w[0].size(); ++k) w[e][k] = r.u(-.1, .1); s = "gc6:" + coef_file(r, i, (int)j, w, 1.); for (int e = 0; e < 6; ++e) for (int k = 0; k < nc; ++k) u[e][k] = w[e][k]; }
      ln.push_back(s); n.l[j].coef[i] = cut(u, E, nc); }
    q.lin.push_back(ln); }
  return q;
}
static std::string part1(Text &t, const Cfg &c, int fd, int fd_derivs) {
  VS o, so, ke, s; for (int k = 0; k < N_XRTM_OPTIONS; ++k) if ((c.options >> k) & 1) o.push_back(xrtm_option_index_to_name(k)); for (int x : ALLS) if (c.solvers & x) so.push_back(xrtm_solver_mask_to_name((enum xrtm_solver_mask)x)); for (int k : c.kernels) ke.push_back(xrtm_kernel_index_to_name(k));
  t.r.shuffle(o); t.r.shuffle(so);
  auto I = [&](const char *n, int v) { s.push_back(t.st(n, sf("%d", v))); };
  s.push_back(t.st("options", t.list(o))); s.push_back(t.st("solvers", t.list(so))); I("max_coef", c.max_coef); I("n_quad", c.n_quad); I("n_stokes", c.n_stokes); I("n_derivs", fd >= 0 ? fd_derivs : c.n_derivs); I("n_layers", c.n_layers); I("n_kernels", (int)c.kernels.size());
  if (c.kernels.size() || t.r.p(.5)) I("n_kernel_quad", c.n_kernel_quad); if (ke.size()) s.push_back(t.st("kernels", t.list(ke))); I("n_out_levels", c.n_out_levels); I("n_out_thetas", c.n_out_thetas); if (fd >= 0) I("fd", fd);
  t.r.shuffle(s); std::string q; for (auto &x : s) q += x + (t.str ? " " : t.r.p(.1) ? "   // done\n" : "\n"); return q;
}
// the inputs; suffix l: derivatives ("l") or perturbations ("p", scaled by h)
static std::string part2(Text &t, const Cfg &c, const In &n, const char *suf, const VD &h, const VD &delta, const Named &nm_) {
  Rng &r = t.r; int L = c.n_layers, E = c.o(O_VEC) ? 6 : 1, nd = (int)h.size(); VS first, s, last; std::string S = std::string("_") + suf;
  auto X = [&](const std::string &nm, double v) { if (r.p(.06)) first.push_back(t.st(nm, t.num(v * .5))); s.push_back(t.st(nm, t.num(v))); };
  auto V = [&](const std::string &nm, const VD &v) { s.push_back(t.st(nm, t.a1(v))); };
  if (field_used(c, F_DOUB)) X("doub_d_tau", n.doub_d_tau); if (field_used(c, F_PADE)) s.push_back(t.st("pade_params", sf("%d", n.pade_s) + t.sep(1) + sf("%d", n.pade_r))); if (field_used(c, F_SOS)) s.push_back(t.st("sos_params", sf("%d", n.sos_max_os) + t.sep(1) + t.num(n.sos_max_tau) + t.sep(1) + t.num(n.sos_tol)));
  X("fourier_tol", n.fourier_tol); if (field_used(c, F_LAMBDA)) X("lambda", n.lambda); if (field_used(c, F_LZ)) { X("planet_r", n.planet_r); V("levels_z", n.levels_z); }
  if (field_used(c, F_OLEV)) s.push_back(t.st("out_levels", t.a1i(n.out_levels))); if (field_used(c, F_OTAU)) V("out_taus", n.out_taus); if (field_used(c, F_OTH)) V("out_thetas", n.out_thetas);
  X("F_iso_top", n.Fit); X("F_iso_bot", n.Fib); if (field_used(c, F_F0)) { X("F_0", n.F0); X("theta_0", n.theta0); s.push_back(t.st("phi_0", t.num(n.phi0))); }
  if (field_used(c, F_LB)) { V("levels_b", n.lb); X("surface_b", n.sb); }
  auto layer = [&](const std::string &nm, const VD &v) { if (r.p(.5)) s.push_back(t.st(nm + (r.p(.2) ? "[:]" : ""), t.a1(v))); else for (int i = 0; i < L; ++i) s.push_back(t.st(nm + ix(i), t.num(v[i]))); };
  layer("omega", n.omega); layer("ltau", n.ltau);
  if (nm_.on) { if (r.p(.5)) s.push_back(t.st(r.p(.2) ? "coef_files[:]" : "coef_files", t.as(nm_.base))); else for (int i = 0; i < L; ++i) s.push_back(t.st("coef_files" + ix(i), "'" + nm_.base[i] + "'")); }
  else { bool same = true; for (auto &x : n.coef) same &= (int)x[0].size() == c.max_coef; if (same && r.p(.5)) { VVVD w; for (auto &x : n.coef) w.push_back(trans(x, c.max_coef)); s.push_back(t.st(r.p(.2) ? "coef[:]" : "coef", t.a3(w))); }
    else for (int i = 0; i < L; ++i) { int nc = (int)n.coef[i][0].size(); s.push_back(t.st("coef" + ix(i), sf("%d", nc) + t.sep(1) + t.a2(trans(n.coef[i], nc)))); } }
  auto K = [&](size_t k) { return ix((int)k); };
  for (size_t k = 0; k < c.kernels.size(); ++k) { s.push_back(t.st("kernel_ampfac" + K(k), t.num(n.amp[k]))); int np = kern_np(c.kernels[k]); if (!np) continue; if (r.p(.5)) s.push_back(t.st("kernel_params" + K(k) + (r.p(.2) ? "[:]" : ""), t.a1(VD(n.par[k].begin(), n.par[k].begin() + np)))); else for (int p = 0; p < np; ++p) s.push_back(t.st("kernel_params" + K(k) + ix(p), t.num(n.par[k][p]))); }
  if (nd) {
    auto slot = [&](const std::string &nm, std::function<double(const Lin &)> f) { VD v; for (int j = 0; j < nd; ++j) v.push_back(h[j] * f(n.l[j])); V(nm + S, v); };
    slot("F_iso_top", [](const Lin &q) { return q.Fit; }); slot("F_iso_bot", [](const Lin &q) { return q.Fib; });
    if (c.o(O_TH)) { slot("surface_b", [](const Lin &q) { return q.sb; }); VVD v(L + 1, VD(nd)); for (int i = 0; i <= L; ++i) for (int j = 0; j < nd; ++j) v[i][j] = h[j] * n.l[j].lb[i]; s.push_back(t.st("levels_b" + S, t.a2(v))); }
    auto two = [&](const std::string &nm, std::function<double(const Lin &, int)> f) { VVD v(L, VD(nd)); for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) v[i][j] = h[j] * f(n.l[j], i);
      switch (r.i(0, 3)) { case 0: s.push_back(t.st(nm + S + (r.p(.2) ? "[:][:]" : r.p(.2) ? "[:]" : ""), t.a2(v))); break; case 1: for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) s.push_back(t.st(nm + S + ix(i) + ix(j), t.num(v[i][j]))); break;
        case 2: for (int i = 0; i < L; ++i) s.push_back(t.st(nm + S + ix(i) + (r.p(.3) ? "[:]" : ""), t.a1(v[i]))); break; default: for (int j = 0; j < nd; ++j) { VD y; for (int i = 0; i < L; ++i) y.push_back(v[i][j]); s.push_back(t.st(nm + S + "[:]" + ix(j), t.a1(y))); } } };
    two("omega", [](const Lin &q, int i) { return q.omega[i]; }); two("ltau", [](const Lin &q, int i) { return q.ltau[i]; });
    std::vector<VVVD> full(L, VVVD(nd)), own(L, VVVD(nd)); for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) { VVD q = n.l[j].coef[i]; for (auto &e : q) for (auto &x : e) x *= h[j]; full[i][j] = trans(q, c.max_coef); own[i][j] = trans(q, n.coef[i][0].size()); }
    if (nm_.on && r.p(.8)) { switch (r.i(0, 3)) { case 0: { VS w; for (auto &x : nm_.lin) w.push_back(t.as(x)); last.push_back(t.st("coef_files" + S + (r.p(.2) ? "[:][:]" : ""), t.join(w, 2))); break; } case 1: for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) last.push_back(t.st("coef_files" + S + ix(i) + ix(j), "'" + nm_.lin[i][j] + "'")); break;
      case 2: for (int i = 0; i < L; ++i) last.push_back(t.st("coef_files" + S + ix(i) + (r.p(.3) ? "[:]" : ""), t.as(nm_.lin[i]))); break; default: for (int j = 0; j < nd; ++j) { VS y; for (int i = 0; i < L; ++i) y.push_back(nm_.lin[i][j]); last.push_back(t.st("coef_files" + S + "[:]" + ix(j), t.as(y))); } } }
    else switch (r.i(0, 3)) { case 0: last.push_back(t.st("coef" + S + (r.p(.2) ? "[:][:]" : ""), t.a4(full))); break; case 1: for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) last.push_back(t.st("coef" + S + ix(i) + ix(j), t.a2(own[i][j]))); break;
      case 2: for (int i = 0; i < L; ++i) last.push_back(t.st("coef" + S + ix(i) + (r.p(.3) ? "[:]" : ""), t.a3(own[i]))); break; default: for (int j = 0; j < nd; ++j) { VVVD y; for (int i = 0; i < L; ++i) y.push_back(full[i][j]); last.push_back(t.st("coef" + S + "[:]" + ix(j), t.a3(y))); } }
    for (size_t k = 0; k < c.kernels.size(); ++k) {
      VD a; for (int j = 0; j < nd; ++j) a.push_back(h[j] * n.l[j].amp[k]); if (r.p(.5)) s.push_back(t.st("kernel_ampfac" + S + K(k) + (r.p(.2) ? "[:]" : ""), t.a1(a))); else for (int j = 0; j < nd; ++j) s.push_back(t.st("kernel_ampfac" + S + K(k) + ix(j), t.num(a[j])));
      int np = kern_np(c.kernels[k]); if (!np) continue; VVD v(nd, VD(np)); for (int j = 0; j < nd; ++j) for (int p = 0; p < np; ++p) v[j][p] = h[j] * n.l[j].par[k][p];
      switch (r.i(0, 3)) { case 0: s.push_back(t.st("kernel_params" + S + K(k) + (r.p(.2) ? "[:][:]" : ""), t.a2(v))); break; case 1: for (int j = 0; j < nd; ++j) for (int p = 0; p < np; ++p) s.push_back(t.st("kernel_params" + S + K(k) + ix(j) + ix(p), t.num(v[j][p]))); break;
        case 2: for (int j = 0; j < nd; ++j) s.push_back(t.st("kernel_params" + S + K(k) + ix(j), t.a1(v[j]))); break; default: for (int p = 0; p < np; ++p) { VD y; for (int j = 0; j < nd; ++j) y.push_back(v[j][p]); s.push_back(t.st("kernel_params" + S + K(k) + "[:]" + ix(p), t.a1(y))); } } }
    if (delta.size()) V("delta", delta);
  }
  r.shuffle(s); r.shuffle(last); std::string q; for (auto *v : {&first, &s, &last}) for (auto &x : *v) q += x + (t.str ? " " : r.p(.1) ? "   /* done */\n\n" : "\n"); return q;
}
// ---------------------------------------------------------------- what a model holds, through the getters
static VD state(xrtm_data *d, const Cfg &c) {
  VD o; auto P = [&](double x) { o.push_back(x); }; int L = c.n_layers, E = c.o(O_VEC) ? 6 : 1, J = c.n_derivs;
  P(xrtm_get_options(d)); P(xrtm_get_solvers(d)); P(xrtm_get_max_coef(d)); P(xrtm_get_n_quad(d)); P(xrtm_get_n_stokes(d)); P(xrtm_get_n_derivs(d)); P(xrtm_get_n_layers(d)); P(xrtm_get_n_kernels(d)); if (c.kernels.size()) P(xrtm_get_n_kernel_quad(d)); P(xrtm_get_n_out_levels(d)); P(xrtm_get_n_out_thetas(d));
  for (size_t k = 0; k < c.kernels.size(); ++k) P(xrtm_get_kernel(d, (int)k));
  if (field_used(c, F_DOUB)) P(xrtm_get_doub_d_tau(d)); if (field_used(c, F_PADE)) { int i, j; xrtm_get_pade_params(d, &i, &j); P(i); P(j); } if (field_used(c, F_SOS)) { int i; double x, y; xrtm_get_sos_params(d, &i, &x, &y); P(i); P(x); P(y); }
  P(xrtm_get_fourier_tol(d)); if (c.o(O_TH)) P(xrtm_get_lambda(d)); auto A = [&](int (*g)(xrtm_data *, double *), int n) { VD v(n); g(d, v.data()); o.insert(o.end(), v.begin(), v.end()); };
  if (c.o(O_PSA)) { P(xrtm_get_planet_r(d)); A(xrtm_get_levels_z, L + 1); } if (c.o(O_LEV)) { std::vector<int> v(c.n_out_levels); xrtm_get_out_levels(d, v.data()); for (int x : v) P(x); } if (c.o(O_TAU)) A(xrtm_get_out_taus, c.n_out_levels); if (c.n_out_thetas) A(xrtm_get_out_thetas, c.n_out_thetas);
  P(xrtm_get_F_iso_top(d)); P(xrtm_get_F_iso_bot(d)); if (c.o(O_SOL)) { P(xrtm_get_F_0(d)); P(xrtm_get_theta_0(d)); P(xrtm_get_phi_0(d)); } if (c.o(O_TH)) { A(xrtm_get_levels_b, L + 1); P(xrtm_get_surface_b(d)); }
  for (int i = 0; i < L; ++i) { P(xrtm_get_omega(d, i)); P(xrtm_get_ltau(d, i)); int nc = xrtm_get_n_coef(d, i); P(nc); for (int e = 0; e < E; ++e) for (int k = 0; k < nc; ++k) P(xrtm_get_coef(d, i, e, k));
    for (int j = 0; j < J; ++j) { P(xrtm_get_omega_l(d, i, j)); P(xrtm_get_ltau_l(d, i, j)); for (int e = 0; e < E; ++e) for (int k = 0; k < nc; ++k) P(xrtm_get_coef_l(d, i, j, e, k)); } }
  for (int j = 0; j < J; ++j) { P(xrtm_get_F_iso_top_l(d, j)); P(xrtm_get_F_iso_bot_l(d, j)); if (c.o(O_TH)) { P(xrtm_get_surface_b_l(d, j)); VD v(L + 1); xrtm_get_levels_b_l(d, j, v.data()); o.insert(o.end(), v.begin(), v.end()); } }
  for (size_t k = 0; k < c.kernels.size(); ++k) { int np = kern_np(c.kernels[k]); P(xrtm_get_kernel_ampfac(d, (int)k)); for (int p = 0; p < np; ++p) P(xrtm_get_kernel_params(d, (int)k, p)); for (int j = 0; j < J; ++j) { P(xrtm_get_kernel_ampfac_l(d, (int)k, j)); for (int p = 0; p < np; ++p) P(xrtm_get_kernel_params_l(d, (int)k, j, p)); } }
  return o;
}
static const std::string &scratch() { static std::string *dir = nullptr; if (!dir) { char b[] = "/tmp/xv-input-XXXXXX"; if (!mkdtemp(b)) _exit(3); dir = new std::string(b); } return *dir; }
struct Scratch { ~Scratch() { for (const char *n : {"in.xif", "out.xif", "out2.xif", "out", "err"}) unlink((scratch() + "/" + n).c_str()); for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) unlink((scratch() + sf("/c%d_%d.gc", i, j)).c_str()); rmdir(scratch().c_str()); } };
static void put(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "w"); if (!f) _exit(3); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string get(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
struct Parsed { Model m; xrtm_fd_data fd; misc_data md; bool has = false, fdm = false; ~Parsed() { drop(); } void drop() { if (has) { misc_free(&md); if (fdm) xrtm_fd_destroy(&fd); has = false; } } };
// read a text with the library; false: refused
static bool parse(Parsed &p, const Cfg &c, const std::string &text, bool str, bool fdm, bool via_file) {
  p.m.c = c; p.m.d = (xrtm_data *)malloc(sizeof(xrtm_data)); memset((void *)p.m.d, 0xA5, sizeof(xrtm_data)); memset(&p.fd, 0xA5, sizeof p.fd); memset((void *)&p.md, 0xA5, sizeof p.md); int rc; std::vector<char> b(text.begin(), text.end()); b.push_back(0);
  if (setjmp(EXIT_JMP)) { EXIT_ARMED = 0; p.m.ok = false; p.m.d = nullptr; return false; }
  EXIT_ARMED = 1;
  if (via_file) { put(scratch() + "/in.xif", text); rc = xrtm_fread_input(p.m.d, &p.fd, &p.md, (scratch() + "/in.xif").c_str(), 1, str, str, !str); } else rc = xrtm_sread_input(p.m.d, &p.fd, &p.md, b.data(), !str, str, str, !str);
  EXIT_ARMED = 0; count(via_file ? "files_read" : "strings_read"); if (rc) { free(p.m.d); p.m.d = nullptr; return false; }
  p.m.ok = p.has = true; p.fdm = fdm; return true;
}
// ---------------------------------------------------------------- callxrtm's output
static bool numbers(const std::string &line, VD &v, bool rad) { // fixed columns of 14 characters; the fourth of a radiance line has 10
  v.clear(); size_t p = 0; int k = 0; while (p < line.size()) { size_t w = rad && k == 3 ? 10 : 14; if (p + w > line.size()) return false; v.push_back(atof(line.substr(p, w).c_str())); p += w; ++k; } return true; }
static bool call(const VS &args, const std::string &in, std::string &out, int &status) {
  std::string o = scratch() + "/out", e = scratch() + "/err", f = scratch() + "/in.xif"; const char *exe = getenv("XV_CALLXRTM"); if (!exe) _exit(3); if (in.size()) put(f, in);
  std::vector<char *> a; a.push_back(const_cast<char *>("callxrtm")); for (auto &x : args) a.push_back(const_cast<char *>(x.c_str())); a.push_back(0); fflush(stdout);
  pid_t pid = fork(); if (!pid) { alarm(100); if (!freopen(in.size() ? f.c_str() : "/dev/null", "r", stdin) || !freopen(o.c_str(), "w", stdout) || !freopen(e.c_str(), "w", stderr)) _exit(98); execv(exe, a.data()); _exit(99); }
  int st = 0; waitpid(pid, &st, 0); status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); count("programs_run"); out = get(o); if (status == 98 || status == 99) _exit(3); return status == 0; }
extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
// a text with mistakes in it
static std::string spoil(Rng &r, const std::string &text) {
  VS tok; std::string cur; for (char ch : text) { bool w = isalnum((unsigned char)ch) || ch == '_' || ch == '.'; if (w) { cur += ch; continue; } if (cur.size()) tok.push_back(cur); cur.clear(); tok.push_back(std::string(1, ch)); } if (cur.size()) tok.push_back(cur);
  for (int q = 0, m = r.i(1, 3); q < m && tok.size() > 2; ++q) { size_t at = (size_t)r.i(0, (int)tok.size() - 1), b = (size_t)r.i(0, (int)tok.size() - 1); std::string &t = tok[at]; bool num = isdigit((unsigned char)t[0]);
    switch (r.i(0, 8)) { case 0: tok.erase(tok.begin() + at); break; case 1: tok.insert(tok.begin() + at, t); break; case 2: std::swap(t, tok[b]); break; case 3: t = tok[b]; break; case 4: tok.resize(at); break; case 5: if (num) t = sf("%d", r.i(0, 12)); else t = r.pick({std::string("{"), std::string("}"), std::string("["), std::string("]"), std::string(","), std::string(";"), std::string("="), std::string("-"), std::string("'"), std::string(":"), std::string("1.e3"), std::string("(")}); break;
      case 6: for (size_t k = at; k < tok.size(); ++k) if (tok[k] == "[" && k + 1 < tok.size()) { tok[k + 1] = r.pick({std::string("-1"), std::string("7"), std::string("99"), std::string(":"), std::string("2")}); break; } break; case 7: for (size_t k = at; k < tok.size(); ++k) if (isdigit((unsigned char)tok[k][0])) { tok[k] = sf("%d", r.i(-2, 12)); break; } break;
      default: t += r.pick({std::string("x"), std::string("_l"), std::string("\""), std::string("/*"), std::string("[0]"), std::string("[:]"), std::string("[0][0][0]"), std::string("[1][2][3][4][5][6][7][8][9]")}); } }
  std::string o; for (auto &t : tok) o += t; return o;
}
PROP(C27) { static Scratch cleanup; UNUSED_K;
  Cfg c; In n; Gen g; g.user = false; g.nphi = 2; g.nq_max = 3; g.nl_max = 3; g.p_der = .5; g.p_vec = .25; g.nt0 = 1; bool fdm = r.p(.2); if (fdm) { g.der = 1; g.solvers = r.pick({EIGB, EIGA, DOUB}); }
  if (!gen(r, g, c, n) || c.n_theta_0s != 1) return skip("gen"); c.n_kernel_quad = std::max(c.n_kernel_quad, 1); for (int k : c.kernels) if (k == XRTM_KERNEL_USER_DEFINED) return skip("user_kernel");
  n.fourier_tol = 0.; int mode = r.p(.3) ? 3 : fdm ? 0 : r.p(.2) ? 2 : r.p(.4) ? 1 : 0; VD h(n.l.size(), 1.), delta; if (!c.o(O_DER)) h.clear(); Cfg a = c; if (fdm) { if (h.empty()) return skip("no_derivs"); a.options &= ~O_DER; a.n_derivs = 0; for (auto &x : h) { x = r.lu(1e-4, 1e-3); delta.push_back(r.lu(1e-4, 1.)); } }
  for (auto &x : n.phi0 < 0 ? VD{} : VD{}) (void)x; if (fdm) { for (auto &x : n.omega) if (x < .05 || x > .95) x = r.u(.1, .9); for (auto &x : n.amp) if (x < .01) x = .05; else if (x > .95) x = .9; if (c.o(O_TAU)) for (auto &x : n.out_taus) x *= .9; }
  Named nm; if (mode != 1 && r.p(mode == 3 ? .5 : .3)) { nm = name_coefs(r, c, n, false); for (auto &x : h) x = 1.; seen("coefficients", "by name"); }
  In base = n; if (fdm) base.l.clear(); Model m(a); if (!ready(m, base)) return; int s = 0; { std::vector<int> v; for (int x : ALLS) if (a.solvers & x) v.push_back(x); s = r.pick(v); }
  const char *suf = fdm ? "p" : "l"; seen("mode", mode == 0 ? fdm ? "read finite differences" : "read" : mode == 1 ? "write and read" : mode == 2 ? "program" : "read with mistakes"); nontrivial(a.desc()); sample(a.desc()); VD want = state(m.d, a);
  auto where = [&](const VD &x, const VD &y) { if (x.size() != y.size()) return sf("%d values held instead of %d; ", (int)y.size(), (int)x.size()); for (size_t k = 0; k < x.size(); ++k) if (nm.on ? !(std::fabs(x[k] - y[k]) <= 1e-11 * std::fabs(x[k]) + 1e-13) : memcmp(&x[k], &y[k], 8) != 0) return sf("value %d of %d is %.17g instead of %.17g; ", (int)k, (int)x.size(), y[k], x[k]); return std::string(); };
  if (mode == 3) {
    Text t{r, r.p(.4)}; std::string good = part1(t, a, fdm ? 2 : -1, (int)h.size()) + part2(t, a, n, suf, h, delta, nm), text = nm.on && r.p(.4) ? good : spoil(r, good); Parsed p;
    if (nm.on && (text == good || r.p(.3))) for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) { std::string f = scratch() + sf("/c%d_%d.gc", i, j), x = get(f); if (x.empty() || !r.p(.6) || good.find(f) == std::string::npos) continue; size_t e = x.find("\ng "); e = e == std::string::npos ? 0 : x.find('\n', e + 1) + 1; int w = r.i(0, 5); count("coefficient_files_spoiled");
      if (w == 0) x.resize((size_t)r.i(0, (int)x.size())); else if (w == 1 || w == 2) { size_t q = x.find('\n', e); x = x.substr(0, e) + sf("%d", r.pick({-5, -1, 0, 1, 2, 100, 100000})) + x.substr(q); } else if (w == 3) x.insert((size_t)r.i((int)e, (int)x.size()), r.pick({std::string("x"), std::string("-"), std::string(" 1e999 "), std::string("nan"), std::string("\n\n"), std::string(" = ")})); else if (w == 4) x = spoil(r, x); else { unlink(f.c_str()); continue; } put(f, x); } R().evals++; seen("form", sf("%s with mistakes", t.str ? "string syntax" : "file syntax"));
// in a process of its own: an input refused ends the program, and what it leaves behind is not used again
    fflush(stdout); pid_t pid = fork(); if (!pid) { alarm(60); if (!parse(p, a, text, t.str, false, false)) _exit(11); p.fdm = p.md.fd_method >= 0; p.m.c.n_derivs = xrtm_get_n_derivs(p.m.d); p.m.c.options = xrtm_get_options(p.m.d); p.drop(); { Model gone; std::swap(gone.d, p.m.d); std::swap(gone.ok, p.m.ok); gone.c = p.m.c; } if (__lsan_do_recoverable_leak_check && __lsan_do_recoverable_leak_check()) _exit(12); _exit(10); }
    int st = 0; waitpid(pid, &st, 0); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); if (rc == 10 || rc == 11) count(rc == 10 ? "mistaken_inputs_accepted" : "mistaken_inputs_refused"); else viol(rc == 12 ? "mistaken_input_leaks" : rc == -SIGALRM ? "mistaken_input_hangs" : "mistaken_input_crashes", sf("status %d; ", rc) + text.substr(0, 900)); return;
  }
  if (mode == 0) {
    Text t{r, r.p(.4)}; std::string text = part1(t, a, fdm ? 2 : -1, (int)h.size()) + part2(t, a, n, suf, h, delta, nm); if (r.p(.5)) text += "\n"; bool file = r.p(.4);
    Parsed p; seen("form", sf("%s %s", t.str ? "string syntax" : "file syntax", file ? "file" : "string")); R().evals++;
    if (!parse(p, a, text, t.str, fdm, file)) { viol(sf("valid_input_refused%s", fdm ? ".fd" : ""), D(a, base) + " ## " + text.substr(0, 600)); return; }
    VD have = state(p.m.d, a); std::string w = where(want, have); if (w.size()) { viol(sf("read%s", fdm ? ".fd" : ""), w + D(a, base) + " ## " + text.substr(0, 400)); return; }
    if (p.md.n_layers != a.n_layers || p.md.fd_method != (fdm ? 2 : -1)) viol("read.misc", D(a, base));
    if (fdm) { bool ok = xrtm_fd_get_n_derivs(&p.fd) == (int)h.size(); VD x(h.size()); xrtm_fd_get_delta(&p.fd, x.data()); ok = ok && bitsame(x, delta); std::string bad = ok ? "" : "delta"; auto C = [&](const char *nm2, double got, double w2) { count("perturbations_read"); if ((nm.on ? !(std::fabs(got - w2) <= 1e-11 * std::fabs(w2) + 1e-13) : got != w2) && bad.empty()) bad = nm2; };
      for (int j = 0; j < (int)h.size(); ++j) { const Lin &q = n.l[j]; C("F_iso_top_p", xrtm_fd_get_F_iso_top_p(&p.fd, j), h[j] * q.Fit); C("F_iso_bot_p", xrtm_fd_get_F_iso_bot_p(&p.fd, j), h[j] * q.Fib);
        if (a.o(O_TH)) { C("surface_b_p", xrtm_fd_get_surface_b_p(&p.fd, j), h[j] * q.sb); VD y(a.n_layers + 1); xrtm_fd_get_levels_b_p(&p.fd, j, y.data()); for (int i = 0; i <= a.n_layers; ++i) C("levels_b_p", y[i], h[j] * q.lb[i]); }
        for (int i = 0; i < a.n_layers; ++i) { C("omega_p", xrtm_fd_get_omega_p(&p.fd, i, j), h[j] * q.omega[i]); C("ltau_p", xrtm_fd_get_ltau_p(&p.fd, i, j), h[j] * q.ltau[i]); for (size_t e = 0; e < q.coef[i].size(); ++e) for (size_t k = 0; k < q.coef[i][e].size(); ++k) C("coef_p", xrtm_fd_get_coef_p(&p.fd, i, j, (int)e, (int)k), h[j] * q.coef[i][e][k]); }
        for (size_t k = 0; k < a.kernels.size(); ++k) { C("kernel_ampfac_p", xrtm_fd_get_kernel_ampfac_p(&p.fd, (int)k, j), h[j] * q.amp[k]); for (int v = 0; v < kern_np(a.kernels[k]); ++v) C("kernel_params_p", xrtm_fd_get_kernel_params_p(&p.fd, (int)k, j, v), h[j] * q.par[k][v]); } }
      if (bad.size()) { viol("read.fd." + bad, D(a, base) + " ## " + text.substr(0, 400)); return; } p.drop(); return; }
    int what = s == SING ? XRTM_OUTPUT_RADIANCE : r.pick({(int)XRTM_OUTPUT_RADIANCE, (int)(XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX)}); p.m.vis = m.vis = 1; m.update(); p.m.update();
    Res x = m.run(s, base, what), y = p.m.run(s, base, what); R().evals++; if (!nm.on && !bitsame(x, y)) viol(sf("results_differ.%s", sname(s)), D(a, base));
    p.drop(); return;
  }
  if (mode == 1) {
    bool str = r.p(.3), al = r.p(.5); bool dash = false; std::string o1 = scratch() + "/out.xif", o2 = scratch() + "/out2.xif"; misc_data md; misc_init(m.d, &md, -1);
    auto write = [&](xrtm_data *d, misc_data *q, const std::string &f) { if (r.p(.5)) return xrtm_fwrite_input_fn(d, nullptr, q, f.c_str(), '\n', al, str, dash, !str); FILE *fp = fopen(f.c_str(), "w"); int rc = xrtm_fwrite_input_fp(d, nullptr, q, fp, '\n', al, str, dash, !str); fclose(fp); return rc; };
    R().evals++; count("files_written"); if (write(m.d, &md, o1)) { misc_free(&md); viol("valid_write_refused", D(a, base)); return; } misc_free(&md);
    Parsed p; std::string text = get(o1); if (!parse(p, a, text, str, false, r.p(.5))) { viol("written_input_refused", D(a, base) + " ## " + text.substr(0, 500)); return; }
    VD have = state(p.m.d, a); double dv = 0; size_t at = 0; if (have.size() != want.size()) { viol("written.size", D(a, base)); return; } for (size_t k = 0; k < want.size(); ++k) { double e = std::fabs(have[k] - want[k]) / (1e-6 * std::fabs(want[k]) + 1e-300); if (!(e == e)) e = HUGE_VAL; if (e > dv) { dv = e; at = k; } }
    if (!verdict("written_and_read_back", dv, "written", sf("value %d of %d: %.9g, was %.9g; ", (int)at, (int)want.size(), have[at], want[at]) + D(a, base))) return;
    if (write(p.m.d, &p.md, o2)) { viol("second_write_refused", D(a, base)); return; } std::string t2 = get(o2); if (t2 != text) viol("second_write_differs", D(a, base)); p.drop(); return;
  }
  // the program
  Text t{r, r.p(.5)}; VS args; std::string text = part1(t, a, -1, 0), in; if (t.str) { text += ":: " + part2(t, a, n, suf, h, delta, nm); args = {"-input_string", text}; } else { text += part2(t, a, n, suf, h, delta, nm); if (r.p(.5)) in = text; else { put(scratch() + "/in.xif", text); args = {"-input_file", scratch() + "/in.xif"}; } }
  int what = s == SING ? XRTM_OUTPUT_RADIANCE : r.pick({(int)XRTM_OUTPUT_RADIANCE, (int)XRTM_OUTPUT_FLUX, (int)XRTM_OUTPUT_RADIANCE_MEAN, 7}); VD ph; for (int q = 0, k = r.i(1, 3); q < k; ++q) ph.push_back(r.p(.2) ? 0. : r.u(0, 360)); { std::string o; for (double x : ph) o += (o.size() ? "," : "") + sf("%.17e", x); args.push_back("-out_phis"); args.push_back(o); }
  if (!(what & XRTM_OUTPUT_RADIANCE)) args.push_back("-no_radiance"); if (what & XRTM_OUTPUT_RADIANCE_MEAN) args.push_back("-radiance_mean"); if (what & XRTM_OUTPUT_FLUX) args.push_back("-flux"); args.push_back("-solver"); args.push_back(xrtm_solver_mask_to_name((enum xrtm_solver_mask)s));
  int nt = a.n_out_thetas ? a.n_out_thetas : a.n_quad; In q = base; q.phis.assign(nt, ph); m.vis = 1; m.update(); Res x = m.run(s, q, what == 7 ? XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX | XRTM_OUTPUT_RADIANCE_MEAN : what); if (what == 7) what = XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX | XRTM_OUTPUT_RADIANCE_MEAN;
  if (x.rc) return skip("run"); std::string out; int st; R().evals++; seen("program", t.str ? "input_string" : in.size() ? "standard input" : "input_file");
  if (!call(args, in, out, st)) { viol("program.failed", sf("callxrtm ends with status %d; ", st) + get(scratch() + "/err").substr(0, 300) + D(a, q) + " ## " + text.substr(0, 400)); return; }
  // expected table
  std::vector<VD> T; std::vector<bool> rad; std::vector<double> scs; bool up = a.o(O_UP) || !a.o(O_DN), dn = a.o(O_DN) || !a.o(O_UP); int J = a.n_derivs; VD qx(a.n_quad + a.n_out_thetas); xrtm_qx(m.d, qx.data());
  auto lv = [&](int i) { if (a.o(O_LEV)) return (double)base.out_levels[i]; VD v(a.n_out_levels); xrtm_get_out_taus(m.d, v.data()); return v[i]; };
  auto table = [&](const Res &x) { T.clear(); rad.clear(); if (what & XRTM_OUTPUT_RADIANCE) for (int i = 0; i < x.nl; ++i) for (int u = 0; u < x.nt; ++u) for (int v = 0; v < x.np; ++v) for (int z = 0; z < x.ns; ++z) { VD row = {lv(i), std::acos(qx[(a.n_out_thetas ? a.n_quad : 0) + u]) / D2R_, ph[v], (double)z}; if (up) row.push_back(x.Ip[x.ix(i, u, v, z)]); if (dn) row.push_back(x.Im[x.ix(i, u, v, z)]); for (int j = 0; j < J; ++j) { if (up) row.push_back(x.Kp[x.kx(i, j, u, v, z)]); if (dn) row.push_back(x.Km[x.kx(i, j, u, v, z)]); } T.push_back(row); rad.push_back(true); }
  auto flx = [&](const VD &p, const VD &mi, const VD &pl, const VD &ml) { for (int i = 0; i < x.nl; ++i) { VD row = {lv(i)}; if (up) row.push_back(p[i]); if (dn) row.push_back(mi[i]); for (int j = 0; j < J; ++j) { if (up) row.push_back(pl[i * J + j]); if (dn) row.push_back(ml[i * J + j]); } T.push_back(row); rad.push_back(false); } };
  if (what & XRTM_OUTPUT_RADIANCE_MEAN) flx(x.mp, x.mm, x.mpl, x.mml); if (what & XRTM_OUTPUT_FLUX) flx(x.fp, x.fm, x.fpl, x.fml); }; table(x);
  std::vector<std::string> lines; { std::string l; for (char ch : out) if (ch == '\n') { if (l.size() && l.compare(0, 5, "level") && l.compare(0, 3, "tau")) lines.push_back(l); l.clear(); } else l += ch; }
  if (lines.size() != T.size()) { viol("program.lines", sf("%d lines printed, %d expected; ", (int)lines.size(), (int)T.size()) + D(a, q)); return; }
  double big = 0; for (auto &row : T) for (size_t k = 4; k < row.size(); ++k) big = std::max(big, std::fabs(row[k])); double worst = 0; std::string at;
  std::vector<VD> V(T.size()); for (size_t l = 0; l < T.size(); ++l) if (!numbers(lines[l], V[l], rad[l]) || V[l].size() != T[l].size()) { viol("program.columns", sf("line %d: %s; ", (int)l, lines[l].substr(0, 200).c_str()) + D(a, q)); return; }
  std::vector<VD> N; auto judge = [&] { worst = 0; at.clear(); for (size_t l = 0; l < T.size(); ++l) for (size_t k = 0; k < V[l].size(); ++k) { double e = std::fabs(V[l][k] - T[l][k]) / (1e-6 * std::fabs(T[l][k]) + (rad[l] && k == 1 ? 1e-5 : 1e-9 * big + 1e-13) + (N.size() && !(k < 4 && rad[l]) ? 100 * std::fabs(N[l][k] - T[l][k]) : 0.)); if (!(e == e)) e = HUGE_VAL; count("printed_values"); if (e > worst) { worst = e; at = sf("line %d column %d: %.7g, the interface gives %.7g; ", (int)l, (int)k, V[l][k], T[l][k]); } } };
  judge();
  if (worst > 1) { // how much do the results change when the inputs do in their last digits?
    In y = q; for (auto &v : y.ltau) v *= 1 + 1e-12; if (y.theta0 > 1) y.theta0 *= 1 - 1e-12; Model m2(a); if (m2.ok && !m2.set_all(y)) { Res z = m2.run(s, y, what); if (!z.rc) { std::vector<VD> keep = T; std::vector<bool> kr = rad; table(z); N = T; T = keep; rad = kr; if (N.size() != T.size()) N.clear(); count("neighbours_compared"); judge(); } }
  }
  verdict("program", worst, sf("program.%s", J && at.size() ? "values" : "values"), at + D(a, q));
}
