// C33 the scattering library: analytic phase functions, their derivatives, and files written and read back
#include "xmon.hpp"
#include <rtutil_scat_io.h>
#include <rtutil_support.h>
#include <unistd.h>
namespace {
typedef scat_header_data H;
const std::string &dir() { static std::string *d = nullptr; if (!d) { char b[] = "/tmp/xv-scat-XXXXXX"; if (!mkdtemp(b)) _exit(3); d = new std::string(b); } return *d; }
struct Clean { ~Clean() { for (const char *n : {"a", "b"}) unlink((dir() + "/" + n).c_str()); rmdir(dir().c_str()); } };
double *HD[] = {nullptr};
std::vector<double H::*> hd() { return {&H::lambda, &H::mr, &H::mi, &H::a1, &H::a2, &H::a3, &H::a4, &H::a5, &H::r1, &H::r2, &H::norm, &H::reff, &H::veff, &H::gavg, &H::vavg, &H::ravg, &H::rvw, &H::cext, &H::csca, &H::cbak, &H::g}; }
H header(Rng &r) { H h; memset((void *)&h, 0, sizeof h); for (auto m : hd()) h.*m = r.p(.1) ? 0. : (r.p(.3) ? -1 : 1) * r.lu(1e-12, 1e12); h.accuracy = r.u(0, 1); h.n_int1 = r.i(0, 1000000); h.n_int2 = r.i(-3, 90); h.n_quad = r.i(0, 5000); h.dist_type = (enum size_dist_type)r.i(0, N_SIZE_DIST_TYPES - 1); return h; }
bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::fabs(b); }
std::string hcmp(const H &a, const H &b, double tol, bool acc) { int k = 0; for (auto m : hd()) { if (!near(a.*m, b.*m, tol)) return sf("value %d of the header is %.9g, was %.9g", k, a.*m, b.*m); ++k; } if (acc && !near(a.accuracy, b.accuracy, tol)) return "accuracy"; if (a.n_int1 != b.n_int1 || a.n_int2 != b.n_int2 || a.n_quad != b.n_quad || a.dist_type != b.dist_type) return sf("integers of the header: %d %d %d %d, were %d %d %d %d", a.n_int1, a.n_int2, a.n_quad, a.dist_type, b.n_int1, b.n_int2, b.n_quad, b.dist_type); return ""; }
// an array of the library's kind with known values
struct A2 { double **p = nullptr; int m, n; A2(int m_, int n_) : m(m_), n(n_) { p = alloc_array2_d(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) p[i][j] = 0; } void fill(Rng &r) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) p[i][j] = r.p(.1) ? 0. : (r.p(.5) ? -1 : 1) * r.lu(1e-9, 1e5); } ~A2() { free_array2_d(p); } };
const double T7 = 6e-7;
struct Silent { int fd; Silent() { fflush(stderr); fd = dup(2); if (!freopen("/dev/null", "w", stderr)) _exit(3); } ~Silent() { fflush(stderr); dup2(fd, 2); close(fd); } };
}
static void formulas(Rng &r) {
  int n = r.i(1, 60); auto S = [](std::initializer_list<double> v) { std::string s; for (double x : v) s += sf("%.9g ", x); return s; }; auto cmp = [&](const char *what, const double *got, const std::vector<double> &want, const std::string &at) { double big = 0, v = 0; for (double x : want) big = std::max(big, std::fabs(x)); for (size_t k = 0; k < want.size(); ++k) v = std::max(v, std::fabs(got[k] - want[k]) / (1e-12 * big + 1e-300)); R().evals++; verdict(what, v, what, at); };
  double g = r.p(.1) ? r.pick({0., 1., -1., .999}) : r.u(-1, 1), g2 = r.u(-1, 1), f = r.p(.2) ? r.pick({0., 1.}) : r.u(0, 1), gl = r.p(.2) ? 0. : r.u(-2, 2), g2l = r.p(.2) ? 0. : r.u(-2, 2), fl = r.p(.2) ? 0. : r.u(-2, 2), rho = r.u(0, .5), rl = r.u(-2, 2);
  VD a(n, 7.), b(n), bl(n), c(n), cl(n); auto pw = [](double x, int k) { return k ? std::pow(x, k) : 1.; }; for (int k = 0; k < n; ++k) { double w = 2 * k + 1, d = k ? k * pw(g, k - 1) : 0, d2 = k ? k * pw(g2, k - 1) : 0; b[k] = w * pw(g, k); bl[k] = w * d * gl; c[k] = w * (f * pw(g, k) + (1 - f) * pw(g2, k)); cl[k] = w * (fl * (pw(g, k) - pw(g2, k)) + f * d * gl + (1 - f) * d2 * g2l); }
  scat_coefs_hg(n, g, a.data()); cmp("hg", a.data(), b, S({g})); scat_coefs_hg_l(n, g, gl, a.data()); cmp("hg_l", a.data(), bl, S({g, gl})); scat_coefs_dhg(n, g, g2, f, a.data()); cmp("dhg", a.data(), c, S({g, g2, f})); scat_coefs_dhg_l(n, g, g2, f, gl, g2l, fl, a.data()); cmp("dhg_l", a.data(), cl, S({g, g2, f, gl, g2l, fl}));
  // Rayleigh with depolarization: the six expansions evaluated as functions of the angle
  A2 y(6, 3), yl(6, 3); y.fill(r); yl.fill(r); scat_coefs_ray(rho, y.p); scat_coefs_ray_l(rho, rl, yl.p); double D = (1 - rho) / (1 + rho / 2), z = (1 + rho / 2), Dl = rl * (-1 / z - (1 - rho) / 2 / (z * z)), mu = r.u(-1, 1), p2 = (3 * mu * mu - 1) / 2;
  auto P = [&](double **q) { double s = std::sqrt(6.) / 4 * (1 - mu * mu), x = (1 + mu) * (1 + mu) / 4, w = (1 - mu) * (1 - mu) / 4; VD v; v.push_back(q[0][0] + q[0][1] * mu + q[0][2] * p2); v.push_back(q[1][2] * x + q[2][2] * x); v.push_back(q[1][2] * w - q[2][2] * w); v.push_back(q[3][0] + q[3][1] * mu + q[3][2] * p2); v.push_back(q[4][2] * s); v.push_back(q[5][2]); for (int e : {1, 2, 4, 5}) v.push_back(std::fabs(q[e][0]) + std::fabs(q[e][1])); return v; };
  // phase matrix: a1 = D 3/4 (1 + mu^2) + 1 - D, a2 the same without 1 - D, a3 = D 3/2 mu, a4 = D Delta' 3/2 mu, |b1| = D 3/4 (1 - mu^2)
  VD v = P(y.p), vl = P(yl.p); double d4 = (1 - 2 * rho) / (1 - rho), a2 = D * .75 * (1 + mu * mu), a3 = D * 1.5 * mu; VD w = {a2 + 1 - D, a2 + a3, a2 - a3, D * d4 * 1.5 * mu, D * .75 * (1 - mu * mu), 0, 0, 0, 0, 0}; double DD = Dl * d4 + D * rl * (-2 / (1 - rho) + (1 - 2 * rho) / ((1 - rho) * (1 - rho))); VD wl = {Dl * .75 * (1 + mu * mu) - Dl, Dl * .75 * (1 + mu * mu) + Dl * 1.5 * mu, Dl * .75 * (1 + mu * mu) - Dl * 1.5 * mu, DD * 1.5 * mu, Dl * .75 * (1 - mu * mu), 0, 0, 0, 0, 0};
  // generalized spherical functions differ in normalization between conventions: a2 +- a3 are (alpha +- zeta) P_2,+-2 with P_22 = (1 +- mu)^2 / 4
  w[1] *= 1; v[4] = std::fabs(v[4]); w[4] = std::fabs(w[4]); if (wl[4] < 0 || v[4] == 0) {} double s4 = P(y.p)[4] < 0 ? -1 : 1; vl[4] *= s4;
  cmp("ray", v.data(), w, S({rho, mu})); cmp("ray_l", vl.data(), wl, S({rho, rl, mu}));
}
static void files(Rng &r) {
  std::string fn = dir() + "/a"; H h = header(r), h2; memset((void *)&h2, 0x5A, sizeof h2); bool hdr = r.p(.8); H *hw = hdr ? &h : nullptr, *hr = r.p(.8) ? &h2 : nullptr, zero; memset((void *)&zero, 0, sizeof zero); scat_header_zero(&zero); int kind = r.i(0, 5); static const char *kn[] = {"header", "phase function", "coefficients", "binary coefficients", "totals", "phase matrices"}; seen("file", kn[kind]); R().evals++;
  std::string bad; auto hc = [&](double tol, bool acc) { if (!hr || bad.size()) return; H w = hdr ? h : zero; bad = hcmp(h2, w, tol, acc); }; auto V = [&](double got, double want, double tol, const std::string &s) { count("values_read_back"); if (!near(got, want, tol) && bad.empty()) bad = s + sf(": %.9g, was %.9g", got, want); };
  if (kind == 0) { bool bin = r.p(.5); if ((bin ? scat_header_write_bin_fn : scat_header_write_fn)(fn.c_str(), &h) || (bin ? scat_header_read_bin_fn : scat_header_read_fn)(fn.c_str(), &h2)) bad = "failed"; else { hr = &h2; hdr = true; hc(bin ? 0 : T7, bin); if (bin) { FILE *f = fopen(fn.c_str(), "r"); fseek(f, 0, SEEK_END); if (ftell(f) != scat_header_size_bin()) bad = "size of the binary header"; fclose(f); } } if (bad.size()) viol(bin ? "header_bin" : "header", bad); 
    // every field goes out and comes in through the lists of arguments too
    H q; memset((void *)&q, 0, sizeof q); double l, mr, mi, a1, a2, a3, a4, a5, r1, r2, ac, no, re, ve, ga, va, ra, rv, ce, cs, cb, g; int n1, n2, nq; enum size_dist_type dt; scat_header_export(&h, &l, &mr, &mi, &dt, &a1, &a2, &a3, &a4, &a5, &r1, &r2, &n1, &n2, &nq, &ac, &no, &re, &ve, &ga, &va, &ra, &rv, &ce, &cs, &cb, &g); scat_header_import(&q, l, mr, mi, dt, a1, a2, a3, a4, a5, r1, r2, n1, n2, nq, ac, no, re, ve, ga, va, ra, rv, ce, cs, cb, g); std::string x = hcmp(q, h, 0, true); if (x.size()) viol("header_lists", x); if (l != h.lambda || mi != h.mi || a3 != h.a3 || r2 != h.r2 || n2 != h.n_int2 || re != h.reff || rv != h.rvw || cs != h.csca || g != h.g) viol("header_export", "a field came out as another");
    return; }
  bool fp = r.p(.5); int reps = fp && kind == 3 ? r.i(1, 3) : 1; // a text record is read from the start of its file
  if (kind == 1) { std::vector<std::pair<A2 *, VD>> all; bool six = r.p(.6); FILE *f = fp ? fopen(fn.c_str(), "w") : nullptr; for (int q = 0; q < reps; ++q) { int n = r.i(1, 40); A2 *p = new A2(6, n); p->fill(r); VD th(n); for (auto &x : th) x = r.u(0, 180); if (fp ? phase_func_write_fp(f, hw, th.data(), p->p, n, six) : phase_func_write_fn(fn.c_str(), hw, th.data(), p->p, n, six)) bad = "write failed"; all.push_back({p, th}); } if (f) fclose(f);
    f = fp ? fopen(fn.c_str(), "r") : nullptr; for (auto &q : all) { double *th = nullptr, **p = nullptr; if (bad.empty()) { int n = fp ? phase_func_read_fp(f, hr, &th, &p, six) : phase_func_read_fn(fn.c_str(), hr, &th, &p, six); if (n != q.first->n) bad = sf("%d angles read of %d", n, q.first->n); else { for (int k = 0; k < n; ++k) { V(th[k], q.second[k], T7, sf("angle %d", k)); for (int e = 0; e < 6; ++e) V(p[e][k], e && !six ? 0 : q.first->p[e][k], T7, sf("element %d at angle %d", e, k)); } free_array1_d(th); free_array2_d(p); hc(T7, false); } } delete q.first; } if (f) fclose(f); if (bad.size()) viol("phase_function", bad); return; }
  if (kind == 2) { std::vector<A2 *> all; int all6 = r.p(.6); FILE *f = fp ? fopen(fn.c_str(), "w") : nullptr; for (int q = 0; q < reps; ++q) { A2 *p = new A2(6, r.i(1, 40)); p->fill(r); if (fp ? scat_coefs_write_fp(f, p->n, hw, p->p, all6) : scat_coefs_write_fn(fn.c_str(), p->n, hw, p->p, all6)) bad = "write failed"; all.push_back(p); } if (f) fclose(f);
    f = fp ? fopen(fn.c_str(), "r") : nullptr; for (size_t q = 0; q < all.size(); ++q) { A2 *p = all[q]; bool six = r.p(.6); int n = reps == 1 || q + 1 == all.size() ? r.pick({0, -1, p->n, p->n + 3, std::max(1, p->n / 2)}) : 0, m = n > 0 ? std::min(n, p->n) : p->n; double **c = nullptr; if (bad.empty()) { int k = fp ? scat_coefs_read_fp(f, n, hr, &c, six) : scat_coefs_read_fn(fn.c_str(), n, hr, &c, six); if (k != m) bad = sf("%d coefficients read of %d (%d asked for)", k, p->n, n); else { for (int e = 0; e < (six ? 6 : 1); ++e) for (int i = 0; i < m; ++i) V(c[e][i], e && !all6 ? 0 : p->p[e][i], T7, sf("element %d of %d at %d", e, six ? 6 : 1, i)); free_array2_d(c); hc(T7, false); } } delete p; } if (f) fclose(f); if (bad.size()) viol("coefficients", bad); return; }
  if (kind == 3) { struct Rec { A2 *p; int size, el; }; std::vector<Rec> all; FILE *f = fp ? fopen(fn.c_str(), "w") : nullptr; for (int q = 0; q < reps; ++q) { Rec x{new A2(6, r.i(1, 40)), r.pick({4, 8}), r.pick({1, 6, 4})}; x.p->fill(r); long at = f ? ftell(f) : 0; if (fp ? scat_coefs_write_bin_fp(f, x.p->n, hw, x.p->p, x.size, x.el) : scat_coefs_write_bin_fn(fn.c_str(), x.p->n, hw, x.p->p, x.size, x.el)) bad = "write failed"; if (f && ftell(f) - at != scat_coefs_size_bin(x.p->n, x.size, x.el)) bad = "size of the record"; all.push_back(x); } if (f) fclose(f);
    f = fp ? fopen(fn.c_str(), "r") : nullptr; for (auto &x : all) { int el = r.p(.6) ? x.el : r.i(1, x.el), size = r.pick({4, 8}), n = r.pick({0, -1, x.p->n, x.p->n + 3, std::max(1, x.p->n / 2)}), m = n > 0 ? std::min(n, x.p->n) : x.p->n; void **c = nullptr; double tol = size == 4 || x.size == 4 ? 1.3e-7 : 0; if (bad.empty()) { int k = fp ? scat_coefs_read_bin_fp(f, n, hr, &c, size, el) : scat_coefs_read_bin_fn(fn.c_str(), n, hr, &c, size, el); if (k != m) bad = sf("%d coefficients read of %d (%d asked for)", k, x.p->n, n); else { for (int e = 0; e < el; ++e) for (int i = 0; i < m; ++i) V(size == 4 ? ((float **)c)[e][i] : ((double **)c)[e][i], x.p->p[e][i], tol, sf("element %d of %d (%d in the file) at %d, %d of %d coefficients, %d bytes, %d in the file", e, el, x.el, i, m, x.p->n, size, x.size)); if (size == 4) free_array2_f((float **)c); else free_array2_d((double **)c); hc(0, true); } } delete x.p; } if (f) fclose(f); if (bad.size()) viol("coefficients_bin", bad); return; }
  int nq = r.i(1, 4), nf = r.i(1, 4), qt = r.i(0, N_QUADRATURE_TYPES - 1), nq2 = -1, nf2 = -1, qt2 = -1;
  if (kind == 4) { A2 t(8, 2 * nq), u(8, 2 * nq); t.fill(r); int rc = fp ? [&] { FILE *f = fopen(fn.c_str(), "w"); int q = scat_total_write_fp(f, hw, nq, nf, qt, t.p[0], t.p[1], t.p[2], t.p[3], t.p[4], t.p[5], t.p[6], t.p[7]); fclose(f); return q; }() : scat_total_write_fn(fn.c_str(), hw, nq, nf, qt, t.p[0], t.p[1], t.p[2], t.p[3], t.p[4], t.p[5], t.p[6], t.p[7]); if (rc || scat_total_read_fn(fn.c_str(), hr, &nq2, &nf2, &qt2, u.p[0], u.p[1], u.p[2], u.p[3], u.p[4], u.p[5], u.p[6], u.p[7])) bad = "failed"; else { if (nq2 != nq || nf2 != nf || qt2 != qt) bad = sf("sizes %d %d %d, were %d %d %d", nq2, nf2, qt2, nq, nf, qt); for (int e = 0; e < 8; ++e) for (int i = 0; i < 2 * nq; ++i) V(u.p[e][i], t.p[e][i], T7, sf("total %d at %d", e, i)); hc(T7, false); } if (bad.size()) viol("totals", bad); return; }
  double *****P = alloc_array5_d(nf, 2 * nq, 2 * nq, 4, 4), *****Q = nullptr, ***K = alloc_array3_d(2 * nq, 4, 4), ***L = nullptr, **E = alloc_array2_d(2 * nq, 4), **G = nullptr; auto rv = [&] { return (r.p(.5) ? -1 : 1) * r.lu(1e-9, 1e5); }; for (int i = 0; i < nf; ++i) for (int j = 0; j < 2 * nq; ++j) for (int k = 0; k < 2 * nq; ++k) for (int l = 0; l < 16; ++l) P[i][j][k][l / 4][l % 4] = rv(); for (int j = 0; j < 2 * nq; ++j) for (int l = 0; l < 16; ++l) K[j][l / 4][l % 4] = rv(); for (int j = 0; j < 2 * nq; ++j) for (int l = 0; l < 4; ++l) E[j][l] = rv(); VD qx(nq); for (auto &x : qx) x = r.u(0, 1); 
  if (phase_mats_write_fn(fn.c_str(), hw, nq, nf, qt, r.p(.7) ? qx.data() : nullptr, P, K, E) || phase_mats_read_fn(fn.c_str(), hr, &nq2, &nf2, &qt2, &Q, &L, &G)) bad = "failed"; else { if (nq2 != nq || nf2 != nf || qt2 != qt) bad = sf("sizes %d %d %d, were %d %d %d", nq2, nf2, qt2, nq, nf, qt); else { for (int i = 0; i < nf; ++i) for (int j = 0; j < 2 * nq; ++j) for (int k = 0; k < 2 * nq; ++k) for (int l = 0; l < 16; ++l) V(Q[i][j][k][l / 4][l % 4], P[i][j][k][l / 4][l % 4], T7, sf("matrix of order %d, %d %d, element %d", i, j, k, l)); for (int j = 0; j < 2 * nq; ++j) for (int l = 0; l < 16; ++l) V(L[j][l / 4][l % 4], K[j][l / 4][l % 4], T7, sf("extinction %d, element %d", j, l)); for (int j = 0; j < 2 * nq; ++j) for (int l = 0; l < 4; ++l) V(G[j][l], E[j][l], T7, sf("emission %d, element %d", j, l)); } hc(T7, false); free_array5_d(Q); free_array3_d(L); free_array2_d(G); }
  free_array5_d(P); free_array3_d(K); free_array2_d(E); if (bad.size()) viol("phase_matrices", bad);
}
static void interpolate(Rng &r) {
  H h1 = header(r), h2 = header(r), h; memset((void *)&h, 0x5A, sizeof h); int n1 = r.i(1, 20), n2 = r.i(1, 20), n = std::max(n1, n2); A2 a(6, n1), b(6, n2), c(6, n); a.fill(r); b.fill(r); c.fill(r); double t = r.p(.3) ? r.pick({0., 1., .5}) : r.u(0, 1); bool six = r.p(.6), same = r.p(.8); if (same) h2.dist_type = h1.dist_type; R().evals++;
  int rc; { Silent s; rc = scat_coefs_interp(t, n1, &h1, a.p, n2, &h2, b.p, &h, c.p, six); } if (h1.dist_type != h2.dist_type) { if (rc >= 0) viol("interpolated_between_distributions", sf("%d", rc)); return; }
  if (rc != n) { viol("interpolation.size", sf("%d of %d", rc, n)); return; } for (auto m : hd()) { double w = (1 - t) * (h1.*m) + t * (h2.*m); if (std::fabs(h.*m - w) > 1e-12 * (std::fabs(h1.*m) + std::fabs(h2.*m))) { viol("interpolation.header", sf("%g, should be %g", h.*m, w)); return; } } if (h.dist_type != h1.dist_type) viol("interpolation.type", "");
  for (int e = 0; e < (six ? 6 : 1); ++e) for (int i = 0; i < n; ++i) { double x = i < n1 ? a.p[e][i] : 0, y = i < n2 ? b.p[e][i] : 0, w = (1 - t) * x + t * y; count("values_interpolated"); if (std::fabs(c.p[e][i] - w) > 1e-12 * (std::fabs(x) + std::fabs(y))) { viol("interpolation.coefficients", sf("element %d at %d: %.9g, should be %.9g", e, i, c.p[e][i], w)); return; } }
}
static int EL_WRITTEN, ALL_READ;
// a file of each kind, written by the library; 0: written
static int write_kind(int kind, const char *fn, Rng &r, H &h) {
  int n = r.i(1, 6), nq = r.i(1, 2), nf = r.i(1, 3), qt = r.i(0, N_QUADRATURE_TYPES - 1), el = EL_WRITTEN = r.pick({1, 4, 6}); A2 c(6, n), t(8, 2 * nq); c.fill(r); t.fill(r); VD th(n, 1.);
  if (kind == 0) return scat_header_write_fn(fn, &h);
  if (kind == 1) return phase_func_write_fn(fn, &h, th.data(), c.p, n, 1);
  if (kind == 2) return scat_coefs_write_fn(fn, n, &h, c.p, 1);
  if (kind == 3) return scat_coefs_write_bin_fn(fn, n, &h, c.p, r.pick({4, 8}), el);
  if (kind == 4) return scat_header_write_bin_fn(fn, &h);
  if (kind == 5) return scat_total_write_fn(fn, &h, nq, nf, qt, t.p[0], t.p[1], t.p[2], t.p[3], t.p[4], t.p[5], t.p[6], t.p[7]);
  double *****P = alloc_array5_d(nf, 2 * nq, 2 * nq, 4, 4), ***K = alloc_array3_d(2 * nq, 4, 4), **E = alloc_array2_d(2 * nq, 4);
  for (int i = 0; i < nf; ++i) for (int j = 0; j < 2 * nq; ++j) for (int k = 0; k < 2 * nq; ++k) for (int l = 0; l < 16; ++l) P[i][j][k][l / 4][l % 4] = r.u(-1, 1);
  for (int j = 0; j < 2 * nq; ++j) for (int l = 0; l < 16; ++l) { K[j][l / 4][l % 4] = l; if (l < 4) E[j][l] = l; }
  int rc = phase_mats_write_fn(fn, &h, nq, nf, qt, nullptr, P, K, E); free_array5_d(P); free_array3_d(K); free_array2_d(E); return rc;
}
static int read_kind(int kind, const char *fn, Rng &r) {
  H h2; H *hr = r.p(.5) ? &h2 : nullptr; double *a, **p, ***k; double *****q; void **v; int rc, nq, nf, qt, el = r.p(.6) ? EL_WRITTEN : r.pick({1, 1, 4, 6}), size = r.pick({4, 8}); ALL_READ = el >= EL_WRITTEN;
  switch (kind) {
  case 0: return scat_header_read_fn(fn, &h2);
  case 1: rc = phase_func_read_fn(fn, hr, &a, &p, 1); if (rc >= 0) { free_array1_d(a); free_array2_d(p); } return rc;
  case 2: rc = scat_coefs_read_fn(fn, 0, hr, &p, r.i(0, 1)); if (rc >= 0) free_array2_d(p); return rc;
  case 3: rc = scat_coefs_read_bin_fn(fn, 0, hr, &v, size, el); if (rc >= 0) { if (size == 4) free_array2_f((float **)v); else free_array2_d((double **)v); } return rc;
  case 4: return scat_header_read_bin_fn(fn, &h2);
  case 5: { A2 t(8, 4); return scat_total_read_fn(fn, hr, &nq, &nf, &qt, t.p[0], t.p[1], t.p[2], t.p[3], t.p[4], t.p[5], t.p[6], t.p[7]); }
  default: rc = phase_mats_read_fn(fn, hr, &nq, &nf, &qt, &q, &k, &p); if (rc >= 0) { free_array5_d(q); free_array3_d(k); free_array2_d(p); } return rc; }
}
static const char *KIND[] = {"header", "phase function", "coefficients", "binary coefficients", "binary header", "totals", "phase matrices"};
// damaged files are refused or read, but never harm
static void damaged(Rng &r) {
  std::string fn = dir() + "/a", gn = dir() + "/b"; H h = header(r); int kind = r.i(0, 6); R().evals++; Silent quiet; auto fds = [] { int q = dup(0); close(q); return q; }; int before = fds();
  auto open_files = [&](const char *w) { if (fds() != before) viol("file_left_open", sf("%s, %s", KIND[kind], w)); };
  if (r.p(.1)) { // a device without space
    count("full_devices"); if (!write_kind(kind, "/dev/full", r, h)) viol("lost_file_reported_as_written", KIND[kind]); open_files("written"); return; }
  if (r.p(.05)) { count("missing_files"); if (read_kind(kind, (dir() + "/missing").c_str(), r) >= 0) viol("missing_file_accepted", KIND[kind]); if (!write_kind(kind, (dir() + "/missing/b").c_str(), r, h)) viol("written_nowhere", KIND[kind]); open_files("missing"); return; }
  if (write_kind(kind, fn.c_str(), r, h)) { viol("write_failed", KIND[kind]); return; }
  std::string s; { FILE *f = fopen(fn.c_str(), "r"); char b[65536]; size_t k = fread(b, 1, sizeof b, f); s.assign(b, k); fclose(f); } bool bin = kind == 3 || kind == 4; int how = r.p(.1) ? 0 : r.p(.4) ? 1 : r.p(.6) ? 2 : 3; bool must = false, may = true;
  size_t line = 0; for (int q = 0; q < (kind ? 25 : 24) && line != std::string::npos; ++q) { line = s.find('\n', line); if (line != std::string::npos) ++line; } // the first line after the header
  if (how == 1) { size_t n = (size_t)r.i(0, (int)s.size() - 1); must = bin || n + 14 < s.size() - 14 * (size_t)(kind != 0); s.resize(n); }
  if (how == 2) { if (bin) { if (kind == 3) { int at = scat_header_size_bin() + 4 * r.i(0, 2), v = r.pick({-2147483647, -8, -1, 0, 2, 3, 5, 7, 16, 1000, 100000}); memcpy(&s[(size_t)at], &v, 4); must = v <= 0; } }
    else for (int q = r.i(1, 3); q--;) { size_t at = (size_t)r.i(0, (int)s.size() - 1); if (kind != 5 || at < line || at > s.find('\n', line)) s[at] = r.pick({'x', ' ', '\n', '-', '=', '%', '.', 'e'}); } }
  if (how == 3 && !bin && kind && line < s.size()) { size_t e = s.find('\n', line); if (kind <= 2) { const char *v = r.pick({"0", "-1", "-7", "x", ""}); must = *v; s.replace(line, e - line, v); } // sizes
    else if (kind == 5) { s.replace(line, e - line, "2 1 " + std::string((size_t)r.i(1, 300), 'q')); must = true; } else { const char *v = r.pick({"0 0 gauss_leg", "-1 0 gauss_leg", "1 -1 gauss_leg", "1 -5 gauss_leg", "x", "1 1 nonsense", "1 1 qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq"}); s.replace(line, e - line, v); must = true; } }
  if (how == 0) may = false;
  FILE *f = fopen(gn.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); count("damaged_files"); seen("damaged", KIND[kind]);
  int rc = read_kind(kind, gn.c_str(), r); if (!may && rc < 0 && kind != 3) viol("whole_file_refused", KIND[kind]); if (must && rc >= 0 && (kind != 3 || how != 1 || ALL_READ)) viol("damaged_file_accepted", sf("%s, damage %d", KIND[kind], how)); count(rc < 0 ? "files_refused" : "files_accepted"); open_files(rc < 0 ? "refused" : "accepted");
}
PROP(C33) { static Clean clean; UNUSED_K; int q = r.i(0, 9); seen("part", q < 3 ? "formulas" : q < 7 ? "files" : q < 8 ? "interpolation" : "damaged files"); nontrivial(sf("%d %ld", q, k)); if (q < 3) formulas(r); else if (q < 7) files(r); else if (q < 8) interpolate(r); else damaged(r); }
