// C26: the C++, Fortran 90, Fortran 77 and Python bindings against the C interface.
// A random script of calls is written to a file; a driver per language (harness/bind, generated from the documented
// interface) performs it and prints every status and every value returned; the outputs are compared value by value.
#include "xmon.hpp"
#include "xrtm_int_cpp.h"
#include "xrtm_fd_int_cpp.h"
#include <sys/wait.h>
#include <unistd.h>
#include <sys/stat.h>
#include <signal.h>
extern "C" { void drv_f90(const char *, const char *); void drv_f77_(const char *, const char *, size_t, size_t); }

struct In_ { FILE *f; explicit In_(const char *p) : f(fopen(p, "r")) {} ~In_() { if (f) fclose(f); }
  int i() { int x = 0; if (fscanf(f, "%d", &x) != 1) abort(); return x; } double d() { double x = 0; if (fscanf(f, "%lf", &x) != 1) abort(); return x; }
  bool name(std::string &s) { char b[100]; if (fscanf(f, "%99s", b) != 1) return false; s = b; return true; } };
struct Out_ { FILE *f; explicit Out_(const char *p) : f(fopen(p, "w")) {} ~Out_() { if (f) fclose(f); }
  void ok() { fputs("ok\n", f); } void err() { fputs("error\n", f); } void i(int x) { fprintf(f, "%d\n", x); } void d(double x) { fprintf(f, "%.17g\n", x); }
  void reti(int x) { ok(); i(x); } void retd(double x) { ok(); d(x); }
  void a(const std::vector<int> &v) { for (int x : v) i(x); } void a(const std::vector<double> &v) { for (double x : v) d(x); } };
template <class T> struct Arr { // an array of n dimensions with its levels of pointers
  std::vector<T> v; std::vector<T *> q1; std::vector<T **> q2; std::vector<T ***> q3; std::vector<T ****> q4; int s[5] = {1, 1, 1, 1, 1}; 
  Arr(In_ &q, int n, bool in) { for (int k = 0; k < n; ++k) s[k] = q.i(); size_t t = 1; for (int k = 0; k < n; ++k) t *= s[k]; v.resize(t); if (in) for (auto &x : v) x = sizeof(T) == 4 ? (T)q.i() : (T)q.d();
    v.reserve(t + 1); auto lev = [&](int m) { size_t p = 1; for (int k = 0; k <= n - 1 - m; ++k) p *= s[k]; return p; }; // pointers at a level: the product of the sizes outside it
    q1.reserve(lev(1) + 1); q2.reserve((n > 2 ? lev(2) : 0) + 1); q3.reserve((n > 3 ? lev(3) : 0) + 1); q4.reserve((n > 4 ? lev(4) : 0) + 1);
    if (n > 1) for (size_t k = 0; k < lev(1); ++k) q1.push_back(v.data() + k * s[n - 1]); if (n > 2) for (size_t k = 0; k < lev(2); ++k) q2.push_back(q1.data() + k * s[n - 2]); if (n > 3) for (size_t k = 0; k < lev(3); ++k) q3.push_back(q2.data() + k * s[n - 3]); if (n > 4) for (size_t k = 0; k < lev(4); ++k) q4.push_back(q3.data() + k * s[n - 4]); }
  T *p1() { return v.data(); } T **p2() { return q1.data(); } T ***p3() { return q2.data(); } T ****p4() { return q3.data(); } T *****p5() { return q4.data(); } };
static int crt(In_ &q, int *a, std::vector<int> &k) { for (int i = 0; i < 10; ++i) a[i] = q.i(); int n = q.i(); k.clear(); for (int i = 0; i < n; ++i) k.push_back(q.i()); a[10] = q.i(); a[11] = q.i(); k.reserve(n + 1); return 0; }
static bool call_c(xrtm_data &d, const std::string &nm, In_ &q, Out_ &w) {
#include "bind/calls_c.inc"
  return false;
}
static bool call_cpp(xrtm_int_cpp *m, const std::string &nm, In_ &q, Out_ &w) {
#include "bind/calls_cpp.inc"
  return false;
}
static bool call_fd_c(xrtm_fd_data &fd, const std::string &nm, In_ &q, Out_ &w) {
#include "bind/calls_fd_c.inc"
  return false;
}
static bool call_fd_cpp(xrtm_fd_int_cpp *m, const std::string &nm, In_ &q, Out_ &w) {
#include "bind/calls_fd_cpp.inc"
  return false;
}
static void drv_c(const char *fi, const char *fo, bool fdcpp = false) { In_ q(fi); Out_ w(fo); xrtm_data d; memset((void *)&d, 0x5a, sizeof d); xrtm_fd_data fd; memset((void *)&fd, 0x5a, sizeof fd); xrtm_fd_int_cpp *m = nullptr; std::string nm; while (q.name(nm)) { fprintf(w.f, "%s\n", nm.c_str());
  if (nm == "create") { int a[12]; std::vector<int> k; crt(q, a, k); if (xrtm_create(&d, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], (enum xrtm_kernel_type *)k.data(), a[10], a[11])) w.err(); else w.ok(); }
  else if (nm == "fd_create") { int nd = q.i(); if (fdcpp) { try { m = new xrtm_fd_int_cpp(&d, nd); w.ok(); } catch (xrtm_fd_int_cpp::xrtm_fd_errors) { m = nullptr; w.err(); } } else if (xrtm_fd_create(&fd, &d, nd)) w.err(); else w.ok(); }
  else if (nm == "fd_destroy") { if (fdcpp) { delete m; m = nullptr; w.ok(); } else if (xrtm_fd_destroy(&fd)) w.err(); else w.ok(); }
  else if (nm == "destroy") { if (xrtm_destroy(&d)) w.err(); else w.ok(); } else if (!call_c(d, nm, q, w) && !(fdcpp ? call_fd_cpp(m, nm, q, w) : call_fd_c(fd, nm, q, w))) abort(); } }
static void drv_cpp(const char *fi, const char *fo) { In_ q(fi); Out_ w(fo); xrtm_int_cpp *m = nullptr; std::string nm; while (q.name(nm)) { fprintf(w.f, "%s\n", nm.c_str());
  if (nm == "create") { int a[12]; std::vector<int> k; crt(q, a, k); try { m = new xrtm_int_cpp(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], (xrtm_int_cpp::kernel_type *)k.data(), a[10], a[11]); w.ok(); } catch (xrtm_int_cpp::xrtm_errors) { m = nullptr; w.err(); } }
  else if (nm == "destroy") { delete m; m = nullptr; w.ok(); } else if (!call_cpp(m, nm, q, w)) abort(); } }

// ---- the script
struct Script { FILE *f; int n = 0; explicit Script(const char *p) : f(fopen(p, "w")) {} ~Script() { fclose(f); }
  Script &c(const char *nm) { fprintf(f, "%s\n", nm); n++; seen("subprogram", nm); return *this; } Script &i(int x) { fprintf(f, "%d\n", x); return *this; } Script &d(double x) { fprintf(f, "%.17g\n", x); return *this; }
  Script &dims(std::initializer_list<int> s) { bool b = false; for (int x : s) { fprintf(f, b ? " %d" : "%d", x); b = true; } fputs("\n", f); return *this; }
  template <class T> Script &v(const std::vector<T> &x) { for (auto &y : x) if (sizeof(T) == 4) i((int)y); else d(y); return *this; }
  template <class T> Script &a1(const std::vector<T> &x) { return dims({(int)x.size()}).v(x); } };
static VD pad(const VD &x, int n) { VD y = x; y.resize(n, 0.); return y; }

static const char *sdir() { static char b[64]; if (!b[0]) { snprintf(b, sizeof b, "/tmp/xbind.XXXXXX"); if (!mkdtemp(b)) abort(); atexit([] { for (const char *e : {"in", "c", "cpp", "f90", "f77", "py"}) { char p[100]; snprintf(p, sizeof p, "%s/%s", b, e); unlink(p); } rmdir(b); }); } return b; }
struct Py { pid_t pid = 0; FILE *to = nullptr, *from = nullptr;
  void start() { int a[2], b[2]; if (pipe(a) || pipe(b)) abort(); pid = fork(); if (!pid) { dup2(a[0], 0); dup2(b[1], 1); close(a[1]); close(b[0]); close(a[0]); close(b[1]); const char *so = getenv("XBIND_PY"); const char *sc = getenv("XBIND_DRV"); execlp("python3", "python3", sc ? sc : "", so ? so : "", (char *)0); _exit(127); } close(a[0]); close(b[1]); to = fdopen(a[1], "w"); from = fdopen(b[0], "r"); }
  std::string run(const char *in, const char *out) { if (!pid) start(); signal(SIGPIPE, SIG_IGN); fprintf(to, "%s %s\n", in, out); fflush(to); char b[200]; if (fgets(b, sizeof b, from) && !strncmp(b, "done", 4)) return ""; int st = 0; waitpid(pid, &st, 0); fclose(to); fclose(from); pid = 0; return WIFSIGNALED(st) ? sf("killed by signal %d", WTERMSIG(st)) : sf("exit status %d", WEXITSTATUS(st)); }
  ~Py() { if (pid) { fclose(to); int st; waitpid(pid, &st, 0); } } };
static std::vector<std::string> lines(const std::string &p) { std::vector<std::string> v; FILE *f = fopen(p.c_str(), "r"); char b[400]; if (f) { while (fgets(b, sizeof b, f)) { char *s = b; while (*s == ' ') ++s; size_t l = strlen(s); while (l && (s[l - 1] == '\n' || s[l - 1] == ' ')) s[--l] = 0; if (l) v.push_back(s); } fclose(f); } return v; }

PROP(C26) { UNUSED_K;
  Cfg c; In n; Gen g; g.saves = 0; g.nl_max = 4; g.nq_max = 4; g.p_vec = .3; g.p_der = .6; g.taus = -1; g.psa = -1; g.th = -1; bool fdm = r.p(.25); if (fdm) { g.p_der = 1; g.om_hi = .97; } gen(r, g, c, n); int nd = (int)n.l.size(); if (fdm) { if (!nd) return skip("fd"); c.options &= ~(O_DER | O_STK); c.n_derivs = 0; for (auto &x : n.omega) x = std::min(.95, std::max(.05, x)); for (auto &x : n.amp) x = std::min(.95, std::max(.05, x)); }
  for (auto &t : c.kernels) if (t == XRTM_KERNEL_USER_DEFINED) t = XRTM_KERNEL_ROUJEAN; for (size_t q = 0; q < c.kernels.size(); ++q) if (!kern_np(c.kernels[q])) { n.par[q].clear(); for (auto &l : n.l) l.par[q].clear(); }
  int L = c.n_layers, Dn = c.n_derivs, E = n.coef[0].size(), M = c.max_coef, K = c.kernels.size(), P = n.phis.empty() ? 1 : std::max<int>(1, n.phis[0].size()), T = c.n_out_thetas;
  std::string dir = sdir(), fi = dir + "/in"; bool der = c.o(O_DER); if (!Model(c).ok) return skip("create"); xrtm_data tmp; (void)tmp; int T2 = T ? T : c.n_quad; std::vector<bool> lay, layf;
  { Script S(fi.c_str()); auto coin = [&](double p) { return r.p(p); };
    S.c("create").i((int)c.options).i(c.solvers).i(M).i(c.n_quad).i(c.n_stokes).i(Dn).i(L).i(c.n_theta_0s).i(K).i(c.n_kernel_quad).a1(c.kernels).i(c.n_out_levels).i(T);
    for (const char *q : {"get_options", "get_solvers", "get_max_coef", "get_n_quad", "get_n_stokes", "get_n_derivs", "get_n_layers", "get_n_kernels", "get_n_kernel_quad", "get_n_out_levels", "get_n_out_thetas", "get_n_out_thetas_2"}) if (coin(.7)) S.c(q);
    for (int k = 0; k < K; ++k) S.c("get_kernel").i(k); if (coin(.1)) S.c("get_kernel").i(K); if (coin(.1)) S.c("get_omega").i(L); if (coin(.1)) S.c("get_ltau").i(-1); if (coin(.1)) S.c("get_F_0"); if (coin(.1)) S.c("get_theta_0"); if (coin(.05)) S.c("set_omega_1").i(0).d(-.5); if (coin(.05)) S.c("set_fourier_tol").d(-1.);
    if (coin(.05)) S.c("set_planet_r").d(n.planet_r); if (coin(.05)) S.c("get_doub_d_tau");
    if (coin(.05)) { VD z(L, .1), y(Dn, .1); S.c("set_g_1").i(0).d(.5).c("set_g_n").a1(z).c("get_g").i(0); if (Dn) { S.c("set_g_l_11").i(0).i(0).d(.1).c("set_g_l_n1").i(0).a1(z).c("set_g_l_1n").i(0).a1(y).c("set_g_l_nn").dims({L, Dn}); for (int q = 0; q < L * Dn; ++q) S.d(.1); S.c("get_g_l").i(0).i(0); } }
    int solver = 0; for (int t : ALLS) if ((c.solvers & t) && (!solver || coin(.4))) solver = t;
    if (coin(.1)) S.c("mean_radiance").i(solver).dims({c.n_out_levels}).dims({c.n_out_levels}).dims({c.n_out_levels, Dn}).dims({c.n_out_levels, Dn});
    auto mat = [&](int A, int B, std::function<double(int, int)> f) { S.dims({A, B}); for (int a = 0; a < A; ++a) for (int b = 0; b < B; ++b) S.d(f(a, b)); };
    std::vector<int> fs; for (int f = 0; f < N_FIELD; ++f) if (field_used(c, f)) fs.push_back(f);
    r.shuffle(fs); { auto a = std::find(fs.begin(), fs.end(), (int)F_COEF), b = std::find(fs.begin(), fs.end(), (int)F_COEF_L); if (b != fs.end() && b < a) std::iter_swap(a, b); }
    std::vector<int> nc; for (auto &x : n.coef) nc.push_back((int)x[0].size());
    for (int f : fs) { unsigned v = (unsigned)r.next() % 4;
      switch (f) {
        case F_DOUB: S.c("set_doub_d_tau").d(n.doub_d_tau).c("get_doub_d_tau"); break; case F_PADE: S.c("set_pade_params").i(n.pade_s).i(n.pade_r).c("get_pade_params"); break;
        case F_SOS: S.c("set_sos_params").i(n.sos_max_os).d(n.sos_max_tau).d(n.sos_tol).c("get_sos_params"); break; case F_FTOL: S.c("set_fourier_tol").d(n.fourier_tol).c("get_fourier_tol"); break;
        case F_LAMBDA: S.c("set_lambda").d(n.lambda).c("get_lambda"); break; case F_PLANETR: S.c("set_planet_r").d(n.planet_r).c("get_planet_r"); break; case F_LZ: S.c("set_levels_z").a1(n.levels_z).c("get_levels_z").dims({L + 1}); break;
        case F_OLEV: S.c("set_out_levels").a1(n.out_levels).c("get_out_levels").dims({c.n_out_levels}); break; case F_OTAU: S.c("set_out_taus").a1(n.out_taus).c("get_out_taus").dims({c.n_out_levels}); break; case F_OTH: S.c("set_out_thetas").a1(n.out_thetas).c("get_out_thetas").dims({T}); break;
        case F_FIT: S.c("set_F_iso_top").d(n.Fit).c("get_F_iso_top"); break; case F_FIB: S.c("set_F_iso_bot").d(n.Fib).c("get_F_iso_bot"); break; case F_F0: S.c("set_F_0").d(n.F0).c("get_F_0"); break; case F_TH0: S.c("set_theta_0").d(n.theta0).c("get_theta_0"); break; case F_PHI0: S.c("set_phi_0").d(n.phi0).c("get_phi_0"); break;
        case F_LB: S.c("set_levels_b").a1(n.lb).c("get_levels_b").dims({L + 1}); break; case F_SB: S.c("set_surface_b").d(n.sb).c("get_surface_b"); break;
        case F_COEF: if (v % 2) for (int i = 0; i < L; ++i) { S.c("set_coef_1").i(i).i(nc[i]).dims({E, nc[i]}); for (auto &x : n.coef[i]) S.v(x); } else { S.c("set_coef_n").a1(nc).dims({L, E, M}); for (auto &y : n.coef) for (auto &x : y) S.v(pad(x, M)); } for (int i = 0; i < L; ++i) { S.c("get_n_coef").i(i); S.c("get_coef").i(i).i(r.i(0, E - 1)).i(r.i(0, nc[i] - 1)); } break;
        case F_OMEGA: case F_LTAU: { const char *o = f == F_OMEGA ? "omega" : "ltau"; const VD &x = f == F_OMEGA ? n.omega : n.ltau; if (v % 2) for (int i = 0; i < L; ++i) S.c(sf("set_%s_1", o).c_str()).i(i).d(x[i]); else S.c(sf("set_%s_n", o).c_str()).a1(x); for (int i = 0; i < L; ++i) S.c(sf("get_%s", o).c_str()).i(i); break; }
        case F_AMP: for (int k = 0; k < K; ++k) S.c("set_kernel_ampfac").i(k).d(n.amp[k]).c("get_kernel_ampfac").i(k); break;
        case F_PAR: for (int k = 0; k < K; ++k) { int np = kern_np(c.kernels[k]); if (!np) continue; if (v % 2) for (int p = 0; p < np; ++p) S.c("set_kernel_params_1").i(k).i(p).d(n.par[k][p]); else S.c("set_kernel_params_n").i(k).a1(pad(n.par[k], np)); for (int p = 0; p < np; ++p) S.c("get_kernel_params").i(k).i(p); } break;
        case F_FIT_L: case F_FIB_L: case F_SB_L: { const char *o = f == F_FIT_L ? "F_iso_top" : f == F_FIB_L ? "F_iso_bot" : "surface_b"; VD q; for (auto &x : n.l) q.push_back(f == F_FIT_L ? x.Fit : f == F_FIB_L ? x.Fib : x.sb); if (v % 2) for (int j = 0; j < Dn; ++j) S.c(sf("set_%s_l_1", o).c_str()).i(j).d(q[j]); else S.c(sf("set_%s_l_n", o).c_str()).a1(q); for (int j = 0; j < Dn; ++j) S.c(sf("get_%s_l", o).c_str()).i(j); break; }
        case F_LB_L: if (v % 2) for (int j = 0; j < Dn; ++j) S.c("set_levels_b_l_1").i(j).a1(n.l[j].lb); else { S.c("set_levels_b_l_n"); mat(L + 1, Dn, [&](int i, int j) { return n.l[j].lb[i]; }); } for (int j = 0; j < Dn; ++j) S.c("get_levels_b_l").i(j).dims({L + 1}); break;
        case F_OMEGA_L: case F_LTAU_L: { const char *o = f == F_OMEGA_L ? "omega" : "ltau"; auto val = [&](int i, int j) { return f == F_OMEGA_L ? n.l[j].omega[i] : n.l[j].ltau[i]; };
          if (v == 0) { S.c(sf("set_%s_l_nn", o).c_str()); mat(L, Dn, val); } else if (v == 1) { for (int i = 0; i < L; ++i) for (int j = 0; j < Dn; ++j) S.c(sf("set_%s_l_11", o).c_str()).i(i).i(j).d(val(i, j)); } else if (v == 2) for (int j = 0; j < Dn; ++j) { VD q; for (int i = 0; i < L; ++i) q.push_back(val(i, j)); S.c(sf("set_%s_l_n1", o).c_str()).i(j).a1(q); } else for (int i = 0; i < L; ++i) { VD q; for (int j = 0; j < Dn; ++j) q.push_back(val(i, j)); S.c(sf("set_%s_l_1n", o).c_str()).i(i).a1(q); }
          for (int i = 0; i < L; ++i) for (int j = 0; j < Dn; ++j) S.c(sf("get_%s_l", o).c_str()).i(i).i(j); break; }
        case F_COEF_L: { auto row = [&](int i, int j, int m) { for (auto &x : n.l[j].coef[i]) S.v(pad(x, m)); };
          if (v == 0) { S.c("set_coef_l_nn").dims({L, Dn, E, M}); for (int i = 0; i < L; ++i) for (int j = 0; j < Dn; ++j) row(i, j, M); } else if (v == 1) { for (int i = 0; i < L; ++i) for (int j = 0; j < Dn; ++j) { S.c("set_coef_l_11").i(i).i(j).dims({E, nc[i]}); row(i, j, nc[i]); } } else if (v == 2) for (int j = 0; j < Dn; ++j) { S.c("set_coef_l_n1").i(j).dims({L, E, M}); for (int i = 0; i < L; ++i) row(i, j, M); } else for (int i = 0; i < L; ++i) { S.c("set_coef_l_1n").i(i).dims({Dn, E, nc[i]}); for (int j = 0; j < Dn; ++j) row(i, j, nc[i]); }
          for (int i = 0; i < L; ++i) for (int j = 0; j < Dn; ++j) S.c("get_coef_l").i(i).i(j).i(r.i(0, E - 1)).i(r.i(0, nc[i] - 1)); break; }
        case F_AMP_L: for (int k = 0; k < K; ++k) { if (v % 2) for (int j = 0; j < Dn; ++j) S.c("set_kernel_ampfac_l_1").i(k).i(j).d(n.l[j].amp[k]); else { VD q; for (int j = 0; j < Dn; ++j) q.push_back(n.l[j].amp[k]); S.c("set_kernel_ampfac_l_n").i(k).a1(q); } for (int j = 0; j < Dn; ++j) S.c("get_kernel_ampfac_l").i(k).i(j); } break;
        case F_PAR_L: for (int k = 0; k < K; ++k) { int np = kern_np(c.kernels[k]); if (!np) continue; auto val = [&](int j, int p) { return n.l[j].par[k][p]; };
          if (v == 0) { S.c("set_kernel_params_l_nn").i(k); mat(Dn, np, val); } else if (v == 1) { for (int j = 0; j < Dn; ++j) for (int p = 0; p < np; ++p) S.c("set_kernel_params_l_11").i(k).i(j).i(p).d(val(j, p)); } else if (v == 2) for (int j = 0; j < Dn; ++j) { VD q; for (int p = 0; p < np; ++p) q.push_back(val(j, p)); S.c("set_kernel_params_l_1n").i(k).i(j).a1(q); } else for (int p = 0; p < np; ++p) { VD q; for (int j = 0; j < Dn; ++j) q.push_back(val(j, p)); S.c("set_kernel_params_l_n1").i(k).i(p).a1(q); }
          for (int j = 0; j < Dn; ++j) for (int p = 0; p < np; ++p) S.c("get_kernel_params_l").i(k).i(j).i(p); } break;
      } }
    if (der) S.c("update_varied_layers");
    S.c("qx").dims({c.n_quad + T}).c("qw").dims({c.n_quad + T}); if (K) S.c("kernel_qx").dims({c.n_kernel_quad}).c("kernel_qw").dims({c.n_kernel_quad});
    int NL = c.n_out_levels, NS = c.n_stokes; auto phis = [&] { S.dims({T2, P}); for (int t = 0; t < T2; ++t) for (int p = 0; p < P; ++p) S.d(t < (int)n.phis.size() && p < (int)n.phis[t].size() ? n.phis[t][p] : 10. * p); };
    auto two = [&] { S.dims({NL}).dims({NL}).dims({NL, Dn}).dims({NL, Dn}); }; auto rad = [&] { S.dims({NL, T2, P, NS}).dims({NL, T2, P, NS}).dims({NL, Dn, T2, P, NS}).dims({NL, Dn, T2, P, NS}); };
    int both = (int)(XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX); bool sing = solver == SING;
    switch (r.i(0, 3)) { case 0: S.c("radiance").i(solver).i(P); phis(); rad(); break; case 1: if (sing) { S.c("radiance").i(solver).i(P); phis(); rad(); } else { S.c("mean_radiance").i(solver); two(); S.c("flux").i(solver); two(); } break;
      default: int what = sing ? (int)XRTM_OUTPUT_RADIANCE : both & r.pick({both, both, (int)XRTM_OUTPUT_FLUX, (int)XRTM_OUTPUT_RADIANCE}); int A = NL * T2 * P * NS; bool wr = what & XRTM_OUTPUT_RADIANCE, wm = what & XRTM_OUTPUT_RADIANCE_MEAN, wf = what & XRTM_OUTPUT_FLUX;
      lay.insert(lay.end(), 2 * A * (1 + Dn), wr); lay.insert(lay.end(), 2 * NL * (1 + Dn), wm); lay.insert(lay.end(), 2 * NL * (1 + Dn), wf); lay.insert(lay.end(), NL * (1 + Dn), false); // what is not asked for is not compared
      S.c("solution").i(solver).i(what).i(P); phis(); rad(); two(); two(); S.dims({NL}).dims({NL, Dn}); }
    if (coin(.1)) S.c("flux_divergence").i(solver).dims({NL}).dims({NL, Dn});
    if (fdm) { // the same model behind the finite difference interface
      VD del; for (int j = 0; j < nd; ++j) del.push_back((r.p(.3) ? -1 : 1) * r.lu(1e-6, 1e-3)); auto amat = [&](const char *nm, int A, int B, const std::function<double(int, int)> &f) { S.c(nm); mat(A, B, f); }; auto idx = [&](int m) { return coin(.03) ? m : 0; };
      S.c("fd_create").i(nd); if (coin(.7)) S.c("fd_get_n_derivs"); S.c("fd_set_delta").a1(del).c("fd_get_delta").dims({nd}); auto U = [&](double x) { return x * r.u(-1e-3, 1e-3); };
      for (const char *o : {"F_iso_top", "F_iso_bot", "surface_b"}) { if (*o == 's' && !c.o(O_TH) && !coin(.1)) continue; VD q; for (int j = 0; j < nd; ++j) q.push_back(U(1)); if (coin(.5)) S.c(sf("fd_set_%s_p_n", o).c_str()).a1(q); else for (int j = 0; j < nd; ++j) S.c(sf("fd_set_%s_p_1", o).c_str()).i(j).d(q[j]); for (int j = 0; j < nd; ++j) S.c(sf("fd_get_%s_p", o).c_str()).i(j); if (coin(.05)) S.c(sf("fd_get_%s_p", o).c_str()).i(r.pick({-1, nd})); }
      if (c.o(O_TH) || coin(.1)) { if (coin(.5)) amat("fd_set_levels_b_p_n", L + 1, nd, [&](int, int) { return U(1); }); else for (int j = 0; j < nd; ++j) { VD q; for (int i = 0; i <= L; ++i) q.push_back(U(1)); S.c("fd_set_levels_b_p_1").i(j).a1(q); } for (int j = 0; j < nd; ++j) S.c("fd_get_levels_b_p").i(j).dims({L + 1}); }
      for (const char *o : {"omega", "ltau", "g"}) { if (*o == 'g' && !coin(.1)) continue; double sc = *o == 'l' ? .1 : 1; auto val = [&](int i, int) { return U(*o == 'l' ? n.ltau[i] * sc : sc); }; unsigned v = (unsigned)r.next() % 4; std::string nm = sf("fd_set_%s_p_", o);
        if (v == 0) amat((nm + "nn").c_str(), L, nd, val); else if (v == 1) { for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) S.c((nm + "11").c_str()).i(i).i(j).d(val(i, j)); } else if (v == 2) for (int j = 0; j < nd; ++j) { VD q; for (int i = 0; i < L; ++i) q.push_back(val(i, j)); S.c((nm + "n1").c_str()).i(j).a1(q); } else for (int i = 0; i < L; ++i) { VD q; for (int j = 0; j < nd; ++j) q.push_back(val(i, j)); S.c((nm + "1n").c_str()).i(i).a1(q); }
        for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) S.c(sf("fd_get_%s_p", o).c_str()).i(i).i(j); if (coin(.05)) S.c(sf("fd_get_%s_p", o).c_str()).i(r.pick({-1, L})).i(0); }
      { unsigned v = (unsigned)r.next() % 4; auto row = [&](int i, int m) { for (int e = 0; e < E; ++e) for (int k = 0; k < m; ++k) S.d(k < nc[i] && (k || e) ? U(.1) : 0.); };
        if (v == 0) { S.c("fd_set_coef_p_nn").dims({L, nd, E, M}); for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) row(i, M); } else if (v == 1) { for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) { S.c("fd_set_coef_p_11").i(i).i(j).dims({E, nc[i]}); row(i, nc[i]); } } else if (v == 2) for (int j = 0; j < nd; ++j) { S.c("fd_set_coef_p_n1").i(j).dims({L, E, M}); for (int i = 0; i < L; ++i) row(i, M); } else for (int i = 0; i < L; ++i) { S.c("fd_set_coef_p_1n").i(i).dims({nd, E, nc[i]}); for (int j = 0; j < nd; ++j) row(i, nc[i]); }
        for (int i = 0; i < L; ++i) for (int j = 0; j < nd; ++j) S.c("fd_get_coef_p").i(i).i(j).i(r.i(0, E - 1)).i(r.i(0, nc[i] - 1)); }
      for (int k = 0; k < K; ++k) { VD q; for (int j = 0; j < nd; ++j) q.push_back(U(.1)); if (coin(.5)) S.c("fd_set_kernel_ampfac_p_n").i(k).a1(q); else for (int j = 0; j < nd; ++j) S.c("fd_set_kernel_ampfac_p_1").i(k).i(j).d(q[j]); for (int j = 0; j < nd; ++j) S.c("fd_get_kernel_ampfac_p").i(k).i(j); if (coin(.05)) S.c("fd_get_kernel_ampfac_p").i(K).i(0);
        int np = kern_np(c.kernels[k]); if (!np) continue; auto val = [&](int, int p) { return U(.01 * n.par[k][p]); }; unsigned v = (unsigned)r.next() % 4;
        if (v == 0) { S.c("fd_set_kernel_params_p_nn").i(k); mat(nd, np, val); } else if (v == 1) { for (int j = 0; j < nd; ++j) for (int p = 0; p < np; ++p) S.c("fd_set_kernel_params_p_11").i(k).i(j).i(p).d(val(j, p)); } else if (v == 2) for (int j = 0; j < nd; ++j) { VD z; for (int p = 0; p < np; ++p) z.push_back(val(j, p)); S.c("fd_set_kernel_params_p_1n").i(k).i(j).a1(z); } else for (int p = 0; p < np; ++p) { VD z; for (int j = 0; j < nd; ++j) z.push_back(val(j, p)); S.c("fd_set_kernel_params_p_n1").i(k).i(p).a1(z); }
        for (int j = 0; j < nd; ++j) for (int p = 0; p < np; ++p) S.c("fd_get_kernel_params_p").i(k).i(j).i(p); }
      (void)idx; int me = r.i(0, 2); auto frad = [&] { S.dims({NL, T2, P, NS}).dims({NL, T2, P, NS}).dims({NL, nd, T2, P, NS}).dims({NL, nd, T2, P, NS}); }; auto ftwo = [&] { S.dims({NL}).dims({NL}).dims({NL, nd}).dims({NL, nd}); };
      if (coin(.3)) { S.c("fd_radiance").i(solver).i(me).i(P); phis(); frad(); } else { int what = sing ? (int)XRTM_OUTPUT_RADIANCE : both & r.pick({both, both, (int)XRTM_OUTPUT_FLUX, (int)XRTM_OUTPUT_RADIANCE}), A = NL * T2 * P * NS; bool wr = what & XRTM_OUTPUT_RADIANCE, wm = what & XRTM_OUTPUT_RADIANCE_MEAN, wf = what & XRTM_OUTPUT_FLUX;
        layf.insert(layf.end(), 2 * A * (1 + nd), wr); layf.insert(layf.end(), 2 * NL * (1 + nd), wm); layf.insert(layf.end(), 2 * NL * (1 + nd), wf); layf.insert(layf.end(), NL * (1 + nd), false); S.c("fd_solution").i(solver).i(what).i(me).i(P); phis(); frad(); ftwo(); ftwo(); S.dims({NL}).dims({NL, nd}); }
      S.c("fd_destroy"); }
    S.c("destroy"); count("calls", S.n);
  }
  static Py py; auto out = [&](const char *e) { return dir + "/" + e; }; std::string bad;
  drv_c(fi.c_str(), out("c").c_str()); auto ref = lines(out("c")); bool th_ok = false; for (size_t i = 1; i < ref.size(); ++i) th_ok |= ref[i] == "ok" && ref[i - 1] == "set_out_thetas"; nontrivial(c.desc()); seen("class", c.cls());
  for (int w = 0; w < 4; ++w) { static const char *nm[] = {"cpp", "f90", "f77", "py"}; std::string o = out(nm[w]), died; unlink(o.c_str());
    if (w == 0) { if (fdm) drv_c(fi.c_str(), o.c_str(), true); else drv_cpp(fi.c_str(), o.c_str()); } else if (w == 1) drv_f90(fi.c_str(), o.c_str()); else if (w == 2) drv_f77_(fi.c_str(), o.c_str(), fi.size(), o.size()); else { if (fdm || !getenv("XBIND_PY")) continue; died = py.run(fi.c_str(), o.c_str()); }
    auto x = lines(o); R().evals += x.size(); seen("binding", nm[w]); std::string last; size_t i = 0, at = 0;
    for (; i < std::min(x.size(), ref.size()); ++i) { if (isalpha(ref[i][0]) && ref[i] != "ok" && ref[i] != "error" && ref[i] != "nan" && ref[i] != "inf") { last = ref[i]; at = i; } if (x[i] == ref[i]) continue; if (last == "solution" && i >= at + 2 && i - at - 2 < lay.size() && !lay[i - at - 2]) continue; if (last == "fd_solution" && i >= at + 2 && i - at - 2 < layf.size() && !layf[i - at - 2]) continue; if ((last == "qx" || last == "qw") && i >= at + 2 + c.n_quad && !th_ok) continue;
      char *e1, *e2; double a = strtod(x[i].c_str(), &e1), b = strtod(ref[i].c_str(), &e2); if (*e1 || *e2 || e1 == x[i].c_str() || e2 == ref[i].c_str() || !(a == b || (a != a && b != b))) break; }
    if (died.size()) { viol(sf("%s.died.%s", nm[w], x.size() && isalpha(x.back()[0]) ? x.back().c_str() : last.c_str()), "the interpreter died (" + died + ") in this call; " + c.desc()); return; }
    if (i < x.size() || i < ref.size()) { viol(sf("%s.%s", nm[w], last.c_str()), sf("line %zu: this binding returns '%s', the C interface '%s'; ", i, i < x.size() ? x[i].c_str() : "(nothing)", i < ref.size() ? ref[i].c_str() : "(nothing)") + c.desc()); return; } }
}
