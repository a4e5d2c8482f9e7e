// Core of the runtime monitors: random workloads for the public xrtm API, recording of what a run
// returned, event counters and violation reports.  Only the public C API is used.
#ifndef XV_CORE_HPP
#define XV_CORE_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <climits>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <array>
#include <algorithm>
#include <functional>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>

#include <complex>
#include <gutil.h>
#include <xrtm_interface.h>
#undef PI
#undef R2D
#undef D2R
#undef MAX
#undef MIN
#undef ABS

typedef std::vector<double> VD;
typedef std::vector<VD> VVD;
typedef std::vector<VVD> VVVD;
static const double PI = 3.14159265358979323846;
static const double D2R_ = PI / 180.;

// ---------------------------------------------------------------- rng
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) { for (int k = 0; k < 3; ++k) s = next() ^ (x << 1); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1. / 9007199254740992.); }
  double u(double a, double b) { return a + (b - a) * u(); }
  double lu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool p(double q) { return u() < q; }
  template <class T> T pick(std::initializer_list<T> l) { auto it = l.begin(); std::advance(it, i(0, (int)l.size() - 1)); return *it; }
  template <class T> T pick(const std::vector<T> &l) { return l[i(0, (int)l.size() - 1)]; }
  template <class T> void shuffle(std::vector<T> &v) { for (int k = (int)v.size() - 1; k > 0; --k) std::swap(v[k], v[i(0, k)]); }
};

// ---------------------------------------------------------------- reporting
struct Report {
  std::map<std::string, long long> ev;
  std::map<std::string, double> mx;
  std::set<std::string> distinct;
  std::map<std::string, std::set<std::string>> seen;
  std::vector<std::string> samples;
  long long evals = 0, viols = 0;
  long k = -1;
};
inline Report *&RP() { static Report main_; thread_local Report *p = &main_; return p; }   // a monitor's threads have reports of their own
inline Report &R() { return *RP(); }
inline void merge(const Report &q) { Report &r = R(); for (auto &e : q.ev) r.ev[e.first] += e.second; for (auto &e : q.mx) { auto &m = r.mx[e.first]; m = std::max(m, e.second); } for (auto &e : q.seen) r.seen[e.first].insert(e.second.begin(), e.second.end()); r.distinct.insert(q.distinct.begin(), q.distinct.end()); r.evals += q.evals; r.viols += q.viols; }
inline void count(const std::string &n, long long c = 1) { R().ev[n] += c; }
inline void maxv(const std::string &n, double v) { auto &m = R().mx[n]; if (v > m) m = v; }
inline void seen(const std::string &dim, const std::string &v) { R().seen[dim].insert(v); }
inline std::string jesc(const std::string &s) { std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o; }
inline std::string sf(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline void viol(const std::string &sig, const std::string &msg) {
  R().viols++;
  printf("V {\"k\":%ld,\"sig\":\"%s\",\"msg\":\"%s\"}\n", R().k, jesc(sig).c_str(), jesc(msg).c_str());
  fflush(stdout);
}
inline void sample(const std::string &s) { if (R().samples.size() < 4) R().samples.push_back(s); }
inline void nontrivial(const std::string &key) { R().distinct.insert(key); }
inline void finish() {
  Report &r = R();
  printf("E {\"evals\":%lld,\"ev\":{", r.evals);
  bool f = true;
  for (auto &e : r.ev) { printf("%s\"%s\":%lld", f ? "" : ",", jesc(e.first).c_str(), e.second); f = false; }
  printf("},\"mx\":{"); f = true;
  for (auto &e : r.mx) { printf("%s\"%s\":%.6g", f ? "" : ",", jesc(e.first).c_str(), std::isfinite(e.second) ? e.second : 1e300); f = false; }
  printf("},\"seen\":{"); f = true;
  for (auto &e : r.seen) { printf("%s\"%s\":[", f ? "" : ",", jesc(e.first).c_str()); f = false; bool g = true; for (auto &x : e.second) { printf("%s\"%s\"", g ? "" : ",", jesc(x).c_str()); g = false; } printf("]"); }
  printf("},\"distinct\":["); f = true;
  for (auto &e : r.distinct) { printf("%s\"%016llx\"", f ? "" : ",", (unsigned long long)std::hash<std::string>()(e)); f = false; }
  printf("],\"samples\":["); f = true;
  for (auto &e : r.samples) { printf("%s\"%s\"", f ? "" : ",", jesc(e).c_str()); f = false; }
  printf("]}\n"); fflush(stdout);
}

// ---------------------------------------------------------------- solvers
enum { DOUB = XRTM_SOLVER_DOUB_ADD, EIGA = XRTM_SOLVER_EIG_ADD, EIGB = XRTM_SOLVER_EIG_BVP, FOUR = XRTM_SOLVER_FOUR_STREAM,
       MEM = XRTM_SOLVER_MEM_BVP, PADE = XRTM_SOLVER_PADE_ADD, SING = XRTM_SOLVER_SINGLE, SIX = XRTM_SOLVER_SIX_STREAM,
       SOS = XRTM_SOLVER_SOS, TWOOS = XRTM_SOLVER_TWO_OS, TWO = XRTM_SOLVER_TWO_STREAM };
static const int ADDERS = DOUB | EIGA | PADE;
static const int STREAMS = TWO | FOUR | SIX;
static const int VECSOLV = DOUB | EIGA | EIGB | MEM | PADE | SING | SOS | TWOOS;
static const int LINSOLV = VECSOLV;
static const int ALLS[] = {DOUB, EIGA, EIGB, FOUR, MEM, PADE, SING, SIX, SOS, TWOOS, TWO};
inline const char *sname(int s) {
  switch (s) { case DOUB: return "doub_add"; case EIGA: return "eig_add"; case EIGB: return "eig_bvp"; case FOUR: return "four_stream"; case MEM: return "mem_bvp";
  case PADE: return "pade_add"; case SING: return "single"; case SIX: return "six_stream"; case SOS: return "sos"; case TWOOS: return "two_os"; case TWO: return "two_stream"; }
  return "?";
}
enum : long { O_DER = XRTM_OPTION_CALC_DERIVS, O_REV = XRTM_OPTION_REVERSE_DERIVS, O_DM = XRTM_OPTION_DELTA_M, O_TMS = XRTM_OPTION_N_T_TMS, O_FOLD = XRTM_OPTION_FOUR_CONV_OLD,
  O_FNEW = XRTM_OPTION_FOUR_CONV_NEW, O_NOAZ = XRTM_OPTION_NO_AZIMUTHAL, O_LEV = XRTM_OPTION_OUTPUT_AT_LEVELS, O_TAU = XRTM_OPTION_OUTPUT_AT_TAUS,
  O_PCL = XRTM_OPTION_PART_SOL_CLASSICAL, O_PGR = XRTM_OPTION_PART_SOL_GREENS, O_SCA = XRTM_OPTION_PHASE_SCALAR, O_GC = XRTM_OPTION_PHASE_MATRIX_GC,
  O_LC = XRTM_OPTION_PHASE_MATRIX_LC, O_PSA = XRTM_OPTION_PSA, O_QN = XRTM_OPTION_QUAD_NORM_GAUS_LEG, O_QD = XRTM_OPTION_QUAD_DOUB_GAUS_LEG,
  O_SLEG = XRTM_OPTION_SAVE_LEG_POLYS, O_SPM = XRTM_OPTION_SAVE_PHASE_MATS, O_SLRT = XRTM_OPTION_SAVE_LOCAL_R_T, O_SLAY = XRTM_OPTION_SAVE_LAYER_R_T_S,
  O_STOT = XRTM_OPTION_SAVE_TOTAL_R_T_S, O_SFI = XRTM_OPTION_SFI, O_SOL = XRTM_OPTION_SOURCE_SOLAR, O_TH = XRTM_OPTION_SOURCE_THERMAL,
  O_STK = XRTM_OPTION_STACK_REUSE_ADDING, O_TD = XRTM_OPTION_TOP_DOWN_ADDING, O_BU = XRTM_OPTION_BOTTOM_UP_ADDING, O_UP = XRTM_OPTION_UPWELLING_OUTPUT,
  O_DN = XRTM_OPTION_DOWNWELLING_OUTPUT, O_VEC = (long)(unsigned)XRTM_OPTION_VECTOR };

inline int kern_np(int t) {
  switch (t) { case XRTM_KERNEL_DIRECT_AND_DIFFUSE: return 4; case XRTM_KERNEL_LI_SPARSE: case XRTM_KERNEL_LI_DENSE: case XRTM_KERNEL_COX_MUNK: return 2;
    case XRTM_KERNEL_HAPKE: case XRTM_KERNEL_RAHMAN: return 3; case XRTM_KERNEL_USER_DEFINED: return MAX_KERNEL_PARAMS; }
  return 0;
}
inline const char *kern_name(int t) { static const char *n[] = {"lambert", "dir_dif", "roujean", "li_sparse", "li_dense", "ross_thin", "ross_thick", "hapke", "rahman", "cox_munk", "user"}; return n[t]; }

// ---------------------------------------------------------------- configuration and inputs
struct Cfg {
  long options = 0; int solvers = 0, max_coef = 0, n_quad = 0, n_stokes = 1, n_derivs = 0, n_layers = 1, n_theta_0s = 1, n_kernel_quad = 8;
  std::vector<int> kernels; int n_out_levels = 2, n_out_thetas = 0;
  bool o(long m) const { return (options & m) != 0; }
  int n_elem() const { return n_stokes > 1 ? 6 : 1; }
  std::string opts() const { std::string s; for (int k = 0; k < N_XRTM_OPTIONS; ++k) if ((options >> k) & 1) { if (!s.empty()) s += ","; s += xrtm_option_index_to_name(k); } return s; }
  std::string solv() const { std::string s; for (int x : ALLS) if (solvers & x) { if (!s.empty()) s += "+"; s += sname(x); } return s; }
  std::string desc() const {
    std::string s = sf("solvers=%s nq=%d ns=%d nd=%d nl=%d mc=%d nt0=%d lev=%d th=%d kq=%d k=", solv().c_str(), n_quad, n_stokes, n_derivs, n_layers, max_coef, n_theta_0s, n_out_levels, n_out_thetas, n_kernel_quad);
    for (int t : kernels) s += std::string(kern_name(t)) + ";";
    return s + " opts=" + opts();
  }
  std::string cls() const { // coarse class, for distinctness and signatures
    std::string s = o(O_VEC) ? "vec" : "sca"; s += o(O_DER) ? "+der" : ""; s += o(O_DM) ? (o(O_TMS) ? "+tms" : "+dm") : ""; s += o(O_PSA) ? "+psa" : ""; s += o(O_SFI) ? "+sfi" : "";
    s += o(O_SOL) ? "+sol" : ""; s += o(O_TH) ? "+th" : ""; s += o(O_TAU) ? "+taus" : ""; s += o(O_PGR) ? "+greens" : ""; s += o(O_NOAZ) ? "+noaz" : ""; s += o(O_QN) ? "+norm" : ""; s += o(O_LC) ? "+lc" : "";
    s += n_out_thetas ? "" : "+quadout"; return s;
  }
};
struct Lin { double Fit = 0, Fib = 0, sb = 0; VD lb; VVVD coef; VD omega, ltau, amp; VVD par; };
typedef void (*kaux_t)(brdf_aux_data *, void *, int, int, int, uchar *, double *, double **);
typedef double (*kfun_t)(brdf_aux_data *, void *, enum xrtm_brdf_geometry, int, int, int, double, int, uchar *, double *, double **, double *);
struct In {
  double doub_d_tau = 1e-8; int pade_s = -1, pade_r = -1, sos_max_os = 128; double sos_max_tau = .05, sos_tol = 1e-9, fourier_tol = 1e-9, lambda = 1., planet_r = 6371.;
  VD levels_z; std::vector<int> out_levels; VD out_taus, out_thetas; double Fit = 0, Fib = 0, F0 = 1, theta0 = 30, phi0 = 0; VD lb; double sb = 0;
  VVVD coef; VD omega, ltau, amp; VVD par; std::vector<std::pair<kaux_t, kfun_t>> ufun;
  std::vector<Lin> l; VVD phis;
  std::string desc() const {
    std::string s = sf("theta0=%.4f phi0=%.2f F0=%.4g Fit=%.3g Fib=%.3g sb=%.3g", theta0, phi0, F0, Fit, Fib, sb);
    auto add = [&](const char *n, const VD &v) { s += std::string(" ") + n + "=["; for (size_t k = 0; k < v.size() && k < 12; ++k) s += sf(k ? ",%.5g" : "%.5g", v[k]); s += "]"; };
    add("ltau", ltau); add("omega", omega); add("amp", amp); add("lb", lb); add("z", levels_z); add("th", out_thetas); add("taus", out_taus);
    s += " lev=["; for (int v : out_levels) s += sf("%d,", v); s += "] ncoef=["; for (auto &c : coef) s += sf("%d,", (int)c[0].size()); s += "]";
    if (!phis.empty()) add("phi", phis[0]);
    return s;
  }
};
// derivative of inputs along slot j, scaled by h
inline In perturb(const In &a, int j, double h) {
  In b = a; const Lin &q = a.l[j];
  b.Fit += h * q.Fit; b.Fib += h * q.Fib; b.sb += h * q.sb;
  for (size_t k = 0; k < b.lb.size(); ++k) b.lb[k] += h * q.lb[k];
  for (size_t i = 0; i < b.omega.size(); ++i) { b.omega[i] += h * q.omega[i]; b.ltau[i] += h * q.ltau[i];
    for (size_t e = 0; e < b.coef[i].size(); ++e) for (size_t k = 0; k < b.coef[i][e].size(); ++k) b.coef[i][e][k] += h * q.coef[i][e][k]; }
  for (size_t i = 0; i < b.amp.size(); ++i) { b.amp[i] += h * q.amp[i]; for (size_t k = 0; k < b.par[i].size(); ++k) b.par[i][k] += h * q.par[i][k]; }
  return b;
}

struct Res {
  int rc = -1; int nl = 0, nd = 0, nt = 0, np = 0, ns = 0;
  VD Ip, Im, Kp, Km, mp, mm, mpl, mml, fp, fm, fpl, fml;
  size_t ix(int i, int t, int p, int s) const { return ((size_t)(i * nt + t) * np + p) * ns + s; }
  size_t kx(int i, int d, int t, int p, int s) const { return (((size_t)(i * nd + d) * nt + t) * np + p) * ns + s; }
};
template <class T> struct Ptr { T p; ~Ptr() {} };

inline std::vector<double *> rows(const VVD &v) { std::vector<double *> r; for (auto &x : v) r.push_back(const_cast<double *>(x.data())); return r; }
struct Coef3 { std::vector<std::vector<double *>> a; std::vector<double **> b; double ***p;
  explicit Coef3(const VVVD &c) { for (auto &x : c) a.push_back(rows(x)); for (auto &x : a) b.push_back(x.data()); p = b.data(); } };

enum Field { F_DOUB, F_PADE, F_SOS, F_FTOL, F_LAMBDA, F_PLANETR, F_LZ, F_OLEV, F_OTAU, F_OTH, F_FIT, F_FIB, F_F0, F_TH0, F_PHI0, F_LB, F_SB, F_COEF, F_OMEGA, F_LTAU, F_AMP, F_PAR, F_KFUN,
  F_FIT_L, F_FIB_L, F_LB_L, F_SB_L, F_COEF_L, F_OMEGA_L, F_LTAU_L, F_AMP_L, F_PAR_L, N_FIELD };
inline const char *fname(int f) { static const char *n[] = {"doub_d_tau", "pade_params", "sos_params", "fourier_tol", "lambda", "planet_r", "levels_z", "out_levels", "out_taus", "out_thetas", "F_iso_top", "F_iso_bot", "F_0", "theta_0", "phi_0",
  "levels_b", "surface_b", "coef", "omega", "ltau", "kernel_ampfac", "kernel_params", "kernel_func", "F_iso_top_l", "F_iso_bot_l", "levels_b_l", "surface_b_l", "coef_l", "omega_l", "ltau_l", "kernel_ampfac_l", "kernel_params_l"}; return n[f]; }

inline bool field_used(const Cfg &c, int f) {
  switch (f) {
    case F_DOUB: return c.solvers & DOUB; case F_PADE: return c.solvers & PADE; case F_SOS: return c.solvers & SOS; case F_FTOL: return true;
    case F_LAMBDA: return c.o(O_TH); case F_PLANETR: case F_LZ: return c.o(O_PSA); case F_OLEV: return c.o(O_LEV); case F_OTAU: return c.o(O_TAU); case F_OTH: return c.n_out_thetas > 0;
    case F_FIT: case F_FIB: return true; case F_F0: case F_TH0: case F_PHI0: return c.o(O_SOL); case F_LB: case F_SB: return c.o(O_TH);
    case F_COEF: case F_OMEGA: case F_LTAU: return true; case F_AMP: return !c.kernels.empty();
    case F_PAR: for (int t : c.kernels) if (kern_np(t)) return true; return false;
    case F_KFUN: for (int t : c.kernels) if (t == XRTM_KERNEL_USER_DEFINED) return true; return false;
    case F_FIT_L: case F_FIB_L: case F_COEF_L: case F_OMEGA_L: case F_LTAU_L: return c.o(O_DER); case F_LB_L: case F_SB_L: return c.o(O_DER) && c.o(O_TH);
    case F_AMP_L: return c.o(O_DER) && !c.kernels.empty(); case F_PAR_L: if (!c.o(O_DER)) return false; for (int t : c.kernels) if (kern_np(t)) return true; return false;
  }
  return false;
}

// the library ending the process: exit() is wrapped by the linker (see lib/build.py) and comes back here
#include <csetjmp>
extern thread_local jmp_buf EXIT_JMP; extern thread_local int EXIT_ARMED;
struct LibExit { std::string what; bool degenerate; };
struct Model {
  xrtm_data *d = nullptr; Cfg c; bool ok = false; int vis = 0;
  Model() {} Model(const Model &) = delete; Model &operator=(const Model &) = delete;
  explicit Model(const Cfg &cc) { create(cc); }
  ~Model() { destroy(); }
  bool create(const Cfg &cc) {
    c = cc; d = (xrtm_data *)malloc(sizeof(xrtm_data)); memset((void *)d, 0xA5, sizeof *d);
    std::vector<enum xrtm_kernel_type> k; for (int t : c.kernels) k.push_back((enum xrtm_kernel_type)t);
    enum xrtm_kernel_type dummy = XRTM_KERNEL_LAMBERTIAN;
    int rc = xrtm_create(d, (int)c.options, c.solvers, c.max_coef, c.n_quad, c.n_stokes, c.n_derivs, c.n_layers, c.n_theta_0s, (int)c.kernels.size(), c.n_kernel_quad, k.empty() ? &dummy : k.data(), c.n_out_levels, c.n_out_thetas);
    ok = rc == 0; if (!ok) { free(d); d = nullptr; } else count("create");
    return ok;
  }
  void destroy() { if (d) { if (ok) xrtm_destroy(d); free(d); d = nullptr; ok = false; } }
  // set one input; v selects between the equivalent setter variants
  int set(int f, const In &n, unsigned v = 0) {
    count("setter_calls");
    int L = c.n_layers, D = c.n_derivs, rc = 0;
    switch (f) {
      case F_DOUB: return xrtm_set_doub_d_tau(d, n.doub_d_tau);
      case F_PADE: return xrtm_set_pade_params(d, n.pade_s, n.pade_r);
      case F_SOS: return xrtm_set_sos_params(d, n.sos_max_os, n.sos_max_tau, n.sos_tol);
      case F_FTOL: return xrtm_set_fourier_tol(d, n.fourier_tol);
      case F_LAMBDA: return xrtm_set_lambda(d, n.lambda);
      case F_PLANETR: return xrtm_set_planet_r(d, n.planet_r);
      case F_LZ: return xrtm_set_levels_z(d, const_cast<double *>(n.levels_z.data()));
      case F_OLEV: return xrtm_set_out_levels(d, const_cast<int *>(n.out_levels.data()));
      case F_OTAU: return xrtm_set_out_taus(d, const_cast<double *>(n.out_taus.data()));
      case F_OTH: return xrtm_set_out_thetas(d, const_cast<double *>(n.out_thetas.data()));
      case F_FIT: return xrtm_set_F_iso_top(d, n.Fit);
      case F_FIB: return xrtm_set_F_iso_bot(d, n.Fib);
      case F_F0: return xrtm_set_F_0(d, n.F0);
      case F_TH0: return xrtm_set_theta_0(d, n.theta0);
      case F_PHI0: return xrtm_set_phi_0(d, n.phi0);
      case F_LB: return xrtm_set_levels_b(d, const_cast<double *>(n.lb.data()));
      case F_SB: return xrtm_set_surface_b(d, n.sb);
      case F_COEF: { Coef3 q(n.coef); std::vector<int> nc; for (auto &x : n.coef) nc.push_back((int)x[0].size());
        if (v % 2) { for (int i = 0; i < L; ++i) rc |= xrtm_set_coef_1(d, i, nc[i], q.b[i]); return rc; } return xrtm_set_coef_n(d, nc.data(), q.p); }
      case F_OMEGA: if (v % 2) { for (int i = 0; i < L; ++i) rc |= xrtm_set_omega_1(d, i, n.omega[i]); return rc; } return xrtm_set_omega_n(d, const_cast<double *>(n.omega.data()));
      case F_LTAU: if (v % 2) { for (int i = 0; i < L; ++i) rc |= xrtm_set_ltau_1(d, i, n.ltau[i]); return rc; } return xrtm_set_ltau_n(d, const_cast<double *>(n.ltau.data()));
      case F_AMP: for (size_t k = 0; k < c.kernels.size(); ++k) rc |= xrtm_set_kernel_ampfac(d, (int)k, n.amp[k]); return rc;
      case F_PAR: for (size_t k = 0; k < c.kernels.size(); ++k) { int np = kern_np(c.kernels[k]); if (!np) continue;
          if (v % 2) for (int p = 0; p < np; ++p) rc |= xrtm_set_kernel_params_1(d, (int)k, p, n.par[k][p]); else rc |= xrtm_set_kernel_params_n(d, (int)k, const_cast<double *>(n.par[k].data())); } return rc;
      case F_KFUN: for (size_t k = 0; k < c.kernels.size(); ++k) if (c.kernels[k] == XRTM_KERNEL_USER_DEFINED) rc |= xrtm_set_kernel_func(d, (int)k, n.ufun[k].first, n.ufun[k].second); return rc;
      case F_FIT_L: if (v % 2) { for (int j = 0; j < D; ++j) rc |= xrtm_set_F_iso_top_l_1(d, j, n.l[j].Fit); return rc; } { VD q; for (auto &x : n.l) q.push_back(x.Fit); return xrtm_set_F_iso_top_l_n(d, q.data()); }
      case F_FIB_L: if (v % 2) { for (int j = 0; j < D; ++j) rc |= xrtm_set_F_iso_bot_l_1(d, j, n.l[j].Fib); return rc; } { VD q; for (auto &x : n.l) q.push_back(x.Fib); return xrtm_set_F_iso_bot_l_n(d, q.data()); }
      case F_SB_L: if (v % 2) { for (int j = 0; j < D; ++j) rc |= xrtm_set_surface_b_l_1(d, j, n.l[j].sb); return rc; } { VD q; for (auto &x : n.l) q.push_back(x.sb); return xrtm_set_surface_b_l_n(d, q.data()); }
      case F_LB_L: if (v % 2) { for (int j = 0; j < D; ++j) rc |= xrtm_set_levels_b_l_1(d, j, const_cast<double *>(n.l[j].lb.data())); return rc; } { VVD q(L + 1, VD(D)); for (int i = 0; i <= L; ++i) for (int j = 0; j < D; ++j) q[i][j] = n.l[j].lb[i]; auto r = rows(q); return xrtm_set_levels_b_l_n(d, r.data()); }
      case F_OMEGA_L: case F_LTAU_L: {
        bool om = f == F_OMEGA_L; auto val = [&](int i, int j) { return om ? n.l[j].omega[i] : n.l[j].ltau[i]; };
        switch (v % 4) {
          case 0: { VVD q(L, VD(D)); for (int i = 0; i < L; ++i) for (int j = 0; j < D; ++j) q[i][j] = val(i, j); auto r = rows(q); return om ? xrtm_set_omega_l_nn(d, r.data()) : xrtm_set_ltau_l_nn(d, r.data()); }
          case 1: for (int i = 0; i < L; ++i) for (int j = 0; j < D; ++j) rc |= om ? xrtm_set_omega_l_11(d, i, j, val(i, j)) : xrtm_set_ltau_l_11(d, i, j, val(i, j)); return rc;
          case 2: for (int j = 0; j < D; ++j) { VD q(L); for (int i = 0; i < L; ++i) q[i] = val(i, j); rc |= om ? xrtm_set_omega_l_n1(d, j, q.data()) : xrtm_set_ltau_l_n1(d, j, q.data()); } return rc;
          default: for (int i = 0; i < L; ++i) { VD q(D); for (int j = 0; j < D; ++j) q[j] = val(i, j); rc |= om ? xrtm_set_omega_l_1n(d, i, q.data()) : xrtm_set_ltau_l_1n(d, i, q.data()); } return rc;
        } }
      case F_COEF_L:
        switch (v % 4) {
          case 0: { std::vector<std::vector<std::vector<double *>>> a(L, std::vector<std::vector<double *>>(D)); std::vector<std::vector<double **>> b(L, std::vector<double **>(D)); std::vector<double ***> cc(L);
            for (int i = 0; i < L; ++i) { for (int j = 0; j < D; ++j) { a[i][j] = rows(n.l[j].coef[i]); b[i][j] = a[i][j].data(); } cc[i] = b[i].data(); } return xrtm_set_coef_l_nn(d, cc.data()); }
          case 1: for (int i = 0; i < L; ++i) for (int j = 0; j < D; ++j) { auto q = rows(n.l[j].coef[i]); rc |= xrtm_set_coef_l_11(d, i, j, q.data()); } return rc;
          case 2: for (int j = 0; j < D; ++j) { Coef3 q(n.l[j].coef); rc |= xrtm_set_coef_l_n1(d, j, q.p); } return rc;
          default: for (int i = 0; i < L; ++i) { VVVD x; for (int j = 0; j < D; ++j) x.push_back(n.l[j].coef[i]); Coef3 q(x); rc |= xrtm_set_coef_l_1n(d, i, q.p); } return rc;
        }
      case F_AMP_L: for (size_t k = 0; k < c.kernels.size(); ++k) { if (v % 2) for (int j = 0; j < D; ++j) rc |= xrtm_set_kernel_ampfac_l_1(d, (int)k, j, n.l[j].amp[k]);
          else { VD q; for (int j = 0; j < D; ++j) q.push_back(n.l[j].amp[k]); rc |= xrtm_set_kernel_ampfac_l_n(d, (int)k, q.data()); } } return rc;
      case F_PAR_L: for (size_t k = 0; k < c.kernels.size(); ++k) { int np = kern_np(c.kernels[k]); if (!np) continue;
          switch (v % 4) {
            case 0: { VVD q; for (int j = 0; j < D; ++j) q.push_back(n.l[j].par[k]); auto r = rows(q); rc |= xrtm_set_kernel_params_l_nn(d, (int)k, r.data()); break; }
            case 1: for (int j = 0; j < D; ++j) for (int p = 0; p < np; ++p) rc |= xrtm_set_kernel_params_l_11(d, (int)k, j, p, n.l[j].par[k][p]); break;
            case 2: for (int j = 0; j < D; ++j) rc |= xrtm_set_kernel_params_l_1n(d, (int)k, j, const_cast<double *>(n.l[j].par[k].data())); break;
            default: for (int p = 0; p < np; ++p) { VD q; for (int j = 0; j < D; ++j) q.push_back(n.l[j].par[k][p]); rc |= xrtm_set_kernel_params_l_n1(d, (int)k, p, q.data()); }
          } } return rc;
    }
    return -1;
  }
  int update() { return c.o(O_DER) ? xrtm_update_varied_layers(d) : 0; }
  int set_all(const In &n, Rng *r = nullptr, bool upd = true) {
    std::vector<int> fs; for (int f = 0; f < N_FIELD; ++f) if (field_used(c, f)) fs.push_back(f);
    // the number of coefficients per layer is an input the linearized coefficients depend on
    if (r) { r->shuffle(fs); auto a = std::find(fs.begin(), fs.end(), (int)F_COEF), b = std::find(fs.begin(), fs.end(), (int)F_COEF_L); if (b != fs.end() && b < a) std::iter_swap(a, b); }
    for (int f : fs) if (set(f, n, r ? (unsigned)r->next() : 0)) { last_bad = f; return -1; }
    if (upd && c.o(O_DER) && update()) { last_bad = 99; return -1; }
    return 0;
  }
  int last_bad = -1;
  Res run(int solver, const In &n, int what = XRTM_OUTPUT_RADIANCE, int fillv = 0) {
    Res q; q.nl = c.n_out_levels; q.nd = c.n_derivs; q.nt = xrtm_get_n_out_thetas_2(d); q.np = n.phis.empty() ? 0 : (int)n.phis[0].size(); q.ns = c.n_stokes;
    bool rad = what & XRTM_OUTPUT_RADIANCE; double ****I_p = 0, ****I_m = 0, *****K_p = 0, *****K_m = 0;
    double fill = fillv ? -7.25e77 : 0.;
    if (rad) { I_p = alloc_array4_d(q.nl, q.nt, q.np, q.ns); I_m = alloc_array4_d(q.nl, q.nt, q.np, q.ns); for (int i = 0; i < q.nl * q.nt * q.np * q.ns; ++i) I_p[0][0][0][i] = I_m[0][0][0][i] = fill;
      if (q.nd) { K_p = alloc_array5_d(q.nl, q.nd, q.nt, q.np, q.ns); K_m = alloc_array5_d(q.nl, q.nd, q.nt, q.np, q.ns); for (int i = 0; i < q.nl * q.nd * q.nt * q.np * q.ns; ++i) K_p[0][0][0][0][i] = K_m[0][0][0][0][i] = fill; } }
    VD mp(q.nl, fill), mm(q.nl, fill), fp(q.nl, fill), fm(q.nl, fill); double **mpl = 0, **mml = 0, **fpl = 0, **fml = 0;
    if (q.nd) for (double ***x : {&mpl, &mml, &fpl, &fml}) { *x = alloc_array2_d(q.nl, q.nd); for (int i = 0; i < q.nl * q.nd; ++i) (*x)[0][i] = fill; }
    auto ph = rows(n.phis);
    count(std::string("run_") + sname(solver));
    if (setjmp(EXIT_JMP)) { EXIT_ARMED = 0; ok = false; d = nullptr; throw LibExit{sf("exit.%s", sname(solver)), c.o(O_VEC) && c.o(O_DER) && (solver & (EIGA | EIGB | MEM))}; }
    EXIT_ARMED = 1;
    if (what == XRTM_OUTPUT_RADIANCE && vis == 0) q.rc = xrtm_radiance(d, (enum xrtm_solver_mask)solver, q.np, ph.data(), I_p, I_m, K_p, K_m);
    else if (what == XRTM_OUTPUT_RADIANCE_MEAN && vis == 0) q.rc = xrtm_mean_radiance(d, (enum xrtm_solver_mask)solver, mp.data(), mm.data(), mpl, mml);
    else if (what == XRTM_OUTPUT_FLUX && vis == 0) q.rc = xrtm_flux(d, (enum xrtm_solver_mask)solver, fp.data(), fm.data(), fpl, fml);
    else q.rc = xrtm_solution(d, (enum xrtm_solver_mask)solver, what, q.np, ph.data(), I_p, I_m, K_p, K_m, mp.data(), mm.data(), mpl, mml, fp.data(), fm.data(), fpl, fml, 0, 0);
    EXIT_ARMED = 0;
    if (rad) { size_t N = (size_t)q.nl * q.nt * q.np * q.ns; if (N) { q.Ip.assign(I_p[0][0][0], I_p[0][0][0] + N); q.Im.assign(I_m[0][0][0], I_m[0][0][0] + N); } free_array4_d(I_p); free_array4_d(I_m);
      if (q.nd) { size_t M = N * q.nd; if (M) { q.Kp.assign(K_p[0][0][0][0], K_p[0][0][0][0] + M); q.Km.assign(K_m[0][0][0][0], K_m[0][0][0][0] + M); } free_array5_d(K_p); free_array5_d(K_m); } }
    auto t2 = [&](double **x, VD &o) { if (x) { o.assign(x[0], x[0] + q.nl * q.nd); free_array2_d(x); } };
    t2(mpl, q.mpl); t2(mml, q.mml); t2(fpl, q.fpl); t2(fml, q.fml);
    if (what & XRTM_OUTPUT_RADIANCE_MEAN) { q.mp = mp; q.mm = mm; } else { q.mpl.clear(); q.mml.clear(); }
    if (what & XRTM_OUTPUT_FLUX) { q.fp = fp; q.fm = fm; } else { q.fpl.clear(); q.fml.clear(); }
    // a direction that was not asked for is not an output
    if (!c.o(O_UP)) { q.Ip.clear(); q.Kp.clear(); q.mp.clear(); q.fp.clear(); q.mpl.clear(); q.fpl.clear(); }
    if (!c.o(O_DN)) { q.Im.clear(); q.Km.clear(); q.mm.clear(); q.fm.clear(); q.mml.clear(); q.fml.clear(); }
    if (q.rc == 0) { count("runs_ok"); count("values_observed", q.Ip.size() + q.Im.size() + q.Kp.size() + q.Km.size() + q.mp.size() + q.mm.size() + q.fp.size() + q.fm.size()); } else count("runs_err");
    return q;
  }
};
inline double vmax(const VD &a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
inline bool finite(const VD &a) { for (double x : a) if (!std::isfinite(x)) return false; return true; }
// largest deviation of b from a relative to rel*max|.| + abs ; >1 is a mismatch.  nan => inf
inline double dev(const VD &a, const VD &b, double rel, double abs_, double scale = -1) {
  if (a.size() != b.size()) return HUGE_VAL;
  double s = scale >= 0 ? scale : std::max(vmax(a), vmax(b)), m = 0;
  for (size_t i = 0; i < a.size(); ++i) { double e = std::fabs(a[i] - b[i]) / (rel * s + abs_ + 1e-290); if (!(e == e) || !std::isfinite(a[i]) || !std::isfinite(b[i])) return HUGE_VAL; m = std::max(m, e); }
  return m;
}
inline VD cat(const VD &a, const VD &b) { VD c = a; c.insert(c.end(), b.begin(), b.end()); return c; }
// element-wise relative deviation (scale per element max(|a|,|b|, floor))
inline double devrel(const VD &a, const VD &b, double floor_, size_t *at = nullptr) {
  if (a.size() != b.size()) return HUGE_VAL; double m = 0;
  for (size_t i = 0; i < a.size(); ++i) { double e = std::fabs(a[i] - b[i]) / std::max(std::max(std::fabs(a[i]), std::fabs(b[i])), floor_); if (!std::isfinite(a[i]) || !std::isfinite(b[i])) e = HUGE_VAL; if (e > m) { m = e; if (at) *at = i; } }
  return m;
}
inline bool bitsame(const VD &a, const VD &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * 8) == 0); }
inline bool bitsame(const Res &a, const Res &b) { return a.rc == b.rc && bitsame(a.Ip, b.Ip) && bitsame(a.Im, b.Im) && bitsame(a.Kp, b.Kp) && bitsame(a.Km, b.Km) && bitsame(a.mp, b.mp) && bitsame(a.mm, b.mm) && bitsame(a.fp, b.fp) && bitsame(a.fm, b.fm); }

#include "gen.hpp"
#endif
