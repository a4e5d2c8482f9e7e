// Required inputs, name tables, quadrature, allocation failure, threads, memory that was never written.
#include "xmon.hpp"
#include <malloc.h>
#include <thread>
#include <atomic>
#include <memory>
static std::string D(const Cfg &c, const In &n) { return c.desc() + " | " + n.desc(); }
static void base_gen(Rng &r, Cfg &c, In &n, double p_der = .5) {
  Gen g; g.nq_max = 4; g.nl_max = 4; g.saves = -1; g.tau_hi = 2; g.p_der = p_der; g.p_vec = .25; int t = r.i(0, 5);
  if (t == 0) g.solvers = EIGA | DOUB | PADE; else if (t == 1) g.solvers = EIGB | EIGA; else if (t == 2) g.solvers = EIGB | MEM; else if (t == 3) g.solvers = DOUB | EIGA | EIGB;
  g.om_hi = .999; gen(r, g, c, n); for (auto &x : n.omega) if (x == 0.) x = .3; n.sos_max_tau = .1; if (c.solvers & PADE) { n.pade_s = r.i(4, 6); n.pade_r = r.i(4, 6); }
  for (auto &l : n.l) for (size_t i = 0; i < c.kernels.size(); ++i) if (c.kernels[i] != XRTM_KERNEL_USER_DEFINED && c.kernels[i] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &y : l.par[i]) y = 0;
}
static int one_solver(Rng &r, const Cfg &c) { std::vector<int> s; for (int x : ALLS) if (c.solvers & x) s.push_back(x); return r.pick(s); }
static double alld(const Res &a, const Res &b, double tol) { return std::max(std::max(rdev(a, b, tol, 1e-14), kdev(a, b, tol, 1e-14)), std::max(fdev(a, b, tol, 1e-14), fldev(a, b, tol, 1e-14))); }

// ---------------------------------------------------------------- C25 required inputs
struct Unit { int f, i, p; std::string name; };
static std::vector<Unit> units(const Cfg &c) {
  std::vector<Unit> u;
  for (int f = 0; f < F_FIT_L; ++f) if (field_used(c, f) && f != F_LAMBDA) {
    if (f == F_COEF || f == F_OMEGA || f == F_LTAU) for (int i = 0; i < c.n_layers; ++i) u.push_back({f, i, 0, fname(f)});
    else if (f == F_AMP) for (size_t k = 0; k < c.kernels.size(); ++k) u.push_back({f, (int)k, 0, fname(f)});
    else if (f == F_PAR) { for (size_t k = 0; k < c.kernels.size(); ++k) for (int p = 0; p < kern_np(c.kernels[k]); ++p) u.push_back({f, (int)k, p, fname(f)}); }
    else if (f == F_KFUN) { for (size_t k = 0; k < c.kernels.size(); ++k) if (c.kernels[k] == XRTM_KERNEL_USER_DEFINED) u.push_back({f, (int)k, 0, fname(f)}); }
    else u.push_back({f, 0, 0, fname(f)}); }
  return u;
}
static int set_unit(Model &m, const In &n, const Unit &u) {
  switch (u.f) {
    case F_COEF: { auto a = rows(n.coef[u.i]); return xrtm_set_coef_1(m.d, u.i, (int)n.coef[u.i][0].size(), a.data()); }
    case F_OMEGA: return xrtm_set_omega_1(m.d, u.i, n.omega[u.i]); case F_LTAU: return xrtm_set_ltau_1(m.d, u.i, n.ltau[u.i]);
    case F_AMP: return xrtm_set_kernel_ampfac(m.d, u.i, n.amp[u.i]); case F_PAR: return xrtm_set_kernel_params_1(m.d, u.i, u.p, n.par[u.i][u.p]);
    case F_KFUN: return xrtm_set_kernel_func(m.d, u.i, n.ufun[u.i].first, n.ufun[u.i].second);
    default: return m.set(u.f, n, 0);
  }
}
static int random_what(Rng &r, int s) { return s == SING || r.p(.6) ? (int)XRTM_OUTPUT_RADIANCE : r.pick({(int)XRTM_OUTPUT_FLUX, (int)XRTM_OUTPUT_RADIANCE_MEAN, XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX, XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX | XRTM_OUTPUT_RADIANCE}); }
PROP(C25) { UNUSED_K;
  Cfg c; In n; base_gen(r, c, n); Model ref(c); R().evals++;
  if (!ref.ok) { viol("valid_create_refused", "a documented configuration is refused; " + c.desc()); return; }
  if (ref.set_all(n, &r)) { if (ref.last_bad == F_TH0 || ref.last_bad == F_OTH) return skip("angle_singularity"); viol(sf("valid_input_refused.%s", ref.last_bad == 99 ? "update" : fname(ref.last_bad)), "a valid input is refused; " + D(c, n)); return; }
  int s = one_solver(r, c), what = random_what(r, s); Res x = ref.run(s, n, what);
  if (x.rc) { viol(sf("valid_run_refused.%s", sname(s)), "a solution with all inputs set is refused; " + D(c, n)); return; }
  nontrivial(c.desc()); seen("class", c.cls()); seen("solver", sname(s));
  std::vector<Unit> u = units(c); r.shuffle(u); int miss = r.i(1, std::min(3, (int)u.size()));
  Model m(c); if (!m.ok) return skip("create"); bool lin_first = r.p(.5), lin = c.o(O_DER); size_t U = u.size();
  auto set_lin = [&]() { int rc = 0; for (int f = F_FIT_L; f < N_FIELD; ++f) if (field_used(c, f) && f != F_COEF_L) rc |= m.set(f, n, (unsigned)r.next()); return rc; };
  auto refused = [&](const char *when) { int q = one_solver(r, c), w = random_what(r, q); Res y = m.run(q, n, w, 1); R().evals++; count("calls_with_missing_inputs");
    if (y.rc == 0) { std::string ms; viol(sf("ran_without.%s", when), sf("a solution by %s is accepted although %s has not been given; ", sname(q), when) + D(c, n)); return false; }
    if (y.rc != XRTM_INT_ERROR) { viol("refusal_code", sf("a refused solution returns %d; ", y.rc) + D(c, n)); return false; }
    for (auto *v : {&y.Ip, &y.Im, &y.Kp, &y.Km, &y.mp, &y.mm, &y.fp, &y.fm}) for (double z : *v) if (z != -7.25e77) { viol("refusal_writes", sf("a refused solution (%s missing) wrote output; ", when) + D(c, n)); return false; }
    if (lin) { int rc = xrtm_update_varied_layers(m.d); R().evals++; if (rc != XRTM_INT_ERROR) { viol(sf("updated_without.%s", when), sf("xrtm_update_varied_layers() is accepted although %s has not been given; ", when) + D(c, n)); return false; } }
    return true; };
  if (lin && lin_first && set_lin()) return skip("setter");
  for (size_t i = 0; i < U - miss; ++i) { if (set_unit(m, n, u[i])) return skip("setter"); if (i + 1 < U - miss && r.p(.08) && !refused(u[U - 1].name.c_str())) return; }
  for (size_t i = U - miss; i < U; ++i) { seen("missing_input", u[i].name); if (i + 1 == U) { if (!refused(u[i].name.c_str())) return; count("runs_with_one_input_missing"); } else if (!refused("several")) return; if (set_unit(m, n, u[i])) return skip("setter"); }
  if (lin && m.set(F_COEF_L, n, 0)) return skip("setter");
  if (lin && !lin_first && set_lin()) return skip("setter");
  if (lin) { Res y = m.run(s, n, what, 1); R().evals++; if (y.rc == 0) { viol("ran_without.update", "a solution with derivatives is accepted before xrtm_update_varied_layers() was called; " + D(c, n)); return; }
    if (m.update()) { viol("valid_input_refused.update", "xrtm_update_varied_layers() is refused with all inputs set; " + D(c, n)); return; } }
  Res y = m.run(s, n, what); R().evals++; if (y.rc) { viol("refused_when_complete", sf("a solution by %s is refused although every required input was given; ", sname(s)) + D(c, n)); return; }
  if (!verdict("completed_model", alld(x, y, 1e-9), sf("completed.%s.%s", sname(s), c.cls().c_str()), D(c, n))) return;
  // output optical depths that no longer lie inside the atmosphere
  if (c.o(O_TAU)) { double last = n.out_taus.back(), tt = sumv(n.ltau); if (last > .02 * tt) { In z = n; double f = r.u(.3, .95) * last / tt; for (auto &t : z.ltau) t *= f; if (m.set(F_LTAU, z, (unsigned)r.next())) return skip("setter");
      for (int q = 0; q < 2; ++q) { Res w = m.run(s, n, what); R().evals++; count("calls_with_taus_outside"); if (w.rc == 0) { viol("ran_with_taus_outside", sf("a solution is accepted although an output optical depth (%.6g) lies below the bottom (%.6g); ", last, tt * f) + D(c, n)); return; } }
      for (auto &t : z.out_taus) t *= .999 * f; if (m.set(F_OTAU, z)) return skip("setter"); Model k(c); if (!ready(k, z)) return; Res a = m.run(s, z, what), b = k.run(s, z, what); R().evals++;
      if (a.rc || b.rc) { viol("refused_when_complete", "a solution is refused after the output optical depths were given again; " + D(c, z)); return; } verdict("taus_given_again", alld(a, b, 1e-8), "completed.taus", D(c, z)); } }
}

// ---------------------------------------------------------------- C28 names, indices and masks
extern "C" {
#define NM(T, E) int T##_n(); int T##_max_name_length(); const char *T##_index_to_name(int); int T##_name_to_index(const char *); enum E T##_index_to_mask(int); int T##_mask_to_index(enum E); int T##_mask_to_index_list(enum E, int *, int); enum E T##_name_to_mask(const char *); const char *T##_mask_to_name(enum E); char *T##_mask_to_name_list(enum E, char *, int); enum E T##_name_list_to_mask(char *); int T##_mask_to_value_list(enum E, long *, int); enum E T##_value_list_to_mask(long *, int);
NM(xrtm_option, xrtm_option_mask) NM(xrtm_solver, xrtm_solver_mask) NM(xrtm_output, xrtm_output_mask)
int xrtm_kernel_n(); int xrtm_kernel_max_name_length(); const char *xrtm_kernel_index_to_name(int); int xrtm_kernel_name_to_index(const char *); enum xrtm_kernel_type xrtm_kernel_index_to_value(int); int xrtm_kernel_value_to_index(enum xrtm_kernel_type); enum xrtm_kernel_type xrtm_kernel_name_to_value(const char *); const char *xrtm_kernel_value_to_name(enum xrtm_kernel_type);
}
struct Tab { const char *what; int n; const char *const *names; const unsigned *masks; };
static const char *const N_OPT[] = {"calc_derivs", "reverse_derivs", "delta_m", "n_t_tms", "four_conv_old", "four_conv_new", "no_azimuthal", "output_at_levels", "output_at_taus", "part_sol_classical", "part_sol_greens", "phase_scalar", "phase_matrix_gc", "phase_matrix_lc", "psa", "quad_norm_gaus_leg", "quad_doub_gaus_leg", "quad_lobatto", "save_leg_polys", "save_phase_mats", "save_local_r_t", "save_layer_r_t_s", "save_total_r_t_s", "sfi", "source_solar", "source_thermal", "stack_reuse_adding", "top_down_adding", "bottom_up_adding", "upwelling_output", "downwelling_output", "vector"};
static const unsigned M_OPT[] = {XRTM_OPTION_CALC_DERIVS, XRTM_OPTION_REVERSE_DERIVS, XRTM_OPTION_DELTA_M, XRTM_OPTION_N_T_TMS, XRTM_OPTION_FOUR_CONV_OLD, XRTM_OPTION_FOUR_CONV_NEW, XRTM_OPTION_NO_AZIMUTHAL, XRTM_OPTION_OUTPUT_AT_LEVELS, XRTM_OPTION_OUTPUT_AT_TAUS, XRTM_OPTION_PART_SOL_CLASSICAL, XRTM_OPTION_PART_SOL_GREENS, XRTM_OPTION_PHASE_SCALAR, XRTM_OPTION_PHASE_MATRIX_GC, XRTM_OPTION_PHASE_MATRIX_LC, XRTM_OPTION_PSA, XRTM_OPTION_QUAD_NORM_GAUS_LEG, XRTM_OPTION_QUAD_DOUB_GAUS_LEG, XRTM_OPTION_QUAD_LOBATTO, XRTM_OPTION_SAVE_LEG_POLYS, XRTM_OPTION_SAVE_PHASE_MATS, XRTM_OPTION_SAVE_LOCAL_R_T, XRTM_OPTION_SAVE_LAYER_R_T_S, XRTM_OPTION_SAVE_TOTAL_R_T_S, XRTM_OPTION_SFI, XRTM_OPTION_SOURCE_SOLAR, XRTM_OPTION_SOURCE_THERMAL, XRTM_OPTION_STACK_REUSE_ADDING, XRTM_OPTION_TOP_DOWN_ADDING, XRTM_OPTION_BOTTOM_UP_ADDING, XRTM_OPTION_UPWELLING_OUTPUT, XRTM_OPTION_DOWNWELLING_OUTPUT, (unsigned)XRTM_OPTION_VECTOR};
static const char *const N_SOL[] = {"doub_add", "eig_add", "eig_bvp", "four_stream", "mem_bvp", "pade_add", "single", "six_stream", "sos", "two_os", "two_stream"};
static const unsigned M_SOL[] = {DOUB, EIGA, EIGB, FOUR, MEM, PADE, SING, SIX, SOS, TWOOS, TWO};
static const char *const N_OUT[] = {"radiance", "radiance_mean", "flux", "flux_divergence"};
static const unsigned M_OUT[] = {XRTM_OUTPUT_RADIANCE, XRTM_OUTPUT_RADIANCE_MEAN, XRTM_OUTPUT_FLUX, XRTM_OUTPUT_FLUX_DIVERGENCE};
static const char *const N_KER[] = {"lambertian", "direct_and_diffuse", "roujean", "li_sparse", "li_dense", "ross_thin", "ross_thick", "hapke", "rahman", "cox_munk", "user_defined"};
struct Ops { std::function<int()> n, maxlen; std::function<const char *(int)> i2n; std::function<int(const char *)> n2i; std::function<unsigned(int)> i2m; std::function<int(unsigned)> m2i; std::function<unsigned(const char *)> n2m; std::function<const char *(unsigned)> m2n;
  std::function<int(unsigned, int *, int)> m2il; std::function<char *(unsigned, char *, int)> m2nl; std::function<unsigned(char *)> nl2m; std::function<int(unsigned, long *, int)> m2vl; std::function<unsigned(long *, int)> vl2m; };
#define OPS(T, E) {T##_n, T##_max_name_length, T##_index_to_name, T##_name_to_index, [](int i) { return (unsigned)T##_index_to_mask(i); }, [](unsigned m) { return T##_mask_to_index((enum E)m); }, [](const char *s) { return (unsigned)T##_name_to_mask(s); }, [](unsigned m) { return T##_mask_to_name((enum E)m); }, \
  [](unsigned m, int *v, int n) { return T##_mask_to_index_list((enum E)m, v, n); }, [](unsigned m, char *s, int n) { return T##_mask_to_name_list((enum E)m, s, n); }, [](char *s) { return (unsigned)T##_name_list_to_mask(s); }, [](unsigned m, long *v, int n) { return T##_mask_to_value_list((enum E)m, v, n); }, [](long *v, int n) { return (unsigned)T##_value_list_to_mask(v, n); }}
static std::string bad_name(Rng &r, const std::string &s) { switch (r.i(0, 5)) { case 0: return ""; case 1: return s + "x"; case 2: return s.substr(0, s.size() - 1); case 3: return " " + s; case 4: { std::string t = s; t[0] = (char)toupper(t[0]); return t; } default: return "no_such_name"; } }
PROP(C28) { UNUSED_K;
  static const Ops ops[3] = {OPS(xrtm_option, xrtm_option_mask), OPS(xrtm_solver, xrtm_solver_mask), OPS(xrtm_output, xrtm_output_mask)};
  static const Tab tab[3] = {{"option", 32, N_OPT, M_OPT}, {"solver", 11, N_SOL, M_SOL}, {"output", 4, N_OUT, M_OUT}};
  int w = r.i(0, 2); const Ops &o = ops[w]; const Tab &t = tab[w]; std::string W = t.what;
  auto ck = [&](bool ok, const char *sig, const std::string &msg) { R().evals++; if (!ok) viol(W + "." + sig, msg); return ok; };
  // every entry, both ways
  int ml = 0; for (int i = 0; i < t.n; ++i) ml = std::max(ml, (int)strlen(t.names[i]));
  if (!ck(o.n() == t.n, "n", sf("%d entries", o.n())) || !ck(o.maxlen() == ml, "max_name_length", sf("%d, the longest name has %d", o.maxlen(), ml))) return;
  for (int i = 0; i < t.n; ++i) { const char *nm = t.names[i]; unsigned m = t.masks[i]; const char *a = o.i2n(i), *b = o.m2n(m);
    if (!ck(a && !strcmp(a, nm), "index_to_name", sf("index %d gives %s, not %s", i, a ? a : "NULL", nm)) || !ck(b && !strcmp(b, nm), "mask_to_name", sf("mask %#x gives %s, not %s", m, b ? b : "NULL", nm)) || !ck(o.n2i(nm) == i, "name_to_index", sf("%s gives %d, not %d", nm, o.n2i(nm), i)) ||
        !ck(o.i2m(i) == m, "index_to_mask", sf("index %d gives %#x, not %#x", i, o.i2m(i), m)) || !ck(o.m2i(m) == i, "mask_to_index", sf("mask %#x gives %d, not %d", m, o.m2i(m), i)) || !ck(o.n2m(nm) == m, "name_to_mask", sf("%s gives %#x, not %#x", nm, o.n2m(nm), m))) return; }
  for (int i = 0; i < 11; ++i) { const char *a = xrtm_kernel_index_to_name(i), *b = xrtm_kernel_value_to_name((enum xrtm_kernel_type)i); if (!ck(a && !strcmp(a, N_KER[i]) && b && !strcmp(b, N_KER[i]) && xrtm_kernel_name_to_index(N_KER[i]) == i && (int)xrtm_kernel_name_to_value(N_KER[i]) == i && (int)xrtm_kernel_index_to_value(i) == i && xrtm_kernel_value_to_index((enum xrtm_kernel_type)i) == i, "kernel", sf("kernel %d (%s)", i, N_KER[i]))) return; }
  if (!ck(xrtm_kernel_n() == 11 && xrtm_kernel_max_name_length() == 18, "kernel_n", "")) return;
  // what is not in the table
  { std::string s = bad_name(r, t.names[r.i(0, t.n - 1)]); int bi = r.pick({-1, t.n, INT_MAX, INT_MIN}); unsigned bm = 0; do { bm = (unsigned)r.next(); } while (__builtin_popcount(bm) == 1); if (r.p(.1)) bm = 0;
    if (!ck(o.n2i(s.c_str()) == -1, "bad_name_index", s) || !ck(o.n2m(s.c_str()) == ~0u, "bad_name_mask", s) || !ck(!o.i2n(bi), "bad_index_name", sf("%d", bi)) || !ck(o.i2m(bi) == ~0u, "bad_index_mask", sf("%d", bi)) || !ck(o.m2i(bm) == -1, "bad_mask_index", sf("%#x", bm)) || !ck(!o.m2n(bm), "bad_mask_name", sf("%#x", bm))) return;
    if (!ck(xrtm_kernel_name_to_index(s.c_str()) == -1 && (int)xrtm_kernel_name_to_value(s.c_str()) == -1 && !xrtm_kernel_index_to_name(r.pick({-1, 11, INT_MAX})), "bad_kernel", s)) return; count("bad_names_and_masks"); }
  // lists
  for (int q = 0; q < 10; ++q) { unsigned m = 0; double pr = r.pick({.05, .3, .5, 1.}); std::vector<int> idx; for (int i = 0; i < t.n; ++i) if (r.p(pr)) { m |= t.masks[i]; idx.push_back(i); }
    std::string want; for (size_t i = 0; i < idx.size(); ++i) want += (i ? "," : "") + std::string(t.names[idx[i]]);
    char buf[1200]; memset(buf, '#', sizeof buf); char *p = o.m2nl(m, buf, 1100); nontrivial(W + want); count("lists");
    if (!ck(p == buf && want == buf, "mask_to_name_list", sf("mask %#x gives \\\"%s\\\", not \\\"%s\\\"", m, buf, want.c_str())) || !ck(buf[1100] == '#', "mask_to_name_list_bounds", "wrote past the end")) return;
    int len = r.i(1, (int)want.size() + 3); memset(buf, '#', sizeof buf); o.m2nl(m, buf, len); bool clean = true; for (int i = len; i < (int)sizeof buf; ++i) clean &= buf[i] == '#';
    if (!ck(clean && memchr(buf, 0, len) && want.compare(0, strlen(buf), buf) == 0 && (int)strlen(buf) == std::min((int)want.size(), len - 1), "mask_to_name_list_short", sf("length %d for \\\"%s\\\"", len, want.c_str()))) return;
    // the same list in any order, with any separators and repeats
    std::vector<int> sh = idx; if (sh.size() && r.p(.3)) sh.push_back(r.pick(sh)); r.shuffle(sh); std::string s = r.p(.2) ? " " : ""; for (size_t i = 0; i < sh.size(); ++i) { if (i) { int k = r.i(1, 3); while (k--) s += r.pick({",", " ", "\t", ","}); } s += t.names[sh[i]]; } if (r.p(.2)) s += " ,";
    { std::vector<char> z(s.begin(), s.end()); z.push_back(0); unsigned g = o.nl2m(z.data()); if (!ck(g == m, "name_list_to_mask", sf("\\\"%s\\\" gives %#x, not %#x", s.c_str(), g, m))) return; }
    { std::string s2 = s + (s.empty() ? "" : ",") + "no_such_name" + (r.p(.5) ? std::string(",") + t.names[0] : ""); std::vector<char> z(s2.begin(), s2.end()); z.push_back(0); if (!ck(o.nl2m(z.data()) == ~0u, "name_list_to_mask_bad", s2)) return; }
    std::vector<int> iv(40, -7); std::vector<long> vv(40, -7); int cap = r.p(.5) ? t.n : r.i(1, t.n), want_n = std::min(cap, (int)idx.size());
    int k1 = o.m2il(m, iv.data(), cap), k2 = o.m2vl(m, vv.data(), cap); bool ok = k1 == want_n && k2 == want_n; for (int i = 0; ok && i < 40; ++i) ok = i < want_n ? iv[i] == idx[i] && (unsigned)vv[i] == t.masks[idx[i]] : iv[i] == -7 && vv[i] == -7;
    if (!ck(ok, "mask_to_lists", sf("mask %#x, length %d", m, cap))) return; std::vector<long> all; for (int i : idx) all.push_back((long)t.masks[i]); if (!ck(o.vl2m(all.data(), (int)all.size()) == m, "value_list_to_mask", sf("%#x", m))) return; }
  seen("table", W);
}

// ---------------------------------------------------------------- C29 quadrature
PROP(C29) { UNUSED_K;
  Cfg c; c.solvers = r.pick({EIGB, EIGA, DOUB}); bool norm = r.p(.5); c.options = O_SCA | O_SOL | O_LEV | O_UP | O_DN | O_FNEW | O_PCL | (norm ? O_QN : O_QD); c.n_quad = r.p(.3) ? r.i(1, 8) : r.i(1, r.p(.1) ? 400 : 64); c.max_coef = 2 * c.n_quad; c.n_stokes = 1; c.n_layers = 1; c.kernels = {XRTM_KERNEL_ROSS_THIN}; c.n_kernel_quad = r.i(1, r.p(.1) ? 300 : 64); c.n_out_levels = 2; c.n_out_thetas = r.i(0, 3);
  Model m(c); if (!m.ok) return skip("create"); int N = c.n_quad, K = c.n_kernel_quad, U = c.n_out_thetas; In n; for (int i = 0; i < U; ++i) n.out_thetas.push_back(r.u(0, 89)); if (U && m.set(F_OTH, n)) return skip("angle_singularity");
  VD x(N + U, -77), w(N + U, -77), kx(K, -77), kw(K, -77); R().evals++;
  if (xrtm_qx(m.d, x.data()) || xrtm_qw(m.d, w.data()) || xrtm_kernel_qx(m.d, kx.data()) || xrtm_kernel_qw(m.d, kw.data())) { viol("getter", "the quadrature cannot be read"); return; }
  nontrivial(sf("%d %d %d", N, K, norm)); seen("quadrature", norm ? "norm" : "doub"); if (N < 10) seen("n_quad", sf("%d", N));
  auto rule = [&](const char *nm, const VD &a, const VD &b, int n_, bool even) { // even: half of a rule on [-1,1]
    for (int i = 0; i < n_; ++i) { if (!(a[i] > 0 && a[i] < 1 && b[i] > 0)) { viol(sf("%s.node", nm), sf("n=%d node %d is %.17g with weight %.17g", n_, i, a[i], b[i])); return false; } for (int q = 0; q < i; ++q) if (std::fabs(a[i] - a[q]) < 1e-9) { viol(sf("%s.distinct", nm), sf("n=%d nodes %d and %d coincide", n_, i, q)); return false; } }
    // Legendre moments: well conditioned for every order
    int top = even ? 4 * n_ - 1 : 2 * n_ - 1; std::vector<long double> p0(n_, 1), p1(n_); for (int i = 0; i < n_; ++i) p1[i] = even ? (long double)a[i] : 2 * (long double)a[i] - 1;
    std::vector<long double> y = p1;
    for (int l = 0; l <= top; ++l) { if (!even || l % 2 == 0) { long double s = 0; for (int i = 0; i < n_; ++i) s += b[i] * p0[i]; double want = l == 0 ? 1. : 0.; if (!verdict(nm, std::fabs((double)s - want) / 1e-11, sf("%s.exactness", nm), sf("n=%d: the integral of the Legendre polynomial of degree %d is %.15g, not %.1g", n_, l, (double)s, want))) return false; }
      for (int i = 0; i < n_; ++i) { long double t = ((2 * l + 3) * y[i] * p1[i] - (l + 1) * p0[i]) / (l + 2); p0[i] = p1[i]; p1[i] = t; } }
    return true; };
  if (!rule(norm ? "norm_gaus_leg" : "doub_gaus_leg", x, w, N, norm)) return;
  VD kz = kx; for (auto &q : kz) q /= PI; if (!rule("kernel", kz, kw, K, false)) return;
  for (int i = 0; i < U; ++i) if (!verdict("user_cosines", std::fabs(x[N + i] - std::cos(n.out_thetas[i] * D2R_)) / 1e-12, "user_cosine", sf("theta %.17g is node %.17g", n.out_thetas[i], x[N + i]))) return;
}

// ---------------------------------------------------------------- C05 memory that was never written
static void stack_fill(int b) { volatile char z[60000]; memset((void *)z, b, sizeof z); asm volatile("" ::"r"(z) : "memory"); }
static void heap_fill(int b) { mallopt(M_PERTURB, b); }
PROP(C05) { UNUSED_K;
  Cfg c; In n; base_gen(r, c, n, .6); int ns = r.i(1, 3); std::vector<int> so, wh; std::vector<In> in; Gen g; g.om_hi = .999; g.tau_hi = 2;
  for (int q = 0; q < ns; ++q) { so.push_back(one_solver(r, c)); wh.push_back(random_what(r, so.back())); if (q) { In x; gen_in(r, g, c, x); x.phis = n.phis; for (auto &l : x.l) for (size_t i = 0; i < c.kernels.size(); ++i) if (c.kernels[i] != XRTM_KERNEL_USER_DEFINED && c.kernels[i] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &y : l.par[i]) y = 0; in.push_back(x); } else in.push_back(n); }
  uint64_t sd = r.next(); std::vector<std::vector<Res>> out; int fills[3][2] = {{0, 0}, {r.i(1, 254), r.i(0, 255)}, {0xFF, 0x7F}}; bool sk = false;
  for (auto &f : fills) { heap_fill(f[0]); Rng q(sd); out.emplace_back(); Model m(c); if (!m.ok) { sk = true; break; }
    for (int i = 0; i < ns && !sk; ++i) { if (m.set_all(in[i], i ? &q : nullptr)) { sk = true; break; } stack_fill(f[1]); out.back().push_back(m.run(so[i], in[i], wh[i], f[0] != 0)); } if (sk) break; }
  heap_fill(0); if (sk) return skip("refused"); nontrivial(c.desc()); seen("class", c.cls()); for (int s : so) seen("solver", sname(s));
  for (int v = 1; v < 3; ++v) for (int i = 0; i < ns; ++i) { const Res &a = out[0][i], &b = out[v][i]; R().evals++; count("runs_compared_bit_for_bit"); if (a.rc != b.rc) { viol("status", "the status depends on what memory held; " + D(c, in[i])); return; } if (a.rc) continue;
      bool l = bitsame(a.mpl, b.mpl) && bitsame(a.mml, b.mml) && bitsame(a.fpl, b.fpl) && bitsame(a.fml, b.fml);
      if (!bitsame(a, b) || !l) { viol(sf("uninitialised.%s.%s", sname(so[i]), c.cls().c_str()), sf("call %d by %s: the results depend on what fresh memory or the output arrays held (fills %d,%d); ", i, sname(so[i]), fills[v][0], fills[v][1]) + D(c, in[i])); return; } }
}

// ---------------------------------------------------------------- C03 instances are independent, also in threads
struct Job { Cfg c; std::vector<In> in; std::vector<int> so, wh; uint64_t sd; };
static std::vector<Res> play(const Job &j, std::atomic<int> *gate, int n_thr) {
  std::vector<Res> o; Rng q(j.sd); if (gate) { gate->fetch_add(1); while (gate->load() < n_thr) std::this_thread::yield(); }
  try { Model m(j.c); if (!m.ok) return o; for (size_t i = 0; i < j.in.size(); ++i) { if (m.set_all(j.in[i], i ? &q : nullptr)) return o; o.push_back(m.run(j.so[i], j.in[i], j.wh[i])); } } catch (const LibExit &) { o.clear(); }
  return o;
}
PROP(C03) { UNUSED_K;
  int T = r.i(2, 6); std::vector<Job> jobs(T); bool same = r.p(.4);
  for (int t = 0; t < T; ++t) { Job &j = jobs[t]; if (t && same) j.c = jobs[0].c; In n; if (t && same) { Gen g; g.om_hi = .999; g.tau_hi = 2; gen_in(r, g, j.c, n); n.phis = jobs[0].in[0].phis; } else base_gen(r, j.c, n, .5);
    int k = r.i(1, 3); for (int q = 0; q < k; ++q) { In x = n; if (q) { Gen g; g.om_hi = .999; g.tau_hi = 2; gen_in(r, g, j.c, x); x.phis = n.phis; } for (auto &l : x.l) for (size_t i = 0; i < j.c.kernels.size(); ++i) if (j.c.kernels[i] != XRTM_KERNEL_USER_DEFINED && j.c.kernels[i] != XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (auto &y : l.par[i]) y = 0; j.in.push_back(x); j.so.push_back(one_solver(r, j.c)); j.wh.push_back(random_what(r, j.so.back())); } j.sd = r.next(); }
  // alone, one after the other, in reverse order, and all at once
  std::vector<std::vector<Res>> ser(T), thr(T), il(T); for (int t = 0; t < T; ++t) ser[t] = play(jobs[t], nullptr, 0);
  std::atomic<int> gate(0); std::vector<std::thread> th; std::vector<Report> rep(T); long kk = R().k;
  for (int t = 0; t < T; ++t) th.emplace_back([&, t]() { RP() = &rep[t]; rep[t].k = kk; thr[t] = play(jobs[t], &gate, T); }); for (auto &x : th) x.join(); for (auto &q : rep) merge(q);
  count("threads", T); seen("threads_at_once", sf("%d", T)); std::string key; for (auto &j : jobs) key += j.c.desc(); nontrivial(key); for (auto &j : jobs) seen("class", j.c.cls());
  // interleaved in one thread: all models alive at once, their calls taken in turn
  { std::vector<std::unique_ptr<Model>> ms; std::vector<Rng> q; bool ok = true; for (auto &j : jobs) { ms.emplace_back(new Model(j.c)); q.emplace_back(j.sd); ok &= ms.back()->ok; } if (ok) { std::vector<size_t> at(T, 0); std::vector<int> live; for (int t = 0; t < T; ++t) live.push_back(t);
      while (!live.empty()) { int z = r.i(0, (int)live.size() - 1), t = live[z]; Job &j = jobs[t]; size_t i = at[t]; if (i >= j.in.size() || ms[t]->set_all(j.in[i], i ? &q[t] : nullptr)) { live.erase(live.begin() + z); if (r.p(.5)) ms[t].reset(); continue; } il[t].push_back(ms[t]->run(j.so[i], j.in[i], j.wh[i])); at[t]++; } } else il = ser; }
  for (int v = 0; v < 2; ++v) for (int t = 0; t < T; ++t) { auto &o = v ? il : thr; R().evals++; if (o[t].size() != ser[t].size()) { viol(v ? "interleaved.calls" : "threads.calls", sf("%zu calls succeed alone and %zu with other instances; ", ser[t].size(), o[t].size()) + jobs[t].c.desc()); return; }
      for (size_t i = 0; i < ser[t].size(); ++i) { R().evals++; count("runs_compared_bit_for_bit"); if (!bitsame(ser[t][i], o[t][i])) { viol(sf("%s.%s", v ? "interleaved" : "threads", sname(jobs[t].so[i])), sf("the results of an instance differ when %d other instances are used %s; ", T - 1, v ? "in turn" : "at the same time") + D(jobs[t].c, jobs[t].in[i])); return; } } }
}
