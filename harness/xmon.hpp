// Registry of monitored properties.  Each property is a function of a per-case generator state.
#ifndef XMON_HPP
#define XMON_HPP
#include "core.hpp"
typedef void (*case_fn)(Rng &r, long k);
struct Reg { Reg(const char *id, case_fn f, double cpu = 60) { tab()[id] = {f, cpu}; } static std::map<std::string, std::pair<case_fn, double>> &tab() { static std::map<std::string, std::pair<case_fn, double>> t; return t; } };
#define PROP(id) static void case_##id(Rng &r, long k); static Reg reg_##id(#id, case_##id); static void case_##id(Rng &r, long k)
#define UNUSED_K (void)k
// probes: deterministic demonstrations of recorded defects; return "" when the behaviour is right, otherwise what is wrong
typedef std::string (*probe_fn)();
struct ProbeReg { ProbeReg(const char *ids, const char *name, probe_fn f) { tab().push_back({ids, name, f}); } struct P { std::string ids, name; probe_fn f; }; static std::vector<P> &tab() { static std::vector<P> t; return t; } };
#define PROBE(ids, name) static std::string probe_##name(); static ProbeReg preg_##name(ids, #name, probe_##name); static std::string probe_##name()

// a case that says nothing (setter legitimately refused, configuration not available)
inline void skip(const std::string &why) { count("skipped_" + why); }
// build a model and give it all its inputs; false => skip
inline bool ready(Model &m, const In &n, Rng *r = nullptr) {
  if (!m.ok) { skip("create"); return false; }
  if (m.set_all(n, r)) { skip(m.last_bad == F_TH0 || m.last_bad == F_OTH ? "angle_singularity" : sf("setter_%s", m.last_bad == 99 ? "update" : fname(m.last_bad))); return false; }
  return true;
}
inline double iscale(const Res &a) { return std::max(vmax(a.Ip), vmax(a.Im)); }
inline double kscale(const Res &a) { return std::max(vmax(a.Kp), vmax(a.Km)); }
// per-derivative scale for K arrays
inline double rdev(const Res &a, const Res &b, double rel, double abs_ = 1e-14) { double s = std::max(iscale(a), iscale(b)); return std::max(dev(a.Ip, b.Ip, rel, abs_, s), dev(a.Im, b.Im, rel, abs_, s)); }
inline double kdev(const Res &a, const Res &b, double rel, double abs_ = 1e-14) { double s = std::max(kscale(a), kscale(b)); return std::max(dev(a.Kp, b.Kp, rel, abs_, s), dev(a.Km, b.Km, rel, abs_, s)); }
inline double pdev(const VD &ap, const VD &am, const VD &bp, const VD &bm, double rel, double abs_) { double s = std::max(std::max(vmax(ap), vmax(am)), std::max(vmax(bp), vmax(bm))); return std::max(dev(ap, bp, rel, abs_, s), dev(am, bm, rel, abs_, s)); }
inline double fdev(const Res &a, const Res &b, double rel, double abs_ = 1e-14) { return std::max(pdev(a.mp, a.mm, b.mp, b.mm, rel, abs_), pdev(a.fp, a.fm, b.fp, b.fm, rel, abs_)); }
inline double fldev(const Res &a, const Res &b, double rel, double abs_ = 1e-14) { return std::max(pdev(a.mpl, a.mml, b.mpl, b.mml, rel, abs_), pdev(a.fpl, a.fml, b.fpl, b.fml, rel, abs_)); }
inline std::string show(const VD &a, int n = 6) { std::string s = "["; for (int i = 0; i < (int)a.size() && i < n; ++i) s += sf(i ? ",%.9g" : "%.9g", a[i]); return s + "]"; }
// verdict helper: dv is the deviation in units of the tolerance
inline bool verdict(const char *what, double dv, const std::string &sig, const std::string &msg) {
  R().evals++; maxv(std::string("worst_") + what, dv); count(std::string("compared_") + what);
  if (!(dv <= 1.)) { viol(sig, sf("%s: deviation %.3g x tolerance; ", what, dv) + msg); return false; }
  return true;
}
inline Cfg without(Cfg c, long m) { c.options &= ~m; return c; }
static const long SAVES = O_SLEG | O_SPM | O_SLRT | O_SLAY | O_STOT;
inline double sumv(const VD &a) { double s = 0; for (double x : a) s += x; return s; }
#endif
