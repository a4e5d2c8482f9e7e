"""Runs monitors, collects what they observed, decides exit status, writes evidence and replay files."""
import json, os, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
ENVV = dict(build.ENV, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
            ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0",
            UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
            LSAN_OPTIONS="suppressions=%s" % os.path.join(VERIF, "lib/lsan.supp"),
            TSAN_OPTIONS="exitcode=66:halt_on_error=1:suppressions=%s" % os.path.join(VERIF, "lib/tsan.supp"))


def known(prop):
    """signatures listed for a property -> description"""
    d = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: "):
                f = l.split(None, 3)
                if f[1] == "property=" + prop:
                    d[f[2].split("=", 1)[1]] = f[3]
    return d


class Acc:
    """what the monitors of one check saw"""
    def __init__(self):
        self.evals = 0
        self.ev = {}
        self.mx = {}
        self.seen = {}
        self.distinct = set()
        self.samples = []
        self.viol = []          # (sig, message, replay-dict)
        self.lock = threading.Lock()
        self.cases = 0

    def count(self, k, n=1):
        with self.lock:
            self.ev[k] = self.ev.get(k, 0) + n

    def saw(self, cat, v):
        with self.lock:
            self.seen.setdefault(cat, set()).add(str(v))

    def add(self, e, cap_samples=4):
        with self.lock:
            self.evals += e.get("evals", 0)
            for k, v in e.get("ev", {}).items():
                self.ev[k] = self.ev.get(k, 0) + v
            for k, v in e.get("mx", {}).items():
                if v is not None:
                    self.mx[k] = max(self.mx.get(k, v), v)
            for k, v in e.get("seen", {}).items():
                self.seen.setdefault(k, set()).update(v)
            self.distinct.update(e.get("distinct", []))
            for s in e.get("samples", []):
                if len(self.samples) < cap_samples:
                    self.samples.append(s)

    def violation(self, sig, msg, replay):
        with self.lock:
            self.viol.append((sig, msg, replay))


def last_lines(b, n=1500):
    return b[-n:].decode(errors="replace")


def san_sig(err):
    """a short, stable description of a sanitizer report"""
    t = err.decode(errors="replace")
    kind = "crash"
    for l in t.splitlines():
        if "runtime error:" in l:
            kind = "ubsan:" + l.split("runtime error:")[1].strip()[:60].translate(str.maketrans("0123456789", "##########"))
            break
        if "ERROR: AddressSanitizer" in l:
            kind = "asan:" + l.split("AddressSanitizer:")[1].split()[0]
            break
        if "ERROR: LeakSanitizer" in l:
            kind = "lsan:leak"
            break
        if "WARNING: ThreadSanitizer" in l:
            kind = "tsan:" + l.split("ThreadSanitizer:")[1].split("(")[0].strip().replace(" ", "-")
            break
        if "MemorySanitizer" in l:
            kind = "msan"
            break
    fn = ""
    import re
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\w+)[^\n]*?/tree/(?:src|misc|utils|interfaces)/([\w.]+)", t):
        fn = m.group(2) + ":" + m.group(1)
        break
    if not fn:
        m = re.search(r"#\d+ (\w+) [^\n]*?([\w]+\.c):\d+", t)
        if m:
            fn = m.group(2) + ":" + m.group(1)
    return kind + (("@" + fn) if fn else "")


def xmon_stage(acc, flavor, exe, mon, seed, n, deadline, only_crash=False, cpu=None, tag="", jobs=8, leak=False, pre=()):
    """run cases 0..n-1 of a monitor, sharded; a process that dies is a violation and the run goes on after it"""
    chunk = max(1, min(200, -(-n // (jobs * 4))))
    todo = [(a, min(chunk, n - a)) for a in range(0, n, chunk)]
    crashes = [0]
    cpu0 = cpu or {"asan": 240, "poison": 240, "tsan": 400, "dbg": 240}.get(flavor, 60)

    def one(first, cnt, cpu, pre=pre):
        cmd = list(pre) + [exe, mon, str(seed), str(first), str(cnt), str(int(cpu))]
        p = subprocess.Popen(cmd, env=ENVV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/tmp")
        try:
            out, err = p.communicate(timeout=max(30, deadline[1] - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return out, err, "timeout"
        return out, err, p.returncode

    def work(job):
        first, cnt = job
        end = first + cnt
        while first < end:
            if time.time() > deadline[0] or crashes[0] > 12:
                acc.count("cases_not_run_for_time", end - first)
                return
            out, err, rc = one(first, end - first, cpu0)
            done = False
            cur = first
            hang = None
            for l in out.splitlines():
                if l.startswith(b"S "):
                    try:
                        cur = int(l[2:])
                    except ValueError:
                        pass
                elif l.startswith(b"V "):
                    v = json.loads(l[2:].decode(errors="replace"))
                    if not only_crash:
                        acc.violation(v["sig"], v["msg"], {"flavor": flavor, "monitor": mon, "seed": seed, "case": v["k"]})
                elif l.startswith(b"E "):
                    acc.add(json.loads(l[2:].decode(errors="replace")))
                elif l.startswith(b"T "):
                    hang = int(l[2:])
                elif l == b"D":
                    done = True
            if rc == "timeout":
                acc.count("cases_not_run_for_time", end - cur)
                return
            if done and rc == 0:
                acc.count("cases_" + flavor, end - first)
                return
            if done:        # leak report or race report at exit
                if end - first > 1:     # find the case
                    for k in range(first, end):
                        o2, e2, r2 = one(k, 1, cpu0)
                        if r2 not in (0, "timeout"):
                            acc.violation("%s%s" % (tag, san_sig(e2)), last_lines(e2), {"flavor": flavor, "monitor": mon, "seed": seed, "case": k})
                            crashes[0] += 1
                            return
                acc.violation("%s%s" % (tag, san_sig(err)), last_lines(err), {"flavor": flavor, "monitor": mon, "seed": seed, "case": first})
                crashes[0] += 1
                return
            if hang is not None:
                o2, e2, r2 = one(hang, 1, 3 * cpu0)
                if r2 == 97:
                    acc.violation("%shang.%s" % (tag, mon), "case %d of monitor %s used more than %d s of CPU time" % (hang, mon, 3 * cpu0), {"flavor": flavor, "monitor": mon, "seed": seed, "case": hang})
                    crashes[0] += 1
                cur = hang
            else:
                crashes[0] += 1
                w = "exit%d" % rc if rc > 0 and rc not in (66, 1) else ("signal%d" % -rc if rc < 0 else san_sig(err))
                if w == "crash":
                    w = "exit%d" % rc
                acc.violation("%s%s" % (tag, w), "the process ended (status %s) in case %d: %s" % (rc, cur, last_lines(err)), {"flavor": flavor, "monitor": mon, "seed": seed, "case": cur})
            acc.count("cases_" + flavor, cur - first + 1)
            first = cur + 1

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, todo))


def probe_stage(acc, flavor, exe, prop):
    p = subprocess.run([exe, prop, "--probes"], env=ENVV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/tmp", timeout=600)
    for l in p.stdout.splitlines():
        if l.startswith(b"V "):
            v = json.loads(l[2:].decode(errors="replace"))
            acc.violation(v["sig"], v["msg"], {"flavor": flavor, "monitor": prop, "probe": v["sig"]})
        elif l.startswith(b"E "):
            acc.add(json.loads(l[2:].decode(errors="replace")))


def finish(prop, tier, seed, acc, rule, t0, assumptions, exhaustive=False, level="exploration"):
    kn = known(prop)
    groups = {}
    for sig, msg, rep in acc.viol:
        groups.setdefault(sig, []).append((msg, rep))
    for sig in sorted(groups):
        if sig in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, sig, kn[sig]))
    bad = {s: g for s, g in groups.items() if s not in kn}
    rdir = os.path.join(VERIF, "replay")
    if bad:
        os.makedirs(rdir, exist_ok=True)
    for i, (sig, g) in enumerate(sorted(bad.items())):
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, i))
        msg, rep = g[0]
        json.dump({"property": prop, "signature": sig, "message": msg, "occurrences": len(g), "replay": rep,
                   "how": "python3 check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        if i < 40:
            print("  %s (%d times): %s" % (sig, len(g), msg[:600].replace("\n", " | ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    cov = {"evaluations": acc.evals, "distinct_nontrivial": len(acc.distinct), "rule": rule,
           "samples": acc.samples[:6] or ["(none)"],
           "observed_events": dict(sorted(acc.ev.items())),
           "largest_deviation_in_units_of_tolerance": {k: (v if abs(v) < 1e300 else str(v)) for k, v in sorted(acc.mx.items())},
           "distinct_values_seen": {k: {"count": len(v), "some": sorted(v)[:40]} for k, v in sorted(acc.seen.items())},
           "known_findings_reproduced": sorted(s for s in groups if s in kn),
           "known_findings_listed": sorted(kn)}
    if exhaustive:
        cov["exhaustive"] = True
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    tmp = os.path.join(ed, ".%s.tmp" % prop)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - t0, 2), "violations": len(bad)}, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ed, prop + ".json"))
    print("%s %s: %d evaluations, %d distinct non-trivial cases, %d violation(s), %.1f s" % (prop, tier, acc.evals, len(acc.distinct), len(bad), time.time() - t0))
    return 1 if bad else 0
