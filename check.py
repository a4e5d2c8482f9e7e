#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--scale X]   |   check.py <property> --replay <file>

Exit 0: the property held on everything explored.  Exit 1: VIOLATION lines name replay files.  Exit 2: no answer."""
import argparse, glob, json, os, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import build, runner, props


def xmon(flavor, exe="xmon"):
    if exe == "xbind":      # the monitors of the language bindings
        T = build.build(flavor, ("src", "misc", "interfaces"))
        if flavor == "opt":     # an interpreter cannot load a library built with sanitizers
            runner.ENVV.update(XBIND_PY=T + "/interfaces/xrtm.so", XBIND_DRV=build.HARN + "/bind/b_py.py", PYTHONDONTWRITEBYTECODE="1")
        else:
            runner.ENVV.pop("XBIND_PY", None)
        return build.harness(flavor, "xbind", ["xmon.cpp", "bind.cpp", "bind/b_f90.f90", "bind/b_f77.f"], libs=("interfaces/libxrtm_interfaces.a",))
    if exe == "xinput":     # the input language and the program that reads it
        T = build.build(flavor, ("src", "misc", "utils"))
        runner.ENVV["XV_CALLXRTM"] = T + "/utils/callxrtm"
        return build.harness(flavor, "xinput", ["xmon.cpp", "input.cpp"], libs=("utils/libxrtm_input.a",))
    build.build(flavor)
    return build.harness(flavor, "xmon", ["xmon.cpp"] + sorted(os.path.basename(p) for p in glob.glob(os.path.join(build.HARN, "p_*.cpp"))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.)
    ap.add_argument("--replay")
    a = ap.parse_args()
    P = props.CHECKS[a.prop]
    t0 = time.time()
    thorough = a.tier == "thorough"
    acc = runner.Acc()
    # soft and hard limits: cases not started by the soft limit are counted as not run
    lim = (3600, 5400) if thorough else (420, 780)
    deadline = (t0 + lim[0], t0 + lim[1])
    exes = {}

    def get(flavor, exe="xmon"):
        if (flavor, exe) not in exes:
            exes[flavor, exe] = xmon(flavor, exe)
        return exes[flavor, exe]
    try:
        if a.replay:
            rep = json.load(open(a.replay))["replay"]
            if "probe" in rep:
                return subprocess.call([get(rep["flavor"], P.get("exe", "xmon")), rep["monitor"], "--probes"], env=runner.ENVV)
            if "case" in rep:
                return subprocess.call([get(rep["flavor"], P.get("exe", "xmon")), rep["monitor"], str(rep["seed"]), str(rep["case"]), "1", "600"], env=runner.ENVV)
            print(json.dumps(rep, indent=1))
            return 0
        for st in P["stages"]:
            if st[0] == "x":
                _, flavor, mon, nq, nt = st[:5]
                kw = st[5] if len(st) > 5 else {}
                n = max(1, int((nt if thorough else nq) * a.scale))
                kw = dict(kw)
                runner.xmon_stage(acc, flavor, get(flavor, P.get("exe", "xmon")), mon, a.seed, n, deadline, **kw)
            elif st[0] == "probes":
                runner.probe_stage(acc, st[1], get(st[1], P.get("exe", "xmon")), a.prop)
            else:
                st[1](acc, a, thorough, deadline)
    except build.BuildError as e:
        print("NO ANSWER: /repo does not build for this check\n%s" % str(e)[-3000:])
        return 2
    return runner.finish(a.prop, a.tier, a.seed, acc, P["rule"], t0, P.get("assumptions", []), P.get("exhaustive", False))


if __name__ == "__main__":
    sys.exit(main())
