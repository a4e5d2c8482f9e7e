"""Driver of the Python binding: reads the names of script and output files from stdin."""
import importlib.machinery, importlib.util, os, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from b_table import TABLE
from b_names import OPTIONS, SOLVERS, KERNELS
loader = importlib.machinery.ExtensionFileLoader("xrtm", sys.argv[1])
xrtm = importlib.util.module_from_spec(importlib.util.spec_from_loader("xrtm", loader))
loader.exec_module(xrtm)
CALLS = {f[0]: f for f in TABLE}


def names(mask, tab):
    return [n for v, n in tab if (mask & 0xffffffff) & v]


def run(fi, fo):
    tok = open(fi).read().split()
    p = 0
    w = open(fo, "w")
    m = None

    def flat(x, t):
        if isinstance(x, np.ndarray):
            for v in x.ravel():
                w.write("%.17g\n" % v if t == "double" else "%d\n" % v)
        else:
            w.write("%.17g\n" % x if t == "double" else "%d\n" % x)
    while p < len(tok):
        nm = tok[p]
        p += 1
        w.write(nm + "\n")
        w.flush()
        if nm == "create":
            q = [int(x) for x in tok[p:p + 10]]
            p += 10
            n = int(tok[p])
            k = [int(x) for x in tok[p + 1:p + 1 + n]]
            p += 1 + n
            q += [k, int(tok[p]), int(tok[p + 1])]
            p += 2
            try:
                m = xrtm.xrtm(names(q[0], OPTIONS), names(q[1], SOLVERS), q[2], q[3], q[4], q[5], q[6], q[7], q[9], [KERNELS[i] for i in q[10]], q[11], q[12])
                w.write("ok\n")
            except xrtm.error:
                m = None
                w.write("error\n")
            continue
        if nm == "destroy":
            m = None
            w.write("ok\n")
            continue
        _, ret, value, args = CALLS[nm]
        a = []
        outs = []
        for t, n, io, enum in args:
            if n:
                dims = [int(x) for x in tok[p:p + n]]
                p += n
                if io == "in":
                    s = int(np.prod(dims))
                    v = np.array([float(x) if t == "double" else int(x) for x in tok[p:p + s]], dtype=np.float64 if t == "double" else np.int32).reshape(dims)
                    p += s
                    a.append(v.tolist() if s and len(a) % 2 else v)
                else:
                    outs.append(t)
            elif io == "in":
                v = float(tok[p]) if t == "double" else int(tok[p])
                p += 1
                if enum == "solver_mask":
                    v = names(v, SOLVERS)[0]
                a.append(v)
            else:
                outs.append(t)
        try:
            x = getattr(m, nm)(*a)
        except xrtm.error:
            w.write("error\n")
            continue
        w.write("ok\n")
        if nm == "get_kernel":
            flat(KERNELS.index(x) if x in KERNELS else -12345, "int")
        elif value:
            flat(x, ret)
        elif outs:
            for v, t in zip(x if len(outs) > 1 else (x,), outs):
                flat(v, t)
    w.close()


for line in sys.stdin:
    run(*line.split())
    sys.stdout.write("done\n")
    sys.stdout.flush()
