"""Builds flavors of xrtm from /repo's *current working tree* into /verif/build/<flavor>/tree.

Every check calls build(); nothing is reused from /repo/_build and nothing is written in /repo.
"""
import fcntl, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XV_REPO", "/repo")
OUT = os.environ.get("XV_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")

SAN = "-fsanitize=address,undefined -fno-sanitize=pointer-overflow,vla-bound -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
FLAVORS = {
    # flags appended after the project's own CCFLAGS
    "opt":  "",
    "asan": "-O1 -g " + SAN,
    "tsan": "-O1 -g -fsanitize=thread -fno-omit-frame-pointer",
    "dbg":  "-O0 -g",
    # the library's own (normally compiled out) assertions and work-array poisoning switched on
    "poison": "-O1 -g -DDEBUG -DPOISON_WORK_ARRAYS",
}
FSAN = {"asan": "-fsanitize=address,undefined", "tsan": "-fsanitize=thread"}
EXCL = ["/.git", "/_build", "/doc", "*.o", "*.d", "*.a", "*.so", "*.mod", "__pycache__", "/make.inc",
        "/src/version.c", "/utils/callxrtm", "/utils/testxrtm", "/interfaces/write_int_def",
        "/examples/example_c", "/examples/example_brdf_c", "/examples/example_cpp",
        "/examples/example_f77", "/examples/example_f90", "/utils/input_yylex.c", "/utils/input_yylex.h"]
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C.UTF-8",
       "HOME": os.environ.get("HOME", "/root")}
JOBS = os.environ.get("XV_JOBS", "8")
YY = {"input_yylex.c": "7df64d24b34b2fe1cd811908be0eb46c9c8d4a04d641c8ab9787bcdb328aa117",
      "input_yylex.h": "28d63a5c2886dabdd4b5e7e6e6a3fd7a3f976f5d961c78fbdb4f09ae86d66f9e"}


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("build step failed: %s\n%s" % (cmd, p.stdout[-6000:]))
    return p.stdout


def put(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def tree(flavor):
    return os.path.join(OUT, flavor, "tree")


def flags(flavor):
    return FLAVORS[flavor]


def build(flavor, parts=("src", "misc")):
    """Build parts of the tree; returns the tree's path. parts: src misc utils interfaces."""
    B = os.path.join(OUT, flavor)
    T = os.path.join(B, "tree")
    os.makedirs(T, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(["rsync", "-rl", "-p", "--checksum", "--delete"] + ["--exclude=" + e for e in EXCL] + [REPO + "/", T + "/"])
        mk = open(os.path.join(T, "make.inc.example")).read()
        mk = mk.replace(" -Werror", "").replace("${HOME}/opt/openblas/lib/libopenblas.a", "-lopenblas")
        mk = "\n".join("make_int_python = 1" if l.startswith("#make_int_python") else l for l in mk.split("\n"))
        mk += "\nCCFLAGS  += %s\nF77FLAGS += %s\nF90FLAGS += %s\n" % (FLAVORS[flavor], FSAN.get(flavor, ""), FSAN.get(flavor, ""))
        if flavor in FSAN:
            mk += "CFMIX_LDFLAGS += %s\n" % FSAN[flavor]
        mk += "CCFLAGS  += -MMD -MP\n"
        mk += "INCDIRS  += -I/usr/include/python3.12 -I/usr/lib/python3/dist-packages/numpy/core/include\n"
        mk += "-include $(wildcard *.d)\n"
        put(os.path.join(T, "make.inc"), mk)
        cfg = hashlib.sha256()
        for d in ("", "src", "misc", "utils", "interfaces"):
            for n in ("make.inc", "common.inc", "Makefile", "depend.inc"):
                p = os.path.join(T, d, n)
                if os.path.isfile(p):
                    cfg.update(open(p, "rb").read())
        stamp = os.path.join(B, "config.stamp")
        if not (os.path.isfile(stamp) and open(stamp).read() == cfg.hexdigest()):
            for d in ("src", "misc", "utils", "interfaces"):
                for n in os.listdir(os.path.join(T, d)):
                    if n.endswith((".o", ".d", ".a", ".so", ".mod")):
                        os.unlink(os.path.join(T, d, n))
            open(stamp, "w").write(cfg.hexdigest())
        run("touch -d 2000-01-01 utils/*.l interfaces/*.def", T)
        jobs = []
        for p in ("src", "misc"):
            if p in parts:
                jobs.append(p)
        if jobs:
            run(" && ".join("make -s -j%s -C %s all >%s.log 2>&1 || { cat %s.log; exit 1; }" % (JOBS, p, p, p) for p in jobs), T)
        if "utils" in parts:
            same = all(sha(os.path.join(REPO, "utils", n)) == h for n, h in YY.items())
            if same:
                F = os.path.join(B, "flex")
                os.makedirs(F, exist_ok=True)
                run(["cp", os.path.join(REPO, "utils/input_yylex.l"), F])
                run("flex --header-file=input_yylex.h -oinput_yylex.c input_yylex.l", F)
            else:
                F = os.path.join(REPO, "utils")
            for n in YY:
                put(os.path.join(T, "utils", n), open(os.path.join(F, n)).read())
            run("make -s -j%s -C utils all" % JOBS, T)
        if "interfaces" in parts:
            run("touch ../make.inc && make -s -C interfaces xrtm_int_f90.o xrtm_fd_int_f90.o && make -s -j%s -C interfaces all" % JOBS if False else
                "make -s -C interfaces xrtm_int_f90.o && make -s -j%s -C interfaces all" % JOBS, T)
    return T


def harness(flavor, name, srcs, extra="", libs=()):
    """Compile+link a harness executable against a flavor's libraries."""
    T = tree(flavor)
    B = os.path.join(OUT, flavor)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(B, name)
        objs = []
        procs = []
        cdef = '-DVERSION=\\"0\\" -DGBYTE_ORDER=BYTE_ORDER_LE -DNATIVE_SIZE=NATIVE_SIZE_64_BIT -DUNIX -DPLATFORM=LINUX_GCC'
        fl = "-O1 -g -fopenmp -fno-strict-aliasing " + FLAVORS[flavor].replace("-O1 -g", "") + " " + extra
        inc = "-I%s/src -I%s/misc -I%s/interfaces -I%s/utils -I%s" % (T, T, T, T, HARN)
        hdr = hashlib.sha256()
        for d in (T + "/src", T + "/misc", T + "/interfaces", T + "/utils", T + "/src/prototypes", T + "/misc/prototypes", HARN, HARN + "/bind"):
            if os.path.isdir(d):
                for n in sorted(os.listdir(d)):
                    if n.endswith((".h", ".hpp", ".inc") if not d.startswith(T) or d.endswith("interfaces") else (".h", ".hpp")) or n == "xrtm_int_f90.f90":
                        hdr.update(open(os.path.join(d, n), "rb").read())
        hdr = hdr.hexdigest()
        for s in srcs:
            sp = s if os.path.isabs(s) else os.path.join(HARN, s)
            o = os.path.join(B, name + "-" + os.path.basename(s) + ".o")
            key = hashlib.sha256((hdr + sha(sp) + fl + inc).encode()).hexdigest()
            objs.append(o)
            try:
                if open(o + ".key").read() == key and os.path.isfile(o):
                    continue
            except OSError:
                pass
            if sp.endswith((".f90", ".f")):
                cmd = "gfortran -O1 -g -fopenmp -frecursive -ffree-line-length-none %s -I%s/interfaces -I%s/interfaces -J%s -c %s -o %s" % (FSAN.get(flavor, ""), T, HARN, B, sp, o)
            else:
                cc = "g++ -std=c++17" if sp.endswith(".cpp") else "gcc"
                cmd = "%s %s %s %s -c %s -o %s" % (cc, fl, cdef, inc, sp, o)
            procs.append((cmd, o, key, subprocess.Popen(cmd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for cmd, o, key, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise BuildError("harness: %s\n%s" % (cmd, out[-6000:]))
            open(o + ".key", "w").write(key)
        L = [T + "/" + l for l in libs] + [T + "/src/libxrtm.a", T + "/misc/libxrtm_misc.a"]
        run("g++ %s -o %s %s -Wl,--wrap=exit,--wrap=malloc,--wrap=calloc,--wrap=realloc -Wl,--start-group %s -Wl,--end-group -lopenblas -lgfortran -lm -ldl -lpthread" % (fl, exe, " ".join(objs), " ".join(L)))
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], tuple(sys.argv[2:]) or ("src", "misc")))
