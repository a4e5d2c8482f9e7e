"""The checks: which monitors run, in which builds, for how many cases.  Statements are in lib/statements.py."""
COMMON = ["the reference for IEEE double arithmetic is the build's own (gcc, OpenBLAS single-threaded); comparisons carry tolerances, no bit equality is asked across different computations",
          "inputs are drawn by harness/gen.hpp inside the documented domains; configurations that the library refuses are skipped and counted"]
RULE = "case k of monitor M is drawn from a generator seeded by (M, seed, k); "


def x(flavor, mon, nq, nt, **kw):
    return ("x", flavor, mon, nq, nt, kw)


VG = ("valgrind", "-q", "--error-exitcode=66", "--leak-check=no", "--suppressions=" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "memcheck.supp"))
H = RULE + "a case is a random configuration and a random history of setter, update, clear and solution calls"
CHECKS = {
    "C01": dict(stages=[x("opt", "C01", 32000, 400000)], rule=H + ", each solution compared with a fresh model given the same inputs; non-trivial: a solution call after at least one earlier one"),
    "C02": dict(stages=[x("opt", "C02", 32000, 400000), ("probes", "opt")], rule=H + ", with at least one save_* option or stack_reuse on, each solution compared with a fresh model without them; non-trivial: a solution call after at least one earlier one"),
    "C04": dict(stages=[x("asan", "C01", 1600, 20000, only_crash=True), x("asan", "C02", 1600, 20000, only_crash=True)] + [x("asan", m, 400, 20000, only_crash=True) for m in ("C03", "C05", "C25", "C29", "C06", "C08", "C10", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C31")], rule="the workloads of the other monitors, run in a build with AddressSanitizer, UBSan and LeakSanitizer; only sanitizer reports and abnormal ends are judged; non-trivial as in those monitors"),
    "C06": dict(stages=[x("opt", "C06", 40000, 800000)], rule=RULE + "a case is a random problem solved by two solvers (or by a closed-form solver and eig_bvp); non-trivial: both accepted it"),
    "C07": dict(stages=[x("opt", "C07", 60000, 400000), ("probes", "opt")], rule=RULE + "a case is a random problem with up to four linearization directions; non-trivial: a direction with a derivative above 1e-8"),
    "C08": dict(stages=[x("opt", "C08", 32000, 480000)], rule=RULE + "a case is a random problem solved without derivatives, with them, and with permuted and added slots; non-trivial: a slot with a non-zero derivative"),
    "C10": dict(stages=[x("opt", "C10", 40000, 800000)], rule=RULE + "a case is a random problem solved with one layer whole and split; non-trivial: both solved"),
    "C11": dict(stages=[x("opt", "C11", 40000, 800000), ("probes", "opt")], rule=RULE + "a case is a random problem requested in two ways; non-trivial: both solved"),
    "C12": dict(stages=[x("opt", "C12", 40000, 800000)], rule=RULE + "a case is a random problem solved with all its sources and with each alone; non-trivial: all solved"),
    "C13": dict(stages=[x("opt", "C13", 48000, 1200000)], rule=RULE + "a case is a random problem without emission whose fluxes are judged; non-trivial: solved"),
    "C14": dict(stages=[x("opt", "C14", 40000, 800000)], rule=RULE + "a case is a random problem solved with sun and view exchanged; non-trivial: both solved"),
    "C15": dict(stages=[x("opt", "C15", 32000, 600000)], rule=RULE + "a case is a random problem solved for radiances at the quadrature angles, mean radiances and fluxes; non-trivial: solved"),
    "C16": dict(stages=[x("opt", "C16", 40000, 800000)], rule=RULE + "a case is a random problem solved at related azimuths; non-trivial: solved"),
    "C19": dict(stages=[x("opt", "C19", 40000, 1200000)], rule=RULE + "a case is a random problem solved by single and by its closed form, or a thin one solved by single and a full solver; non-trivial: solved"),
    "C17": dict(stages=[x("opt", "C17", 32000, 600000)], rule=RULE + "a case is a random problem solved as scalar and vector, or with 3 and 4 Stokes elements; non-trivial: both solved"),
    "C18": dict(stages=[x("opt", "C18", 32000, 600000)], rule=RULE + "a case is a random problem solved with delta_m and with scaled inputs, or with and without TMS; non-trivial: both solved"),
    "C20": dict(stages=[x("opt", "C20", 32000, 600000)], rule=RULE + "a case is a random surface under a transparent atmosphere, or a random problem with its kernels permuted or replaced by a user-defined one; non-trivial: solved"),
    "C21": dict(stages=[x("opt", "C21", 32000, 600000)], rule=RULE + "a case is a random isothermal problem; non-trivial: solved"),
    "C22": dict(stages=[x("opt", "C22", 32000, 600000)], rule=RULE + "a case is a random problem solved with psa and without; non-trivial: both solved"),
    "C23": dict(stages=[x("opt", "C23", 32000, 600000)], rule=RULE + "a case is a random model attacked with invalid configurations and invalid calls next to an undisturbed twin; non-trivial: both solved"),
    "C24": dict(stages=[x("opt", "C24", 32000, 600000)], rule=RULE + "a case is a random model whose getters are compared with what was set, before, between and after setters, updates and solutions; non-trivial: all inputs set"),
    "C31": dict(stages=[x("opt", "C31", 24000, 400000), ("probes", "opt")], rule=RULE + "a case is a random problem solved with a tight and a loose accuracy parameter; non-trivial: both solved"),
    "C03": dict(stages=[x("opt", "C03", 3000, 60000), x("tsan", "C03", 800, 10000, tag="race.")], rule=RULE + "a case is a set of random models solved one after another, interleaved in one thread and in several threads at once; non-trivial: all solved"),
    "C05": dict(stages=[x("opt", "C05", 24000, 400000), x("poison", "C05", 600, 10000)] + [x("dbg", m, 64, 4000, only_crash=True, pre=VG, tag="memcheck.%s." % m) for m in ("C05", "C08", "C02", "C20", "C23", "C31")], rule=RULE + "a case is a random problem solved repeatedly with different garbage in fresh heap blocks, on the stack and in the output arrays; non-trivial: solved"),
    "C25": dict(stages=[x("opt", "C25", 32000, 600000)], rule=RULE + "a case is a random model missing one or more required inputs; non-trivial: refused without it and accepted with it"),
    "C28": dict(stages=[x("opt", "C28", 2000, 20000), x("asan", "C28", 400, 4000)], rule=RULE + "a case looks up all names, values and masks of a table, and unknown ones; non-trivial: every case"),
    "C29": dict(stages=[x("opt", "C29", 32000, 400000)], rule=RULE + "a case is a quadrature of random type and order, alone or in a model with user-defined view angles; non-trivial: nodes obtained"),
    "C30": dict(stages=[x("opt", "C30", 16000, 240000), x("asan", "C30", 800, 10000), ("probes", "opt")], rule=RULE + "a case is a random configuration created twelve times with one allocation failing; non-trivial: creation without a failure works"),
    "C33": dict(stages=[x("opt", "C33", 160000, 2000000), x("asan", "C33", 40000, 600000)], rule=RULE + "a case is a phase function, a file of one kind written and read back, an interpolation, or a damaged, missing or unwritable file; non-trivial: all"),
    "C26": dict(exe="xbind", stages=[x("opt", "C26", 6000, 80000), x("asan", "C26", 400, 8000)], rule=RULE + "a case is a script of 20 to 500 calls performed through C, C++, Fortran 90, Fortran 77 and Python; an evaluation is a line of output compared; non-trivial: the model was created"),
    "C27": dict(exe="xinput", stages=[x("opt", "C27", 30000, 400000), x("asan", "C27", 8000, 120000)], rule=RULE + "a case is a problem written down in the input language and read back, written and read back, given to callxrtm, or read after random mistakes were made in it; an evaluation is an input read, written or run; non-trivial: the model was created"),
    "C32": dict(stages=[x("opt", "C32", 8000, 200000), x("asan", "C32", 800, 20000)], rule=RULE + "a case is a problem, its perturbations and a method, with one model per perturbed problem as reference; non-trivial: a difference quotient was requested"),
    "C34": dict(stages=[x("opt", "C34", 32000, 480000), ("probes", "opt")], rule=RULE + "a case is a random problem solved with top_down or bottom_up and without, up to three times with inputs changed in between; non-trivial: both were created"),
    "C37": dict(stages=[x("opt", "C37", 40000, 600000)], rule=RULE + "a case is a problem of many layers, many streams or extreme values; non-trivial: solved"),
}
for c in CHECKS.values():
    c.setdefault("assumptions", COMMON)
