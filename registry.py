"""What each property's check runs."""
from vp import build, ToolError
RUN = {}
def check(pid):
    def deco(f): RUN[pid] = f; return f
    return deco
MC = "model_checking"
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

# Concurrent programs on the real synchronisation types under the deterministic scheduler of harness/shim.hpp, judged by Conc.
CASM = ["schedules are sampled (random walk, priorities with change points), relaxed and stale reads follow release/acquire and seq_cst fence rules",
        "the library is compiled against substitutes of the standard synchronisation types that yield to the scheduler"]
def conc(): return build("conc", flags=["-include", "shim.hpp"])
def sched(c, fam, n, need, prog=None, ex=40):
    if prog: c.suite(fam + "-prog", conc(), "ConcTrace", ops=c.gen("ProgGen", prog, env={"GEN": "1"}, workers=4), extra=("--fam", fam, "--ex", str(ex)), need=need)
    c.suite(fam, conc(), "ConcTrace", extra=("--fam", fam, "--n", str(n), "--ex", str(ex)), need=need)

def shimmed(c, harness, spec, fam, n, need):
    """A suite of another harness whose scenarios each run under one schedule of the deterministic scheduler."""
    c.suite(fam + "-sched", build(harness, flags=["-include", "shim.hpp"]), spec, env={"PROP": c.pid}, extra=("--fam", fam, "--n", str(n)), need=need, deterministic=False)

@check("D01")
def d01(c):
    p = build("d01", lib=False, flags=ASAN)
    c.model("FifoCacheMC", env={"GEN": "0"})
    ops = c.gen("FifoCacheMC", "FifoCacheGen", env={"GEN": "1"})
    c.suite("d01", p, "FifoCacheTrace", ops=ops, need=("ins", "range", "reset", "copyctor", "moveassign"))
    return MC, ["keys, values and capacities are small integers; the cache is generic in them"]

@check("D02")
def d02(c):
    p = build("d02", lib=False, flags=ASAN)
    ops = c.gen("CircBufMC", "CircBufMC", env={"GEN": "1"})
    c.suite("d02", p, "CircBufTrace", ops=ops, need=("pb", "pf", "setcap", "list", "moveassign", "fresh"))
    return MC, ["element values are small integers; the buffer is generic in them"]

@check("D03")
def d03(c):
    p = build("d03", lib=False, flags=ASAN)
    ops = c.gen("SmallVecMC", "SmallVecMC", env={"GEN": "1"})
    c.suite("d03", p, "SmallVecTrace", ops=ops, need=("insn", "insr", "erase", "resize", "moveassign", "swap", "fresh", "popb"))
    return MC, ["element values are small integers; the vector is generic in them"]

@check("D04")
def d04(c):
    p = build("d04", lib=False, flags=ASAN)
    c.model("BitsetMC", env={"GEN": "0"})
    ops = c.gen("BitsetMC", "BitsetGen", env={"GEN": "1"}, limit=2500 if c.quick else None)
    c.suite("d04", p, "BitsetTrace", ops=ops, need=("resize", "newv", "compl", "set", "flip"))
    return MC, []

@check("D05")
def d05(c):
    p = build("d05", lib=False, flags=ASAN)
    ops = c.gen("MatrixMC", "MatrixMC", env={"GEN": "1"})
    c.suite("d05", p, "MatrixTrace", ops=ops, need=("append", "resize", "rowswap", "rowassign", "range", "popback"))
    return MC, []

def garun(c, fams, n, script=False, model=False, need=("ret",), extra_env=None):
    """Runs of the whole solver (see harness/garun.*), judged by GaRun with the conjuncts of this property."""
    p = build("garun")
    if model: c.model("GaMC", env={"GEN": "0"})
    env = {"PROP": c.pid}
    if script:
        ops = c.gen("GaMC", "GaGen" if c.quick else "GaMC", env={"GEN": "1"}, limit=script if c.quick else None, workers=8)
        c.suite("script", p, "GaRunTrace", ops=ops, env=env, need=("ret",))
    for f in fams: c.suite(f, p, "GaRunTrace", env=env, extra=("--fam", f, "--n", str(n)), deterministic=False, need=need)
GAASM = ["fitness values are small integers and chromosomes are short; the solver's loop is generic in both",
         "1 to 5 threads; real-coded genes are compared with a resolution of 0.001"]

@check("G01")
def g01(c):
    garun(c, ("all", "reuse", "fault"), 1200, script=900, need=("mup", "cb", "stop", "ret"))
    return MC, GAASM
@check("G02")
def g02(c):
    garun(c, ("all", "keep", "init"), 1500, need=("mup", "ret", "fit"))
    return MC, GAASM
@check("G03")
def g03(c):
    garun(c, ("cache", "all", "init"), 1500, script=1500, model=not c.quick, need=("fit", "mut", "ret"))
    shimmed(c, "garun", "GaRunTrace", "all", 1500, ("fit", "ret"))
    return MC, GAASM
@check("G04")
def g04(c):
    garun(c, ("init", "reuse"), 2000, need=("init", "fit", "ret"))
    return MC, GAASM
@check("G06")
def g06(c):
    garun(c, ("keep", "all"), 1800, script=1000, model=not c.quick)
    for f in ("soga", "nsga2", "nsga3"):
        algo(c, f, 500, ("gen", "ret"))
    return MC, GAASM
@check("G07")
def g07(c):
    garun(c, ("fault", "reuse"), 1800, need=("throw", "exc", "ret"))
    shimmed(c, "garun", "GaRunTrace", "fault", 1500, ("throw", "exc", "ret"))
    return MC, GAASM
@check("G09")
def g09(c):
    garun(c, ("pipe", "all", "fault"), 1500, script=900, need=("prep", "sel", "xo", "mut", "rep", "fit", "next"))
    return MC, GAASM

def algo(c, fam, n, need=(), flags=(), det=True, ops=None, name=None):
    c.suite(name or fam, build("algos", flags=list(flags)), "AlgoTrace", env={"PROP": c.pid}, extra=("--fam", fam, "--n", str(n)), need=need, deterministic=det, ops=ops)
AASM = ["fitness values are small integers, so that the arithmetic of the specification is exact"]

@check("A01")
def a01(c):
    algo(c, "soga", 6000, ("gen", "ret"))
    algo(c, "sogabig", 200, ("gen", "ret"))
    return MC, AASM
@check("A02")
def a02(c):
    algo(c, "freq", 1500, ("freq", "cool"))
    return MC, AASM + ["frequencies of 100 000 (thorough: 400 000) draws per configuration, judged with a tolerance of at least six standard deviations"]
@check("A03")
def a03(c):
    algo(c, "set", 2500, ("set",), det=False, ops=c.gen("SetMC", "SetMC", env={"GEN": "1"}))
    shimmed(c, "algos", "AlgoTrace", "set", 1500, ("set",))
    return MC, AASM + ["with tolerances, the depth is judged where they partition the values of each objective into classes"]
@check("A04")
def a04(c):
    algo(c, "nsga2", 4000, ("gen", "draws", "ret"))
    algo(c, "nsga2big", 100, ("gen", "ret"))
    return MC, AASM + ["with ties in a partial front of more than four candidates, only its extremes are judged"]
@check("A05")
def a05(c):
    algo(c, "nsga3", 4000, ("gen", "draws", "ret"), det=False)
    algo(c, "nsga3big", 40, ("gen", "ret"), det=False)
    return MC, AASM + ["niches are judged where the closest directions and the extreme points are unique"]
@check("A06")
def a06(c):
    algo(c, "lines", 2000, ("lines",))
    algo(c, "cone", 2500, ("cone",))
    algo(c, "cone", 800, ("cone",), flags=ASAN, name="cone-asan")
    return MC, AASM
@check("D06")
def d06(c):
    ops = c.gen("IterMC", "IterMC", env={"GEN": "1"}, limit=4000 if c.quick else 40000)
    c.suite("iter", build("d06", lib=False, flags=ASAN), "IterTrace", ops=ops, extra=("--n", "3000"), need=("inc", "postdec", "add", "plus", "set", "setat", "push", "pop", "sort", "rotate", "find", "swapat"))
    return MC, ["element values are small integers; iterators are generic in them"]

def ranges(c, fam, n, need, ops=None):
    c.suite(fam, build("d07", flags=ASAN), "RangeTrace", ops=ops, env={"PROP": c.pid}, extra=("--fam", fam, "--n", str(n)), need=need)
@check("D07")
def d07(c):
    ops = c.gen("RangeMC", "RangeMC", env={"GEN": "1"})
    ranges(c, "alg", 2500, ("argsort", "lower", "ext", "pfreq", "pplace", "pred", "select", "map", "mod", "bits"), ops)
    return MC, ["element values are small integers; the algorithms are generic in them"]
@check("D08")
def d08(c):
    ranges(c, "call", 3000, ("fset", "fmove", "fcall", "rcall", "rset", "guards", "restore"))
    return MC, ["wrapped callables are small function objects"]
@check("D09")
def d09(c):
    ranges(c, "cand", 1500, ("ceq", "ccopy", "chash"))
    return MC, ["gene values are small, tolerances the default ones"]
@check("P03")
def p03(c):
    ranges(c, "vec", 3000, ("vec", "stat", "sinpow", "veq"))
    return MC, ["components are small integers"]

@check("P01")
def p01(c):
    algo(c, "set", 2500, ("set", "scopes"), det=False, ops=c.gen("SetMC", "SetMC", env={"GEN": "1"}))
    return MC, AASM
@check("P02")
def p02(c):
    algo(c, "set", 1500, ("set",), det=False, ops=c.gen("SetMC", "SetMC", env={"GEN": "1"}))
    algo(c, "merge", 3000, ("merge",), det=False)
    for cfg in ("MergeMC", "MergeMC3"): c.model("MergeMC", cfg)
    c.suite("merge-sched", conc(), "AlgoTrace", env={"PROP": "P02"}, extra=("--fam", "merge", "--n", "3000"), need=("merge",))
    return MC, AASM + CASM

@check("C01")
def c01(c):
    for cfg in ("PoolMC", "PoolMC3", "PoolMC4") + (() if c.quick else ("PoolMC2",)): c.model("PoolMC", cfg)
    sched(c, "pool", 1500, ("threads", "loop", "beg", "end", "ret", "sum"))
    return MC, CASM
@check("C02")
def c02(c):
    sched(c, "poolx", 1500, ("loop", "thr", "exc", "ret", "sum"))
    return MC, CASM
@check("C03")
def c03(c):
    c.model("QueueMC")
    sched(c, "queue", 1500, ("call", "ret", "rescue"), "Prog_queue")
    return MC, CASM
@check("C04")
def c04(c):
    c.model("SpinMC")
    sched(c, "lock", 800, ("in", "out", "fail", "quiet"), "Prog_lock", 30)
    return MC, CASM
@check("C05")
def c05(c):
    c.model("RcuMC", "RcuBig")
    sched(c, "rcu", 1500, ("read", "free", "syncret", "updret"), "Prog_rcu")
    return MC, CASM
@check("R03")
def r03(c):
    sched(c, "rng", 1500, ("seed", "draw", "tend"))
    return MC, CASM

def hist(c, fam, n, need=("gen", "ret")):
    c.suite(fam, build("hist"), "HistTrace", env={"PROP": c.pid}, extra=("--fam", fam, "--n", str(n)), need=need)
HASM = ["fitness values are small integers and improvement amounts multiples of 1/16 or 1e-6, so that the arithmetic of the specification is exact"]

@check("S01")
def s01(c):
    for cfg in ("StopMC", "StopMC2"):
        ops = c.gen("StopMC", cfg, env={"GEN": "1"})
        c.suite(cfg, build("hist"), "HistTrace", ops=ops, env={"PROP": "S01"}, need=("stop", "ret"))
    hist(c, "leaf", 4000, ("stop", "gen", "ret"))
    return MC, HASM
@check("S02")
def s02(c):
    hist(c, "tree", 6000, ("stop", "gen", "ret", "user"))
    return MC, HASM
@check("M01")
def m01(c):
    hist(c, "met", 5000)
    return MC, HASM
@check("M02")
def m02(c):
    hist(c, "hv", 5000)
    shimmed(c, "hist", "HistTrace", "hv", 2500, ("gen", "ret"))
    return MC, HASM

@check("G08")
def g08(c):
    p = build("conf")
    ops = c.gen("ConfMC", "ConfMC", env={"GEN": "1"}, limit=6000 if c.quick else None)
    c.suite("conf", p, "ConfTrace", ops=ops, extra=("--n", "3000"), need=("ctor", "alg", "mut", "pm", "xo", "run", "in", "done", "failed"))
    return MC, ["deduced multi-objective algorithms are NSGA-II or NSGA-III; configurations of an algorithm that cannot solve the problem are not generated"]

def opsuite(c, fam, n, need=(), ops=None, det=True):
    c.suite(fam, build("ops"), "OpsTrace", env={"PROP": c.pid}, extra=("--fam", fam, "--n", str(n)), need=need, ops=ops, deterministic=det)
OASM = ["real numbers are compared with a resolution of 1/256 of a unit; frequencies and histograms are judged with a tolerance of at least six standard deviations"]
def xogen(c): return c.gen("XoMC", "XoMC" if c.quick else "XoMC6", env={"GEN": "1"})

@check("G10")
def g10(c):
    opsuite(c, "gen", 1500, ("gen0",))
    return MC, OASM
@check("V01")
def v01(c):
    opsuite(c, "xo", 2500, ("xo",), ops=xogen(c))
    opsuite(c, "kern", 2000, ("kern", "edges"))
    opsuite(c, "rate", 600, ("rate",))
    opsuite(c, "histx", 150, ("hist", "sbx"))
    opsuite(c, "coverx", 1000, ("cover", "joint"))
    return MC, OASM
@check("V02")
def v02(c):
    opsuite(c, "mut", 3000, ("mut",), ops=xogen(c))
    opsuite(c, "rate", 600, ("rate",))
    opsuite(c, "histm", 200, ("hist",))
    opsuite(c, "coverm", 1000, ("cover", "joint"))
    return MC, OASM
@check("V03")
def v03(c):
    opsuite(c, "flag", 1500, ("kids", "mutant"))
    opsuite(c, "rate", 600, ("rate",))
    garun(c, ("pipe", "all", "fault"), 1000, need=("mut", "fit", "ret"))
    return MC, OASM + GAASM
@check("G05")
def g05(c):
    opsuite(c, "run", 3000, ("run", "ch", "ret"), det=False)
    garun(c, ("all", "reuse"), 1000, need=("chrom", "ret"))
    return MC, GAASM

@check("F01")
def f01(c):
    ops = c.gen("BenchMC", "BenchMC" if c.quick else "BenchFine", env={"GEN": "1"})
    c.suite("bench", build("bench"), "BenchTrace", ops=ops, extra=("--n", "8000"), need=("val", "info", "best", "bin", "tsp", "inst", "str"))
    return MC, ["values are compared in fixed point with a relative resolution of about 1/500; stated optima to 10^-6"]

@check("R01")
def r01(c):
    c.model("ReproMC", "ReproMC" if c.quick else "ReproBig")
    c.suite("repro", build("repro"), "ReproTrace", extra=("--fam", "r", "--n", "1500"), need=("run", "gen", "ret"), deterministic=False)
    shimmed(c, "repro", "ReproTrace", "r", 400, ("run", "gen", "ret"))
    return MC, ["both runs start on the same thread of one process, and no thread that drew random numbers and was older than another live one ended in between"]

@check("R02")
def r02(c):
    for f, n, need in (("range", 3000, ("int", "real")), ("binom", 2000, ("binom", "normal", "poisson")), ("uniq", 3000, ("uniq", "uniqfreq", "uniqwide")), ("choice", 2500, ("cdf", "elem", "bool", "quasi"))):
        c.suite(f, build("rnd"), "RndTrace", extra=("--fam", f, "--n", str(n)), need=need)
    return MC, ["frequencies are judged with a tolerance of at least six standard deviations"]
@check("R04")
def r04(c):
    c.model("PrngMC")
    c.suite("prng", build("prng", lib=False), "PrngTrace", extra=("--n", "1500"), need=("smnext", "smseed", "xonext", "xoseed", "xojump", "xocopy"))
    return MC, []
