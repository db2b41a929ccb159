"""Which explorers, library variants and bounds decide each property."""
import os
GRAPH = dict(fsrc=["vm.F90"], cxxsrc=["main.cpp", "fam_ops.cpp", "fam_graph.cpp", "fam_fun.cpp", "fam_arr.cpp", "fam_grow.cpp"])
EXES = {"ex": GRAPH,
  "exo": dict(fsrc=["vm.F90", "ode.F90"], cxxsrc=["main_ode.cpp", "fam_ode.cpp", "fam_fault.cpp"]),
  "exf": dict(fsrc=["vm.F90", "ode.F90"], cxxsrc=["main_ode.cpp", "fam_ode.cpp", "fam_fault.cpp"], csrc=["alloc.c"]),
  "exr": dict(fsrc=["vm.F90", "ode.F90", "opt.F90"], cxxsrc=["main_opt.cpp"], csrc=["alloc.c"], cxxflags=["-I" + os.path.join(os.environ.get("FZ_REPO", "/repo"), "lib/sundials-6.1.1/include")]),
  "exk": dict(fsrc=["vm.F90"], cxxsrc=["main_kern.cpp"], cxxflags=["-I" + os.path.join(os.environ.get("FZ_REPO", "/repo"), "lib/sundials-6.1.1/include")]),
  "exu": dict(fsrc=["vm.F90", "ode.F90", "opt.F90"], cxxsrc=["main_opt.cpp"], cxxflags=["-I" + os.path.join(os.environ.get("FZ_REPO", "/repo"), "lib/sundials-6.1.1/include")]),
  "ext": dict(fsrc=["vm.F90", "tst.F90"], cxxsrc=["main_tst.cpp"])}
ASSUME = ["the explored inputs, programs and histories are the bounded families listed under coverage.families",
          "reference values come from an independent quad-precision model (libquadmath)",
          "gcc-11/gfortran-11 builds of the working tree unless a variant is named"]

def one(variant="ship", exe="ex", **k):
    return lambda tier: [dict(variant=variant, exe=exe, budget=600 if tier == "quick" else 7200, **k)]

PLANS = {}
def plan(pid, runs, level="model_checking", **k):
    PLANS[pid] = dict(runs=runs, level=level, assumptions=ASSUME + k.pop("assume", []), **k)

for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C18", "C19", "C20"]:
    plan(p, one())

def c08(tier):
    r = []
    for v, cap in [("ship", 0), ("small1", 1), ("small2", 2), ("small3", 3), ("small7", 7), ("chk1", 1), ("chk", 0), ("asan", 0)]:
        r.append(dict(variant=v, exe="ex", args=["--cap", str(cap)], budget=200 if tier == "quick" else 3600))
    return r
plan("C08", c08)

for p in ["C12", "C13", "C14", "C15"]:
    plan(p, one(exe="exo"), assume=["exact solutions come from an extrapolation solver in 80-bit arithmetic whose own error is checked by step refinement in every execution",
        "the accepted global error is K * sqrt(n) * (rtol * max|y| + atol) * amplification of the flow, with K four times the largest ratio observed for the problem, method, kind of result and decade of rtol (harness/ctol.h)"])
plan("C24", one(exe="exo"), assume=["the budget of a solve is 1.6 times the number of evaluations recorded for it (harness/effort.h) plus 40"])
plan("C25", one(exe="exu"), assume=["exact solutions and accepted errors as for C12",
    "the stand-in linear and nonlinear solvers of the harness keep the interface documented by SUNDIALS"])
plan("C26", one(exe="exu"), assume=["the history of a solve is read through the documented inspection functions from an event function, which CVODES calls once after every accepted step",
    "the residual of the implicit equation is compared with 25 times the tolerance of the nonlinear iteration (80 times when its coefficient is below 0.05; 12 times as much when the relative tolerance is above 0.005)",
    "where the decision of the stability limit detection hangs on rounding (it changes under perturbations of the size of the rounding of the history read back) both outcomes are accepted"])

# fz_alloc-instrumented executable: every allocation of a call can be made to fail
plan("C16", one(exe="exf"), level="fault_enumeration",
     rule="one execution per fault: every single allocation of every solve kind made to fail, every allocation from a point on made to fail, every invalid or boundary solver setting, every step limit, every ordering of output times, every right-hand-side call turned into NaN/Inf",
     assume=["only allocations made through malloc/calloc/realloc (all of them in this code base) can fail",
             "a solve that returns normally under a fault is accepted only if its result is right"])

def c17(tier):
    b = 400 if tier == "quick" else 3600
    return [dict(variant="ship", exe="exf", budget=b), dict(variant="asan", exe="exo", budget=b), dict(variant="ship", exe="exr", budget=b), dict(variant="asan", exe="exu", budget=b)]
plan("C17", c17, assume=["live allocations are counted by interposing malloc, calloc, realloc and free; the sanitizer variant reports double release and use after release"])

plan("C22", one(exe="ext"), assume=["whether equal infinities, a tolerance of zero, or a difference between a quarter of and four times the threshold of the fixed-tolerance helpers agree is left open"])

def c23(tier):
    b = 300 if tier == "quick" else 7200
    return [dict(variant="ship", exe="exk", budget=b), dict(variant="asan", exe="exk", budget=b)]
plan("C23", c23, assume=["vectors longer and matrices larger than the bound behave like those within it", "a singular matrix must be flagged only where exact elimination stays within binary fractions"])

# C21: the same families against the same reference in every build configuration
CONFIGS = ["o0", "o3", "os", "static", "nosun", "gf13", "gf13o0", "clang"]
def c21(tier):
    r = []; q = tier == "quick"
    for v in CONFIGS:
        for s in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C18", "C19", "C20"]:
            r.append(dict(variant=v, differs_from="ship", exe="ex", sel=s, args=["--max", "12000" if q else "300000"], budget=60 if q else 900))
        r.append(dict(variant=v, differs_from="ship", exe="ext", sel="C22", args=["--max", "10000"], budget=60))
        if v == "nosun": continue
        for s in ["C12", "C13", "C14", "C15", "C17"]:
            r.append(dict(variant=v, differs_from="ship", exe="exo", sel=s, args=["--max", "700" if q else "6000"], budget=60 if q else 900))
        r.append(dict(variant=v, differs_from="ship", exe="exu", sel="C25", args=["--max", "700" if q else "6000"], budget=60 if q else 900))
        r.append(dict(variant=v, differs_from="ship", exe="exu", sel="C26", args=["--max", "700" if q else "6000"], budget=60 if q else 900))
        r.append(dict(variant=v, differs_from="ship", exe="exk", sel="C23", args=["--max", "40000"], budget=60))
    return r
plan("C21", c21, assume=["configurations: -O0, -O3, -Os, static library, no ODE component, gfortran 13 (-O0 and -O2), SUNDIALS compiled by clang; the default configuration is covered by every other check"])
