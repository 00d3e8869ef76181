import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
import numpy as np
from hypothesis import strategies as st
from vplib import core, gen, oracle, solve

# The interruptions come when one of these functions is entered. Python code cannot make an update of several variables
# atomic, so a function that is extracted from such an update is not added to the list.
with open(os.path.join(os.path.dirname(core.__file__), "interruptible.json")) as fh:
    POINTS = set(json.load(fh))
SLOW = {"gap": 5, "ptl": 6, "lr3o": 6, "mbsa": 8, "cmt": 9, "wh": 8}


@st.composite
def case(draw, abbrs):
    abbr = draw(st.sampled_from(abbrs))
    hi = SLOW.get(abbr, 10)
    inst = draw(gen.instance(lo=2, mid=hi - 2, hi=hi, L_ok=abbr not in ("gap",)))
    return {"abbr": abbr, "inst": inst, "single": draw(st.booleans()),
            "minimize_K": draw(st.booleans()) and abbr not in solve.NO_MIN_K,
            "at": draw(st.integers(0, 9999))}


class Tracer(object):
    """counts the entries to functions of the library, and interrupts at one of them like a SIGINT that is handled there"""

    def __init__(self, stop=None):
        self.count, self.stop, self.where = 0, stop, None

    def __call__(self, frame, event, arg):
        code = frame.f_code
        if event != "call" or code.co_name not in POINTS or "verypy" not in code.co_filename:
            return None
        f = frame
        while f is not None:
            # exceptions do not leave the callbacks of the MIP solver
            if f.f_code.co_filename.endswith("tsp_solver_gurobi.py"):
                return None
            f = f.f_back
        if self.count == self.stop:
            sys.settrace(None)
            self.where = code.co_name
            self.count += 1
            raise KeyboardInterrupt()
        self.count += 1
        return None


def traced(ctx, tracer, c, args=None):
    points, D, d, C, L, stime, wtt = args or gen.solver_args(c["inst"])
    f = solve.algorithm(c["abbr"])[3]

    def go():
        sys.settrace(tracer)
        try:
            return f(points, D, d, C, L, stime, wtt, c["single"], c["minimize_K"])
        finally:
            sys.settrace(None)
    return ctx.call(go)


def interrupt(c, ctx):
    inst = c["inst"]
    t = Tracer()
    traced(ctx, t, c)
    if not t.count:
        ctx.skip("no function of the library")
    t = Tracer(c["at"] * t.count // 10000)
    what = "%s%s of %r" % (c["abbr"], "" if not c["single"] else " (single)", inst)
    given = gen.solver_args(inst)
    try:
        sol = traced(ctx, t, c, given)
    except KeyboardInterrupt as e:
        args = e.args
    except Exception as e:
        ctx.require(t.where is None, "%s raises %r when it is interrupted in %s", what, e, t.where)
        raise
    else:
        if t.where is None:
            ctx.skip("not reached")
        ctx.fail("%s goes on after it is interrupted in %s, and gives %r" % (what, t.where, sol))
    ctx.label(c["abbr"])
    what += ", interrupted in %s," % t.where
    for name, a, b in zip(("points", "D", "d"), given, gen.solver_args(inst)):
        ctx.require((a is None) == (b is None) and (b is None or np.array_equal(a, b)),
                    "%s leaves %s changed: %r", what, name, a)
    ctx.require(len(args) <= 1, "%s gives %r", what, args)
    if not args or args[0] is None:
        ctx.label("no solution yet")
        return
    sol = args[0]
    D = gen.matrix(inst)
    ctx.require(isinstance(sol, list) and sol[0] == 0 and sol[-1] == 0, "%s gives %r", what, sol)
    ctx.require(sorted(x for x in sol if x) == list(range(1, len(D))), "%s gives %r that does not serve each customer "
                "once", what, sol)
    for r in oracle.routes_of(sol):
        if inst["C"] is not None:
            q = sum(inst["d"][x] for x in r)
            ctx.require(q <= inst["C"] + oracle.tol(inst["C"]), "%s gives %r over the capacity", what, sol)
        if inst["L"] is not None:
            f = oracle.route_len(r, D)
            ctx.require(f <= inst["L"] + oracle.tol(inst["L"]), "%s gives %r, and %r costs %r", what, sol, r, f)
    ctx.nontrivial(len(sol) > 3)


FAST = ["ps", "ps2o", "gpl", "ss", "gps", "ims", "si", "mj", "pi", "sn", "pn", "ty", "swp", "gm", "rfcs"]


def targets():
    solve.preload(FAST + list(SLOW))
    return [core.Target("fast", lambda: case(FAST), interrupt, quick=4000, thorough=100000),
            core.Target("slow", lambda: case(sorted(SLOW)), interrupt, quick=500, thorough=10000),
            # (the routes are joined in another way after the interruption)
            core.Target("matching", lambda: case(["mbsa"]), interrupt, quick=1000, thorough=20000)]


if __name__ == "__main__":
    sys.exit(core.run_check("P29", targets(), rule="a solution of the interruption with two or more customers", assumptions=[
        "an interruption arrives when a function of the library is entered, outside of the callbacks of the MIP solver "
        "and of special methods, which Python and numpy may call where exceptions are dropped"]))
