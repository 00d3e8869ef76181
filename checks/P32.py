import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, gen, oracle, solve

FAST = ["ps", "ps2o", "gpl", "ss", "gps", "ims", "si", "mj", "pi", "sn", "pn", "swp", "gm", "rfcs", "cmt"]


def case(abbr):
    slow = abbr in ("gps", "gm", "wh", "rfcs")
    inst = gen.instance(lo=2, mid=9, hi=11 if slow else 16, big=0 if slow else 30, zero_demand=True,
                        kinds=["grid", "int", "int", "fine", "generic", "line", "tiny"])
    return st.fixed_dictionaries({
        "inst": inst, "single": st.booleans(), "minimize_K": st.booleans(), "cost": st.integers(-4, 4),
        "demand": st.integers(-3, 7), "move": st.tuples(st.integers(-64, 64), st.integers(-64, 64)).map(list)})


def changed(inst, c, D):
    """the same problem in other units of cost and demand, and another origin. All factors are powers of two, so that
    the numbers are the same but for the exponent."""
    whole = all(float(x).is_integer() for p in inst["pts"] for x in p)
    k = abs(c["cost"]) if D.dtype.kind == "i" else c["cost"]
    f, g = 2 ** k if k >= 0 else 2.0 ** k, 2 ** c["demand"] if c["demand"] >= 0 else 2.0 ** c["demand"]
    dx, dy = c["move"] if whole else (0, 0)
    pts = [[(x + dx) * f, (y + dy) * f] for x, y in inst["pts"]]
    scale = lambda v, q: None if v is None else v * q
    return (pts, D * f, None if inst["d"] is None else [x * g for x in inst["d"]], scale(inst["C"], g),
            scale(inst["L"], f), scale(inst["st"], f), gen.WTT[inst["metric"]])


def runner(abbr):
    def run(c, ctx):
        inst = c["inst"]
        gen.classify(inst, ctx)
        mk = c["minimize_K"] and abbr not in solve.NO_MIN_K
        D = gen.matrix(inst)
        a = solve.solve(ctx, abbr, gen.solver_args(inst), c["single"], mk)
        b = solve.solve(ctx, abbr, changed(inst, c, D), c["single"], mk)
        ctx.require(list(a) == list(b), "%s (single=%s, minimize_K=%s): %r of %r, and %r with the costs times 2^%d, "
                    "the demands times 2^%d and the points moved by %r", abbr, c["single"], mk, a, inst, b, c["cost"],
                    c["demand"], c["move"])
        ctx.nontrivial(oracle.n_routes(a) > 1 and max(len(r) for r in oracle.routes_of(a)) > 1 and
                       (c["cost"] != 0 or (c["demand"] != 0 and inst["d"] is not None)))
    return run


def targets():
    solve.preload(FAST)
    return [core.Target(a, lambda a=a: case(a), runner(a), quick=250 if a in ("gps", "gm", "wh") else 700,
                        thorough=20000) for a in FAST]


if __name__ == "__main__":
    sys.exit(core.run_check("P32", targets(), rule=(
        "several routes, one with several customers, and the units differ"), assumptions=[
        "the factors are powers of two, between 1/16 and 16 for costs (at least 1 for integer distances) and 1/8 and 128 "
        "for demands", "points are moved only if they are integers"]))
