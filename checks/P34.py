import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, gen, oracle, solve

# quick cases
ALGOS = {"ps": 600, "ps2o": 600, "gpl": 600, "ss": 600, "gps": 250, "ims": 500, "si": 600, "pi": 450, "sn": 600,
         "pn": 450, "swp": 600, "gm": 300, "rfcs": 500, "cmt": 600, "ty": 600, "mbsa": 80, "lr3o": 120}
SMALL = ("mbsa", "lr3o")


def case(abbr):
    n = dict(mid=6, hi=8) if abbr in SMALL else dict(mid=9, hi=11) if ALGOS[abbr] < 400 else dict(mid=9, hi=16, big=30)
    inst = gen.instance(lo=2 if abbr == "ty" else 1, zero_demand=True, **n)
    return st.fixed_dictionaries({
        "inst": inst, "single": st.booleans(), "minimize_K": st.booleans(),
        # the penalty of Tyagi uses the capacity
        "limit": st.sampled_from(["C", "L", "CL"] if abbr != "ty" else ["L"]),
        "slack": st.sampled_from([1.5, 2, 10, 1000, 1e6])})


def runner(abbr):
    def run(c, ctx):
        inst = c["inst"]
        D = gen.matrix(inst)
        n = len(D)
        add = {}
        if inst["C"] is None and "C" in c["limit"]:
            d = inst["d"] or [0] + [1] * (n - 1)
            add = {"d": d, "C": c["slack"] * sum(d) or 1}
        if inst["L"] is None and "L" in c["limit"]:
            add["L"] = float(2.0 * D.max() * n * c["slack"]) or 1.0
        if not add:
            ctx.skip("both limits are there")
        gen.classify(inst, ctx)
        mk = c["minimize_K"] and abbr not in solve.NO_MIN_K
        a = solve.solve(ctx, abbr, gen.solver_args(inst), c["single"], mk)
        b = solve.solve(ctx, abbr, gen.solver_args(dict(inst, **add)), c["single"], mk)
        what = "%s (single=%s, minimize_K=%s) of %r: %r, and with %r %r" % (abbr, c["single"], mk, inst, a, add, b)
        ctx.require(list(a) == list(b), "%s", what)
        ctx.nontrivial(oracle.n_routes(a) > 1)
    return run


def targets():
    solve.preload(sorted(ALGOS))
    return [core.Target(a, lambda a=a: case(a), runner(a), quick=q, thorough=q * 30) for a, q in ALGOS.items()]


if __name__ == "__main__":
    sys.exit(core.run_check("P34", targets(), rule="several routes", assumptions=[
        "the added capacity is at least 1.5 times the total demand, the added maximum cost more than any tour costs"]))
