import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, gen, oracle, solve

# quick cases
ALGOS = {"ps": 700, "ps2o": 700, "gpl": 700, "ss": 700, "ims": 600, "si": 700, "mj": 600, "pi": 500, "sn": 700,
         "pn": 500, "swp": 700, "gm": 300, "cmt": 700, "ty": 700}
TURNS = [lambda x, y: (x, y), lambda x, y: (-y, x), lambda x, y: (-x, -y), lambda x, y: (y, -x)]


def case(abbr):
    hi, mid = (11, 9) if ALGOS[abbr] < 400 else (16, 10)
    return st.fixed_dictionaries({
        "inst": gen.instance(lo=2, mid=mid, hi=hi, kinds=["generic"], metrics=("EXACT",)),
        "single": st.booleans(), "minimize_K": st.booleans(), "order": st.integers(0, 9999),
        "turn": st.integers(0, 3), "mirror": st.booleans()})


def canon(sol):
    return sorted(min(r, r[::-1]) for r in (list(r) for r in oracle.routes_of(sol)))


def runner(abbr):
    def run(c, ctx):
        inst = c["inst"]
        gen.classify(inst, ctx)
        n = len(inst["pts"])
        # customer i of the second problem is customer new[i] of the first one
        new = list(range(1, n))
        random.Random(c["order"]).shuffle(new)
        new = [0] + new
        other = dict(inst, pts=[inst["pts"][i] for i in new], d=inst["d"] and [inst["d"][i] for i in new])
        # the improvement step of Gillet & Miller depends on where the angles are zero
        if abbr != "gm":
            t = TURNS[c["turn"]]
            other["pts"] = [list(t(-x, y) if c["mirror"] else t(x, y)) for x, y in other["pts"]]
        mk = c["minimize_K"] and abbr not in solve.NO_MIN_K
        # a single sweep starts from a given customer
        single = c["single"] and abbr not in ("gm", "swp")
        a = canon(solve.solve(ctx, abbr, gen.solver_args(inst), single, mk))
        b = solve.solve(ctx, abbr, gen.solver_args(other), single, mk)
        b = canon([new[i] for i in b])
        ctx.require(a == b, "%s (single=%s, minimize_K=%s): the routes are %r, and with the customers renumbered (%r) and "
                    "turned %d times (mirrored: %s) they are %r", abbr, single, mk, a, new, c["turn"], c["mirror"], b)
        ctx.nontrivial(len(a) > 1 and max(len(r) for r in a) > 1 and new != sorted(new))
    return run


def targets():
    solve.preload(sorted(ALGOS))
    return [core.Target(a, lambda a=a: case(a), runner(a), quick=q, thorough=q * 30) for a, q in ALGOS.items()]


if __name__ == "__main__":
    sys.exit(core.run_check("P33", targets(), rule=(
        "several routes, one with several customers, and the numbers differ"), assumptions=[
        "no two distances, places or angles are the same"]))
