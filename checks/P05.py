import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
import copy
import random
import numpy as np
from hypothesis import strategies as st
from vplib import core, gen, oracle, solve

FAST = ["ps", "ps2o", "gpl", "ss", "gps", "ims", "si", "pi", "mj", "sn", "pn", "swp", "rfcs"]
SLOW = ["mbsa", "cmt", "ty", "wh", "gm", "ptl", "lr3o", "gap"]


def strategy(abbrs, lo, mid, hi, n_inst, n_ops):
    def f():
        @st.composite
        def cases(draw):
            insts = draw(st.lists(gen.instance(lo=lo, mid=mid, hi=hi), min_size=1, max_size=n_inst))
            op = st.tuples(st.sampled_from(abbrs), st.integers(0, len(insts) - 1),
                           st.booleans(), st.booleans()).map(list)
            ops = draw(st.lists(op, min_size=2, max_size=n_ops))
            again = draw(st.permutations(list(range(len(ops)))))
            return {"insts": insts, "ops": ops, "again": again, "salt": draw(st.integers(0, 999))}
        return cases()
    return f


def snapshot(args):
    points, D, d, C, L, svc, wtt = args
    return (copy.deepcopy(points), D.tobytes(), D.dtype.str, D.shape, copy.deepcopy(d), C, L, svc, wtt)


def run(case, ctx):
    """a history of solves, then all of them again in another order"""
    results = {}
    rng = random.Random(case["salt"])
    junk = []
    hist = [tuple(o) for o in case["ops"]]
    hist += [hist[i] for i in case["again"]]
    shaped = False
    for step, (ab, idx, single, mk) in enumerate(hist):
        inst = case["insts"][idx]
        if ab in solve.NO_MIN_K:
            mk = False
        # neither the allocator nor the global random state may matter
        junk.append([object() for _ in range(rng.randrange(400))])
        if rng.random() < 0.3:
            junk.pop(rng.randrange(len(junk)))
        random.seed(rng.randrange(10 ** 6))
        np.random.seed(rng.randrange(10 ** 6))
        args = gen.solver_args(inst)
        before = snapshot(args)
        sol = solve.solve(ctx, ab, args, single, mk)
        what = "%s(single=%s, minimize_K=%s)" % (ab, single, mk)
        for name, x, y in zip(("points", "distances", "distances", "distances", "demands", "C", "L",
                               "service time", "weight type"), before, snapshot(args)):
            ctx.require(x == y, "%s changed the %s it was given", what, name)
        key = (ab, idx, single, mk)
        got = None if sol is None else [int(x) for x in sol]
        if key in results:
            ctx.require(got == results[key], "%s returned %r, and in call %d of the history %r",
                        what, results[key], step, got)
        results[key] = got
        shaped = shaped or (got is not None and oracle.n_routes(got) > 1)
    ctx.nontrivial(shaped and len(hist) > 2)


@st.composite
def matrix_case(draw):
    inst = draw(gen.instance(lo=2, mid=8, hi=12, metrics=("EXACT", "ROUND", "WARP"), service=False))
    return {"inst": inst, "float": draw(st.booleans()), "seeds": draw(st.lists(st.integers(0, 10**6), min_size=2, max_size=3))}


def coordinates(case, ctx):
    """the coordinates made for a problem that has distances only"""
    from verypy.cvrp_ops import generate_missing_coordinates
    D = gen.matrix(case["inst"])
    if case["float"]:
        D = D.astype(float)
    before = D.tobytes()
    first = None
    for s in case["seeds"]:
        random.seed(s)
        np.random.seed(s)
        pts, ewt = ctx.call(generate_missing_coordinates, D)
        ctx.require(D.tobytes() == before, "making coordinates changed the distances")
        got = [[float(x) for x in p] for p in pts], ewt
        ctx.require(len(got[0]) == len(D) and all(len(p) == 2 and all(np.isfinite(p)) for p in got[0]),
                    "the coordinates made for %d points are %r", len(D), got[0])
        ctx.require(ewt == ("EUC_2D" if (D == D.astype(int)).all() else "EXACT_2D"),
                    "distances %s are said to be %s", D.tolist(), ewt)
        first = first or got
        ctx.require(got == first, "the coordinates made for a matrix are %r, and then %r", first, got)
    ctx.nontrivial(len(D) > 3)


def targets():
    solve.preload(FAST + SLOW)
    return [
        core.Target("fast", strategy(FAST, 1, 9, 14, 3, 8), run, quick=3000, thorough=60000),
        core.Target("coordinates", matrix_case, coordinates, quick=300, thorough=4000),
        core.Target("slow", strategy(SLOW, 2, 5, 6, 2, 5), run, quick=400, thorough=8000, cpu_limit=120),
    ]


if __name__ == "__main__":
    sys.exit(core.run_check("P05", targets(), rule=(
        "a history of more than two solves in which some solution has several routes"),
        assumptions=["the process wide random state and the memory layout are varied between the calls"]))
