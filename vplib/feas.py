"""Targets: every solve returns a complete feasible solution."""
import random

from hypothesis import strategies as st

from . import core, gen, oracle, solve


def feasibility_target(abbr, quick, thorough, lo=1, mid=12, hi=18, big=0, L_ok=True,
                       none_ok_with_L=False, timeout_is_violation=True, cpu_limit=60.0,
                       zero_demand=True, metrics=("EXACT", "EXACT", "EXACT", "ROUND", "ROUND", "WARP"), closest=0, far=True):
    solve.preload([abbr])
    can_min_k = abbr not in solve.NO_MIN_K

    def strategy():
        return st.fixed_dictionaries({
            "inst": gen.instance(lo=lo, mid=mid, hi=hi, big=big, L_ok=L_ok,
                                 zero_demand=zero_demand, metrics=metrics, kinds=gen.KINDS + ["far"] * far),
            "single": st.booleans(),
            "minimize_K": st.booleans() if can_min_k else st.just(False),
            # a second problem, in which the worst route of the first solution just does not fit, or just does
            "then": st.one_of(st.none(), st.tuples(st.sampled_from("CL" if L_ok else "C"),
                                                   st.sampled_from([x for x in (0, 1e-5, 1e-4, 1e-3, 1e-2) if x >= closest]))),
        })

    def run(case, ctx):
        sol = once(case, case["inst"], ctx)
        if sol is None or not case.get("then"):
            return
        inst = tighter(case["inst"], sol, *case["then"])
        if inst is not None:
            ctx.label("tight " + case["then"][0])
            once(case, inst, ctx)

    def once(case, inst, ctx):
        return solve_and_judge(abbr, case, inst, ctx, none_ok_with_L)

    return core.Target(abbr, strategy, run, quick=quick, thorough=thorough,
                       timeout_is_violation=timeout_is_violation, cpu_limit=cpu_limit)


def solve_and_judge(abbr, case, inst, ctx, none_ok_with_L=False):
    args = gen.solver_args(inst)
    gen.classify(inst, ctx)
    D = gen.matrix(inst)
    sol = solve.solve(ctx, abbr, args, case["single"], case["minimize_K"])
    if sol is None and none_ok_with_L and inst["L"]:
        ctx.skip("no_solution_with_L")
    bad = oracle.solution_defect(sol, D, inst["d"], inst["C"], inst["L"])
    ctx.require(bad is None, "%s (single=%s, minimize_K=%s): %s", abbr,
                case["single"], case["minimize_K"], bad)
    ctx.require(all(a != 0 or b != 0 for a, b in zip(sol, sol[1:])),
                "%s (single=%s, minimize_K=%s): empty route in %r", abbr,
                case["single"], case["minimize_K"], sol)
    k = oracle.n_routes(sol)
    ctx.label("routes=1" if k == 1 else "routes>1")
    ctx.nontrivial(k > 1 and max(len(r) for r in oracle.routes_of(sol)) > 1)
    return sol


def scattered(case):
    """a large instance of a few numbers"""
    rng = random.Random(case["seed"])
    n = case["n"]
    if case["shape"] == "cluster":
        mid = [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(5)]
        pts = [(x + rng.gauss(0, 5), y + rng.gauss(0, 5)) for x, y in rng.choices(mid, k=n + 1)]
    elif case["shape"] == "grid":
        pts = [(float(rng.randint(0, 15)), float(rng.randint(0, 15))) for _ in range(n + 1)]
    else:
        pts = [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(n + 1)]
    d = [0] + [rng.randint(1, 20) for _ in range(n)]
    C = L = None
    if "C" in case["cons"]:
        C = max(20, int(case["per_route"] * 10.5))
    if "L" in case["cons"]:
        M = oracle.dist_matrix(pts, case["metric"])
        L = max(1.0, 2 * max(M[0]) * (1.001 + case["slack"] / 10.0))
    return {"pts": pts, "metric": case["metric"], "d": d, "C": C, "L": L, "st": None, "kind": "scattered"}


def large_target(abbrs, quick, thorough, limit, hi=130, slow=()):
    """many customers: sizes the other targets do not reach"""
    solve.preload(abbrs)

    @st.composite
    def strategy(draw):
        abbr = draw(st.sampled_from(abbrs))
        n = draw(st.integers(40, 55 if abbr in slow else hi))
        cons = draw(st.sampled_from(["C", "CL", "CL", "L"] if n <= 80 else ["C", "CL"]))
        return {"abbr": abbr, "n": n, "seed": draw(st.integers(0, 10**6)),
                "shape": draw(st.sampled_from(["uniform", "cluster", "grid"])),
                "cons": cons, "metric": draw(st.sampled_from(["EXACT", "ROUND"])),
                "per_route": draw(st.integers(2, limit)), "slack": draw(st.integers(0, 3)),
                "single": draw(st.booleans()),
                "minimize_K": abbr not in solve.NO_MIN_K and draw(st.booleans())}

    def run(case, ctx):
        ctx.label(case["abbr"])
        solve_and_judge(case["abbr"], case, scattered(case), ctx)

    return core.Target("large", strategy, run, quick=quick, thorough=thorough,
                       timeout_is_violation=False, cpu_limit=120.0)


def tighter(inst, sol, which, by):
    """the problem with the capacity or maximum cost a little below that of the worst route"""
    routes = [r for r in oracle.routes_of(sol) if len(r) > 1]
    if not routes or (which == "C" and not inst["d"]):
        return None
    D = gen.matrix(inst)
    if which == "C":
        need = max(inst["d"])
        worst = max(sum(inst["d"][x] for x in r) for r in routes)
    else:
        need = max(D[0][i] + D[i][0] for i in range(1, len(D)))
        worst = max(oracle.route_len(r, D) for r in routes)
    limit = float(worst - by * worst)
    if which == "L" and inst["kind"] == "far":
        need *= 1 + 1e-9
        limit *= 1 + 1e-9
    return dict(inst, **{which: limit}) if limit >= need and limit > 0 else None


RULE = ("the solution has several routes, at least one of which serves several customers, so that "
        "a constraint shaped it")
ASSUMPTIONS = ["symmetric distances, every customer can be served alone, C and/or L is set",
               "constraint slack of 1e-6 relative", "external TSP solvers are not installed: the "
               "heuristics that prefer them use the bundled r-opt solver"]


def few_ties(case):
    """Among many equally good combinations of routes the petal method goes
    through all of them, which ends but takes exponential time."""
    inst = case["inst"]
    M = oracle.dist_matrix(inst["pts"], "EXACT")
    n = len(M)
    dists = [round(float(M[i][j]), 6) for i in range(n) for j in range(i)]
    return inst["metric"] == "EXACT" and len(set(dists)) > 0.9 * len(dists)
