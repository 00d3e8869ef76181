import math, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, feas, gen, oracle, refs, solve


@st.composite
def cases(draw):
    inst = draw(gen.instance(lo=1, mid=8, hi=12, big=20, metrics=("EXACT", "EXACT", "ROUND", "WARP")))
    n = len(inst["pts"]) - 1
    return {"inst": inst, "tour": draw(st.permutations(list(range(1, n + 1)))),
            "closed": draw(st.booleans()), "minimize_K": draw(st.booleans())}


def no_opt(D, route):
    """route as is, closed to the depot"""
    route = list(route)
    if route[-1] != route[0]:
        route.append(route[0])
    return route, sum(float(D[a, b]) for a, b in zip(route, route[1:]))


def run_split(case, ctx):
    """With a given giant tour and routes visited in its order, the partition
    has the least possible cost."""
    from verypy.classic_heuristics.rfcs import route_first_cluster_second_init
    inst = case["inst"]
    D = gen.matrix(inst)
    tour = list(case["tour"])
    gen.classify(inst, ctx)
    # (replay files made before the objective was varied have none)
    minimize_K = case.get("minimize_K", False) and inst["metric"] == "EXACT"
    if inst["metric"] == "ROUND" and inst["L"]:
        ctx.skip("rounded_route_lengths")  # extending a route may make it shorter
    least_k = None
    try:
        best = refs.split_cost(tour, D.tolist(), inst["d"], inst["C"], inst["L"], minimize_K)
        if minimize_K:
            least_k, best = best
            if best > refs.split_cost(tour, D.tolist(), inst["d"], inst["C"], inst["L"]) + 1e-6:
                ctx.label("fewer routes cost more")
    except refs.Ambiguous:
        ctx.skip("ambiguous_constraint")
    asked = []

    def giant(D_, nodes):
        asked.append(sorted(nodes))
        return (tour + [tour[0]] if case["closed"] else list(tour)), no_opt(D, tour)[1]

    sol = ctx.call(route_first_cluster_second_init, D, inst["d"], inst["C"], inst["L"],
                   minimize_K=minimize_K, tsp_gen_algo=giant, partition_tsp_opt_algo=no_opt,
                   route_tsp_opt_algo=no_opt)
    bad = oracle.solution_defect(sol, D, inst["d"], inst["C"], inst["L"])
    ctx.require(bad is None, "%s", bad)
    if asked:
        ctx.require(asked == [list(range(1, len(D)))], "the giant tour is through %r", asked)
        pos = {c: i for i, c in enumerate(tour)}
        for r in oracle.routes_of(sol):
            ctx.require(all((pos[b] - pos[a]) % len(tour) == 1 for a, b in zip(r, r[1:])),
                        "route %r is not a part of the giant tour %r", r, tour)
    f = oracle.sol_len(sol, D)
    k = oracle.n_routes(sol)
    if minimize_K:
        ctx.label("fewest routes")
        ctx.require(k == least_k, "partition %r of %r has %d routes, %d are enough", sol, tour, k, least_k)
    ctx.require(f <= best + oracle.tol(best), "partition %r of %r costs %r, the least cost is %r",
                sol, tour, f, best)
    ctx.label("k=1" if k == 1 else "k=2" if k == 2 else "k>2")
    ctx.nontrivial(k > 1 and len(D) > k + 1)


@st.composite
def long_cases(draw):
    n = draw(st.integers(25, 75))
    return {"n": n, "seed": draw(st.integers(0, 10**6)), "shape": draw(st.sampled_from(["uniform", "cluster", "grid"])),
            "cons": draw(st.sampled_from(["C", "CL", "L"])), "metric": "EXACT", "per_route": draw(st.integers(2, 60)),
            "slack": draw(st.integers(0, 40)), "by_angle": draw(st.booleans()), "closed": draw(st.booleans()),
            "minimize_K": draw(st.booleans())}


def long_split(case, ctx):
    """the same with long tours and routes of many customers"""
    inst = feas.scattered(case)
    tour = list(range(1, case["n"] + 1))
    (x0, y0), pts = inst["pts"][0], inst["pts"]
    if case["by_angle"]:
        tour.sort(key=lambda i: math.atan2(pts[i][1] - y0, pts[i][0] - x0))
    else:
        random.Random(case["seed"]).shuffle(tour)
    run_split({"inst": inst, "tour": tour, "closed": case["closed"], "minimize_K": case["minimize_K"]}, ctx)


def targets():
    solve.preload(["rfcs"])
    return [core.Target("long_split", long_cases, long_split, quick=200, thorough=4000, timeout_is_violation=True),
            core.Target("split", cases, run_split, quick=12000, thorough=300000, timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P10", targets(), rule=(
        "several routes of which one has several customers"),
        assumptions=["symmetric distances", "length limited instances with rounded distances are skipped: "
                     "there a longer part of the tour can make a shorter route"]))
