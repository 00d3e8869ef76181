import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
import itertools
import math
from hypothesis import strategies as st
from vplib import core, gen, oracle, refs

KINDS = ["generic", "generic", "fine"]


# ------------------------------------------------------------ two phase heuristic
def by_score(scored, reverse=False):
    """sorted by score; ties are ambiguous"""
    out = sorted(scored, key=lambda x: x[0], reverse=reverse)
    for a, b in zip(out, out[1:]):
        if abs(a[0] - b[0]) < refs.GAP * max(1.0, abs(a[0])):
            raise refs.Ambiguous("tie")
    return [x for _, x in out]


def phase_one(D, d, C, lam, seeding):
    """routes as lists of customers in the order of their insertion, the seed first"""
    unrouted = list(range(1, len(D)))
    routes = []
    while unrouted:
        if seeding == "first":
            seed = unrouted[0]
        else:
            sign = 1 if seeding == "farthest" else -1
            seed = refs.pick_max([(sign * D[0][x], x) for x in unrouted])
        unrouted.remove(seed)
        route, load = [seed], d[seed]
        for x in by_score([(D[0][x] + lam * D[x][seed], x) for x in unrouted]):
            if refs.fits(load + d[x], C):
                route.append(x)
                load += d[x]
                unrouted.remove(x)
        routes.append(route)
    return routes


def phase_two(D, d, C, mu, seeds, most, once):
    """all the possible outcomes (None if a customer is left over): routes with as
    many associated customers may be taken in either order"""
    eps = {(s, x): D[0][x] + mu * D[x][s] - D[0][s] for s in seeds for x in range(1, len(D))}
    outcomes = []
    rest = tuple(x for x in range(1, len(D)) if x not in seeds)
    stack = [({s: (s,) for s in seeds}, rest, tuple(seeds), False)]
    while stack:
        routes, left, open_, grew = stack.pop()
        if not left:
            outcomes.append([list(routes[s]) for s in seeds])
            continue
        if not open_:
            if once or not grew:
                outcomes.append(None)
                continue
            open_, grew = tuple(seeds), False
        to = {s: [] for s in open_}
        for x in left:
            to[by_score([(eps[s, x], s) for s in open_])[0]].append(x)
        if most:
            top = max(map(len, to.values()))
            picks = [s for s in open_ if len(to[s]) == top]
        else:
            picks = [open_[0]]
        for s in picks:
            others = [o for o in open_ if o != s]
            scored = [((min(eps[o, x] for o in others) if others else 0.0) - eps[s, x], x)
                      for x in to[s]]
            route = routes[s]
            for x in by_score(scored, reverse=True):
                if refs.fits(sum(d[y] for y in route) + d[x], C):
                    route = route + (x,)
            new = [x for x in left if x not in route]
            stack.append(({**routes, s: route}, tuple(new), tuple(others),
                          grew or len(new) < len(left)))
        if len(stack) + len(outcomes) > 200:
            raise refs.Ambiguous("order of routes")
    return outcomes


def sets_of(routes):
    return sorted(sorted(int(x) for x in r) for r in routes)


def cmt_case():
    return st.fixed_dictionaries({
        "inst": gen.instance(lo=2, mid=10, hi=16, kinds=KINDS, metrics=("EXACT",), want="C", service=False),
        "minimize_K": st.booleans(), "lam": st.sampled_from([2.0, 2.0, 1.0, 0.5, 3.0]),
        "mu": st.sampled_from([1.0, 1.0, 0.5, 2.0]),
        "seeding": st.sampled_from(["farthest", "farthest", "closest", "first"]),
        "most": st.booleans(), "once": st.booleans(), "default": st.booleans()})


def run_cmt(case, ctx):
    from verypy.classic_heuristics.cmt_2phase import cmt_2phase_init
    inst = case["inst"]
    gen.classify(inst, ctx)
    A = gen.matrix(inst)
    D, d, C = A.tolist(), inst["d"], inst["C"]
    p = {"lambda_multiplier": case["lam"], "mu_multiplier": case["mu"],
         "phase1_seed_selection_method": case["seeding"],
         "phase2_choose_most_associated_route": case["most"],
         "phase2_repeated_association_with_n_routes": None if case["once"] else 1}
    if case["default"]:
        p = {}
        case = dict(case, lam=2.0, mu=1.0, seeding="farthest", most=True, once=False)
    try:
        one = phase_one(D, d, C, case["lam"], case["seeding"])
        two = phase_two(D, d, C, case["mu"], [r[0] for r in one], case["most"], case["once"])
    except refs.Ambiguous as e:
        ctx.skip("ambiguous_" + str(e).replace(" ", "_"))
    sol = ctx.call(cmt_2phase_init, A, list(d), C, minimize_K=case["minimize_K"], **p)
    bad = oracle.solution_defect(sol, D, d, C, None)
    ctx.require(bad is None, "cmt: %s", bad)
    got = oracle.routes_of(sol)
    f = refs.cost(got, D)
    ok = [one] + [t for t in two if t is not None]
    ctx.require(sets_of(got) in map(sets_of, ok),
                "cmt%r: customers by route are %r, but phase one gives %r and phase two %r", p,
                sets_of(got), sets_of(one), [t and sets_of(t) for t in two])
    # the better one of the two is returned
    worst = sum(exact(r, D) for r in one)
    if sets_of(got) != sets_of(one):
        # (a shorter phase one solution can not be missed: both have as many routes)
        ctx.require(f <= approx(one, D) + oracle.tol(f),
                    "cmt: phase two of cost %.9g is returned, but phase one costs %.9g", f, approx(one, D))
        ctx.label("phase two")
    else:
        alt = [t for t in two if t is not None]
        if alt and len(alt) == len(two):
            best = max(approx(t, D) for t in alt)
            ctx.require(f <= best + oracle.tol(f),
                        "cmt: phase one of cost %.9g is returned, but phase two costs %.9g", f, best)
        ctx.label("phase one")
    ctx.label("same" if two and all(t is None or sets_of(t) == sets_of(one) for t in two) else "differ")
    ctx.require(f >= worst - oracle.tol(f) or sets_of(got) != sets_of(one), "cmt: cost %g", f)
    ctx.nontrivial(len(got) > 1 and max(map(len, got)) > 2)


def exact(route, D):
    return oracle.held_karp([0] + sorted(route), D) if len(route) <= 8 else 0.0


def approx(routes, D):
    """what the heuristic's own solver makes of the routes"""
    import numpy as np
    from verypy.classic_heuristics import cmt_2phase
    from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt
    solve = getattr(cmt_2phase, "solve_tsp", solve_tsp_ropt)
    A = np.array(D)
    return sum(solve(A, [0] + list(r))[1] for r in routes)


# ------------------------------------------------------------ assignment heuristic
def gap_case():
    return st.fixed_dictionaries({
        "inst": gen.instance(lo=3, mid=5, hi=6, kinds=["generic", "fine", "int"], metrics=("EXACT",),
                             want="C", service=False),
        "all": st.booleans(), "seeds": st.sampled_from(["kmeans", "kmeans", "cones", "large_demands"])})


def least(D, S, d, C, k):
    """(assignment of least insertion cost, cost, cost of the second best)"""
    n = len(D)
    ins = [[0.0] * n] + [[D[0][i] + S[s][i] - S[s][0] for i in range(n)] for s in range(k)]
    best = (math.inf, None)
    second = math.inf
    for a in itertools.product(range(1, k + 1), repeat=n - 1):
        f = sum(ins[s][i + 1] for i, s in enumerate(a))
        if f >= second:
            continue
        load = [0.0] * (k + 1)
        for i, s in enumerate(a):
            load[s] += d[i + 1]
        if any(abs(x - C) < 1e-4 * C and x > C for x in load):
            raise refs.Ambiguous("constraint")
        if max(load) > C:
            continue
        if f < best[0]:
            second = best[0]
            best = (f, a)
        else:
            second = f
    return best[1], best[0], second


def seeds_of(case, inst, A, k, trial, ctx):
    """only those of k-means are found independently: the others are as the heuristic has them"""
    from sklearn.cluster import KMeans
    from verypy.classic_heuristics import gapvrp
    if case["seeds"] == "kmeans":
        return KMeans(n_clusters=k, random_state=trial).fit(inst["pts"][1:]).cluster_centers_.tolist()
    f = getattr(gapvrp, {"cones": "_sweep_seed_points",
                         "large_demands": "_large_demand_seed_points"}[case["seeds"]], None)
    if f is None:
        ctx.skip("no_such_seeds")
    return ctx.call(f, [list(p) for p in inst["pts"]], A.copy(), list(inst["d"]), inst["C"], k, trial)


def run_gap(case, ctx):
    from verypy.classic_heuristics.gapvrp import gap_init
    inst = case["inst"]
    gen.classify(inst, ctx)
    A = gen.matrix(inst)
    D, d, C, pts = A.tolist(), inst["d"], inst["C"], inst["pts"]
    n = len(D)
    if len(set(map(tuple, pts))) < n:
        ctx.skip("same_place")
    k = max(1, int(math.ceil(sum(d) / C)))
    if abs(sum(d) / C - round(sum(d) / C)) < 1e-9:
        k = int(round(sum(d) / C))
    wants = []
    while not wants and k < n:
        for trial in range(n if case["all"] else 1):
            centers = seeds_of(case, inst, A, k, trial, ctx)
            ctx.require(len(centers) == k, "gap: %d seeds for %d routes", len(centers), k)
            S = [[math.hypot(c[0] - p[0], c[1] - p[1]) for p in pts] for c in centers]
            try:
                a, f, second = least(D, S, d, C, k)
            except refs.Ambiguous as e:
                ctx.skip("ambiguous_" + str(e))
            if a is not None:
                if second - f < 1e-3 * max(1.0, abs(f)):
                    ctx.skip("ambiguous_tie")
                wants.append(sets_of([[i + 1 for i, s in enumerate(a) if s == t]
                                      for t in set(a)]))
        k += 1
    if not wants:
        ctx.skip("no_assignment")
    sol = ctx.call(gap_init, [list(p) for p in pts], A, list(d), C, minimize_K=True,
                   find_optimal_seeds=case["all"], seed_method=case["seeds"], seed_edge_weight_type="EXACT_2D")
    bad = oracle.solution_defect(sol, D, d, C, None)
    ctx.require(bad is None, "gap: %s", bad)
    got = oracle.routes_of(sol)
    ctx.require(sets_of(got) in wants, "gap: the assignment is %r, but that of least insertion cost is %r",
                sets_of(got), wants)
    key = lambda s: (len(s), sum(exact(r, D) for r in s))
    best = min(map(key, wants))
    f = refs.cost(got, D)
    ctx.require(len(got) == best[0] and f <= best[1] + 2e-4 * (1.0 + best[1]),
                "gap: %d routes of cost %.9g, but the best over the seeds is %d of %.9g", len(got), f, *best)
    ctx.nontrivial(len(got) > 1 and max(map(len, got)) > 1)


# ------------------------------------------------------------ matching heuristic
def matchings(pairs):
    """all sets of pairs that share no route: [(total weight, pairs)]"""
    out = [(0.0, ())]
    for w, a, b in pairs:
        out += [(t + w, m + ((w, a, b),)) for t, m in out
                if all(len({a, b, x, y}) == 4 for _, x, y in m)]
        if len(out) > 3000:
            raise refs.Ambiguous("too many matchings")
    return out


def matching_routes(D, d, C, L):
    eps = 1e-3
    tour = {}

    def f(r):
        if r not in tour:
            tour[r] = oracle.held_karp([0] + sorted(r), D)
        return tour[r]

    routes = [frozenset([i]) for i in range(1, len(D))]
    while True:
        pairs = []
        for i, a in enumerate(routes):
            for j in range(i):
                b = routes[j]
                if C and not refs.fits(sum(d[x] for x in a | b), C):
                    continue
                if L and abs(f(a | b) - L) < eps * L:
                    raise refs.Ambiguous("constraint")
                if L and f(a | b) > L:
                    continue
                w = f(a) + f(b) - f(a | b)
                if abs(w) < eps * (1.0 + f(a | b)):
                    raise refs.Ambiguous("zero saving")
                if w > 0:
                    pairs.append((w, i, j))
        if not pairs:
            return [list(r) for r in routes]
        all_ = matchings(sorted(pairs, reverse=True))
        top = max(t for t, _ in all_)
        tol = eps * (1.0 + sum(map(f, routes)))
        picks = set()
        for t, m in all_:
            if t >= top - tol:
                m = sorted(m, reverse=True)
                if not m or (len(m) > 1 and m[0][0] - m[1][0] < tol):
                    raise refs.Ambiguous("tie")
                picks.add(m[0])
        if len(picks) > 1:
            raise refs.Ambiguous("tie")
        _, i, j = picks.pop()
        routes = [r for k, r in enumerate(routes) if k not in (i, j)] + [routes[i] | routes[j]]


def mbsa_case():
    return st.fixed_dictionaries({
        "inst": gen.instance(lo=4, mid=7, hi=8, kinds=["generic", "fine"], metrics=("EXACT",), service=False)})


def run_mbsa(case, ctx):
    from verypy.classic_heuristics.matchingvrp import mbsa_init
    inst = case["inst"]
    gen.classify(inst, ctx)
    A = gen.matrix(inst)
    D, d, C, L = A.tolist(), inst["d"], inst["C"], inst["L"]
    try:
        want = matching_routes(D, d, C, L)
    except refs.Ambiguous as e:
        ctx.skip("ambiguous_" + str(e).replace(" ", "_"))
    sol = ctx.call(mbsa_init, A, d and list(d), C, L)
    bad = oracle.solution_defect(sol, D, d, C, L)
    ctx.require(bad is None, "mbsa: %s", bad)
    got = oracle.routes_of(sol)
    ctx.require(sets_of(got) == sets_of(want),
                "mbsa: customers by route are %r, but merging the best pair of each maximum matching gives %r",
                sets_of(got), sets_of(want))
    ctx.nontrivial(len(got) > 1 and max(map(len, got)) > 1)


# ------------------------------------------------------------ petal heuristic
@st.composite
def petal_cases(draw):
    inst = draw(gen.instance(lo=3, mid=7, hi=9, kinds=["generic", "fine"], metrics=("EXACT",),
                             want="C", service=False))
    n = len(inst["pts"]) - 1
    petals = draw(st.lists(st.lists(st.integers(1, n), min_size=1, max_size=4, unique=True),
                           min_size=3, max_size=22))
    which = draw(st.lists(st.integers(0, 2), min_size=len(petals) + n, max_size=len(petals) + n))
    return {"inst": inst, "petals": petals, "sets": which, "relax": draw(st.booleans()),
            "any": draw(st.booleans()), "minimize_K": draw(st.booleans())}


def cover(n, petals, each=0.0):
    """cost of the cheapest petals that serve each of 1..n once, if each of them costs extra"""
    masks = {}
    for nodes, c in petals:
        m = sum(1 << (x - 1) for x in nodes)
        masks[m] = min(c, masks.get(m, math.inf))
    best = {0: 0.0}
    full = (1 << n) - 1
    for m in range(full):
        if m in best:
            low = ~m & (m + 1)
            for pm, c in masks.items():
                if pm & low and not pm & m:
                    t = m | pm
                    best[t] = min(best.get(t, math.inf), best[m] + c + each)
    return best[full]


def run_petals(case, ctx):
    from verypy.classic_heuristics import petalvrp
    inst = case["inst"]
    gen.classify(inst, ctx)
    A = gen.matrix(inst)
    D, d, C = A.tolist(), inst["d"], inst["C"]
    n = len(D) - 1
    seen, sets, mine = set(), [petalvrp.PetalSet([], [], []) for _ in range(3)], []
    which = case["sets"] if case["any"] else [0] * n + case["sets"][n:]
    for nodes, s in zip([[i] for i in range(1, n + 1)] + case["petals"], which):
        if tuple(sorted(nodes)) in seen or sum(d[x] for x in nodes) > C:
            continue
        seen.add(tuple(sorted(nodes)))
        c = oracle.route_len(nodes, D)
        sets[s].nodes.append(set([0] + nodes))
        sets[s].routes.append([0] + nodes + [0])
        sets[s].costs.append(c)
        mine.append((nodes, c))
    minimize_K = case.get("minimize_K", False)
    each = 1000.0 * (1.0 + sum(D[0])) if minimize_K else 0.0
    want = cover(n, mine, each)
    k = int(want // each) if minimize_K else None
    want -= each * (k or 0)
    sol = ctx.call(petalvrp.petal_init, [list(p) for p in inst["pts"]], A, list(d), C, None,
                   minimize_K=minimize_K, relaxe_SCP_solutions=case["relax"], predefined_petals_generator=lambda: sets)
    bad = oracle.solution_defect(sol, D, d, C, None)
    ctx.require(bad is None, "petal: %s", bad)
    f = oracle.sol_len(sol, D)
    tol = 2e-4 * (1.0 + abs(want))
    if minimize_K:
        got = oracle.n_routes(sol)
        ctx.label("minimize_K")
        ctx.require(got <= k, "petal: %d routes, but %d petals are enough", got, k)
        if got < k:
            ctx.label("better")
            return
    ctx.require(f <= want + tol, "petal: cost %.9g, but petals that serve each customer once cost %.9g", f, want)
    if not case["relax"] and not case["any"]:
        # (with customers that are in no petal of the first sets, petals that overlap are
        # chosen, and made shorter)
        ctx.require(f >= want - tol, "petal: cost %.9g, below that of any of the petals, %.9g: %r", f, want, sol)
        ctx.require(all(tuple(sorted(r)) in seen for r in oracle.routes_of(sol)),
                    "petal: a route is not among the petals: %r", sol)
    single = sum(2 * D[0][i] for i in range(1, n + 1))
    ctx.nontrivial(want < single - 1e-6 and len(mine) > n)


def sweep_case():
    return st.fixed_dictionaries({
        "inst": gen.instance(lo=3, mid=7, hi=10, kinds=["generic", "fine"], metrics=("EXACT",),
                             want="C", service=False), "relax": st.booleans()})


def run_sweep(case, ctx):
    from verypy.classic_heuristics import petalvrp
    inst = case["inst"]
    gen.classify(inst, ctx)
    A = gen.matrix(inst)
    D, d, C = A.tolist(), inst["d"], inst["C"]
    if len(set(map(tuple, inst["pts"]))) < len(D):
        ctx.skip("same_place")
    try:
        order = refs.sweep_orders(inst["pts"])
    except refs.Ambiguous as e:
        ctx.skip("ambiguous_" + str(e).replace(" ", "_"))
    best = math.inf
    for s in range(len(order)):
        turn = order[s:] + order[:s]
        routes, load = [[]], 0
        for x in turn:
            if routes[-1] and load + d[x] > C + 1e-9:
                routes.append([])
                load = 0
            routes[-1].append(x)
            load += d[x]
        best = min(best, sum(exact(r, D) if len(r) <= 4 else
                             petalvrp.solve_tsp(A, [0] + list(r))[1] for r in routes))
    sol = ctx.call(petalvrp.petal_init, [list(p) for p in inst["pts"]], A, list(d), C, None,
                   relaxe_SCP_solutions=case["relax"])
    f = oracle.sol_len(sol, D)
    ctx.require(f <= best + 2e-4 * (1.0 + best), "petal: cost %.9g, but a sweep has routes of cost %.9g", f, best)
    got = oracle.routes_of(sol)
    ctx.nontrivial(len(got) > 1 and max(map(len, got)) > 1)


def targets():
    import sklearn.cluster  # noqa: F401 (slow import, once)
    import verypy.classic_heuristics.gapvrp, verypy.classic_heuristics.petalvrp  # noqa
    import verypy.classic_heuristics.cmt_2phase  # noqa
    return [
        core.Target("cmt", cmt_case, run_cmt, quick=6000, thorough=120000, timeout_is_violation=True),
        core.Target("gap", gap_case, run_gap, quick=3000, thorough=40000, cpu_limit=120),
        core.Target("mbsa", mbsa_case, run_mbsa, quick=1000, thorough=20000, cpu_limit=120),
        core.Target("petals", petal_cases, run_petals, quick=2000, thorough=30000, cpu_limit=60),
        core.Target("sweep", sweep_case, run_sweep, quick=2000, thorough=30000, cpu_limit=60),
    ]


if __name__ == "__main__":
    sys.exit(core.run_check("P37", targets(), rule=(
        "several routes of which one has several customers (petals: some petal saves compared to serving "
        "each customer alone)"),
        assumptions=["capacity only", "ties and borderline capacities are skipped; routes of equal "
                     "association may be taken in either order", "MIP solutions are optimal within 2e-4 relative"]))
