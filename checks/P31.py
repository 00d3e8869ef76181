import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from itertools import permutations
from hypothesis import strategies as st
from vplib import core, feas, gen, nbhd, oracle, solve


class Best(object):
    """the cheapest neighbor, optionally of the feasible ones only"""

    def __init__(self, D, inst=None):
        self.D, self.inst, self.f, self.routes, self.n = D, inst, float("inf"), None, 0

    def add(self, *routes):
        self.n += 1
        f = sum(oracle.route_len(r, self.D) for r in routes)
        if f >= self.f:
            return
        if self.inst is not None:
            C, L, d = self.inst["C"], self.inst["L"], self.inst["d"]
            for r in routes:
                # limits that are met within the tolerance may be judged either way
                if C is not None and sum(d[i] for i in r) > C * (1 - 1e-9):
                    if sum(d[i] for i in r) > C:
                        return
                if L is not None and oracle.route_len(r, self.D) > L * (1 - 1e-9):
                    return
        self.f, self.routes = f, routes


def margin(f, abbr=None):
    # the MIP solver stops when it is within 1e-4 of the optimum
    return (2e-4 if abbr in ("mbsa", "gap") else 1e-6) * (1.0 + abs(f))


def worst_3optimal(nodes, D):
    """the cost of the longest 3-optimal tour through the depot and the nodes"""
    worst = 0.0
    for p in permutations(nodes):
        if p[0] > p[-1]:
            continue
        f = oracle.route_len(p, D)
        if f > worst:
            nb = Best(D)
            nbhd.n_3opt(list(p), nb)
            if nb.f >= f - margin(f):
                worst = f
    return worst


def check(abbr, kind):
    def run(case, ctx):
        inst = case["inst"]
        D = gen.matrix(inst)
        gen.classify(inst, ctx)
        mk = case["minimize_K"] and abbr not in solve.NO_MIN_K
        sol = solve.solve(ctx, abbr, gen.solver_args(inst), case["single"], mk)
        if sol is None and abbr == "gap" and inst["L"]:
            ctx.skip("no_solution_with_L")
        routes = oracle.routes_of(sol)
        if kind == "3opt*":
            f = oracle.sol_len(sol, D)
            nb = Best(D, inst)
            nbhd.n_3optstar(list(sol), nb)
            ctx.require(nb.f >= f - margin(f), "%s gives %r (%r), and %r is feasible and costs %r", abbr, sol, f, nb.routes,
                        nb.f)
            ctx.nontrivial(len(routes) > 1)
            return
        for r in routes:
            if len(r) < 3 or len(r) > (45 if kind == "2opt" else 15):
                continue
            f = oracle.route_len(r, D)
            nb = Best(D)
            (nbhd.n_2opt if kind == "2opt" else nbhd.n_3opt)(list(r), nb)
            ctx.require(nb.f >= f - margin(f, abbr), "%s gives the route %r (%r) and %r is one %s move away and costs %r", abbr, r,
                        f, nb.routes, kind, nb.f)
            ctx.nontrivial(len(r) > 3)
        if abbr == "mbsa":
            for i in range(len(routes)):
                for j in range(i):
                    u = list(routes[i]) + list(routes[j])
                    if len(u) > 6 or (inst["C"] is not None and sum(inst["d"][x] for x in u) > inst["C"]):
                        continue
                    f = worst_3optimal(u, D)
                    if inst["L"] is not None and f > inst["L"] * (1 - 1e-9):
                        continue
                    ctx.label("merge considered")
                    s = oracle.route_len(routes[i], D) + oracle.route_len(routes[j], D) - f
                    ctx.require(s <= 3 * margin(f, abbr), "%s gives %r, and merging %r and %r is feasible and saves %r", abbr, sol,
                                routes[i], routes[j], s)
    return run


def target(abbr, kind, quick, hi=11, lo=2, **kw):
    solve.preload([abbr])
    return core.Target(abbr, lambda: st.fixed_dictionaries({
        "inst": gen.instance(lo=lo, mid=hi - 2, hi=hi, **kw), "single": st.booleans(),
        "minimize_K": st.booleans()}), check(abbr, kind), quick=quick, thorough=quick * 30)


def long_target(abbr, kind, quick):
    """routes of more customers"""
    lo, hi = (12, 45) if kind == "2opt" else (9, 17)
    inst = st.fixed_dictionaries({
        "n": st.integers(lo, hi), "seed": st.integers(0, 10**6), "shape": st.sampled_from(["uniform", "uniform", "cluster"]),
        "cons": st.sampled_from(["C", "CL", "L"]), "metric": st.just("EXACT"), "per_route": st.integers(lo, hi - 2),
        "slack": st.integers(0, 30)}).map(feas.scattered)
    return core.Target("long_" + abbr, lambda: st.fixed_dictionaries({
        "inst": inst, "single": st.booleans(), "minimize_K": st.booleans()}), check(abbr, kind), quick=quick, thorough=quick * 30)


def targets():
    return [long_target("ps2o", "2opt", 250), long_target("mj", "2opt", 250), long_target("cmt", "3opt", 80),
            long_target("ty", "3opt", 80), long_target("rfcs", "3opt", 60), long_target("gps", "3opt", 60),
            target("ps2o", "2opt", 2500), target("mj", "2opt", 2000), target("gps", "3opt", 1200),
            target("cmt", "3opt", 1500), target("ty", "3opt", 1500), target("gm", "3opt", 700),
            target("rfcs", "3opt", 1200), target("mbsa", "3opt", 300, hi=8),
            target("gap", "3opt", 150, hi=6, kinds=["generic"], L_ok=False),
            target("lr3o", "3opt*", 200, hi=7)]


if __name__ == "__main__":
    sys.exit(core.run_check("P31", targets(), rule=(
        "a route of more than three customers was checked (lr3o: several routes)"), assumptions=[
        "an improvement is more than 1e-6 relative (2e-4 for mbsa and gap, which use the MIP solver)", "routes of more than 45 (2-opt) or 15 (3-opt) customers are not checked",
        "limits are not used up by the improved solution within 1e-9"]))
