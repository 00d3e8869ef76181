import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from itertools import permutations
from hypothesis import strategies as st
from vplib import core, ls, oracle
from vplib.nbhd import (n_2opt, n_3opt, n_relocate, n_exchange, n_2optstar, n_1pm, n_2pm, n_chain,
                        giant, split)

INTRA = {"do_2opt_move": n_2opt, "do_3opt_move": n_3opt, "do_relocate_move": n_relocate,
         "do_exchange_move": n_exchange}
INTER = {"do_2optstar_move": (n_2optstar, 2), "do_1point_move": (n_1pm, 2), "do_2point_move": (n_2pm, 2),
         "do_chain_move": (n_chain, 3)}


@st.composite
def search_strategy(draw, nmax=10, kmax=4):
    c = draw(ls.routes_case(kmin=1, kmax=kmax, nmin=1, nmax=nmax,
                            constraints=("", "C", "C", "L", "CL", "CL")))
    ops = draw(st.lists(st.sampled_from(sorted(INTRA) + sorted(INTER)), min_size=1, max_size=4, unique=True))
    return {"case": c, "ops": ops, "op_best": draw(st.booleans()),
            "it": draw(st.sampled_from(["FIRST_ACCEPT", "BEST_ACCEPT", "ALL_ACCEPT", "REPEATED_ACCEPT"])),
            "max_it": draw(st.sampled_from([None, None, None, 1, 1, 2, 3]))}


def check_result(ctx, what, sol, new, c):
    new = list(new)
    ctx.require(new and new[0] == 0 and new[-1] == 0, "%s returned %r", what, new)
    ctx.require(sorted(x for x in new if x) == sorted(x for x in sol if x), "%s returned %r", what, new)
    rs = split(new)
    for r in rs:
        ctx.require(ls.feasible(r, c) is not False, "%s returned %r with the infeasible route %r", what, new, r)
    f0 = sum(oracle.route_len(r, c["M"]) for r in c["routes"])
    f1 = sum(oracle.route_len(r, c["M"]) for r in rs)
    ctx.require(f1 <= f0 + oracle.tol(f0), "%s returned %r: the cost grew from %r to %r", what, new, f0, f1)
    return rs, f0, f1


def optimal(ctx, what, ops, rs, c):
    """no single move of the operators improves the routes"""
    for name in ops:
        if name in INTRA:
            for r in rs:
                nb = ls.Neighborhood(c, [r], None)
                INTRA[name](r, nb)
                ctx.require(nb.best_sure is None, "%s ends in %r, but %s can change the cost by %r", what,
                            rs, name, nb.best_sure)
        else:
            f, k = INTER[name]
            for sel in permutations(rs, k):
                nb = ls.Neighborhood(c, sel, None)
                f(list(sel), nb)
                ctx.require(nb.best_sure is None, "%s ends in %r, but %s can change the cost by %r", what,
                            rs, name, nb.best_sure)


def steepest(ops, rs, c):
    best = []
    for name in ops:
        f, k = (INTRA[name], 1) if name in INTRA else INTER[name]
        for sel in permutations(rs, k):
            nb = ls.Neighborhood(c, sel, None)
            f(sel[0] if k == 1 else list(sel), nb)
            if nb.best_sure is not None:
                best.append(nb.best_sure)
    return min(best) if best else None


def search(case, ctx):
    import verypy.local_search as lsm
    import verypy.local_search.intra_route_operators as intra
    import verypy.local_search.inter_route_operators as inter
    c = case["case"]
    sol = giant(c["routes"])
    D, d = ls.array(c), (list(c["d"]) if c["d"] else None)
    ops = [getattr(intra if n in INTRA else inter, n) for n in case["ops"]]
    given = list(sol)
    kw = {}
    if case["max_it"]:
        kw["max_iterations"] = case["max_it"]
    new = ctx.call(lsm.do_local_search, list(ops), given, D, d, c["C"], c["L"],
                   lsm.LSOPT.BEST_ACCEPT if case["op_best"] else lsm.LSOPT.FIRST_ACCEPT,
                   getattr(lsm.ITEROPT, case["it"]), **kw)
    what = "do_local_search(%s, %r, d=%r, C=%r, L=%r, %s, %s, %r)" % (
        "+".join(case["ops"]), sol, d, c["C"], c["L"], "best" if case["op_best"] else "first", case["it"],
        case["max_it"])
    ctx.require(given == sol and (D == ls.array(c)).all() and d == c["d"], "%s changed its input", what)
    rs, f0, f1 = check_result(ctx, what, sol, new, c)
    ctx.label(case["it"], "improved" if f1 < f0 - 1e-9 else "kept")
    if case["max_it"] is None:
        optimal(ctx, what, case["ops"], rs, c)
    elif case["max_it"] == 1 and case["it"] == "BEST_ACCEPT":
        # one move, and with best accept the best one of all operators
        best = steepest(case["ops"], c["routes"], c)
        if case["op_best"] and best is not None:
            ctx.label("steepest")
            ctx.require(f1 <= f0 + best + oracle.tol(f0), "%s changes the cost by %r, but %r is possible", what,
                        f1 - f0, best)
        changed = [r for r in c["routes"] if ls.canon(r) not in [ls.canon(x) for x in rs]]
        ctx.require(len(changed) <= 3, "%s changed %d routes", what, len(changed))
    ctx.nontrivial(f1 < f0 - 1e-9)


@st.composite
def planted_strategy(draw):
    """long routes, a move or two away from being good"""
    k = draw(st.integers(2, 4))
    ops = draw(st.lists(st.sampled_from(sorted(set(INTER) - {"do_chain_move"})), min_size=1, max_size=3, unique=True))
    ops += draw(st.lists(st.sampled_from(sorted(set(INTRA) - {"do_3opt_move"})), max_size=2, unique=True))
    return {"case": draw(ls.planted_case(k, 5, 12)), "ops": ops, "op_best": draw(st.booleans()),
            "it": draw(st.sampled_from(["FIRST_ACCEPT", "BEST_ACCEPT", "ALL_ACCEPT", "REPEATED_ACCEPT"])),
            "max_it": draw(st.sampled_from([None, None, None, 1]))}


@st.composite
def many_strategy(draw):
    """many routes; made from a number, so that the cases stay small"""
    k = draw(st.integers(3, 9))
    ops = draw(st.lists(st.sampled_from(sorted(set(INTER) - {"do_chain_move"})), min_size=1, max_size=3, unique=True))
    if k < 6 and draw(st.integers(0, 3)) == 0:
        ops.append("do_chain_move")
    ops += draw(st.lists(st.sampled_from(sorted(INTRA)), max_size=2, unique=True))
    return {"seed": draw(st.integers(0, 10 ** 6)), "n": k + draw(st.integers(k, 22 - k)), "k": k, "ops": ops,
            "cons": draw(st.sampled_from(["", "C", "C", "C", "L", "CL", "CL"])), "grid": draw(st.booleans()),
            "op_best": draw(st.booleans()), "max_it": None,
            "it": draw(st.sampled_from(["FIRST_ACCEPT", "BEST_ACCEPT", "BEST_ACCEPT", "ALL_ACCEPT", "REPEATED_ACCEPT"]))}


def many(case, ctx):
    g = random.Random(case["seed"])
    n, k = case["n"], case["k"]
    co = (lambda: g.randint(0, 40)) if case["grid"] else (lambda: g.uniform(0, 1000))
    p = [(co(), co()) for _ in range(n + 1)]
    M = [[((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5 for b in p] for a in p]
    perm = list(range(1, n + 1))
    g.shuffle(perm)
    routes = [[c] for c in perm[:k]]
    for c in perm[k:]:
        g.choice(routes).append(c)
    d = [0] + [g.randint(1, 99) for _ in range(n)]
    C = L = None
    if "C" in case["cons"]:
        C = int(max(sum(d[i] for i in r) for r in routes) * g.choice([1.0, 1.0, 1.1, 1.5]))
    if "L" in case["cons"]:
        L = max(oracle.route_len(r, M) for r in routes) * g.choice([1.0001, 1.05, 1.2, 2.0])
    search(dict(case, case={"M": M, "kind": "many", "routes": routes, "d": d, "C": C, "L": L}), ctx)


# the naive operators consider the whole solution

def w_2opt(rs, nb):
    for i, r in enumerate(rs):
        sub = _Sub(nb, rs, (i,))
        n_2opt(r, sub)


def w_2optstar(rs, nb):
    w_2opt(rs, nb)
    for i in range(len(rs)):
        for j in range(i + 1, len(rs)):
            n_2optstar([rs[i], rs[j]], _Sub(nb, rs, (i, j)))


def w_1point(rs, nb):
    for i, r in enumerate(rs):
        n_relocate(r, _Sub(nb, rs, (i,)))
        for j in range(len(rs)):
            if i != j:
                n_1pm([r, rs[j]], _Sub(nb, rs, (i, j)))


def w_2point(rs, nb):
    for i, r in enumerate(rs):
        n_exchange(r, _Sub(nb, rs, (i,)))
        for j in range(i + 1, len(rs)):
            n_2pm([r, rs[j]], _Sub(nb, rs, (i, j)))


def w_relocate(rs, nb):
    for i, r in enumerate(rs):
        n_relocate(r, _Sub(nb, rs, (i,)))


def w_exchange(rs, nb):
    for i, r in enumerate(rs):
        n_exchange(r, _Sub(nb, rs, (i,)))


class _Sub(object):
    def __init__(self, nb, rs, idx):
        self.nb, self.rs, self.idx = nb, rs, idx

    def add(self, *routes):
        new = list(self.rs)
        for i, r in zip(self.idx, routes):
            new[i] = r
        self.nb.add(*[r for r in new if r])


NAIVE = {"do_naive_2opt_move": w_2opt, "do_naive_2optstar_move": w_2optstar,
         "do_naive_1point_move": w_1point, "do_naive_relocate_move": w_relocate,
         "do_naive_2point_move": w_2point, "do_naive_exchange_move": w_exchange}
PER_ROUTE = ("do_naive_relocate_move", "do_naive_exchange_move")


@st.composite
def naive_strategy(draw):
    c = draw(ls.routes_case(kmin=1, kmax=3, nmin=1, nmax=7, constraints=("", "C", "C", "L", "CL", "CL")))
    return {"case": c, "op": draw(st.sampled_from(sorted(NAIVE))), "best": draw(st.booleans()),
            "search": draw(st.booleans()),
            "ops": draw(st.lists(st.sampled_from(sorted(NAIVE)), min_size=1, max_size=3, unique=True)),
            "max_it": draw(st.sampled_from([None, None, 1, 2]))}


def naive(case, ctx):
    from verypy.local_search import LSOPT
    import verypy.local_search.naive_implementations as nv
    c = case["case"]
    sol = giant(c["routes"])
    D, d = ls.array(c), (list(c["d"]) if c["d"] else None)
    given = list(sol)
    strat = LSOPT.BEST_ACCEPT if case["best"] else LSOPT.FIRST_ACCEPT
    if case["search"]:
        new = ctx.call(nv.do_naive_local_search, [getattr(nv, n) for n in case["ops"]], given, D, d, c["C"],
                       c["L"], strat, case["max_it"])
        what = "do_naive_local_search(%s, %r, d=%r, C=%r, L=%r, %s, %r)" % (
            "+".join(case["ops"]), sol, d, c["C"], c["L"], strat, case["max_it"])
        ctx.require(given == sol and (D == ls.array(c)).all() and d == c["d"], "%s changed its input", what)
        rs, f0, f1 = check_result(ctx, what, sol, new, c)
        if case["max_it"] is None:
            for n in case["ops"]:
                nb = ls.Neighborhood(c, rs, None, ordered=False)
                NAIVE[n](rs, nb)
                ctx.require(nb.best_sure is None, "%s ends in %r, but %s can change the cost by %r", what,
                            rs, n, nb.best_sure)
        ctx.nontrivial(f1 < f0 - 1e-9)
        return
    res = ctx.call(getattr(nv, case["op"]), given, D, d, c["C"], c["L"], strat)
    what = "%s(%r, d=%r, C=%r, L=%r, %s)" % (case["op"], sol, d, c["C"], c["L"], strat)
    ctx.require(given == sol and (D == ls.array(c)).all() and d == c["d"], "%s changed its input", what)
    new, delta = res
    ctx.require((new is None) == (delta is None), "%s returned %r", what, res)
    nb = ls.Neighborhood(c, c["routes"], None, ordered=False)
    NAIVE[case["op"]](c["routes"], nb)
    ctx.nontrivial(len(nb.seen) > 3)
    if new is None:
        nb.judge(ctx, what, False, None, None, case["best"])
        return
    rs, f0, f1 = check_result(ctx, what, sol, new, c)
    if case["op"] in PER_ROUTE:
        ctx.require(delta < 0 and abs(f1 - f0 - delta) <= oracle.tol(f0), "%s reports %r, it is %r", what,
                    delta, f1 - f0)
        if case["best"] and nb.best_sure is not None:
            ctx.require(delta <= nb.best_sure + oracle.tol(f0), "%s changes the cost by %r, but %r is possible",
                        what, delta, nb.best_sure)
    else:
        nb.judge(ctx, what, True, rs, delta, case["best"])


def targets():
    import verypy.local_search.intra_route_operators
    import verypy.local_search.naive_implementations
    return [core.Target("search", search_strategy, search, quick=4000, thorough=80000,
                        timeout_is_violation=True),
            core.Target("planted", planted_strategy, search, quick=250, thorough=8000, timeout_is_violation=True),
            core.Target("many", many_strategy, many, quick=2500, thorough=30000, timeout_is_violation=True),
            core.Target("naive", naive_strategy, naive, quick=4000, thorough=60000,
                        timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P15", targets(), rule=(
        "the search improves the solution; one naive move: more than three different neighbors"),
        assumptions=["symmetric distances, also such that do not satisfy the triangle inequality",
                     "moves that change the cost by less than 1e-8 relative, or meet a limit within 1e-8, "
                     "may be made or not", "empty routes are not considered as a destination of a move"]))
