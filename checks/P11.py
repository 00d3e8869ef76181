import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, ls, oracle
from vplib.nbhd import n_2opt, n_3opt, n_relocate, n_exchange


def strategy(nmax):
    def f():
        return st.fixed_dictionaries({
            "case": ls.routes_case(kmin=1, kmax=2, nmin=1, nmax=nmax, empties=True, constraints=("",)),
            "best": st.booleans(), "bound": ls.bounds()})
    return f


def runner(opname, neighbors):
    def run(case, ctx):
        from verypy.local_search import LSOPT
        import verypy.local_search.intra_route_operators as ops
        op = getattr(ops, opname)
        c = case["case"]
        r = c["routes"][0]
        D = ls.array(c)
        route = [0] + list(r) + [0]
        given = list(route)
        res = ctx.call(op, given, D, LSOPT.BEST_ACCEPT if case["best"] else LSOPT.FIRST_ACCEPT,
                       case["bound"])
        ctx.require(given == route, "%s changed its input %r to %r", opname, route, given)
        ctx.require((D == ls.array(c)).all(), "%s changed the distances", opname)
        new, delta = res
        nb = ls.Neighborhood(c, [r], case["bound"])
        neighbors(list(r), nb)
        ctx.require((new is None) == (delta is None), "%s returned %r", opname, res)
        if new is not None:
            ctx.require(new[0] == 0 and new[-1] == 0 and sorted(new[1:-1]) == sorted(r),
                        "%s made %r of %r", opname, new, route)
            if not (case["bound"] and case["bound"] > 0):
                ctx.require(delta < 0, "%s reports %r", opname, delta)
        nb.judge(ctx, "%s(%r, %s)" % (opname, route, "best" if case["best"] else "first"),
                 new is not None, [list(new[1:-1])] if new is not None else None, delta, case["best"])
        ctx.label("found" if new is not None else "not_found")
        ctx.nontrivial(len(r) >= 3)
    return run


def descent(case, ctx):
    """repeating a move ends in a route none of whose neighbors is better"""
    from verypy.local_search import LSOPT
    import verypy.local_search.intra_route_operators as ops
    opname, neighbors = OPS[case["op"]]
    c = case["case"]
    r = list(c["routes"][0])
    D = ls.array(c)
    strat = LSOPT.BEST_ACCEPT if case["best"] else LSOPT.FIRST_ACCEPT
    route, f = [0] + r + [0], oracle.route_len(r, D)
    steps = 0
    while True:
        new, delta = ctx.call(getattr(ops, opname), route, D, strat)
        if new is None:
            break
        steps += 1
        f2 = oracle.route_len(list(new[1:-1]), D)
        ctx.require(f2 < f, "%s does not improve %r", opname, route)
        route, f = list(new), f2
    nb = ls.Neighborhood(c, [route[1:-1]], None)
    neighbors(route[1:-1], nb)
    ctx.require(nb.best_sure is None, "%s stops at %r, which can be improved by %r", opname, route,
                nb.best_sure)
    ctx.require(sorted(route[1:-1]) == sorted(r), "%s made %r of %r", opname, route, r)
    ctx.nontrivial(steps >= 2)


OPS = {"2opt": ("do_2opt_move", n_2opt), "3opt": ("do_3opt_move", n_3opt),
       "relocate": ("do_relocate_move", n_relocate), "exchange": ("do_exchange_move", n_exchange)}


def targets():
    import verypy.local_search.intra_route_operators
    out = []
    for k in sorted(OPS):
        big = k != "3opt"
        out.append(core.Target(k, strategy(12 if big else 8), runner(*OPS[k]),
                               quick=6000 if big else 2500, thorough=200000 if big else 60000,
                               timeout_is_violation=True))
    for k in sorted(OPS):
        n = 16 if k == "3opt" else 36
        out.append(core.Target("long_" + k, lambda n=n: st.fixed_dictionaries({
            "case": ls.planted_case(1, 9, n, ("",)), "best": st.booleans(), "bound": st.none()}),
            runner(*OPS[k]), quick=120 if k == "3opt" else 300, thorough=4000 if k == "3opt" else 20000,
            timeout_is_violation=True))
    out.append(core.Target("descent", lambda: st.fixed_dictionaries({
        "case": ls.routes_case(kmin=1, kmax=1, nmin=2, nmax=9, constraints=("",)),
        "best": st.booleans(), "op": st.sampled_from(sorted(OPS))}), descent,
        quick=3000, thorough=60000, timeout_is_violation=True))
    return out


if __name__ == "__main__":
    sys.exit(core.run_check("P11", targets(), rule=(
        "a route of at least three customers (descent: at least two improving moves)"),
        assumptions=["symmetric distances, also such that do not satisfy the triangle inequality",
                     "improvements smaller than 1e-8 relative may be made or not"]))
