import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, ls, oracle
from vplib.nbhd import n_2optstar, n_1pm, n_2pm, n_chain


# name: (function, neighborhood, routes, the order of the routes matters, route allowed to be empty)
OPS = {"2optstar": ("do_2optstar_move", n_2optstar, 2, False, None),
       "1point": ("do_1point_move", n_1pm, 2, True, 1),
       "2point": ("do_2point_move", n_2pm, 2, True, None),
       "chain": ("do_chain_move", n_chain, 3, True, 2)}


@st.composite
def strategy_of(draw, k, nmax, empty):
    c = draw(ls.routes_case(kmin=k, kmax=k, nmin=k, nmax=nmax,
                            constraints=("", "C", "C", "L", "CL", "CL")))
    if empty is not None and draw(st.integers(0, 9)) == 0:
        # a vehicle that is not in use yet
        dropped = c["routes"][empty]
        c["routes"][empty] = []
        if not all(c["routes"]):
            c["routes"][empty] = dropped
    return {"case": c, "best": draw(st.booleans()), "bound": draw(ls.bounds()),
            "given": draw(st.sampled_from(["plain", "plain", "aux", "tuple"]))}


def runner(name):
    opname, neighbors, k, ordered, _ = OPS[name]

    def run(case, ctx):
        from verypy.local_search import LSOPT
        from verypy.routedata import RouteData
        import verypy.local_search.inter_route_operators as ops
        c = case["case"]
        rs = [list(r) for r in c["routes"]]
        D = ls.array(c)
        d = list(c["d"]) if c["d"] else None
        given = [RouteData([0] + r + [0], oracle.route_len(r, D), ls.load(r, d) if d else None) for r in rs]
        form = case.get("given", "plain")
        if form == "aux":
            for rd in given:
                rd.update_auxiliary_data(D, d)
        args = [(list(rd.route), rd.cost, rd.demand) for rd in given] \
            if form == "tuple" and name == "2optstar" else given
        res = ctx.call(getattr(ops, opname), *args, D, d, c["C"], c["L"],
                       LSOPT.BEST_ACCEPT if case["best"] else LSOPT.FIRST_ACCEPT, case["bound"])
        what = "%s(%r, d=%r, C=%r, L=%r, %s, %r)" % (
            opname, rs, d, c["C"], c["L"], "best" if case["best"] else "first", case["bound"])
        for r, rd in zip(rs, given):
            ctx.require(list(rd.route) == [0] + r + [0], "%s changed its input to %r", what, rd.route)
            ctx.require(abs(rd.cost - oracle.route_len(r, D)) < 1e-12, "%s changed its input", what)
        ctx.require((D == ls.array(c)).all() and d == c["d"], "%s changed the problem", what)
        ctx.require(len(res) == k + 1, "%s returned %r", what, res)
        found = res[-1] is not None
        for x in res:
            ctx.require((x is not None) == found, "%s returned %r", what, res)
        nb = ls.Neighborhood(c, rs, case["bound"], ordered)
        neighbors(rs, nb)
        new = None
        if found:
            new = []
            for rd in res[:-1]:
                r = list(rd.route)
                ctx.require(len(r) >= 2 and r[0] == 0 and r[-1] == 0 and 0 not in r[1:-1],
                            "%s returned the route %r", what, r)
                r = r[1:-1]
                new.append(r)
                ctx.require(abs(rd.cost - oracle.route_len(r, D)) <= oracle.tol(nb.old),
                            "%s reports the route %r to cost %r, it costs %r", what, r, rd.cost,
                            oracle.route_len(r, D))
                if c["C"]:
                    ctx.require(rd.demand is not None and abs(rd.demand - ls.load(r, d)) < 1e-9,
                                "%s reports the route %r to have the load %r, it is %r", what, r,
                                rd.demand, ls.load(r, d))
            ctx.require(sorted(sum(new, [])) == sorted(sum(rs, [])), "%s returned %r", what, new)
        nb.judge(ctx, what, found, new, res[-1], case["best"])
        ctx.label("found" if found else "not_found")
        ctx.nontrivial(bool(nb.infeasible) or (not (c["C"] or c["L"]) and len(nb.seen) > 4))
        if nb.infeasible:
            ctx.label("constraints_bind")
    return run


def targets():
    import verypy.local_search.inter_route_operators
    out = []
    for n in sorted(OPS):
        k, empty = OPS[n][2], OPS[n][4]
        q = 5000 if n != "chain" else 4000
        out.append(core.Target(n, (lambda k=k, e=empty: strategy_of(k, 9 if k == 2 else 8, e)),
                               runner(n), quick=q, thorough=q * 30, timeout_is_violation=True))
    for n in sorted(OPS):
        k = OPS[n][2]
        q = 250 if n != "chain" else 200
        out.append(core.Target("long_" + n, lambda k=k: st.fixed_dictionaries({
            "case": ls.planted_case(k, 6, 20 if k == 2 else 8), "best": st.booleans(), "bound": st.none()}),
            runner(n), quick=q, thorough=q * 40, timeout_is_violation=True))
    return out


if __name__ == "__main__":
    sys.exit(core.run_check("P12", targets(), rule=(
        "a limit rules out at least one otherwise improving move; without limits: more than four "
        "different moves"),
        assumptions=["symmetric distances, also such that do not satisfy the triangle inequality",
                     "moves that change the cost by less than 1e-8 relative to the bound, or meet a limit "
                     "within 1e-8, may be made or not"]))
