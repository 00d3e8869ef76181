import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, ls, oracle


@st.composite
def case_strategy(draw):
    c = draw(ls.routes_case(kmin=1, kmax=4, nmin=1, nmax=10, empties=True, constraints=("", "C")))
    k = len(c["routes"])
    return {"case": c, "extra": draw(st.lists(st.integers(0, 2), min_size=k, max_size=k)),
            "dirs": draw(st.sampled_from([[None], [1], [-1], [1, -1], [-1, 1], [None, 1]]))}


@st.composite
def large_strategy(draw):
    k = draw(st.integers(2, 8))
    c = draw(ls.planted_case(k, 3, 12, ("", "C")))
    return {"case": c, "extra": draw(st.lists(st.integers(0, 2), min_size=k, max_size=k)),
            "dirs": draw(st.sampled_from([[None], [1], [-1], [1, -1], [-1, 1], [None, 1]]))}


def check_rd(ctx, what, rd, r, c):
    D = c["M"]
    cost, load = oracle.route_len(r, D), ls.load(r, c["d"])
    ctx.require(list(rd.route) == [0] + r + [0], "%s has the route %r, not %r", what, rd.route, r)
    ctx.require(abs(rd.cost - cost) <= oracle.tol(cost), "%s: the cost of %r is %r, not %r", what, r, rd.cost,
                cost)
    ctx.require(abs(rd.demand - load) <= 1e-9, "%s: the load of %r is %r, not %r", what, r, rd.demand, load)
    ctx.require(set(rd.node_set) == set(r), "%s: the customers of %r are %r", what, r, rd.node_set)
    unpacked = tuple(rd)
    ctx.require(unpacked[0] is rd.route and unpacked[1] == rd.cost and unpacked[2] == rd.demand and
                unpacked[3] == rd.node_set and len(unpacked) == 4, "%s unpacks to %r", what, unpacked)
    for i in range(4):
        ctx.require(rd[i] == unpacked[i], "%s[%d] is %r", what, i, rd[i])
    try:
        rd[4]
        ctx.fail("%s[4] is there" % what)
    except IndexError:
        pass
    ctx.require(rd.is_empty() == (not r), "%s of %r is_empty() is %r", what, r, rd.is_empty())


def run(case, ctx):
    from verypy.routedata import RouteData
    c = case["case"]
    D, d = ls.array(c), c["d"]
    rs = [list(r) for r in c["routes"]]
    giant = [0]
    for r, e in zip(rs, case["extra"]):
        giant += [0] * e + r + [0]
    keep = list(giant)
    rds = ctx.call(RouteData.from_solution, giant, D, d)
    ctx.require(giant == keep, "from_solution changed its input")
    used = [r for r in rs if r]
    ctx.require(len(rds) == len(used), "from_solution(%r) has %d routes", giant, len(rds))
    for rd, r in zip(rds, used):
        check_rd(ctx, "from_solution(%r)" % giant, rd, r, c)
    want = [0]
    for r in used:
        want += r + [0]
    back = ctx.call(RouteData.to_solution, rds)
    ctx.require(list(back) == want, "to_solution(from_solution(%r)) is %r", giant, back)
    rds2 = ctx.call(RouteData.from_routes, [[0] + r + [0] for r in rs], D, d)
    ctx.require(len(rds2) == len(rs), "from_routes(%r) has %d routes", rs, len(rds2))
    for rd, r in zip(rds2, rs):
        check_rd(ctx, "from_routes(%r)" % rs, rd, r, c)
    # cumulative costs and loads in both directions
    fwd = any(x in (None, 1) for x in case["dirs"])
    rwd = any(x in (None, -1) for x in case["dirs"])
    for rd, r in zip(rds2, rs):
        for x in case["dirs"]:
            if x is None:
                ctx.call(rd.update_auxiliary_data, D, d)
            else:
                ctx.call(rd.update_auxiliary_data, D, d, x)
        t = [0] + r + [0]
        for i in range(len(t)):
            head = sum(c["M"][t[j]][t[j + 1]] for j in range(i))
            tail = sum(c["M"][t[j]][t[j + 1]] for j in range(i, len(t) - 1))
            for on, l, w, want_l, want_d in (
                    (fwd, rd.fwd_l, rd.fwd_d, head, ls.load(t[:i + 1], d)),
                    (rwd, rd.rwd_l, rd.rwd_d, tail, ls.load(t[i:], d))):
                if not on:
                    continue
                ctx.require(len(l) == len(w) == len(t), "the data of %r are %r and %r", t, l, w)
                ctx.require(abs(l[i] - want_l) <= oracle.tol(want_l), "the cost up to position %d of %r is %r, "
                            "not %r", i, t, l[i], want_l)
                ctx.require(abs(w[i] - want_d) <= 1e-9, "the load up to position %d of %r is %r, not %r", i, t,
                            w[i], want_d)
        ctx.require(list(rd.route) == t, "update_auxiliary_data changed the route")
    for rd, r in zip(rds2, rs):
        ctx.call(rd.update_node_set)
        ctx.require(set(rd.node_set) == set(r), "the customers of %r are %r", r, rd.node_set)
        ctx.call(rd.normalize)
        t = min([0] + r + [0], ([0] + r + [0])[::-1])
        ctx.require(list(rd.route) == t, "%r normalizes to %r", r, rd.route)
        str(rd)
    e = ctx.call(RouteData)
    ctx.require(list(e.route) == [0, 0] and e.is_empty() and e.cost == 0 and e.demand == 0, "RouteData() is %s", e)
    e.route.insert(1, 5)
    ctx.require(list(ctx.call(RouteData).route) == [0, 0], "RouteData() objects share the route")
    for r in rs:
        x = ctx.call(RouteData, [0] + r + [0], 1.0, 2.0, None, True)
        ctx.require(set(x.node_set) == set(r), "the customers of %r are %r", r, x.node_set)
    ctx.nontrivial(len(used) > 1)


def targets():
    import verypy.routedata
    return [core.Target("routedata", case_strategy, run, quick=6000, thorough=150000,
                        timeout_is_violation=True),
            core.Target("routedata_large", large_strategy, run, quick=300, thorough=10000,
                        timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P21", targets(), rule="more than one route that is not empty"))
