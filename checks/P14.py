import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from itertools import permutations
from hypothesis import strategies as st
from vplib import core, ls, oracle


class Ambiguous(Exception):
    pass


def cheapest(r, x, case):
    """(new route, delta) after the cheapest allowed insertion, None if there is none.
    The capacity is not considered."""
    M, L = case["M"], case["L"]
    t = [0] + r + [0]
    base = oracle.route_len(r, M)
    opts = []
    for i in range(1, len(t)):
        delta = M[t[i - 1]][x] + M[x][t[i]] - M[t[i - 1]][t[i]]
        if L:
            over = base + delta - L
            if abs(over) <= ls.EPS_HI:
                raise Ambiguous()
            if over > 0:
                continue
        opts.append((delta, i))
    if not opts:
        return None
    opts.sort()
    delta, i = opts[0]
    if len(opts) > 1 and opts[1][0] - delta < ls.EPS_HI:
        # the same route results, e.g. of an empty one?
        for e, j in opts[1:]:
            if e - delta < ls.EPS_HI and ls.canon(r[:j - 1] + [x] + r[j - 1:]) != \
                    ls.canon(r[:i - 1] + [x] + r[i - 1:]):
                raise Ambiguous()
    return r[:i - 1] + [x] + r[i - 1:], delta


def fits(r, xs, case):
    if not case["C"]:
        return True
    over = ls.load(r + list(xs), case["d"]) - case["C"]
    if 0 < abs(over) <= ls.EPS_HI:
        raise Ambiguous()
    return over <= 0


def subsequence(old, new):
    it = iter(new)
    return all(x in it for x in old)


def rdata(r, case):
    from verypy.routedata import RouteData
    return RouteData([0] + list(r) + [0], oracle.route_len(r, case["M"]),
                     ls.load(r, case["d"]) if case["d"] else 0.0)


def check_receiver(ctx, what, rd, case):
    r = list(rd.route)
    ctx.require(len(r) >= 2 and r[0] == 0 and r[-1] == 0 and 0 not in r[1:-1],
                "%s returned the route %r", what, r)
    r = r[1:-1]
    c = oracle.route_len(r, case["M"])
    ctx.require(abs(rd.cost - c) <= oracle.tol(c), "%s reports the cost %r of the route %r, it is %r",
                what, rd.cost, r, c)
    if case["C"]:
        w = ls.load(r, case["d"])
        ctx.require(abs(rd.demand - w) <= 1e-9, "%s reports the load %r of the route %r, it is %r",
                    what, rd.demand, r, w)
    ctx.require(ls.feasible(r, case) is not False, "%s returned the infeasible route %r", what, r)
    return r


@st.composite
def insert_strategy(draw):
    c = draw(ls.routes_case(kmin=2, kmax=2, nmin=2, nmax=9, constraints=("", "C", "C", "L", "CL", "CL")))
    if draw(st.integers(0, 4)) == 0:
        c["routes"][1] = []
    form = draw(st.sampled_from(["int", "list", "route"]))
    if form == "int":
        c["routes"][0] = c["routes"][0][:1]
    if c["L"] and draw(st.booleans()):
        # hardly enough for the cheapest insertions
        route, longest = list(c["routes"][1]), oracle.route_len(c["routes"][1], c["M"])
        for x in c["routes"][0]:
            try:
                route = cheapest(route, x, dict(c, L=None))[0]
            except Ambiguous:
                break
            longest = max(longest, oracle.route_len(route, c["M"]))
        c["L"] = longest * draw(st.sampled_from([0.999, 1.0001, 1.001, 1.02])) or 1.0
        if c["L"] < oracle.route_len(c["routes"][1], c["M"]):
            c["L"] = longest
    return {"case": c, "form": form, "best": draw(st.booleans()),
            "bound": draw(st.one_of(st.none(), st.none(), st.integers(-40, 400).map(lambda x: x / 4.0)))}


def insert(case, ctx):
    from verypy.local_search import LSOPT
    from verypy.local_search.inter_route_operators import do_insert_move
    c = case["case"]
    xs, r = c["routes"]
    D, d = ls.array(c), (list(c["d"]) if c["d"] else None)
    if case["form"] == "int":
        given = xs[0]
    elif case["form"] == "list":
        given = list(xs)
    else:
        given = rdata(xs, c)
    rd = rdata(r, c)
    res = ctx.call(do_insert_move, given, rd, D, d, c["C"], c["L"],
                   LSOPT.BEST_ACCEPT if case["best"] else LSOPT.FIRST_ACCEPT, case["bound"])
    what = "do_insert_move(%r, %r, d=%r, C=%r, L=%r, %s, %r)" % (
        xs, r, d, c["C"], c["L"], "best" if case["best"] else "first", case["bound"])
    ctx.require(list(rd.route) == [0] + r + [0] and (D == ls.array(c)).all() and d == c["d"],
                "%s changed its input", what)
    if case["form"] == "list":
        ctx.require(given == xs, "%s changed its input", what)
    if case["form"] == "route":
        ctx.require(list(given.route) == [0] + xs + [0], "%s changed its input", what)
    ctx.require(len(res) == 3, "%s returned %r", what, res)
    empty, new, delta = res
    found = delta is not None
    ctx.require((empty is not None) == found and (new is not None) == found, "%s returned %r", what, res)
    if found:
        ctx.require(empty.is_empty() and not empty.cost, "%s returned %s", what, empty)
        nr = check_receiver(ctx, what, new, c)
        ctx.require(sorted(nr) == sorted(r + xs) and subsequence(r, nr), "%s returned %r", what, nr)
        real = oracle.route_len(nr, c["M"]) - oracle.route_len(r, c["M"])
        ctx.require(abs(real - delta) <= oracle.tol(real), "%s reports the change of cost %r, it is %r", what,
                    delta, real)
        if case["bound"] is not None:
            ctx.require(delta <= case["bound"] + ls.EPS_HI, "%s changes the cost by %r", what, delta)
    ctx.label("found" if found else "not_found")
    try:
        route, total, fail = list(r), 0.0, not fits(r, xs, c)
        maybe = False
        for x in xs:
            if fail:
                break
            step = cheapest(route, x, c)
            if step is None:
                fail = True
                break
            route, total = step[0], total + step[1]
            if case["bound"] is not None:
                if abs(total - case["bound"]) <= ls.EPS_HI:
                    raise Ambiguous()
                fail = total > case["bound"]
                maybe = maybe or total > case["bound"]
    except Ambiguous:
        ctx.label("ambiguous")
        ctx.nontrivial(False)
        return
    ctx.nontrivial(fail or len(r) > 0)
    if case["best"]:
        ctx.require(found == (not fail), "%s %s, the cheapest insertions %s", what,
                    "succeeds" if found else "fails", "fail" if fail else "lead to %r" % route)
        if found:
            ctx.require(abs(delta - total) <= oracle.tol(total), "%s leads to %r, the cheapest insertions "
                        "lead to %r", what, nr, route)
    elif case["bound"] is None:
        ctx.require(found == (not fail), "%s %s, the cheapest insertions %s", what,
                    "succeeds" if found else "fails", "fail" if fail else "lead to %r" % route)


@st.composite
def redistribute_strategy(draw):
    level = draw(st.sampled_from([0, 0, 1, 2, 3]))
    c = draw(ls.routes_case(kmin=2, kmax=4, nmin=2, nmax=10, constraints=("", "C", "C", "CL", "CL", "L")))
    c["routes"][0] = c["routes"][0][:4]
    return {"case": c, "level": level, "best": draw(st.booleans()), "single": draw(st.booleans()),
            "bound": draw(st.one_of(st.none(), st.none(), st.integers(-40, 400).map(lambda x: x / 4.0)))}


def simulate(xs, routes, c, positions):
    """first-fit of the customers in the given order; (delta, routes) or None"""
    routes, total = [list(r) for r in routes], 0.0
    for x in xs:
        for i, r in enumerate(routes):
            if not fits(r, [x], c):
                continue
            if not positions:
                routes[i] = r + [x]
                break
            step = cheapest(r, x, c)
            if step is not None:
                routes[i], total = step[0], total + step[1]
                break
        else:
            return None
    return total, routes


def redistribute(case, ctx):
    from verypy.local_search import LSOPT
    from verypy.routedata import RouteData
    from verypy.local_search.inter_route_operators import do_redistribute_move
    c = case["case"]
    xs, rs = c["routes"][0], c["routes"][1:]
    D, d = ls.array(c), (list(c["d"]) if c["d"] else None)
    given, rds = rdata(xs, c), [rdata(r, c) for r in rs]
    arg = rds[0] if len(rds) == 1 and case["single"] else list(rds)
    res = ctx.call(do_redistribute_move, given, arg, D, d, c["C"], c["L"],
                   LSOPT.BEST_ACCEPT if case["best"] else LSOPT.FIRST_ACCEPT, case["bound"], case["level"])
    what = "do_redistribute_move(%r, %r, d=%r, C=%r, L=%r, %s, %r, %d)" % (
        xs, rs, d, c["C"], c["L"], "best" if case["best"] else "first", case["bound"], case["level"])
    for a, b in zip([xs] + rs, [given] + rds):
        ctx.require(list(b.route) == [0] + a + [0], "%s changed its input", what)
    ctx.require(arg is rds[0] or arg == rds, "%s changed its input", what)
    ctx.require((D == ls.array(c)).all() and d == c["d"], "%s changed its input", what)
    ctx.require(len(res) == len(rs) + 2, "%s returned %r", what, res)
    found = res[-1] is not None
    for x in res:
        ctx.require((x is not None) == found, "%s returned %r", what, res)
    if found:
        ctx.require(res[0].is_empty() and not res[0].cost, "%s returned %s", what, res[0])
        news = [check_receiver(ctx, what, rd, c) for rd in res[1:-1]]
        ctx.require(sorted(sum(news, [])) == sorted(xs + sum(rs, [])), "%s returned %r", what, news)
        orders = [rs] if case["level"] < 2 else permutations(rs)
        ctx.require(any(all(subsequence(o, n) for o, n in zip(order, news)) for order in orders),
                    "%s returned %r", what, news)
        old = sum(oracle.route_len(r, c["M"]) for r in rs)
        real = sum(oracle.route_len(r, c["M"]) for r in news) - old
        delta = float(res[-1])
        ctx.require(abs(real - delta) <= oracle.tol(old), "%s reports the change of cost %r, it is %r", what,
                    delta, real)
        if case["bound"]:
            ctx.require(delta <= case["bound"] + ls.EPS_HI, "%s changes the cost by %r", what, delta)
    ctx.label("found" if found else "not_found", "level%d" % case["level"])
    if case["bound"]:
        ctx.nontrivial(found)
        return
    # does a first fit exist?
    xorders = [tuple(xs)] if case["level"] in (0, 2) else list(permutations(xs))
    rorders = [rs] if case["level"] in (0, 1) else list(permutations(rs))
    try:
        # positions do not matter without L
        if c["L"] and not case["best"] and case["level"]:
            return
        if not c["L"]:
            ok = any(simulate(x, r, c, False) is not None for x in xorders for r in rorders)
            ctx.require(found == ok, "%s %s", what, "succeeds" if found else "fails")
            ctx.nontrivial(not ok)
        # (insertions that make a route cheaper are not anticipated)
        if case["best"] and (case["level"] == 0 or c["kind"] == "pts"):
            sims = [simulate(x, r, c, True) for x in xorders for r in rorders]
            best = min([s[0] for s in sims if s is not None] or [None])
            ctx.require(found == (best is not None), "%s %s, but the insertions %s", what,
                        "succeeds" if found else "fails", "fail" if best is None else "are possible")
            if found:
                ctx.require(abs(res[-1] - best) <= oracle.tol(best), "%s changes the cost by %r, it should be "
                            "%r", what, res[-1], best)
                ctx.label("compared")
                ctx.nontrivial(len(rs) > 1 or case["level"] == 0)
    except Ambiguous:
        ctx.label("ambiguous")


@st.composite
def large_insert(draw):
    """a few customers and one long route"""
    c = draw(ls.planted_case(2, 4, 30))
    c["routes"][0] = c["routes"][0][:draw(st.integers(1, 4))]
    if c["C"]:
        loads = [ls.load(r, c["d"]) for r in c["routes"]]
        c["C"] = max(max(loads), sum(loads) * draw(st.sampled_from([0.98, 1.0, 1.2])))
    return {"case": c, "form": draw(st.sampled_from(["list", "route"])), "best": draw(st.booleans()), "bound": None}


@st.composite
def large_redistribute(draw):
    c = draw(ls.planted_case(draw(st.integers(3, 7)), 3, 9))
    c["routes"][0] = c["routes"][0][:4]
    return {"case": c, "level": draw(st.sampled_from([0, 0, 1, 2, 3])), "best": draw(st.booleans()),
            "single": draw(st.booleans()), "bound": None}


def targets():
    import verypy.local_search.inter_route_operators
    return [core.Target("insert", insert_strategy, insert, quick=7000, thorough=150000,
                        timeout_is_violation=True),
            core.Target("large_insert", large_insert, insert, quick=300, thorough=10000,
                        timeout_is_violation=True),
            core.Target("large_redistribute", large_redistribute, redistribute, quick=300, thorough=10000,
                        timeout_is_violation=True),
            core.Target("redistribute", redistribute_strategy, redistribute, quick=5000, thorough=100000,
                        timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P14", targets(), rule=(
        "insert: the insertion fails, or the receiving route is not empty; redistribute: the "
        "redistribution fails for the capacity, or was compared to the best one over the orders tried"),
        assumptions=["cases with ties between insertion positions, or limits met within 1e-8, are checked "
                     "for feasibility and accounting only",
                     "that the best of the insertion orders is taken is required only if the distances "
                     "satisfy the triangle inequality"]))
