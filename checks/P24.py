import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core


@st.composite
def solution(draw):
    n = draw(st.integers(1, 30))
    order = draw(st.permutations(list(range(1, n + 1))))
    sol, used = [0], 0
    for i, c in enumerate(order):
        if i and draw(st.integers(0, 2)) == 0:
            sol.append(0)
            if draw(st.integers(0, 9)) == 0:
                sol.append(0)
        sol.append(c)
    sol.append(0)
    cost = draw(st.one_of(st.integers(0, 10 ** 6), st.integers(0, 10 ** 6).map(float),
                          st.integers(0, 10 ** 6).map(lambda x: x / 100.0), st.floats(0, 1e6)))
    return {"sol": sol, "cost": cost, "k": draw(st.sampled_from([None, None, "same", "other"])),
            "name": draw(st.sampled_from(["A-n5", "X", "route", "cost-a", "a.b"])), "np": draw(st.booleans())}


def split(sol):
    out, r = [], []
    for x in sol:
        if x == 0:
            if r:
                out.append(r)
            r = []
        else:
            r.append(x)
    return out


def opt(c, ctx):
    from verypy import cvrp_io
    import numpy as np
    sol, cost = c["sol"], c["cost"]
    if c["np"]:
        cost = np.float64(cost)
    txt = ctx.call(cvrp_io.as_OPT_solution, cost, list(sol))
    routes = split(sol)
    k = {"same": len(routes), "other": len(routes) + 1, None: None}[c["k"]]
    path = os.path.join(ctx.tmp, c["name"] + ("" if k is None else "-k%d" % k) + ".opt")
    try:
        with open(path, "w") as f:
            f.write(txt)
        rsol, rf, rk = ctx.call(cvrp_io.read_OPT_CVRP, path)
    finally:
        os.remove(path)
    what = "%r of cost %r is written as\n%s\n" % (sol, c["cost"], txt)
    lines = txt.strip("\n").split("\n")
    ctx.require(len(lines) == len(routes) + 1, "%s: not one line per route and the cost", what)
    for i, (l, r) in enumerate(zip(lines, routes)):
        head, _, tail = l.partition(":")
        ctx.require(head.split() == ["Route", "#%d" % (i + 1)] and [int(x) for x in tail.split()] == r,
                    "%s: route %d", what, i + 1)
    ctx.require(split(rsol) == routes and rsol == [0] + [x for r in routes for x in r + [0]],
                "%sand read as %r", what, rsol)
    ctx.require(abs(rf - c["cost"]) <= 0.00500001 if c["cost"] != int(c["cost"]) else rf == c["cost"],
                "%sand read with the cost %r", what, rf)
    ctx.require(rk == (len(routes) if k is None else k), "%sand read with %r routes", what, rk)
    ctx.label("k %s" % c["k"], "integer cost" if c["cost"] == int(c["cost"]) else "real cost")
    ctx.nontrivial(len(routes) > 1)


@st.composite
def foreign(draw):
    """solution files as other programs write them"""
    c = draw(solution())
    c["head"] = draw(st.sampled_from(["Route #%d:", "Route #%d: ", "route #%d :", "ROUTE %d:\t", "  Route #%d: "]))
    c["gap"] = draw(st.sampled_from([" ", "  ", "\t"]))
    c["costline"] = draw(st.sampled_from(["Cost %s", "Cost : %s", "cost: %s", "COST:%s", "Cost  %s  ", None]))
    c["eol"] = draw(st.sampled_from(["\n", "\r\n"]))
    c["first"] = draw(st.booleans())
    c["blank"] = draw(st.booleans())
    return c


def read(c, ctx):
    from verypy import cvrp_io
    routes = split(c["sol"])
    lines = [c["head"] % (i + 1) + c["gap"] + c["gap"].join(map(str, r)) for i, r in enumerate(routes)]
    if c["costline"]:
        cl = c["costline"] % c["cost"]
        lines = [cl] + lines if c["first"] else lines + [cl]
    if c["blank"]:
        lines.append("")
    txt = c["eol"].join(lines) + c["eol"]
    path = os.path.join(ctx.tmp, "s.opt")
    try:
        with open(path, "w", newline="") as f:
            f.write(txt)
        rsol, rf, rk = ctx.call(cvrp_io.read_OPT_CVRP, path)
    finally:
        os.remove(path)
    what = "\n%s\nis read" % txt
    ctx.require(rsol == [0] + [x for r in routes for x in r + [0]], "%s as %r", what, rsol)
    ctx.require(rf == (c["cost"] if c["costline"] else None), "%s with the cost %r", what, rf)
    ctx.require(rk == len(routes), "%s with %r routes", what, rk)
    ctx.nontrivial(len(routes) > 1)


def vrph(c, ctx):
    from verypy import cvrp_io
    sol = c["sol"]
    out = list(ctx.call(cvrp_io.as_VRPH_solution, list(sol)))
    what = "%r as a VRPH solution is %r" % (sol, out)
    routes = split(sol)
    ctx.require(out[0] == max(sol) + 1, "%s: the number of nodes", what)
    ctx.require(out[-1] == 0, "%s: the end", what)
    got = []
    for x in out[1:-1]:
        ctx.require(x != 0, "%s: a zero inside", what)
        if x < 0:
            got.append([])
        ctx.require(got, "%s: no route starts", what)
        got[-1].append(abs(x))
    ctx.require(got == routes, "%s, the routes %r", what, got)
    ctx.nontrivial(len(routes) > 1)


def targets():
    import verypy.cvrp_io
    return [core.Target("opt", solution, opt, quick=5000, thorough=150000, timeout_is_violation=True),
            core.Target("read", foreign, read, quick=3000, thorough=100000, timeout_is_violation=True),
            core.Target("vrph", solution, vrph, quick=3000, thorough=100000, timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P24", targets(), rule="more than one route", assumptions=[
        "solutions start and end at the depot and have a customer"]))
