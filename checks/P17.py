import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, ls, oracle


@st.composite
def solution_case(draw, nmin=1, nmax=8):
    """a sequence of nodes with at least one visit to the depot, right or wrong"""
    n = draw(st.integers(nmin, nmax))
    m = draw(ls.matrix(n, kinds=None if nmax < 20 else ("pts", "round")))
    kind = draw(st.sampled_from(["perm", "perm", "perm", "any"]))
    if kind == "perm":
        seq = list(draw(st.permutations(list(range(1, n + 1)))))
        # depots in between, possibly repeated
        out = []
        for x in seq:
            out += [0] * draw(st.sampled_from([0, 0, 0, 1, 1, 2])) + [x]
        form = draw(st.sampled_from(["closed", "closed", "start", "end", "mid"]))
        if form in ("closed", "start"):
            out = [0] + out
        if form in ("closed", "end"):
            out = out + [0]
        if 0 not in out:
            out.append(0)
        err = draw(st.sampled_from(["", "", "", "drop", "dup", "swap"]))
        if err == "drop":
            del out[draw(st.integers(0, len(out) - 1))]
        elif err == "dup":
            out.insert(draw(st.integers(0, len(out))), draw(st.integers(1, n)))
        elif err == "swap":
            out[draw(st.integers(0, len(out) - 1))] = draw(st.integers(1, n))
    else:
        out = draw(st.lists(st.integers(0, n), min_size=1, max_size=n + 4))
    if 0 not in out:
        out.insert(draw(st.integers(0, len(out))), 0)
    d = [0] + draw(st.lists(st.one_of(st.integers(0, 9), st.integers(0, 72).map(lambda x: x / 8.0)),
                            min_size=n, max_size=n))
    loads, costs = loads_costs(out, m["M"], d)
    C = draw(st.sampled_from([None, "hit", "under", "any"]))
    if C == "hit":
        C = max(loads)
    elif C == "under":
        C = max(loads) - draw(st.sampled_from([0.125, 1, 2]))
    elif C == "any":
        C = draw(st.integers(1, 40))
    L = draw(st.sampled_from([None, "hit", "under", "any"]))
    if L == "hit":
        L = max(costs) + draw(st.sampled_from([0, 0, 1e-6]))
    elif L == "under":
        L = max(costs) * draw(st.sampled_from([0.999999, 0.9, 0.5]))
    elif L == "any":
        L = draw(st.integers(1, 300))
    return {"M": m["M"], "kind": m["kind"], "sol": out, "d": d, "C": max(0, C) if C else None, "L": L or None,
            "print": draw(st.booleans()), "np": draw(st.booleans())}


def parts(sol):
    """routes of the cyclic sequence, with at least one depot"""
    z = sol.index(0)
    rot = sol[z:] + sol[:z]
    out, cur = [], []
    for x in rot[1:] + [0]:
        if x == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out


def loads_costs(sol, M, d):
    rs = parts(sol)
    return [sum(d[x] for x in r) for r in rs], [oracle.route_len(r, M) for r in rs]


class StdErr(object):
    """what is written to the standard error stream, also by those who keep a reference to it"""

    def __init__(self, tmp):
        self.path = os.path.join(tmp, "stderr")

    def __enter__(self):
        sys.stderr.flush()
        self.saved = os.dup(2)
        fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 2)
        os.close(fd)
        return self

    def __exit__(self, *exc):
        for f in (sys.stderr, sys.__stderr__):
            f.flush()
        os.dup2(self.saved, 2)
        os.close(self.saved)
        with open(self.path) as i:
            self.text = i.read()


def validate(case, ctx):
    from verypy.cvrp_ops import validate_solution_feasibility
    import numpy as np
    M, sol, d, C, L = case["M"], case["sol"], case["d"], case["C"], case["L"]
    D = ls.array(case)
    given = list(sol)
    arg = np.array(sol) if case["np"] else given
    with StdErr(ctx.tmp) as err:
        res = ctx.call(validate_solution_feasibility, arg, D, list(d), C, L, case["print"])
    printed = err.text + ctx.stderr + ctx.stdout
    what = "validate_solution_feasibility(%r, d=%r, C=%r, L=%r)" % (sol, d, C, L)
    ctx.require(list(arg) == sol, "%s changed its input", what)
    loads, costs = loads_costs(sol, M, d)
    n = len(M) - 1
    covers = sorted(x for x in sol if x) == list(range(1, n + 1))
    ctx.require(len(res) == 3, "%s returned %r", what, res)
    ctx.require(bool(res[0]) == covers, "%s says %r, each customer is served once: %r", what, res, covers)
    over = max(loads) - C if C else -1.0
    if abs(over) > ls.EPS_HI or over == 0:
        ctx.require(bool(res[1]) == (over <= 0), "%s says %r, the largest load is %r", what, res, max(loads))
    over = max(costs) - L if L else -1.0
    if abs(over) > ls.EPS_HI:
        ctx.require(bool(res[2]) == (over <= 0), "%s says %r, the largest cost is %r", what, res, max(costs))
    bad = not all(bool(x) for x in res)
    if case["print"]:
        ctx.require(bool(printed.strip()) == bad, "%s says %r and prints %r", what, res, printed)
    else:
        ctx.require(not printed, "%s prints %r", what, printed)
    ctx.label("covers" if covers else "covers_not", "starts_mid_route" if sol[0] else "starts_at_depot")
    ctx.nontrivial(len(loads) > 1 or not covers)


@st.composite
def objective_case(draw, nmin=1, nmax=9):
    n = draw(st.integers(nmin, nmax))
    m = draw(ls.matrix(n, kinds=None if nmax < 20 else ("pts", "round")))
    perm = list(draw(st.permutations(list(range(1, n + 1)))))
    k = draw(st.integers(1, n))
    cuts = sorted(draw(st.lists(st.integers(0, n), min_size=k - 1, max_size=k - 1)))
    rs = [perm[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    return {"M": m["M"], "kind": m["kind"], "routes": rs,
            "starts": draw(st.lists(st.booleans(), min_size=k, max_size=k)),
            "ends": draw(st.lists(st.booleans(), min_size=k, max_size=k)),
            "extra": draw(st.lists(st.integers(0, 2), min_size=k + 1, max_size=k + 1)),
            "rot": draw(st.integers(0, 20)), "tuples": draw(st.booleans())}


def objective(case, ctx):
    from verypy.cvrp_ops import recalculate_objective, normalize_solution
    from verypy.util import objf
    D, rs = ls.array(case), [r for r in case["routes"] if r]
    cost = sum(oracle.route_len(r, case["M"]) for r in rs)
    tol = oracle.tol(cost)

    def same(f, what, arg):
        ctx.require(abs(float(f) - cost) <= tol, "%s(%r) is %r, the cost is %r", what, arg, f, cost)
    # giant tour, with extra visits to the depot
    giant = [0]
    for r, e in zip(case["routes"], case["extra"]):
        giant += [0] * e + list(r) + [0]
    same(ctx.call(recalculate_objective, giant, D), "recalculate_objective", giant)
    same(ctx.call(objf, giant, D), "objf", giant)
    # closed or not, starting anywhere
    open_ = giant[:-1]
    r = case["rot"] % len(open_)
    rot = open_[r:] + open_[:r]
    same(ctx.call(recalculate_objective, rot, D), "recalculate_objective", rot)
    # separate routes with or without the depot
    sep = [[0] * s + list(x) + [0] * e for x, s, e in
           zip(rs, case["starts"], case["ends"])]
    if case["tuples"]:
        sep = [tuple(x) for x in sep]
    if sep:
        same(ctx.call(recalculate_objective, sep, D), "recalculate_objective", sep)
    # the normalized form
    expect = sorted(min(list(x), list(x)[::-1]) for x in rs)
    norm = [0]
    for x in expect:
        norm += x + [0]
    forms = [giant]
    if sep:
        forms.append([[0] * e + list(x) + [0] for x, e in zip(case["routes"], case["extra"])])
        forms.append(sep)
    for f in forms:
        keep = [list(x) if not isinstance(x, int) else x for x in f]
        res = ctx.call(normalize_solution, f)
        ctx.require([list(x) if not isinstance(x, int) else x for x in f] == keep,
                    "normalize_solution changed its input %r to %r", keep, f)
        ctx.require(list(res) == norm, "normalize_solution(%r) is %r, not %r", f, res, norm)
        again = ctx.call(normalize_solution, res)
        ctx.require(list(again) == norm, "normalize_solution(%r) is %r", res, again)
    ctx.nontrivial(len(rs) > 1)


def targets():
    import verypy.cvrp_ops
    return [core.Target("validate", solution_case, validate, quick=10000, thorough=300000,
                        timeout_is_violation=True),
            core.Target("validate_large", lambda: solution_case(10, 45), validate, quick=500, thorough=10000,
                        timeout_is_violation=True),
            core.Target("objective_large", lambda: objective_case(10, 45), objective, quick=300, thorough=10000,
                        timeout_is_violation=True),
            core.Target("objective", objective_case, objective, quick=6000, thorough=150000,
                        timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P17", targets(), rule=(
        "validate: more than one route or not all customers served once; objective: more than one route"),
        assumptions=["solutions contain at least one visit to the depot",
                     "limits met within 1e-8 may be judged either way"]))
