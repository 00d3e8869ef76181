import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
import re
from hypothesis import strategies as st
from vplib import core, ls, oracle


@st.composite
def encoding_case(draw, nmin=0, nmax=10, kmax=5):
    n = draw(st.integers(nmin, nmax))
    perm = list(draw(st.permutations(list(range(1, n + 1)))))
    cuts = sorted(draw(st.lists(st.integers(0, n), max_size=kmax)))
    rs = [perm[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    return {"n": n, "routes": rs, "extra": draw(st.lists(st.integers(0, 2), min_size=len(rs), max_size=len(rs))),
            "starts": draw(st.lists(st.booleans(), min_size=len(rs), max_size=len(rs))),
            "ends": draw(st.lists(st.booleans(), min_size=len(rs), max_size=len(rs))),
            "d": [0] + draw(st.lists(st.integers(0, 80).map(lambda x: x / 8.0), min_size=n, max_size=n)),
            "np": draw(st.booleans())}


def encoding(case, ctx):
    from verypy import util
    import numpy as np
    rs = [r for r in case["routes"] if r]
    giant = [0]
    for r, e in zip(case["routes"], case["extra"]):
        giant += [0] * e + r + [0]
    want = [0]
    for r in rs:
        want += r + [0]
    keep = list(giant)

    def same(f, arg, expect, *more):
        res = ctx.call(f, arg, *more)
        if expect is not None and res is not None and not isinstance(expect, (int, float, bool, set)):
            res = [list(map(int, x)) if hasattr(x, "__len__") else int(x) for x in res]
        ctx.require(res == expect and (res is None) == (expect is None), "%s(%r) is %r, not %r", f.__name__, arg,
                    res, expect)
    closed = [[0] + r + [0] for r in rs]
    same(util.sol2routes, giant, closed)
    if case["np"]:
        ctx.require([list(map(int, r)) for r in ctx.call(util.sol2routes, list(np.array(giant)))] == closed,
                    "sol2routes(%r) of numpy integers is wrong", giant)
    same(util.without_empty_routes, giant, want)
    ctx.require(giant == keep, "%r was changed to %r", keep, giant)
    # and back, whatever the routes look like
    if rs:
        for form in (closed, rs, [tuple(x) for x in closed],
                     [[0] * s + r + [0] * e for r, s, e in zip(rs, case["starts"], case["ends"])]):
            if form and isinstance(form[0], tuple):
                form = [list(x) for x in form]
            k = [list(x) for x in form]
            same(util.routes2sol, form, want)
            ctx.require(form == k, "routes2sol changed its input %r to %r", k, form)
        same(util.routes2sol, [r for r in case["routes"]], want)
        same(util.routes2sol, ctx.call(util.sol2routes, giant), want)
    same(util.sol2routes, [], [])
    same(util.sol2routes, None, [])
    same(util.routes2sol, [], None)
    same(util.routes2sol, None, None)
    # edges
    und, dir_ = set(), set()
    for i in range(1, len(giant)):
        a, b = giant[i - 1], giant[i]
        und.add((min(a, b), max(a, b)))
        dir_.add((a, b))
    same(util.sol2edgeset, giant, und)
    same(util.sol2edgeset, giant, und, True)
    same(util.sol2edgeset, giant, dir_, False)
    # the load
    load = sum(case["d"])
    ctx.require(abs(ctx.call(util.totald, giant, case["d"]) - load) < 1e-9, "totald(%r) is not %r", giant, load)
    ctx.require(ctx.call(util.totald, giant, None) == 0, "totald without demands")
    ctx.label("empty_routes" if len(giant) != len(want) else "no_empty_routes")
    ctx.nontrivial(len(rs) > 1)


@st.composite
def compare_case(draw):
    f = st.one_of(st.none(), st.sampled_from([0.0, 1.0, 2.0, 10.0, 10.5]), st.floats(0, 1e6, allow_nan=False))
    k = st.one_of(st.none(), st.integers(0, 4))
    return {"a": [draw(f), draw(k)], "b": [draw(f), draw(k)], "c": [draw(f), draw(k)],
            "minimize_K": draw(st.booleans()),
            "l": draw(st.lists(st.integers(-5, 5), max_size=6)),
            "v": draw(st.lists(st.sampled_from([None, 0, "", [], 1, "x", [0], 2.5]), max_size=5))}


def compare(case, ctx):
    from verypy import util
    mk = case["minimize_K"]

    def better(x, y):
        """y is better than x"""
        if None in y:
            return False
        if None in x:
            return True
        return (y[1], y[0]) < (x[1], x[0]) if mk else y[0] < x[0]
    for x in ("a", "b", "c"):
        for y in ("a", "b", "c"):
            x_, y_ = case[x], case[y]
            res = ctx.call(util.is_better_sol, x_[0], x_[1], y_[0], y_[1], mk)
            ctx.require(bool(res) == better(x_, y_), "is_better_sol(%r, %r, minimize_K=%r) is %r", x_, y_, mk, res)
    l = case["l"]
    ctx.require(bool(ctx.call(util.is_sorted, l)) == (l == sorted(l)), "is_sorted(%r)", l)
    v = case["v"]
    first = [x for x in v if x]
    ctx.require(ctx.call(util.first_valid, v) == (first[0] if first else None), "first_valid(%r)", v)
    ctx.nontrivial(None not in case["a"] + case["b"])


@st.composite
def sort_case(draw):
    word = st.text(alphabet="abAB-_. 0123456789", max_size=8)
    files = st.builds(lambda a, n, b, k: "%s%d%s-k%d.vrp" % (a, n, b, k), st.sampled_from(["A-n", "E-n", "a-n", "P"]),
                      st.integers(0, 200), st.sampled_from(["", "x", "-"]), st.integers(0, 20))
    n = draw(st.integers(1, 6))
    m = draw(ls.matrix(n))
    return {"names": draw(st.lists(st.one_of(word, files), max_size=8)), "m": m}


def sort(case, ctx):
    from verypy import util
    names = case["names"]
    keep = list(names)
    res = ctx.call(util.natural_sort, names)
    ctx.require(names == keep, "natural_sort changed its input")

    def key(s):
        return [(1, int(t), "") if t[0] in "0123456789" else (0, 0, t.lower())
                for t in re.findall(r"[0-9]+|[^0-9]+", s)]

    def cmp_key(s):
        # text and numbers alternate; a name starting with a digit has an empty text before it
        ks = key(s)
        if ks and ks[0][0] == 1:
            ks = [(0, 0, "")] + ks
        return ks
    want = sorted(names, key=cmp_key)
    ctx.require(sorted(res) == sorted(names), "natural_sort(%r) is %r", names, res)
    ctx.require([cmp_key(x) for x in res] == [cmp_key(x) for x in want], "natural_sort(%r) is %r, not %r", names,
                res, want)
    D = ls.array(case["m"])
    nn = ctx.call(util.produce_nn_list, D)
    ctx.require(len(nn) == len(D), "produce_nn_list has %d rows", len(nn))
    for i, row in enumerate(nn):
        ctx.require(sorted(int(j) for j, _ in row) == list(range(len(D))), "produce_nn_list row %d is %r", i, row)
        ctx.require(all(w == D[i, j] for j, w in row) and [w for _, w in row] == sorted(w for _, w in row),
                    "produce_nn_list row %d is %r", i, row)
    ctx.nontrivial(len(names) > 1)


def targets():
    import verypy.util
    return [core.Target("encoding", encoding_case, encoding, quick=6000, thorough=150000,
                        timeout_is_violation=True),
            core.Target("encoding_large", lambda: encoding_case(10, 80, 30), encoding, quick=400, thorough=10000,
                        timeout_is_violation=True),
            core.Target("compare", compare_case, compare, quick=4000, thorough=100000,
                        timeout_is_violation=True),
            core.Target("sort", sort_case, sort, quick=3000, thorough=60000, timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P19", targets(), rule=(
        "encoding: more than one route; compare: two solutions that exist; sort: more than one name"),
        assumptions=["giant tours start and end with the depot"]))
