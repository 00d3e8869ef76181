import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, tsplib


@st.composite
def case(draw, nmin=2, nmax=9):
    n = draw(st.integers(nmin, nmax))
    kind = draw(st.sampled_from(["int", "eighths", "real", "big"]))
    w = {"int": st.integers(0, 500), "eighths": st.integers(0, 8000).map(lambda x: x / 8.0),
         "real": st.one_of(st.floats(0, 1e4), st.floats(0, 1e-3)), "big": st.integers(0, 10 ** 9)}[kind]
    W = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            W[i][j] = W[j][i] = draw(w)
    sel = draw(st.one_of(st.none(), st.permutations(list(range(n))).map(list)))
    if sel is not None:
        sel = sel[:draw(st.integers(2, n))]
    return {"W": W, "kind": kind, "vrp": draw(st.sampled_from([True, True, False])), "sel": sel,
            "d": draw(st.one_of(st.none(), st.lists(st.integers(0, 99), min_size=n, max_size=n),
                                st.lists(st.integers(0, 99).map(float), min_size=n, max_size=n))),
            "C": draw(st.one_of(st.none(), st.integers(1, 10 ** 6), st.integers(1, 999).map(float))),
            "L": draw(st.one_of(st.none(), st.integers(1, 10 ** 6), st.integers(1, 999).map(float))),
            "precision": draw(st.sampled_from([None, None, 1, 8, 10, 1000])),
            "name": draw(st.sampled_from(["p", "a.b", "x-n5-k2", "P"])),
            "upper": draw(st.integers(0, 5)) == 0}


def write(c, ctx):
    import numpy as np
    from verypy import cvrp_io
    ext = ".vrp" if c["vrp"] else ".tsp"
    path = os.path.join(ctx.tmp, c["name"] + (ext.upper() if c["upper"] else ext))
    D = np.array(c["W"])
    kw = {}
    if c["sel"] is not None:
        kw["selected_idxs"] = list(c["sel"])
    if c["precision"] is not None:
        kw["float_to_int_precision"] = c["precision"]
    try:
        ctx.call(cvrp_io.write_TSPLIB_file, path, D, c["d"], c["C"], c["L"], **kw)
        with open(path) as f:
            txt = f.read()
        P = ctx.call(cvrp_io.read_TSPLIB_CVRP, path)
        K, L, S = ctx.call(cvrp_io.read_TSBLIB_additional_constraints, path)
    finally:
        if os.path.exists(path):
            os.remove(path)
    what = "%r is written as\n%s\n" % (c, txt)
    sel = c["sel"] if c["sel"] is not None else list(range(len(D)))
    ctx.require(P.size == len(sel) - 1, "%sand read with the size %r", what, P.size)
    R = P.distance_matrix
    ctx.require(tuple(R.shape) == (len(sel),) * 2, "%sand read with the matrix %r", what, R)
    p = c["precision"]
    for a, i in enumerate(sel):
        for b, j in enumerate(sel):
            want = D[i, j] if p is None else int(D[i, j] * p)
            ctx.require(R[a, b] == want, "%sand the distance of %d and %d is read as %r", what, i, j, R[a, b])
    ctx.require(P.coordinate_points is None, "%sand read with coordinates", what)
    if c["vrp"]:
        want = [0] + [c["d"][i] if c["d"] else 1 for i in sel[1:]]
        ctx.require(list(P.customer_demands) == want, "%sand read with the demands %r", what, P.customer_demands)
        if c["C"] is not None:
            ctx.require(P.capacity_constraint == c["C"], "%sand read with the capacity %r", what,
                        P.capacity_constraint)
        elif not c["d"]:
            ctx.require(P.capacity_constraint >= len(sel) - 1, "%sand read with the capacity %r", what,
                        P.capacity_constraint)
        ctx.require(L == c["L"], "%sand read with the maximum route cost %r", what, L)
    else:
        ctx.require(not P.customer_demands and P.capacity_constraint is None and L is None,
                    "%sand read with constraints", what)
    ctx.require(K is None and S is None, "%sand read with %r vehicles and the service time %r", what, K, S)
    ctx.label("vrp" if c["vrp"] else "tsp", c["kind"], "selected" if c["sel"] else "all")
    ctx.nontrivial(len(sel) > 2)


@st.composite
def recase(draw):
    """a file of explicit weights is read, written and read again"""
    m = draw(tsplib.model(types=("EXPLICIT", "EUC_2D", "EXACT_2D", "ATT", "GEO", "MAN_2D")))
    m["ST"] = None
    m["style"]["tsp"] = False
    m["depots"], m["depot"] = "one", draw(st.integers(1, m["n"]))
    m["C"] = m["C"] or 77
    m["L"] = draw(st.one_of(st.none(), st.integers(1, 999).map(str)))
    m["demands"] = [str(draw(st.integers(0, 50))) for _ in range(m["n"])]
    m["demands"][m["depot"] - 1] = "0"
    return m


def again(m, ctx):
    from verypy import cvrp_io
    first, second = os.path.join(ctx.tmp, "first.vrp"), os.path.join(ctx.tmp, "second.vrp")
    try:
        with open(first, "w", newline="") as f:
            f.write(tsplib.text(m))
        P = ctx.call(cvrp_io.read_TSPLIB_CVRP, first)
        K, L, S = ctx.call(cvrp_io.read_TSBLIB_additional_constraints, first)
        ctx.call(cvrp_io.write_TSPLIB_file, second, P.distance_matrix, P.customer_demands, P.capacity_constraint, L)
        Q = ctx.call(cvrp_io.read_TSPLIB_CVRP, second)
        L2 = ctx.call(cvrp_io.read_TSBLIB_additional_constraints, second)[1]
    finally:
        for p in (first, second):
            if os.path.exists(p):
                os.remove(p)
    what = "after reading, writing and reading\n%s\n" % tsplib.text(m)
    ctx.require(P.size == Q.size and (P.distance_matrix == Q.distance_matrix).all(), "%sthe distances are %r, not %r",
                what, Q.distance_matrix, P.distance_matrix)
    ctx.require(list(P.customer_demands) == list(Q.customer_demands), "%sthe demands are %r, not %r", what,
                Q.customer_demands, P.customer_demands)
    ctx.require(P.capacity_constraint == Q.capacity_constraint and L == L2, "%sthe constraints are %r, %r", what,
                Q.capacity_constraint, L2)
    ctx.label(m["type"])
    ctx.nontrivial(m["n"] > 2)


def targets():
    import verypy.cvrp_io
    return [core.Target("write", case, write, quick=6000, thorough=200000, timeout_is_violation=True),
            core.Target("write_large", lambda: case(9, 22), write, quick=300, thorough=10000,
                        timeout_is_violation=True),
            core.Target("again", recase, again, quick=3000, thorough=100000, timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P23", targets(), rule="more than two nodes are written", assumptions=[
        "distances are symmetric with a zero diagonal; capacity, maximum route cost and demands have integer values",
        "the first of the selected nodes is the depot"]))
