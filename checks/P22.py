import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from vplib import core, tsplib
from vplib.dist import allowed, geo_rad


def num(s):
    return float(s) if "." in s else int(s)


def run(m, ctx):
    from verypy import cvrp_io
    path = os.path.join(ctx.tmp, m["name"] + (".tsp" if m["style"]["tsp"] else ".vrp"))
    txt = tsplib.text(m)
    with open(path, "w", newline="") as f:
        f.write(txt)
    try:
        P = ctx.call(cvrp_io.read_TSPLIB_CVRP, path)
        add = ctx.call(cvrp_io.read_TSBLIB_additional_constraints, path)
    finally:
        os.remove(path)
    what = "reading\n%s\n" % txt
    n = m["n"]
    idx = tsplib.nodes(m)
    ctx.require(P.size == n - 1, "%sthe size is %r", what, P.size)
    ctx.require(P.capacity_constraint == m["C"], "%sthe capacity is %r", what, P.capacity_constraint)
    ctx.require(P.edge_weight_type == m["type"], "%sthe type is %r", what, P.edge_weight_type)
    # demands
    if m["demands"] is None:
        ctx.require(not P.customer_demands, "%sthe demands are %r", what, P.customer_demands)
    else:
        want = [float(m["demands"][i]) for i in idx]
        ctx.require(list(P.customer_demands) == want, "%sthe demands are %r, not %r", what, P.customer_demands, want)
    # coordinates
    pts = None
    if m["points"]:
        pts = [[float(x) for x in m["points"][i]] for i in idx]
        if m["type"] == "GEO":
            pts = [[geo_rad(x) for x in p] for p in pts]
    got = P.display_coordinate_points if m["type"] == "GEO" else P.coordinate_points
    if pts is None:
        ctx.require(got is None, "%sthe coordinates are %r", what, got)
    else:
        ctx.require(len(got) == n and all(abs(a - b) < 1e-12 * max(1, abs(b)) for p, q in zip(got, pts)
                                          for a, b in zip(p, q)),
                    "%sthe coordinates are %r, not %r", what, got, pts)
    if m["type"] == "GEO":
        ctx.require(P.coordinate_points is None, "%scoordinates %r", what, P.coordinate_points)
    elif m["dd"] and not m["points"]:
        want = [[float(x) for x in m["dd"][i]] for i in idx]
        ctx.require([list(p) for p in P.display_coordinate_points] == want,
                    "%sthe display coordinates are %r, not %r", what, P.display_coordinate_points, want)
    elif not m["dd"]:
        ctx.require(P.display_coordinate_points is None, "%sdisplay coordinates %r", what,
                    P.display_coordinate_points)
    # distances
    D = P.distance_matrix
    refs, real = tsplib.distances(m)
    ctx.require(tuple(D.shape) == (n, n), "%sthe matrix is %r", what, D)
    for i in range(n):
        for j in range(n):
            ctx.require(allowed(float(D[i, j]), refs[i][j], real), "%sthe distance of %d and %d is %r, not %r", what,
                        i, j, D[i, j], refs[i][j])
            ctx.require(D[i, j] == D[j, i], "%sthe distances are not symmetric", what)
    if m["type"] == "EXPLICIT" and all(float(x) == int(float(x)) for r in m["W"] for x in r):
        ctx.require(D.dtype.kind == "i", "%sinteger weights are read as %r", what, D.dtype)
    # additional constraints
    K, L, S = add
    ctx.require(K == m["K"], "%sthe number of vehicles is %r", what, K)
    ctx.require(L == (num(m["L"]) if m["L"] else None), "%sthe maximum route cost is %r", what, L)
    if not (m["ST_section"] and m["depot"] != 1):
        ctx.require(S == (num(m["ST"]) if m["ST"] else None), "%sthe service time is %r", what, S)
    ctx.label(m["type"], m["format"] or "function", "depot_first" if m["depot"] == 1 else "depot_later")
    ctx.nontrivial(n > 2)


def targets():
    import verypy.cvrp_io

    ok = lambda m: not (m["ST"] and m["ST_section"] and m["depot"] != 1)

    def strategy():
        return tsplib.model().filter(ok)
    return [core.Target("read", strategy, run, quick=6000, thorough=200000, timeout_is_violation=True),
            core.Target("read_large", lambda: tsplib.model(nmin=8, nmax=24, large=True).filter(ok), run, quick=400,
                        thorough=10000, timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P22", targets(), rule="more than two nodes", assumptions=[
        "nodes are listed by increasing number; the capacity is an integer; full matrices are symmetric",
        "service time sections are generated for files whose depot is node 1"]))
