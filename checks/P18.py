import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, ls, oracle
from vplib.dist import geo_rad, reference, allowed

TYPES = ("EUC_2D", "EXACT_2D", "CEIL_2D", "FLOOR_2D", "MAX_2D", "MAN_2D", "ATT", "GEO")


coord = st.one_of(st.integers(-50, 50).map(float), st.integers(-1000, 1000).map(lambda x: x / 8.0),
                  st.integers(0, 8000).map(float), st.floats(-1e3, 1e3, allow_nan=False))


@st.composite
def points(draw, kind, nmin, nmax):
    if kind == "GEO":
        lat = st.one_of(st.integers(-9000, 9000).map(lambda x: x / 100.0), st.sampled_from([0.0, 90.0, -90.0]))
        lon = st.one_of(st.integers(-18000, 18000).map(lambda x: x / 100.0),
                        st.sampled_from([0.0, 180.0, -180.0, 90.0]))
        pt = st.tuples(lat, lon).map(lambda p: [geo_rad(p[0]), geo_rad(p[1])])
    else:
        pt = st.tuples(coord, coord).map(list)
    pts = draw(st.lists(pt, min_size=nmin, max_size=nmax))
    if pts and draw(st.integers(0, 3)) == 0:
        pts[-1] = list(pts[0])
    return pts


@st.composite
def distance_case(draw, nmax=7, omax=4):
    kind = draw(st.sampled_from(TYPES))
    return {"type": kind, "pts": draw(points(kind, 2, nmax)),
            "opts": draw(points(kind, 1, omax)) if draw(st.integers(0, 3)) == 0 else None,
            "default": kind == "EUC_2D" and draw(st.booleans()), "np": draw(st.booleans())}


def distance(case, ctx):
    from verypy.cvrp_io import calculate_D
    import numpy as np
    kind, pts, opts = case["type"], case["pts"], case["opts"]
    a = np.array(pts) if case["np"] else [tuple(p) for p in pts]
    b = None if opts is None else (np.array(opts) if case["np"] else [tuple(p) for p in opts])
    args = (a, b) if case["default"] else (a, b, kind)
    D = ctx.call(calculate_D, *args)
    what = "calculate_D(%r, %r, %s)" % (pts, opts, kind)
    rows, cols = pts, (pts if opts is None else opts)
    ctx.require(tuple(D.shape) == (len(rows), len(cols)), "%s has the shape %r", what, D.shape)
    real = kind in ("EXACT_2D", "MAX_2D", "MAN_2D")
    for i, p in enumerate(rows):
        for j, q in enumerate(cols):
            v = D[i, j]
            if opts is None and i == j:
                ctx.require(v == 0, "%s: the distance of %d to itself is %r", what, i, v)
                continue
            refs = reference(kind, p, q)
            ctx.require(allowed(float(v), refs, real), "%s: the distance of %r to %r is %r, not %r", what, p, q,
                        v, refs)
            if opts is None:
                ctx.require(v == D[j, i], "%s is not symmetric", what)
    if kind in ("EUC_2D", "CEIL_2D", "FLOOR_2D"):
        ctx.require(D.dtype.kind == "i", "%s has the type %r", what, D.dtype)
    ctx.label(kind)
    ctx.nontrivial(len(rows) > 2)


@st.composite
def service_case(draw):
    n = draw(st.integers(1, 8))
    m = draw(ls.matrix(n))
    st_ = draw(st.one_of(st.integers(1, 30), st.integers(1, 240).map(lambda x: x / 8.0),
                         st.floats(1e-3, 1e3, allow_nan=False)))
    perm = list(draw(st.permutations(list(range(1, n + 1)))))
    cuts = sorted(draw(st.lists(st.integers(0, n), min_size=0, max_size=3)))
    rs = [perm[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    dtype = draw(st.sampled_from(["auto", "auto", "int32", "float32"]))
    return {"M": m["M"], "kind": m["kind"], "st": st_, "routes": [r for r in rs if r], "dtype": dtype}


def service(case, ctx):
    from verypy.cvrp_ops import D2D_c
    import numpy as np
    D = ls.array(case)
    if case["dtype"] == "int32" and D.dtype.kind == "i" or case["dtype"] == "float32":
        D = D.astype(case["dtype"])
    keep = D.copy()
    s = case["st"]
    D_c = ctx.call(D2D_c, D, s)
    what = "D2D_c(%r, %r)" % (D.tolist(), s)
    ctx.require((D == keep).all() and D.dtype == keep.dtype, "%s changed its input", what)
    ctx.require(D_c is not D and D_c.shape == D.shape, "%s returned %r", what, D_c)
    eps = 1e-9 if D_c.dtype != np.float32 else 1e-3
    for i in range(len(D)):
        ctx.require(D_c[i, i] == 0, "%s has %r on the diagonal", what, D_c[i, i])
    for r in case["routes"]:
        t = [0] + r + [0]
        # every visit costs the service time once, whichever the route
        want = sum(float(D[t[i], t[i + 1]]) for i in range(len(t) - 1)) + s * len(r)
        got = sum(float(D_c[t[i], t[i + 1]]) for i in range(len(t) - 1))
        ctx.require(abs(want - got) <= eps * max(1.0, abs(want)), "%s: the route %r costs %r, not %r", what, t,
                    got, want)
        ctx.require(float(D_c[t[0], t[1]]) == float(D_c[t[1], t[0]]), "%s is not symmetric", what)
    ctx.require((abs(D_c - D_c.T) < 1e-12).all(), "%s is not symmetric", what)
    ctx.label(str(D.dtype))
    ctx.nontrivial(float(s) != int(s) or D.dtype.kind == "i")


def targets():
    import verypy.cvrp_io, verypy.cvrp_ops
    return [core.Target("distance", distance_case, distance, quick=8000, thorough=200000,
                        timeout_is_violation=True),
            core.Target("distance_large", lambda: distance_case(30, 24), distance, quick=300, thorough=10000,
                        timeout_is_violation=True),
            core.Target("service", service_case, service, quick=4000, thorough=100000,
                        timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P18", targets(), rule=(
        "distance: more than two points; service time: fractional, or added to integer distances"),
        assumptions=["rounding may go either way for exact distances within 1e-9 of a tie",
                     "geographical distances may differ where the formula is ill-conditioned"]))
