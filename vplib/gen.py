"""Hypothesis strategies that draw problem instances. Every case is a plain
JSON value; nothing is random outside of the library."""
import math

from hypothesis import strategies as st

from . import oracle

SIZES_SMALL = [1, 2, 3, 4, 5, 6]


@st.composite
def size(draw, lo=1, mid=12, hi=20, big=0):
    k = draw(st.integers(0, 19))
    if k < 5:
        return draw(st.integers(lo, max(lo, min(6, mid))))
    if k < 14:
        return draw(st.integers(max(lo, min(7, mid)), mid))
    if k < 19 or not big:
        return draw(st.integers(min(mid, hi), hi))
    return draw(st.integers(hi, big))


KINDS = ["grid", "int", "int", "fine", "fine", "cluster", "line", "ring", "tiny"]


@st.composite
def points(draw, n, kinds=None):
    """n+1 points, the first one is the depot"""
    kind = draw(st.sampled_from(kinds or KINDS))
    if kind == "grid":
        c = st.integers(0, 6)
        pts = draw(st.lists(st.tuples(c, c), min_size=n + 1, max_size=n + 1))
    elif kind == "tiny":
        # less than a unit apart: distinct places can be at rounded distance 0
        c = st.integers(0, 40)
        pts = [(x / 10.0, y / 10.0) for x, y in
               draw(st.lists(st.tuples(c, c), min_size=n + 1, max_size=n + 1))]
    elif kind == "generic":
        # no two places, distances or angles are the same
        c = st.integers(-50, 50)
        pts = [(round(x + 3 * ((i + 1) * 0.6180339887 % 1), 6),
                round(y + 3 * ((i + 1) * 0.7548776662 % 1), 6))
               for i, (x, y) in enumerate(
                   draw(st.lists(st.tuples(c, c), min_size=n + 1, max_size=n + 1)))]
    elif kind == "int":
        c = st.integers(-50, 50)
        pts = draw(st.lists(st.tuples(c, c), min_size=n + 1, max_size=n + 1))
    elif kind == "fine":
        c = st.integers(0, 100000)
        pts = [(x / 1000.0, y / 1000.0) for x, y in
               draw(st.lists(st.tuples(c, c), min_size=n + 1, max_size=n + 1))]
    elif kind == "far":
        # large distances, whose rounding errors are larger, too
        c = st.integers(0, 100000)
        f = draw(st.sampled_from([1.0, 10.0, 1000.0]))
        pts = [(x * f, y * f) for x, y in draw(st.lists(st.tuples(c, c), min_size=n + 1, max_size=n + 1))]
    elif kind == "cluster":
        c = st.integers(-40, 40)
        o = st.integers(-300, 300)
        centers = draw(st.lists(st.tuples(c, c), min_size=1, max_size=3))
        pts = []
        for _ in range(n + 1):
            ci = draw(st.integers(0, len(centers) - 1))
            ox, oy = draw(st.tuples(o, o))
            pts.append((centers[ci][0] + ox / 100.0, centers[ci][1] + oy / 100.0))
    elif kind == "line":
        c = st.integers(-30, 30)
        pts = [(x, 0) for x in draw(st.lists(c, min_size=n + 1, max_size=n + 1))]
    else:
        ang = draw(st.lists(st.integers(0, 359), min_size=n, max_size=n))
        rad = draw(st.lists(st.integers(5, 60), min_size=n, max_size=n))
        pts = [(0.0, 0.0)] + [(round(r * math.cos(math.radians(a)), 4),
                              round(r * math.sin(math.radians(a)), 4))
                             for a, r in zip(ang, rad)]
    return [list(p) for p in pts], kind


@st.composite
def demands(draw, n, zero_ok=False):
    kind = draw(st.sampled_from(["int", "int", "unit", "real", "skew"]))
    lo = 0 if zero_ok and draw(st.integers(0, 3)) == 0 else 1
    if kind == "int":
        ds = draw(st.lists(st.integers(lo, 9), min_size=n, max_size=n))
    elif kind == "unit":
        ds = [1] * n
    elif kind == "real":
        ds = [x / 8.0 for x in draw(st.lists(st.integers(max(lo, 1), 70), min_size=n, max_size=n))]
    else:
        ds = draw(st.lists(st.sampled_from([1, 1, 2, 3, 20, 45]), min_size=n, max_size=n))
    if max(ds) == 0:
        ds[0] = 1
    return [0] + ds


@st.composite
def instance(draw, lo=1, mid=12, hi=20, big=0, metrics=("EXACT", "EXACT", "ROUND", "WARP"),
             service=True, zero_demand=False, want=None, L_ok=True, n=None, kinds=None):
    """A CVRP instance: {'pts','metric','d','C','L','st'}. At least one of the
    constraints C and L is set and every customer can be served alone."""
    if n is None:
        n = draw(size(lo, mid, hi, big))
    pts, kind = draw(points(n, kinds))
    metric = draw(st.sampled_from(list(metrics)))
    cons = want or draw(st.sampled_from(["C", "C", "CL", "CL", "L"] if L_ok else ["C"]))
    svc = None
    if service and draw(st.integers(0, 4)) == 0:
        svc = draw(st.sampled_from([1, 2, 10, 5, 2.5, 0.75]))
    d = C = L = None
    if "C" in cons or draw(st.integers(0, 3)) == 0:
        d = draw(demands(n, zero_demand))
    if "C" in cons:
        mx, tot = max(d), sum(d)
        mode = draw(st.integers(0, 9))
        if mode == 0:
            C = mx
        elif mode == 1:
            C = max(mx, tot)
        elif mode == 2:
            C = max(mx, tot / 2.0)
        else:
            C = mx * draw(st.integers(100, 500)) / 100.0
        if draw(st.integers(0, 9)) < 7 or C == int(C):
            C = int(math.ceil(C))
    if "L" in cons:
        M = oracle.dist_matrix(pts, metric)
        if svc:
            M = oracle.bake_service_time(M, svc)
        base = max(M[0][i] + M[i][0] for i in range(1, n + 1))
        mode = draw(st.integers(0, 9))
        if mode == 0:
            L = base
        elif mode == 1:
            # exactly the cost of a route through some customers
            k = draw(st.integers(1, min(n, 5)))
            perm = draw(st.permutations(list(range(1, n + 1))))[:k]
            L = max(base, oracle.route_len(perm, M))
        else:
            L = base * draw(st.integers(100, 320)) / 100.0
        if draw(st.integers(0, 3)) == 0:
            L = int(math.ceil(L))
        if L == 0:
            L = 1
        if kind == "far":
            # no limit that is met or not depending on how the rounding errors fall
            L = float(L) * (1 + 1e-9)
    return {"pts": pts, "metric": metric, "d": d, "C": C, "L": L, "st": svc, "kind": kind}


def matrix(inst):
    M = oracle.dist_matrix(inst["pts"], inst["metric"])
    if inst.get("st"):
        M = oracle.bake_service_time(M, inst["st"])
    integer = inst["metric"] in ("ROUND", "CEIL") and (
        not inst.get("st") or float(inst["st"] / 2.0).is_integer())
    return oracle.as_array(M, integer)


WTT = {"EXACT": "EXACT_2D", "ROUND": "EUC_2D", "CEIL": "CEIL_2D", "MAN": "MAN_2D", "MAX": "MAX_2D",
       "WARP": "EXPLICIT"}


def solver_args(inst):
    """fresh (points, D, d, C, L, st, wtt) for a heuristic"""
    return ([list(p) for p in inst["pts"]], matrix(inst),
            None if inst["d"] is None else list(inst["d"]),
            inst["C"], inst["L"], inst["st"], WTT[inst["metric"]])


def classify(inst, ctx):
    n = len(inst["pts"]) - 1
    ctx.label("n<=2" if n <= 2 else "n<=6" if n <= 6 else "n<=12" if n <= 12 else
              "n<=20" if n <= 20 else "n>20")
    ctx.label(("C" if inst["C"] else "") + ("L" if inst["L"] else ""))
    ctx.label("pts:" + inst["kind"])
    if inst["st"]:
        ctx.label("service_time")
    if inst["d"] is not None and 0 in inst["d"][1:]:
        ctx.label("zero_demand")


def has_slack_structure(inst, D):
    """True if at least two customers fit on a route and not all of them do:
    the constraint then actually shapes the solution."""
    n = len(D) - 1
    if n < 3:
        return False
    some = False
    if inst["C"]:
        ds = sorted(inst["d"][1:])
        pair = ds[0] + ds[1] <= inst["C"]
        allin = sum(ds) <= inst["C"]
    else:
        pair, allin = True, True
    if inst["L"]:
        some = any(oracle.route_len([i, j], D) <= inst["L"]
                   for i in range(1, n + 1) for j in range(i + 1, n + 1))
        pair = pair and some
        allin = False if allin and not inst["C"] else allin
    return pair and not allin
