"""Instances with routes for the local search operators, and the comparison of
an operator's answer to its complete neighborhood."""
import math
import random

from hypothesis import strategies as st

from . import gen, oracle

EPS_LO, EPS_HI = 1e-11, 1e-8


@st.composite
def matrix(draw, n, L=False, kinds=None):
    """symmetric distances: planar points, or arbitrary (no triangle inequality)"""
    kind = draw(st.sampled_from(kinds or ["pts", "pts", "pts", "round", "sym_int", "sym_real"]))
    if kind in ("pts", "round"):
        pts, k = draw(gen.points(n))
        M = oracle.dist_matrix(pts, "ROUND" if kind == "round" else "EXACT")
        return {"kind": kind, "M": M}
    m = n * (n + 1) // 2
    if kind == "sym_int":
        ws = draw(st.lists(st.integers(0, 30), min_size=m, max_size=m))
    else:
        ws = [w / 64.0 for w in draw(st.lists(st.integers(0, 6400), min_size=m, max_size=m))]
    it = iter(ws)
    M = [[0.0] * (n + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        for j in range(i):
            M[i][j] = M[j][i] = float(next(it))
    return {"kind": kind, "M": M}


@st.composite
def routes_case(draw, kmin=1, kmax=3, nmin=1, nmax=9, empties=False, all_served=True,
                constraints=("", "C", "C", "CL", "L")):
    """{'M', 'routes', 'd', 'C', 'L', 'kind'}: feasible routes (customer lists)"""
    n = draw(st.integers(max(nmin, kmin), nmax))
    m = draw(matrix(n))
    k = draw(st.integers(kmin, min(kmax, n)))
    perm = list(draw(st.permutations(list(range(1, n + 1)))))
    cuts = sorted(draw(st.lists(st.integers(0, n), min_size=k - 1, max_size=k - 1)))
    routes, prev = [], 0
    for c in cuts + [n]:
        routes.append(perm[prev:c])
        prev = c
    if not empties:
        # every route gets a customer
        for i, r in enumerate(routes):
            if not r:
                j = max(range(k), key=lambda x: len(routes[x]))
                r.append(routes[j].pop())
    cons = draw(st.sampled_from(list(constraints)))
    d = C = L = None
    if "C" in cons or draw(st.booleans()):
        if draw(st.booleans()):
            d = [0] + draw(st.lists(st.integers(1, 9), min_size=n, max_size=n))
        else:
            d = [0] + [x / 8.0 for x in draw(st.lists(st.integers(1, 70), min_size=n, max_size=n))]
    if "C" in cons:
        C = max(sum(d[i] for i in r) for r in routes)
        # float sums in any order must not make a route infeasible
        C = C * draw(st.sampled_from([1.0, 1.0, 1.1, 1.3, 1.6, 2.5])) + draw(st.sampled_from([0, 0, 1]))
    if "L" in cons:
        L = max(oracle.route_len(r, m["M"]) for r in routes)
        L = L * draw(st.sampled_from([1.0, 1.001, 1.05, 1.2, 1.5, 2.0])) + draw(st.sampled_from([0, 1e-7, 1]))
        L = L or 1.0
        if C:
            C = C or 1.0
    return {"M": m["M"], "kind": m["kind"], "routes": routes, "d": d, "C": C, "L": L}


@st.composite
def planted_case(draw, k=1, nmin=10, nmax=30, constraints=("", "C", "CL"), moves=None):
    """A routes_case of k long routes, each in convex position (so in its best order and
    far from the others), to which one or two random changes are made: it takes a certain move,
    maybe over long segments or far positions, to undo them."""
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    sizes = [draw(st.integers(nmin, nmax)) for _ in range(k)]
    kind = draw(st.sampled_from(["pts", "pts", "round"]))
    pts, routes = [(0.0, 0.0)], []
    for i, m in enumerate(sizes):
        a = 2 * math.pi * (i + rng.uniform(-0.1, 0.1)) / max(k, 2)
        big, small = rng.uniform(20, 60), rng.uniform(8, 16)
        r = []
        for j in range(m):
            t = math.pi + 2 * math.pi * (j + 1 + rng.uniform(-0.3, 0.3)) / (m + 1)
            x, y = big * (1 + math.cos(t)), small * math.sin(t)
            r.append(len(pts))
            pts.append((x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)))
        routes.append(r if rng.random() < 0.5 else r[::-1])
    ideal = [list(r) for r in routes]
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        op = draw(st.sampled_from(moves or (["rev", "reloc", "exch"] if k == 1 else
                                            ["rev", "reloc", "exch", "move", "swap", "cross", "chain"])))
        a = routes[rng.randrange(k)]
        b = routes[rng.choice([i for i in range(k) if routes[i] is not a])] if k > 1 else None
        i, j = sorted((rng.randrange(len(a)), rng.randrange(len(a))))
        if op == "rev":
            a[i:j + 1] = a[i:j + 1][::-1]
        elif op == "reloc":
            x = a.pop(i)
            a.insert(rng.randrange(len(a) + 1), x)
        elif op == "exch":
            a[i], a[j] = a[j], a[i]
        elif op in ("move", "chain") and len(a) > 1:
            x = a.pop(i)
            q = rng.randrange(len(b))
            if op == "chain" and k > 2:
                c = [r for r in routes if r is not a and r is not b][0]
                c.insert(rng.randrange(len(c) + 1), b[q])
                b[q] = x
            else:
                b.insert(q, x)
        elif op == "swap":
            q = rng.randrange(len(b))
            a[i], b[q] = b[q], a[i]
        elif op == "cross":
            q = rng.randrange(len(b) + 1)
            x, y = a[:i] + b[q:], b[:q] + a[i:]
            if x and y:
                a[:], b[:] = x, y
    n = len(pts) - 1
    M = oracle.dist_matrix(pts, "ROUND" if kind == "round" else "EXACT")
    d = C = L = None
    cons = draw(st.sampled_from(list(constraints)))
    both = draw(st.booleans())      # is the original solution feasible as well
    if "C" in cons or draw(st.booleans()):
        d = [0] + [rng.randint(1, 40) for _ in range(n)]
    if "C" in cons:
        C = max(sum(d[i] for i in r) for r in (routes + ideal if both else routes))
        C = C * draw(st.sampled_from([1.0, 1.05, 1.25]))
    if "L" in cons:
        L = max(oracle.route_len(r, M) for r in (routes + ideal if both else routes))
        L = L * draw(st.sampled_from([1.0, 1.01, 1.2])) + 1e-7
    return {"M": M, "kind": kind, "routes": routes, "d": d, "C": C, "L": L}


def array(case):
    return oracle.as_array(case["M"], case["kind"] in ("round", "sym_int"))


def load(r, d):
    return float(sum(d[i] for i in r)) if d else 0.0


def feasible(r, case):
    """True, False or None if it is too close to call"""
    ok = True
    if case["C"]:
        x = load(r, case["d"]) - case["C"]
        if x > EPS_HI:
            return False
        if x > EPS_LO / 2:
            ok = None
        elif abs(x) <= EPS_LO and any(float(v) != int(v * 8) / 8.0 for v in case["d"]):
            ok = None
    if case["L"]:
        x = oracle.route_len(r, case["M"]) - case["L"]
        if x > EPS_HI:
            return False
        if x > -EPS_HI:
            ok = None
    return ok


def canon(r):
    r = list(map(int, r))
    return tuple(min(r, r[::-1]))


def strip(route):
    """customers of a route that starts and ends at the depot"""
    return [int(x) for x in route if x != 0]


class Neighborhood(object):
    """all moves (tuples of new routes) of an operator with their deltas"""

    def __init__(self, case, old, bound, ordered=True):
        self.case, self.bound, self.ordered = case, bound, ordered
        self.old = sum(oracle.route_len(r, case["M"]) for r in old)
        self.best_sure = None      # best delta that certainly is allowed
        self.best_maybe = None     # ... counting the borderline ones
        self.infeasible = 0        # improving moves that break a limit
        self.seen = {}
        self.cache = {}
        self.old_key = self.key(old)

    def key(self, routes):
        ks = [canon(r) for r in routes]
        return tuple(ks if self.ordered else sorted(ks))

    def _eval(self, r):
        k = canon(r)
        if k not in self.cache:
            self.cache[k] = (oracle.route_len(r, self.case["M"]), feasible(r, self.case))
        return self.cache[k]

    def add(self, *routes):
        k = self.key(routes)
        if k in self.seen:
            return
        ev = [self._eval(r) for r in routes]
        delta = sum(e[0] for e in ev) - self.old
        fs = [e[1] for e in ev]
        self.seen[k] = delta
        if any(f is False for f in fs):
            self.infeasible += delta < (self.bound or 0.0)
            return
        if k == self.old_key:
            return          # not a move
        b = self.bound or 0.0
        scale = max(1.0, abs(self.old))
        if delta < b - EPS_HI * scale and all(f is True for f in fs):
            if self.best_sure is None or delta < self.best_sure:
                self.best_sure = delta
        if delta < b + EPS_HI * scale:
            if self.best_maybe is None or delta < self.best_maybe:
                self.best_maybe = delta

    def judge(self, ctx, name, found, new_routes, delta, best):
        """found: the operator claims a move to new_routes with delta"""
        b = self.bound or 0.0
        if not found:
            ctx.require(self.best_sure is None, "%s found no move, but one changes the cost by %r "
                        "(bound %r)", name, self.best_sure, self.bound)
            return
        old = self.old
        real = sum(oracle.route_len(r, self.case["M"]) for r in new_routes) - old
        ctx.require(abs(real - delta) <= oracle.tol(old), "%s reports the change of cost %r, it is %r: %r",
                    name, delta, real, new_routes)
        ctx.require(delta < b + EPS_HI, "%s changes the cost by %r, the bound is %r", name, delta, self.bound)
        for r in new_routes:
            ctx.require(feasible(r, self.case) is not False, "%s returned the infeasible route %r", name, r)
        ctx.require(self.key(new_routes) in self.seen, "%s returned %r, which is not one move away", name,
                    new_routes)
        if best:
            m = self.best_sure
            if m is not None:
                ctx.require(delta <= m + oracle.tol(old), "%s with best accept changes the cost by %r, "
                            "but %r is possible", name, delta, m)


def bounds():
    """best_delta argument: none, an improvement to beat or an allowed worsening"""
    return st.one_of(st.none(), st.none(), st.none(),
                     st.integers(-60, 60).map(lambda x: x / 4.0))
