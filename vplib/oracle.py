"""Independent reference computations. Nothing here imports the code in /repo."""
import math
from itertools import groupby

import numpy as np

TOL = 1e-6


def tol(*vals):
    return TOL * max([1.0] + [abs(float(v)) for v in vals])


# ---------------------------------------------------------------- distances
def euclid(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def dist_matrix(pts, metric):
    n = len(pts)
    M = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                e = euclid(pts[i], pts[j])
                if metric == "ROUND":
                    e = float(int(e + 0.5))
                elif metric == "CEIL":
                    r = round(e)
                    e = float(r if abs(e - r) < 1e-9 else math.ceil(e))
                elif metric == "MAN":
                    e = abs(pts[i][0] - pts[j][0]) + abs(pts[i][1] - pts[j][1])
                elif metric == "MAX":
                    e = max(abs(pts[i][0] - pts[j][0]), abs(pts[i][1] - pts[j][1]))
                elif metric == "WARP":
                    # as on roads: does not satisfy the triangle inequality
                    e *= 0.6 + (7919 * min(i, j) + 104729 * max(i, j)) % 997 / 997.0
                M[i][j] = float(e)
    return M


def bake_service_time(M, st):
    n = len(M)
    R = [list(map(float, r)) for r in M]
    for i in range(n):
        for j in range(n):
            if i == j:
                R[i][j] = 0.0
            elif i == 0 or j == 0:
                R[i][j] += st / 2.0
            else:
                R[i][j] += st
    return R


def as_array(M, integer=False):
    A = np.array(M, dtype=float)
    if integer:
        return A.astype(int)
    return A


# ---------------------------------------------------------------- solutions
def routes_of(sol):
    """customer lists between the depot visits, empty routes dropped"""
    return [list(g) for k, g in groupby(sol, lambda x: x == 0) if not k]


def route_len(route, D):
    """closed route over a customer list (no depots in it)"""
    if not route:
        return 0.0
    f = float(D[0][route[0]]) + float(D[route[-1]][0])
    for a, b in zip(route, route[1:]):
        f += float(D[a][b])
    return f


def path_len(path, D):
    return float(sum(float(D[a][b]) for a, b in zip(path, path[1:])))


def sol_len(sol, D):
    return sum(route_len(r, D) for r in routes_of(sol))


def is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def solution_defect(sol, D, d, C, L):
    """None if sol is a complete feasible giant tour encoded solution, else a
    description of what is wrong with it."""
    N = len(D)
    if sol is None:
        return "no solution was returned"
    if not isinstance(sol, (list, tuple)):
        return "solution is a %s, not a list" % type(sol).__name__
    sol = list(sol)
    if not all(is_int(x) for x in sol):
        return "solution has non-integer entries: %r" % (sol,)
    if len(sol) < 2 or sol[0] != 0 or sol[-1] != 0:
        return "solution does not start and end at the depot: %r" % (sol,)
    served = sorted(x for x in sol if x != 0)
    if served != list(range(1, N)):
        miss = sorted(set(range(1, N)) - set(served))
        dup = sorted(set(x for x in served if served.count(x) > 1))
        return "customers not served exactly once: missing %r, repeated %r in %r" % (miss, dup, sol)
    for r in routes_of(sol):
        if C and d is not None:
            load = sum(float(d[x]) for x in r)
            if load > C + tol(C):
                return "route %r carries %r, capacity is %r" % (r, load, C)
        if L:
            l = route_len(r, D)
            if l > L + tol(L):
                return "route %r costs %r, maximum is %r" % (r, l, L)
    return None


def n_routes(sol):
    return len(routes_of(sol))


# ---------------------------------------------------------------- exhaustive
def set_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for part in set_partitions(rest):
        yield [[first]] + part
        for i in range(len(part)):
            yield part[:i] + [[first] + part[i]] + part[i + 1:]


def held_karp(nodes, D):
    """optimal closed tour length over the nodes (first one is the start)"""
    nodes = list(nodes)
    n = len(nodes)
    if n <= 1:
        return 0.0
    s = nodes[0]
    rest = nodes[1:]
    m = len(rest)
    best = {}
    for j in range(m):
        best[(1 << j, j)] = float(D[s][rest[j]])
    for mask in range(1, 1 << m):
        for j in range(m):
            if (mask, j) not in best:
                continue
            v = best[(mask, j)]
            for k in range(m):
                if mask & (1 << k):
                    continue
                key = (mask | (1 << k), k)
                w = v + float(D[rest[j]][rest[k]])
                if key not in best or w < best[key]:
                    best[key] = w
    full = (1 << m) - 1
    return min(best[(full, j)] + float(D[rest[j]][s]) for j in range(m))
