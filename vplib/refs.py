"""Slow, independent reference versions of the constructive heuristics whose
procedure is fully specified when there are no ties. They raise Ambiguous if
some choice or some constraint check is too close to call."""
from . import oracle


class Ambiguous(Exception):
    pass


GAP = 1e-9


def fits(x, limit):
    if not limit:
        return True
    if x <= limit + 2e-11:
        return True
    if x > limit + 1e-9:
        return False
    raise Ambiguous("constraint")


def pick_max(scored):
    """[(score, item)] -> item with the single highest score"""
    best = None
    second = None
    for s, it in scored:
        if best is None or s > best[0]:
            second = best
            best = (s, it)
        elif second is None or s > second[0]:
            second = (s, it)
    if second is not None and best[0] - second[0] < GAP * max(1.0, abs(best[0])):
        raise Ambiguous("tie")
    return best[1]


def nonneg(x):
    """is the saving x >= 0"""
    if abs(x) < 1e-9:
        raise Ambiguous("zero saving")
    return x > 0


# ------------------------------------------------------------------ savings
def cw(D, i, j):
    return D[i][0] + D[0][j] - D[i][j]


def sorted_pairs(D, score):
    n = len(D)
    ps = sorted(((score(i, j), i, j) for i in range(1, n) for j in range(i + 1, n)),
                reverse=True)
    for a, b in zip(ps, ps[1:]):
        if a[0] - b[0] < GAP * max(1.0, abs(a[0])):
            raise Ambiguous("tie")
    return ps


def parallel_savings(D, d, C, L, minimize_K=False, score=None, pairs=None):
    """-> list of customer lists"""
    n = len(D)
    if pairs is None:
        pairs = sorted_pairs(D, score or (lambda i, j: cw(D, i, j)))
    route = {i: [i] for i in range(1, n)}
    for _, i, j in pairs:
        if not minimize_K and not nonneg(cw(D, i, j)):
            continue
        a, b = route[i], route[j]
        if a is b or i not in (a[0], a[-1]) or j not in (b[0], b[-1]):
            continue
        m = (a if a[-1] == i else a[::-1]) + (b if b[0] == j else b[::-1])
        if C and not fits(sum(d[x] for x in m), C):
            continue
        if L and not fits(oracle.route_len(m, D), L):
            continue
        for x in m:
            route[x] = m
    out = []
    for r in route.values():
        if not any(r is o for o in out):
            out.append(r)
    return out


def sequential_savings(D, d, C, L, minimize_K=False):
    n = len(D)
    unrouted = set(range(1, n))
    out = []
    while unrouted:
        seed = pick_max([(-D[0][i], i) for i in unrouted])
        r = [seed]
        unrouted.remove(seed)
        while unrouted:
            cand = []
            for e in set([r[0], r[-1]]):
                for j in unrouted:
                    m = [j] + r if r[0] == e else r + [j]
                    if C and not fits(sum(d[x] for x in m), C):
                        continue
                    if L and not fits(oracle.route_len(m, D), L):
                        continue
                    s = cw(D, e, j)
                    if not minimize_K and not nonneg(s):
                        continue
                    cand.append((s, m, j))
            if not cand:
                break
            m, j = pick_max([(s, (m, j)) for s, m, j in cand])
            r = m
            unrouted.remove(j)
        out.append(r)
    return out


def suppression_runs(D, d, C, L, minimize_K, count):
    """the solutions of the iteratively suppressed savings procedure"""
    n = len(D)
    # the list keeps only the not negative savings, suppressed ones are 0
    ps = sorted_pairs(D, lambda i, j: max(0.0, cw(D, i, j)))
    ps = [(s, -D[i][j], i, j) for s, i, j in ps]
    out = []
    suppressed = set()
    for it in range(count):
        if it > 0:
            k = 0
            while k < len(ps) and (ps[k][2], ps[k][3]) in suppressed:
                ps[k] = (0.0,) + ps[k][1:]
                k += 1
            ps.sort(reverse=True)
            for a, b in zip(ps, ps[1:]):
                if a[0] - b[0] < GAP and a[1] - b[1] < GAP:
                    raise Ambiguous("tie")
        suppressed.add((ps[0][2], ps[0][3]))
        out.append(parallel_savings(D, d, C, L, minimize_K,
                                    pairs=[(s, i, j) for s, _, i, j in ps]))
    return out


# ---------------------------------------------------------- nearest neighbor
def nearest_neighbor(D, d, C, L, k=1, ends="both"):
    """routes are seeded with the closest unrouted customer; k at a time"""
    n = len(D)
    unrouted = set(range(1, n))
    active = [None] * k
    last = [None] * k
    done = []
    turn = 0
    while unrouted:
        r = active[turn]
        if r is None:
            s = pick_max([(-D[0][i], i) for i in unrouted])
            active[turn] = [s]
            last[turn] = s
            unrouted.remove(s)
            continue
        # the nearest customer to the one added last
        j = pick_max([(-D[last[turn]][i], i) for i in unrouted])
        end, front = r + [j], [j] + r
        fe, ff = oracle.route_len(end, D), oracle.route_len(front, D)
        if len(r) > 1 and ends == "both":
            m = pick_max([(-fe, end), (-ff, front)])
        else:
            m = end
        if (C and not fits(sum(d[x] for x in m), C)) or \
           (L and not fits(oracle.route_len(m, D), L)):
            done.append(r)
            active[turn] = None
            continue
        active[turn] = m
        last[turn] = j
        unrouted.remove(j)
        turn = (turn + 1) % k
    return done + [r for r in active if r]


# ------------------------------------------------------- cheapest insertion
def sequential_insertion(D, d, C, L, minimize_K=False, lm=1.0, mm=0.0):
    n = len(D)
    unrouted = set(range(1, n))
    out = []
    while unrouted:
        seed = pick_max([(D[0][i], i) for i in unrouted])
        unrouted.remove(seed)
        r = [seed]
        while unrouted:
            cand = []
            full = [0] + r + [0]
            for u in unrouted:
                if C and not fits(sum(d[x] for x in r) + d[u], C):
                    continue
                opts = []
                for p in range(len(full) - 1):
                    i, j = full[p], full[p + 1]
                    m = r[:p] + [u] + r[p:]
                    delta = D[i][u] + D[u][j] - D[i][j]
                    if L and not fits(oracle.route_len(m, D), L):
                        continue
                    if not minimize_K:
                        worse = delta - D[0][u] - D[u][0]
                        if abs(worse) < 1e-9:
                            if not (len(r) == 0):
                                raise Ambiguous("zero saving")
                        if worse > 0:
                            continue
                    strain = lm * D[0][u] - (D[i][u] + D[u][j] - mm * D[i][j])
                    opts.append((strain, (m, u)))
                if len(r) == 1 and len(opts) == 2:
                    # both ends of a one customer route are the same position
                    opts = opts[:1]
                cand += opts
            if not cand:
                break
            r, u = pick_max(cand)
            unrouted.remove(u)
        out.append(r)
    return out


# -------------------------------------------------------------------- sweep
def sweep_orders(pts):
    """-> customers by increasing polar angle in (-pi, pi] around the depot"""
    import math
    x0, y0 = pts[0]
    phis = []
    for i in range(1, len(pts)):
        x, y = pts[i][0] - x0, pts[i][1] - y0
        if x == 0 and y == 0:
            raise Ambiguous("at depot")
        phis.append((math.atan2(y, x), i))
    phis.sort()
    for a, b in zip(phis, phis[1:]):
        if b[0] - a[0] < 1e-9:
            raise Ambiguous("tie")
    if len(phis) > 1 and abs(abs(phis[0][0]) - math.pi) < 1e-9:
        raise Ambiguous("at -pi")
    return [i for _, i in phis]


def sweep_once(order, D, d, C, L):
    out, r = [], []
    for u in order:
        m = r + [u]
        if r and ((C and not fits(sum(d[x] for x in m), C)) or
                  (L and not fits(oracle.route_len(m, D), L))):
            out.append(r)
            r = [u]
        else:
            r = m
    out.append(r)
    return out


# ------------------------------------------------------------------ compare
def canon_routes(routes):
    """routes as a set of undirected customer sequences"""
    return sorted(min(list(map(int, r)), list(map(int, r[::-1]))) for r in routes if r)


def cost(routes, D):
    return sum(oracle.route_len(r, D) for r in routes)


def best_of(list_of_routes, D, minimize_K):
    """-> (cost, K) of the best, K is None if equally good ones differ in it"""
    vals = [((len(r) if minimize_K else 0), cost(r, D), len(r)) for r in list_of_routes]
    b = min(vals)
    ks = set(v[2] for v in vals if v[0] == b[0] and v[1] <= b[1] + oracle.tol(b[1]))
    return b[1], (b[2] if len(ks) == 1 else None)


def split_cost(tour, D, d, C, L, fewest=False):
    """least cost (or number of routes and least cost for it) of a partition of the
    circular tour into feasible routes of consecutive customers, visited in the order of the tour"""
    INF = float("inf")
    each = 1e6 * (1.0 + max(map(max, D))) if fewest else 0.0
    n = len(tour)
    best = INF
    for s in range(n):
        seq = tour[s:] + tour[:s]
        V = [0.0] + [INF] * n
        for i in range(n):
            if V[i] == INF:
                continue
            load = 0.0
            for j in range(i + 1, n + 1):
                if C:
                    load += d[seq[j - 1]]
                    if not fits(load, C):
                        break
                c = oracle.route_len(seq[i:j], D)
                if L and not fits(c, L):
                    break
                V[j] = min(V[j], V[i] + c + each)
        best = min(best, V[n])
    if fewest:
        k = int(best // each)
        return k, best - k * each
    return best
