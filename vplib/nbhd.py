"""The complete neighborhoods of the local search operators, by enumeration.
nb.add(*routes) is called with the routes of each neighbor (see ls.Neighborhood)."""


def n_2opt(r, nb):
    for i in range(len(r)):
        for j in range(i + 1, len(r) + 1):
            nb.add(r[:i] + r[i:j][::-1] + r[j:])


def n_3opt(r, nb):
    n_2opt(r, nb)
    for i in range(len(r) + 1):
        for j in range(i + 1, len(r) + 1):
            for k in range(j + 1, len(r) + 1):
                a, b, c, d = r[:i], r[i:j], r[j:k], r[k:]
                B, C = b[::-1], c[::-1]
                for x, y in ((b, C), (B, c), (B, C), (c, b), (c, B), (C, b), (C, B)):
                    nb.add(a + x + y + d)


def n_relocate(r, nb):
    for i in range(len(r)):
        o = r[:i] + r[i + 1:]
        for j in range(len(o) + 1):
            nb.add(o[:j] + [r[i]] + o[j:])


def n_exchange(r, nb):
    for i in range(len(r)):
        for j in range(i + 1, len(r)):
            o = list(r)
            o[i], o[j] = o[j], o[i]
            nb.add(o)


def n_2optstar(rs, nb):
    a, b = rs
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            nb.add(a[:i] + b[:j][::-1], a[i:][::-1] + b[j:])
            nb.add(a[:i] + b[j:], b[:j] + a[i:])


def n_1pm(rs, nb):
    a, b = rs
    for i in range(len(a)):
        for j in range(len(b) + 1):
            nb.add(a[:i] + a[i + 1:], b[:j] + [a[i]] + b[j:])


def n_2pm(rs, nb):
    a, b = rs
    for i in range(len(a)):
        for j in range(len(b)):
            nb.add(a[:i] + [b[j]] + a[i + 1:], b[:j] + [a[i]] + b[j + 1:])


def n_chain(rs, nb):
    a, b, c = rs
    for i in range(len(a)):
        for j in range(len(b)):
            for k in range(len(c) + 1):
                nb.add(a[:i] + a[i + 1:], b[:j] + [a[i]] + b[j + 1:], c[:k] + [b[j]] + c[k:])


def giant(routes):
    sol = [0]
    for r in routes:
        sol += list(r) + [0]
    return sol


def pairings(xs):
    if not xs:
        yield ()
        return
    a = xs[0]
    for i in range(1, len(xs)):
        for rest in pairings(xs[1:i] + xs[i + 1:]):
            yield ((a, xs[i]),) + rest


PAIRINGS = [p for p in pairings((0, 1, 2, 3, 4, 5)) if p != ((0, 1), (2, 3), (4, 5))]


def split(seq):
    """routes of a node sequence that starts and ends with the depot"""
    out, cur = [], []
    for x in seq[1:]:
        if x == 0:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out


def reconnect(sol, i, j, k, pairing):
    """routes after the three edges are replaced, None if a part is without the depot.
    Edge ends are numbered 0..5; the tour is closed from its end to its start."""
    to = {}
    for x, y in pairing:
        to[x], to[y] = y, x
    # segments by their ends: 5..0 over the start of the tour, 1..2, 3..4
    segs = {5: (0, sol[k + 1:] + sol[1:i + 1]), 0: (5, (sol[k + 1:] + sol[1:i + 1])[::-1]),
            1: (2, sol[i + 1:j + 1]), 2: (1, sol[i + 1:j + 1][::-1]),
            3: (4, sol[j + 1:k + 1]), 4: (3, sol[j + 1:k + 1][::-1])}
    left, routes = {0, 1, 2, 3, 4, 5}, []
    while left:
        start = at = min(left)
        seq = []
        while True:
            end, nodes = segs[at]
            seq += nodes
            left -= {at, end}
            at = to[end]
            if at == start:
                break
        if 0 not in seq:
            return None
        z = seq.index(0)
        seq = seq[z:] + seq[:z] + [0]
        routes += split(seq)
    return routes


def n_3optstar(sol, nb):
    n = len(sol)
    for i in range(n - 1):
        for j in range(i + 1, n - 1):
            for k in range(j + 1, n - 1):
                for p in PAIRINGS:
                    rs = reconnect(sol, i, j, k, p)
                    if rs is not None:
                        nb.add(*rs)
