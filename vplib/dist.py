"""TSPLIB distances, in exact integer arithmetic where possible."""
import math


def geo_rad(x):
    deg = int(x)
    return PI * (deg + 5.0 * (x - deg) / 3.0) / 180.0


PI = 3.141592


def reference(kind, p, q):
    """the distance, or the set of allowed ones where floating point may go either way"""
    dx, dy = p[0] - q[0], p[1] - q[1]
    e = math.sqrt(dx * dx + dy * dy)
    tiny = 1e-9 * max(1.0, e)
    if kind == "EXACT_2D":
        return [e]
    if kind == "MAX_2D":
        return [max(abs(dx), abs(dy))]
    if kind == "MAN_2D":
        return [abs(dx) + abs(dy)]
    if kind == "EUC_2D":
        return sorted({math.floor(e + 0.5 - tiny), math.floor(e + 0.5 + tiny)})
    exact = all(float(v) == int(v) for v in (dx, dy))
    if kind in ("CEIL_2D", "FLOOR_2D"):
        if exact:
            s = int(dx) ** 2 + int(dy) ** 2
            r = math.isqrt(s)
            return [r if kind == "FLOOR_2D" or r * r == s else r + 1]
        if kind == "CEIL_2D":
            return sorted({math.ceil(e - tiny), math.ceil(e + tiny)})
        return sorted({math.floor(e - tiny), math.floor(e + tiny)})
    if kind == "ATT":
        # the smallest integer that is not below sqrt((dx^2+dy^2)/10): TSPLIB rounds and then corrects
        if exact:
            s = int(dx) ** 2 + int(dy) ** 2
            t = math.isqrt(s // 10)
            while 10 * t * t < s:
                t += 1
            return [t]
        r = math.sqrt((dx * dx + dy * dy) / 10.0)
        return sorted({math.ceil(r - tiny), math.ceil(r + tiny)})
    if kind == "GEO":
        q1 = math.cos(p[1] - q[1])
        q2 = math.cos(p[0] - q[0])
        q3 = math.cos(p[0] + q[0])
        c = 0.5 * ((1.0 + q1) * q2 - (1.0 - q1) * q3)
        # the conditioning of acos is poor for near and for opposite points
        out = set()
        for x in (c - 4e-16, c, c + 4e-16):
            v = 6378.388 * math.acos(min(1.0, max(-1.0, x))) + 1.0
            out |= {math.floor(v - 1e-8), math.floor(v + 1e-8)}
        return sorted(out)


def allowed(v, refs, real):
    if real:
        return abs(v - refs[0]) <= 1e-9 * max(1.0, abs(refs[0]))
    return any(v == r for r in refs) or min(refs) <= v <= max(refs) and v == int(v)
