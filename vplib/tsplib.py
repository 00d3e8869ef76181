"""Generation of TSPLIB files together with what they mean."""
from hypothesis import strategies as st

from . import dist

FORMATS = ("FULL_MATRIX", "LOWER_ROW", "LOWER_DIAG_ROW", "UPPER_ROW", "UPPER_DIAG_ROW", "LOWER_COL")
TYPES = ("EUC_2D", "EXACT_2D", "CEIL_2D", "FLOOR_2D", "MAX_2D", "MAN_2D", "ATT", "GEO", "EXPLICIT", "EXPLICIT",
         "EXPLICIT", "EXPLICIT")


def entries(W, fmt):
    n = len(W)
    if fmt == "FULL_MATRIX":
        return [[W[i][j] for j in range(n)] for i in range(n)]
    if fmt == "LOWER_ROW":
        return [[W[i][j] for j in range(i)] for i in range(1, n)]
    if fmt == "LOWER_DIAG_ROW":
        return [[W[i][j] for j in range(i + 1)] for i in range(n)]
    if fmt == "UPPER_ROW":
        return [[W[i][j] for j in range(i + 1, n)] for i in range(n - 1)]
    if fmt == "UPPER_DIAG_ROW":
        return [[W[i][j] for j in range(i, n)] for i in range(n)]
    if fmt == "LOWER_COL":
        return [[W[i][j] for i in range(j + 1, n)] for j in range(n - 1)]
    raise ValueError(fmt)


@st.composite
def model(draw, nmax=7, types=TYPES, formats=FORMATS, nmin=2, large=False):
    """nodes in the order of the file; numbers as they are written"""
    n = draw(st.integers(nmin, nmax))
    kind = draw(st.sampled_from(types))
    num = st.one_of(st.integers(-200, 200).map(str), st.integers(0, 1000).map(str),
                    st.integers(-4000, 4000).map(lambda x: repr(x / 8.0)),
                    st.integers(0, 9999).map(lambda x: "%.4e" % (x / 16.0)))
    if large:
        num = st.one_of(num, st.integers(-10 ** 6, 10 ** 6).map(str),
                        st.integers(0, 10 ** 8).map(lambda x: repr(x / 64.0)))
    if kind == "GEO":
        num = st.one_of(st.integers(0, 89).map(str), st.integers(-8900, 8900).map(lambda x: "%.2f" % (x / 100.0)))
    pair = st.tuples(num, num).map(list)
    m = {"n": n, "type": kind, "depot": draw(st.integers(1, n)), "depots": draw(st.sampled_from(["one", "one", "none"])),
         "points": None, "dd": None, "W": None, "format": None}
    if m["depots"] == "none":
        m["depot"] = 1
    if kind == "EXPLICIT":
        w = draw(st.sampled_from(["int", "real"]))
        wt = st.integers(0, 500).map(str) if w == "int" else \
            st.one_of(st.integers(0, 4000).map(lambda x: repr(x / 8.0)), st.integers(0, 99).map(str))
        if large:
            wt = st.one_of(wt, st.integers(0, 10 ** 7).map(str))
        W = [["0"] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                W[i][j] = W[j][i] = draw(wt)
        m["W"], m["format"] = W, draw(st.sampled_from(formats))
        which = draw(st.sampled_from(["", "", "points", "dd", "both"]))
        if which in ("points", "both"):
            m["points"] = draw(st.lists(pair, min_size=n, max_size=n))
        if which in ("dd", "both"):
            m["dd"] = draw(st.lists(pair, min_size=n, max_size=n))
    else:
        m["points"] = draw(st.lists(pair, min_size=n, max_size=n))
    m["C"] = draw(st.one_of(st.none(), st.integers(1, 10 ** 7 if large else 5000)))
    dem = st.one_of(st.integers(0, 50).map(str), st.integers(0, 50).map(str),
                    st.integers(0, 400).map(lambda x: repr(x / 8.0)))
    if large:
        dem = st.one_of(dem, st.integers(0, 10 ** 6).map(str))
    m["demands"] = draw(st.one_of(st.none(), st.lists(dem, min_size=n, max_size=n),
                                  st.lists(dem, min_size=n, max_size=n)))
    if m["demands"]:
        m["demands"][m["depot"] - 1] = "0"
    m["style"] = {
        "sep": draw(st.sampled_from([": ", " : ", ":", " :\t"])),
        "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
        "blank": draw(st.booleans()), "eof": draw(st.booleans()), "indent": draw(st.sampled_from(["", " ", "\t"])),
        "wrap": draw(st.sampled_from([0, 0, 1, 3])), "gap": draw(st.sampled_from([" ", "  ", "\t"])),
        "colon": draw(st.booleans()), "tsp": draw(st.integers(0, 5)) == 0,
        "order": draw(st.permutations(["w", "p", "dd", "d", "depot"]))}
    m["name"] = draw(st.text(alphabet="abcXYZ-_0123456789", min_size=1, max_size=8))
    m["extra"] = draw(st.sampled_from([[], [], ["NODE_COORD_TYPE", "TWOD_COORDS"], ["DISPLAY_DATA_TYPE", "NO_DISPLAY"]]))
    m["L"] = draw(st.one_of(st.none(), st.none(), st.integers(1, 999).map(str),
                            st.integers(1, 9999).map(lambda x: repr(x / 8.0))))
    m["K"] = draw(st.one_of(st.none(), st.none(), st.integers(1, 30)))
    m["ST"] = draw(st.one_of(st.none(), st.none(), st.integers(1, 90).map(str),
                             st.integers(1, 90).map(lambda x: repr(x / 4.0))))
    m["ST_section"] = draw(st.booleans())
    return m


def text(m):
    s = m["style"]
    out = []

    def field(k, v):
        out.append("%s%s%s" % (k, s["sep"], v))

    def section(k, lines):
        out.append(k)
        for l in lines:
            out.append(s["indent"] + s["gap"].join(l))
        if s["blank"]:
            out.append("")
    field("NAME", m["name"])
    field("TYPE", "TSP" if s["tsp"] else "CVRP")
    field("COMMENT", "(generated: for a check)" if s["colon"] else "generated for a check")
    field("DIMENSION", m["n"])
    if m["C"] is not None:
        field("CAPACITY", m["C"])
    if m["L"]:
        field("DISTANCE", m["L"])
    if m["K"]:
        field("VEHICLES", m["K"])
    if m["ST"] and not m["ST_section"]:
        field("SERVICE_TIME", m["ST"])
    field("EDGE_WEIGHT_TYPE", m["type"])
    if m["format"]:
        field("EDGE_WEIGHT_FORMAT", m["format"])
    if m["extra"]:
        field(*m["extra"])
    order = list(s["order"])
    for part in order:
        if part == "w" and m["W"]:
            rows = entries(m["W"], m["format"])
            if s["wrap"]:
                flat = [x for r in rows for x in r]
                rows = [flat[i:i + s["wrap"]] for i in range(0, len(flat), s["wrap"])]
            section("EDGE_WEIGHT_SECTION", rows)
        elif part == "p" and m["points"]:
            section("NODE_COORD_SECTION", [[str(i + 1)] + p for i, p in enumerate(m["points"])])
        elif part == "dd" and m["dd"]:
            section("DISPLAY_DATA_SECTION", [[str(i + 1)] + p for i, p in enumerate(m["dd"])])
        elif part == "d" and m["demands"]:
            section("DEMAND_SECTION", [[str(i + 1), d] for i, d in enumerate(m["demands"])])
        elif part == "depot" and m["depots"] == "one":
            section("DEPOT_SECTION", [[str(m["depot"])], ["-1"]])
    if m["ST"] and m["ST_section"]:
        section("SVC_TIME_SECTION", [[str(i + 1), "0" if i + 1 == m["depot"] else m["ST"]] for i in range(m["n"])])
    if s["eof"]:
        out.append("EOF")
    return s["eol"].join(out) + s["eol"]


def nodes(m):
    """the nodes of the file, the depot first"""
    z = m["depot"] - 1
    return [z] + [i for i in range(m["n"]) if i != z]


def distances(m):
    """allowed values of each distance, and if they are real numbers"""
    idx = nodes(m)
    if m["type"] == "EXPLICIT":
        return [[[float(m["W"][i][j])] for j in idx] for i in idx], True
    pts = [[float(x) for x in m["points"][i]] for i in idx]
    if m["type"] == "GEO":
        pts = [[dist.geo_rad(x) for x in p] for p in pts]
    return ([[[0.0] if i == j else dist.reference(m["type"], p, q) for j, q in enumerate(pts)]
             for i, p in enumerate(pts)], m["type"] in ("EXACT_2D", "MAX_2D", "MAN_2D"))
