import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, tsplib

ODDTYPES = ("EUC_3D", "MAX_3D", "MAN_3D", "XRAY1", "XRAY2", "SPECIAL", "EUC2D", "euclid")
ODDFORMATS = ("UPPER_COL", "UPPER_DIAG_COL", "LOWER_DIAG_COL", "FUNCTION", "FULL", "MATRIX")
ODDKINDS = ("SOP", "HCP", "ATOUR", "TOUR", "VRPTW", "PDP")
ODDNUMBERS = ("x", "1,5", "--3", "1e", "?", "0x1f")


@st.composite
def case(draw):
    m = draw(tsplib.model())
    m["ST_section"] = m["ST_section"] and m["depot"] == 1
    kinds = ["type", "kind"]
    if m["W"]:
        kinds += ["few weights", "many weights", "format", "weight", "no format"]
    if m["points"]:
        kinds += ["coordinate", "few coordinates"]
        if not m["W"]:
            kinds += ["no type"]
        kinds += ["many coordinates"]
    if m["dd"] and not m["points"]:
        kinds += ["few display coordinates", "display coordinate"]
    if m["demands"]:
        kinds += ["demand", "few demands", "many demands"]
    if m["depots"] == "one":
        kinds += ["depots"]
    if m["C"] is not None:
        kinds += ["capacity"]
    kind = draw(st.sampled_from(kinds))
    m["odd"] = {"kind": kind, "which": draw(st.integers(0, 10 ** 6)),
                "count": draw(st.integers(1, 3)), "depot": draw(st.integers(1, m["n"]))}
    return m


def section(lines, name):
    """the line numbers of the entries of a section"""
    at = [i for i, l in enumerate(lines) if l.strip() == name][0] + 1
    end = at
    while end < len(lines) and lines[end].strip() and lines[end].strip()[0] in "0123456789-.":
        end += 1
    return list(range(at, end))


def spoil(m):
    txt = tsplib.text(m)
    eol = m["style"]["eol"]
    lines = txt.split(eol)
    o = m["odd"]
    kind, w, count = o["kind"], o["which"], o["count"]

    def field(name, value):
        for i, l in enumerate(lines):
            if re.match(name + r"\s*:", l):
                if value is None:
                    del lines[i]
                else:
                    lines[i] = "%s: %s" % (name, value)
                return
        raise ValueError(name)

    def pick(seq):
        return seq[w % len(seq)]

    if kind == "type":
        field("EDGE_WEIGHT_TYPE", pick(ODDTYPES))
    elif kind == "no type":
        field("EDGE_WEIGHT_TYPE", None)
    elif kind == "kind":
        field("TYPE", pick(ODDKINDS))
    elif kind == "format":
        field("EDGE_WEIGHT_FORMAT", pick(ODDFORMATS))
    elif kind == "no format":
        field("EDGE_WEIGHT_FORMAT", None)
    elif kind == "capacity":
        field("CAPACITY", pick(ODDNUMBERS))
    elif kind in ("few weights", "many weights", "weight"):
        at = section(lines, "EDGE_WEIGHT_SECTION")
        flat = [x for i in at for x in lines[i].split()]
        if kind == "few weights":
            count = min(count, len(flat))
            flat = flat[:len(flat) - count]
        elif kind == "many weights":
            flat += ["7"] * count
        else:
            flat[w % len(flat)] = pick(ODDNUMBERS)
        lines[at[0]:at[-1] + 1] = [" ".join(flat[i:i + m["n"]]) for i in range(0, len(flat), m["n"])]
    elif kind == "depots":
        at = section(lines, "DEPOT_SECTION")
        lines.insert(at[0], str(o["depot"]))
    else:
        name = {"coordinate": "NODE_COORD_SECTION", "few coordinates": "NODE_COORD_SECTION",
                "many coordinates": "NODE_COORD_SECTION",
                "display coordinate": "DISPLAY_DATA_SECTION", "few display coordinates": "DISPLAY_DATA_SECTION",
                "demand": "DEMAND_SECTION", "few demands": "DEMAND_SECTION",
                "many demands": "DEMAND_SECTION"}[kind]
        at = section(lines, name)
        if kind.startswith("few"):
            for i in reversed(at[max(0, len(at) - count):] if w % 2 else at[w % len(at):][:count]):
                del lines[i]
        elif kind.startswith("many"):
            extra = lines[at[-1]].split()
            lines[at[-1] + 1:at[-1] + 1] = [" ".join([str(m["n"] + 1 + i)] + extra[1:]) for i in range(count)]
        else:
            i = pick(at)
            f = lines[i].split()
            f[1 + w % (len(f) - 1)] = pick(ODDNUMBERS)
            lines[i] = " ".join(f)
    return eol.join(lines)


def reject(m, ctx):
    from verypy import cvrp_io
    txt = spoil(m)
    path = os.path.join(ctx.tmp, "p.vrp")
    try:
        with open(path, "w", newline="") as f:
            f.write(txt)
        try:
            P = cvrp_io.read_TSPLIB_CVRP(path)
        except Exception as e:
            ctx.label(m["odd"]["kind"], type(e).__name__)
            ctx.nontrivial(True)
            return
    finally:
        os.remove(path)
    ctx.require(False, "a problem file with an error (%s)\n%s\nis read as %r", m["odd"]["kind"], txt, tuple(P))


@st.composite
def service(draw):
    n = draw(st.integers(3, 9))
    t = [draw(st.sampled_from(["5", "5", "7", "2.5"])) for _ in range(n - 1)]
    if len(set(t)) < 2:
        t[draw(st.integers(0, n - 2))] = "11"
    return {"times": t, "eof": draw(st.booleans()), "depot": draw(st.sampled_from(["0", "5", "9"]))}


def times(c, ctx):
    from verypy import cvrp_io
    lines = ["NAME: x", "TYPE: CVRP", "DIMENSION: %d" % (len(c["times"]) + 1), "SVC_TIME_SECTION",
             "1 " + c["depot"]] + ["%d %s" % (i + 2, t) for i, t in enumerate(c["times"])]
    if c["eof"]:
        lines.append("EOF")
    path = os.path.join(ctx.tmp, "p.vrp")
    try:
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        try:
            r = cvrp_io.read_TSBLIB_additional_constraints(path)
        except Exception:
            ctx.nontrivial(True)
            return
    finally:
        os.remove(path)
    ctx.require(False, "the different service times %r are read as %r", c["times"], r)


def targets():
    import verypy.cvrp_io
    return [core.Target("reject", case, reject, quick=6000, thorough=200000, timeout_is_violation=True),
            core.Target("service", service, times, quick=1000, thorough=10000, timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P25", targets(), rule="the file is rejected with an exception", assumptions=[
        "each file has one of the listed errors: an unsupported problem, weight or format type, a missing type or "
        "format, weights, coordinates or demands that are missing, in excess or not numbers, a capacity that is not "
        "a number, a second depot, different service times"]))
