import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, gen, oracle, solve

NAMES = {
    "ps": "cw64-ps cw parallelsavings clarkewright",
    "gpl": "ga67-ps ga67-ps|pi ga67-ps|lambda gaskellpi gaskelllambda",
    "ss": "we64-ss sequentialsavings",
    "gps": "pa88-ps generalizedsavings generalizedparallelsavings paessens",
    "ims": "hp76-ps hp76-ps|ims suppression iterativemergesuppression mergesuppressionsavings",
    "ps2o": "rt79-ps cawlip savingswith2opt",
    "si": "ci cheapestinsertion sequentialinsertion",
    "mj": "molejameson molejamesoninsertion",
    "pi": "parallelinsertion parallelcheapestinsertion",
    "mbsa": "dv89-mbsa matching maximummatching mm desrochersverhoog",
    "cmt": "cmt79-2p tp twophase cmt2p cmt2phase cmttwophase",
    "sn": "nn snn", "pn": "pnn", "ty": "ty68-snn tyagi", "swp": "sweep",
    "wh": "wh72-swls whs whswp wrenholliday wrenhollidaysweep",
    "gm": "gm74-swri gms gmswp gilletmiller gilletmillersweep",
    "rfcs": "be83-rfcs routefirstclustersecond beasley newtonthomas",
    "gap": "fj81-gap fisherjaikumar", "ptl": "fr76-ptl petal fosterryan", "lr3o": "sg82-lr3opt lr3opt"}
ALL = set(NAMES)
NOT_CLASSICAL = {"ps2o", "si", "pi", "sn", "pn", "swp"}
TABLE = {alias: k for k, v in NAMES.items() for alias in [k] + v.split()}
LONG = {"ps": "CW64-PS", "gpl": "Ga67-PS", "ss": "We64-SS", "gps": "Pa88-PS", "ims": "HP76-PS", "ps2o": "RT79",
        "si": "SI", "mj": "MJ76", "pi": "PI", "mbsa": "DV89", "cmt": "CMT79", "sn": "SNN", "pn": "PNN", "ty": "Ty68",
        "swp": "Sweep", "wh": "WH72", "gm": "GM74", "rfcs": "Be83", "gap": "FJ81", "ptl": "FR76", "lr3o": "SG84"}


@st.composite
def cased(draw, s):
    how = draw(st.sampled_from(["", "", "upper", "title", "mixed"]))
    if how == "upper":
        return s.upper()
    if how == "title":
        return s.title()
    if how == "mixed":
        return "".join(c.upper() if draw(st.booleans()) else c for c in s)
    return s


@st.composite
def names_case(draw):
    one = st.sampled_from(sorted(TABLE)).flatmap(cased)
    odd = st.one_of(st.sampled_from(["", " ps", "p s", "cw65", "2opt", "none", "ps,ss", "al", "cwps"]),
                    st.text(alphabet="abcdefghijklmnopqrstuvwxyz0123456789-|", max_size=8)
                    .filter(lambda s: s not in TABLE and s not in ("all", "classical", "classic")))
    group = st.sampled_from(["all", "classical", "classic"]).flatmap(cased)
    lst = draw(st.lists(st.one_of(one, one, one, one, odd, group), min_size=0, max_size=6))
    return {"names": lst, "single": len(lst) == 1 and draw(st.booleans()),
            "default": len(lst) == 0 and draw(st.booleans())}


def resolve(c, ctx):
    import verypy
    if c["default"]:
        got = ctx.call(verypy.get_algorithms)
        want = [["all"]]
    else:
        got = ctx.call(verypy.get_algorithms, c["names"][0] if c["single"] else list(c["names"]))
        want = [[x] for x in c["names"]]
    what = "get_algorithms(%r)" % (c["names"],)
    abbrs = [a[0] for a in got]
    rest = list(abbrs)
    odd = []
    for (nm,) in want:
        k = nm.lower()
        if k in TABLE:
            ctx.require(rest and rest[0] == TABLE[k], "%s gives %r: %r is not %r", what, abbrs, nm, TABLE[k])
            rest.pop(0)
        elif k in ("all", "classical", "classic"):
            members = ALL if k == "all" else ALL - NOT_CLASSICAL
            part, rest = rest[:len(members)], rest[len(members):]
            ctx.require(sorted(part) == sorted(members), "%s gives %r: %r is %r", what, abbrs, nm, part)
        else:
            odd.append(nm)
    ctx.require(not rest, "%s gives %r, of which %r were not asked for", what, abbrs, rest)
    msgs = [l for l in ctx.stderr.split("\n") if "not a valid" in l]
    ctx.require(len(msgs) == len(odd) and all(nm.lower() in l.lower() for nm, l in zip(odd, msgs)),
                "%s: the unknown names %r are reported as %r", what, odd, ctx.stderr)
    for a in got:
        ctx.require(len(a) == 4 and callable(a[3]) and LONG[a[0]] in a[1] and a[2],
                    "%s: the algorithm %r is described as %r, %r", what, a[0], a[1], a[2])
    ctx.label(*set(abbrs[:5]))
    ctx.nontrivial(len(abbrs) > 0)


FAST = ("ps", "ps2o", "gpl", "ss", "gps", "ims", "si", "mj", "pi", "sn", "pn", "swp", "gm", "ty", "rfcs", "cmt")


@st.composite
def alias_case(draw):
    abbr = draw(st.sampled_from(FAST))
    inst = draw(gen.instance(lo=2, mid=8, hi=11))
    alias = draw(cased(draw(st.sampled_from([abbr] + NAMES[abbr].split()))))
    return {"abbr": abbr, "alias": alias, "inst": inst, "single": draw(st.booleans()),
            "minimize_K": draw(st.booleans()) and abbr not in solve.NO_MIN_K}


def library(abbr):
    """the documented function of the heuristic, called as its documentation tells"""
    import importlib
    spec = {"ps": "parallel_savings.parallel_savings_init", "ps2o": "cawlip_savings.cawlip_savings_init",
            "ss": "sequential_savings.sequential_savings_init", "gps": "paessens_savings.paessens_savings_init",
            "ims": "suppression_savings.suppression_savings_init", "cmt": "cmt_2phase.cmt_2phase_init",
            "rfcs": "rfcs.route_first_cluster_second_init", "gpl": "gaskell_savings.gaskell_savings_init",
            "si": "cheapest_insertion.cheapest_insertion_init", "mj": "mole_jameson_insertion.mole_jameson_insertion_init"}
    if abbr not in spec:
        return None
    mod, fn = spec[abbr].split(".")
    return getattr(importlib.import_module("verypy.classic_heuristics." + mod), fn, None)


def canon(sol):
    return sorted(min(r, r[::-1]) for r in oracle.routes_of(sol))


def same(c, ctx):
    """an alias, the abbreviation and the library function solve alike"""
    import verypy
    k = (c["single"], c["minimize_K"])
    a = solve.solve(ctx, c["abbr"], gen.solver_args(c["inst"]), *k)
    algo = ctx.call(verypy.get_algorithms, [c["alias"]])[0][3]
    b = ctx.call(algo, *(tuple(gen.solver_args(c["inst"])) + k))
    what = "%s of %r" % (c["abbr"], c["inst"])
    ctx.require(canon(a) == canon(b), "%s gives %r, but %r as %s", what, a, b, c["alias"])
    f = library(c["abbr"])
    if f is not None and not c["single"]:
        points, D, d, C, L, _, _ = gen.solver_args(c["inst"])
        r = ctx.call(f, D=D, d=d, C=C, L=L, minimize_K=c["minimize_K"])
        ctx.require(canon(a) == canon(r), "%s gives %r, but %r from %s", what, a, r, getattr(f, "__name__", f))
        ctx.label("library")
    ctx.label(c["abbr"])
    ctx.nontrivial(len(canon(a)) > 1)


def targets():
    solve.preload(sorted(ALL))
    return [core.Target("resolve", names_case, resolve, quick=3000, thorough=60000, timeout_is_violation=True),
            core.Target("same", alias_case, same, quick=1200, thorough=40000)]


if __name__ == "__main__":
    sys.exit(core.run_check("P26", targets(), rule="an algorithm is found (resolve), two routes or more (same)",
                            assumptions=["gurobipy is installed"]))
