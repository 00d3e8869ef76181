"""Targets: a constructive heuristic returns what its reference procedure does."""
from hypothesis import strategies as st

from . import core, feas, gen, oracle, refs, solve

KINDS = ["generic", "generic", "generic", "fine", "int"]


def inst_strategy(min_k=True, extra=None, **kw):
    kw.setdefault("lo", 2)
    kw.setdefault("mid", 10)
    kw.setdefault("hi", 16)
    kw.setdefault("kinds", KINDS)
    kw.setdefault("metrics", ("EXACT", "EXACT", "EXACT", "WARP"))

    def strategy():
        f = {"inst": gen.instance(**kw), "single": st.booleans(),
             "minimize_K": st.booleans() if min_k else st.just(False)}
        f.update(extra() if extra else {})
        return st.fixed_dictionaries(f)
    return strategy


def large_strategy(lo=40, hi=100, min_k=True, extra=None, cons=("C", "CL", "L")):
    """uniformly scattered customers, few of whose distances tie"""
    def strategy():
        inst = st.fixed_dictionaries({
            "n": st.integers(lo, hi), "seed": st.integers(0, 10**6), "shape": st.just("uniform"),
            "cons": st.sampled_from(cons), "metric": st.just("EXACT"), "per_route": st.integers(2, 25),
            "slack": st.integers(0, 12)}).map(feas.scattered)
        f = {"inst": inst, "single": st.booleans(), "minimize_K": st.booleans() if min_k else st.just(False)}
        f.update(extra() if extra else {})
        return st.fixed_dictionaries(f)
    return strategy


def target(name, call, ref, strategy, quick, thorough, compare="routes"):
    """call(ctx, case) -> solution; ref(case, D) -> routes, or (cost, K) if
    compare is "cost"."""

    def run(case, ctx):
        inst = case["inst"]
        D = gen.matrix(inst).astype(float).tolist()
        gen.classify(inst, ctx)
        try:
            want = ref(case, D)
        except refs.Ambiguous as e:
            ctx.skip("ambiguous_" + str(e).replace(" ", "_"))
        sol = call(ctx, case)
        bad = oracle.solution_defect(sol, D, inst["d"], inst["C"], inst["L"])
        ctx.require(bad is None, "%s: %s", name, bad)
        got = oracle.routes_of(sol)
        if compare == "cost":
            f, k = want
            fg = refs.cost(got, D)
            ctx.require(abs(f - fg) <= oracle.tol(f) and (k is None or k == len(got)),
                        "%s: cost %.9g with %d routes, but the procedure gives %.9g with %r: %r",
                        name, fg, len(got), f, k, sol)
        else:
            ctx.require(refs.canon_routes(got) == refs.canon_routes(want),
                        "%s: routes are %r, but the procedure gives %r", name,
                        refs.canon_routes(got), refs.canon_routes(want))
        ctx.nontrivial(len(got) > 1 and max(map(len, got)) > 1)

    return core.Target(name, strategy, run, quick=quick, thorough=thorough,
                       timeout_is_violation=True)


def registry_call(abbr):
    solve.preload([abbr])

    def call(ctx, case):
        return solve.solve(ctx, abbr, gen.solver_args(case["inst"]), case["single"],
                           case["minimize_K"])
    return call


def cons(inst):
    return inst["d"], inst["C"], inst["L"]
