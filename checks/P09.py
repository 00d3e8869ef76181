import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, gen, oracle, solve

MULTI = ["gpl", "mj", "pn", "swp", "gm"]


def value(sol, D, minimize_K):
    return (oracle.n_routes(sol) if minimize_K else 0, oracle.sol_len(sol, D))


def not_worse(a, b):
    """(K, cost) a is as good as b, up to rounding"""
    return a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1] + oracle.tol(b[1]))


def same(a, b):
    return not_worse(a, b) and not_worse(b, a)


def strategy(lo=1, mid=9, hi=14, metrics=("EXACT", "EXACT", "ROUND", "WARP"), kinds=None, **extra):
    def f():
        fields = {"inst": gen.instance(lo=lo, mid=mid, hi=hi, metrics=metrics, kinds=kinds),
                  "minimize_K": st.booleans()}
        for k, v in extra.items():
            fields[k] = v()
        return st.fixed_dictionaries(fields)
    return f


def checked(ctx, sol, inst, D, what):
    bad = oracle.solution_defect(sol, D, inst["d"], inst["C"], inst["L"])
    ctx.require(bad is None, "%s: %s", what, bad)
    return sol


def run_multi(abbr):
    def run(case, ctx):
        inst, mk = case["inst"], case["minimize_K"]
        if abbr in solve.NO_MIN_K:
            mk = False
        D = gen.matrix(inst)
        gen.classify(inst, ctx)
        one = checked(ctx, solve.solve(ctx, abbr, gen.solver_args(inst), True, mk), inst, D, "single")
        many = checked(ctx, solve.solve(ctx, abbr, gen.solver_args(inst), False, mk), inst, D, "all")
        a, b = value(many, D, mk), value(one, D, mk)
        ctx.require(not_worse(a, b), "%s (minimize_K=%s): the best of all runs %r (%r) is worse than "
                    "the single run %r (%r)", abbr, mk, many, a, one, b)
        ctx.nontrivial(not same(a, b))
    return run


def run_best_of(name, variants):
    """variants(inst, D, mk, ctx, case) -> (combined solution, [individual ones])"""
    def run(case, ctx):
        inst, mk = case["inst"], case["minimize_K"]
        D = gen.matrix(inst)
        gen.classify(inst, ctx)
        best, parts = variants(inst, D, mk, ctx, case)
        for s in [best] + parts:
            checked(ctx, s, inst, D, name)
        a = value(best, D, mk)
        vals = [value(s, D, mk) for s in parts]
        m = min(vals)
        ctx.require(same(a, m), "%s (minimize_K=%s): returned %r (%r), the best of the individual runs "
                    "is %r (%r)", name, mk, best, a, parts[vals.index(m)], m)
        ctx.nontrivial(not all(same(v, m) for v in vals))
    return run


def v_gaskell(inst, D, mk, ctx, case):
    from verypy.classic_heuristics.gaskell_savings import gaskell_savings_init as f
    a = (inst["d"], inst["C"], inst["L"])
    return (ctx.call(f, D, *a, minimize_K=mk, savings_method="both"),
            [ctx.call(f, D, *a, minimize_K=mk, savings_method=m) for m in ("lambda", "pi")])


def v_paessens(inst, D, mk, ctx, case):
    from verypy.classic_heuristics.paessens_savings import paessens_savings_init as f
    a = (inst["d"], inst["C"], inst["L"])
    ps = [tuple(p) for p in case["params"]]
    return (ctx.call(f, D, *a, minimize_K=mk, strategy=list(ps), do_3opt=case["do_3opt"]),
            [ctx.call(f, D, *a, minimize_K=mk, strategy=[p], do_3opt=case["do_3opt"]) for p in ps])


def v_mj(inst, D, mk, ctx, case):
    from verypy.classic_heuristics.mole_jameson_insertion import mole_jameson_insertion_init as f
    a = (inst["d"], inst["C"], inst["L"])
    return (ctx.call(f, D, *a, minimize_K=mk, strain_criterion="all"),
            [ctx.call(f, D, *a, minimize_K=mk, strain_criterion=c)
             for c in ("proximity_ranking", "min_strain", "clarke_wright", "gaskell",
                       "augumented_min_strain")])


def v_sweep(which):
    def v(inst, D, mk, ctx, case):
        if which == "swp":
            from verypy.classic_heuristics.sweep import sweep_init as f
        else:
            from verypy.classic_heuristics.gillet_miller_sweep import gillet_miller_init as f
        a = (inst["d"], inst["C"], inst["L"])
        pts = inst["pts"]
        dirs = {"both": ("cw", "ccw"), "cw": ("cw",), "ccw": ("ccw",)}[case["direction"]]
        return (ctx.call(f, [list(p) for p in pts], D, *a, minimize_K=mk,
                         direction=case["direction"], seed_node=-2),
                [ctx.call(f, [list(p) for p in pts], D, *a, minimize_K=mk, direction=dr, seed_node=s)
                 for dr in dirs for s in range(1, len(pts))])
    return v


def run_m4(case, ctx):
    """M4: four fixed parameter pairs, and four more around the best of them"""
    from verypy.classic_heuristics.paessens_savings import paessens_savings_init as f
    inst, mk = case["inst"], case["minimize_K"]
    D = gen.matrix(inst)
    a = (inst["d"], inst["C"], inst["L"])

    def one(p):
        s = ctx.call(f, D, *a, minimize_K=mk, strategy=[p], do_3opt=case["do_3opt"])
        return value(checked(ctx, s, inst, D, "gps"), D, mk)
    best = checked(ctx, ctx.call(f, D, *a, minimize_K=mk, strategy="M4", do_3opt=case["do_3opt"]),
                   inst, D, "M4")
    four = [(1.0, 0.1), (1.0, 0.5), (1.4, 0.0), (1.4, 0.5)]
    vals = [one(p) for p in four]
    m = min(vals)
    allowed = []
    for p, v in zip(four, vals):
        if same(v, m):
            g, ff = p
            allowed.append(min([m] + [one(q) for q in ((g - 0.1, ff), (g + 0.1, ff),
                                                       (g, ff - 0.1), (g, ff + 0.1))]))
    b = value(best, D, mk)
    ctx.require(not_worse(b, m), "M4 gives %r, worse than the best of its four runs %r", b, m)
    ctx.require(any(same(b, x) for x in allowed), "M4 gives %r, the runs give %r", b, allowed)
    ctx.nontrivial(not all(same(v, m) for v in vals + allowed))


def run_m1(case, ctx):
    """M1: all the pairs of g = 0.8 ... 2.0 and f = 0.0 ... 1.0"""
    from verypy.classic_heuristics.paessens_savings import paessens_savings_init as f
    inst, mk = case["inst"], case["minimize_K"]
    D = gen.matrix(inst)
    a = (inst["d"], inst["C"], inst["L"])
    best = value(checked(ctx, ctx.call(f, D, *a, minimize_K=mk, strategy="M1", do_3opt=False), inst, D, "M1"), D, mk)
    vals = []
    for g in range(8, 21):
        for h in range(11):
            s = ctx.call(f, D, *a, minimize_K=mk, strategy=[(g / 10.0, h / 10.0)], do_3opt=False)
            vals.append(value(checked(ctx, s, inst, D, "gps"), D, mk))
    ctx.require(same(best, min(vals)), "M1 gives %r, its best run %r", best, min(vals))
    ctx.nontrivial(not all(same(v, vals[0]) for v in vals))


def run_chain(case, ctx):
    """improving a savings solution, or perturbing the savings, never loses"""
    inst, mk = case["inst"], case["minimize_K"]
    D = gen.matrix(inst)
    sols = {}
    for ab in ("ps", "ps2o", "ims"):
        sols[ab] = checked(ctx, solve.solve(ctx, ab, gen.solver_args(inst), False, mk), inst, D, ab)
    f = {ab: oracle.sol_len(s, D) for ab, s in sols.items()}
    k = {ab: oracle.n_routes(s) for ab, s in sols.items()}
    ctx.require(f["ps2o"] <= f["ps"] + oracle.tol(f["ps"]),
                "2-opt made the savings solution worse: %r -> %r", sols["ps"], sols["ps2o"])
    if inst["metric"] == "EXACT":
        ctx.require(not_worse((k["ims"] if mk else 0, f["ims"]), (k["ps"] if mk else 0, f["ps"])),
                    "the best of the suppressed savings runs %r is worse than the one without "
                    "suppression %r", sols["ims"], sols["ps"])
    indiv = sum(2.0 * float(D[0, i]) for i in range(1, len(D)))
    if not mk:
        for ab in sols:
            ctx.require(f[ab] <= indiv + oracle.tol(indiv),
                        "%s costs %r, more than serving every customer alone %r", ab, f[ab], indiv)
    ctx.nontrivial(f["ps2o"] < f["ps"] - 1e-6 or f["ims"] < f["ps"] - 1e-6)


def run_objective(case, ctx):
    """sweeps are the same for both objectives, only the choice differs"""
    inst = case["inst"]
    D = gen.matrix(inst)
    a = checked(ctx, solve.solve(ctx, "swp", gen.solver_args(inst), False, False), inst, D, "swp")
    b = checked(ctx, solve.solve(ctx, "swp", gen.solver_args(inst), False, True), inst, D, "swp")
    ctx.require(oracle.n_routes(b) <= oracle.n_routes(a), "minimizing routes gives %r, minimizing cost %r", b, a)
    fa, fb = oracle.sol_len(a, D), oracle.sol_len(b, D)
    ctx.require(fa <= fb + oracle.tol(fb), "minimizing cost gives %r, minimizing routes %r", a, b)
    ctx.nontrivial(oracle.n_routes(b) < oracle.n_routes(a))


def targets():
    solve.preload(MULTI + ["ps", "ps2o", "ims"])
    par = lambda: st.lists(st.tuples(st.integers(1, 30).map(lambda x: x / 10.0),
                                     st.integers(0, 10).map(lambda x: x / 10.0)).map(list),
                           min_size=2, max_size=4)
    direction = lambda: st.sampled_from(["both", "cw", "ccw"])
    T = core.Target
    kw = {"timeout_is_violation": True}
    out = [T("multi_" + ab, strategy(lo=2 if ab == "gm" else 1, hi=10 if ab == "gm" else 14,
                                     mid=7 if ab == "gm" else 9), run_multi(ab),
             quick=300 if ab == "gm" else 1500, thorough=6000 if ab == "gm" else 30000, **kw)
           for ab in MULTI]
    out += [
        T("gaskell", strategy(), run_best_of("gaskell", v_gaskell), quick=2500, thorough=50000, **kw),
        T("paessens", strategy(params=par, do_3opt=st.booleans),
          run_best_of("paessens", v_paessens), quick=1500, thorough=30000, **kw),
        T("m4", strategy(do_3opt=st.booleans), run_m4, quick=500, thorough=10000, **kw),
        T("m4_big", strategy(lo=8, mid=18, hi=30, do_3opt=lambda: st.just(False)), run_m4, quick=800,
          thorough=16000, **kw),
        T("m1", strategy(lo=4, mid=9, hi=14, metrics=("EXACT",), kinds=["generic", "fine"]), run_m1, quick=100, thorough=2000, **kw),
        T("mole_jameson", strategy(mid=8, hi=11), run_best_of("mole_jameson", v_mj),
          quick=700, thorough=14000, **kw),
        T("sweep", strategy(lo=2, direction=direction), run_best_of("sweep", v_sweep("swp")),
          quick=2000, thorough=40000, **kw),
        T("gillet_miller", strategy(lo=2, mid=6, hi=9, direction=direction),
          run_best_of("gillet_miller", v_sweep("gm")), quick=250, thorough=5000, **kw),
        T("chain", strategy(), run_chain, quick=2500, thorough=50000, **kw),
        T("objective", strategy(), run_objective, quick=2500, thorough=50000, **kw),
    ]
    return out


if __name__ == "__main__":
    sys.exit(core.run_check("P09", targets(), rule=(
        "the individual runs (or the two calls compared) do not all have the same value, so that "
        "choosing the wrong one would show"),
        assumptions=["values within 1e-6 relative are equal"]))
