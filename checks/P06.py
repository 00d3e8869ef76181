import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, gen, oracle, refs, refcheck
from vplib.refcheck import cons, inst_strategy, large_strategy, registry_call, target


def ref_ps(case, D):
    return refs.parallel_savings(D, *cons(case["inst"]), minimize_K=case["minimize_K"])


def ref_ss(case, D):
    return refs.sequential_savings(D, *cons(case["inst"]), minimize_K=case["minimize_K"])


def ref_ims(case, D):
    n = len(D) - 1
    count = max(1, min(int(n / 7) + 5, n * (n - 1) // 2))
    return refs.best_of(refs.suppression_runs(D, *cons(case["inst"]), case["minimize_K"], count),
                        D, case["minimize_K"])


def ref_gaskell(case, D, which):
    avg = sum(map(sum, D)) / float(len(D) ** 2)
    score = {"pi": lambda i, j: refs.cw(D, i, j) - D[i][j],
             "lambda": lambda i, j: refs.cw(D, i, j) * (avg + abs(D[0][i] - D[0][j]) - D[i][j])}
    return refs.best_of([refs.parallel_savings(D, *cons(case["inst"]),
                                               minimize_K=case["minimize_K"], score=score[w])
                         for w in which], D, case["minimize_K"])


def ref_paessens(case, D):
    runs = []
    for g, f in case["params"]:
        runs.append(refs.parallel_savings(
            D, *cons(case["inst"]), minimize_K=case["minimize_K"],
            score=lambda i, j: D[i][0] + D[0][j] - g * D[i][j] + f * abs(D[i][0] - D[0][j])))
    return refs.best_of(runs, D, case["minimize_K"])


def params():
    p = st.tuples(st.integers(1, 30).map(lambda x: x / 10.0), st.integers(0, 10).map(lambda x: x / 10.0))
    return {"params": st.lists(p.map(list), min_size=1, max_size=4)}


def gaskell_method():
    return {"method": st.sampled_from(["both", "lambda", "pi"])}


def run_maximal(case, ctx):
    """no two routes that the procedure could still join are left"""
    from verypy.classic_heuristics.parallel_savings import parallel_savings_init
    from verypy.classic_heuristics.gaskell_savings import gaskell_savings_init
    from verypy.classic_heuristics.paessens_savings import paessens_savings_init
    inst = case["inst"]
    D = gen.matrix(inst)
    d, C, L = cons(inst)
    mk = case["minimize_K"]
    v = case["variant"]
    if v == "clarke_wright":
        sol = ctx.call(parallel_savings_init, D, d, C, L, mk)
    elif v in ("lambda", "pi"):
        sol = ctx.call(gaskell_savings_init, D, d, C, L, mk, v)
    else:
        sol = ctx.call(paessens_savings_init, D, d, C, L, mk, [(1.4, 0.5)], False)
    bad = oracle.solution_defect(sol, D, d, C, L)
    ctx.require(bad is None, "%s: %s", v, bad)
    R = oracle.routes_of(sol)
    for a in range(len(R)):
        for b in range(a + 1, len(R)):
            for x in (R[a], R[a][::-1]):
                for y in (R[b], R[b][::-1]):
                    s = float(D[x[-1], 0] + D[0, y[0]] - D[x[-1], y[0]])
                    if s < 1e-6 and not mk:
                        continue
                    if C and sum(d[i] for i in x + y) > C - 1e-9:
                        continue
                    if L and oracle.route_len(x + y, D) > L - 1e-6:
                        continue
                    ctx.fail("%s: routes %r and %r could be joined, saving %r, in %r", v, x, y, s, sol)
    ctx.label(v)
    ctx.nontrivial(len(R) > 1)


def maximal_strategy():
    return st.fixed_dictionaries({
        "inst": st.one_of(gen.instance(lo=2, mid=10, hi=16, metrics=("EXACT",)),
                          gen.instance(lo=2, mid=10, hi=16, metrics=("EXACT", "ROUND"), want="C")),
        "minimize_K": st.booleans(),
        "variant": st.sampled_from(["clarke_wright", "lambda", "pi", "paessens"])})


def targets():
    from verypy.classic_heuristics.gaskell_savings import gaskell_savings_init
    from verypy.classic_heuristics.paessens_savings import paessens_savings_init

    def call_paessens(ctx, case):
        inst = case["inst"]
        return ctx.call(paessens_savings_init, gen.matrix(inst), *cons(inst),
                        minimize_K=case["minimize_K"],
                        strategy=[tuple(p) for p in case["params"]], do_3opt=False)

    def call_gaskell(ctx, case):
        inst = case["inst"]
        return ctx.call(gaskell_savings_init, gen.matrix(inst), *cons(inst),
                        minimize_K=case["minimize_K"], savings_method=case["method"])

    return [
        target("ps", registry_call("ps"), ref_ps, inst_strategy(big=40), 8000, 160000),
        target("ss", registry_call("ss"), ref_ss, inst_strategy(big=30), 6000, 120000),
        target("large_ps", registry_call("ps"), ref_ps, large_strategy(), 150, 3000),
        target("large_ss", registry_call("ss"), ref_ss, large_strategy(), 150, 3000),
        target("ims", registry_call("ims"), ref_ims, inst_strategy(big=24), 4000, 80000, "cost"),
        target("gpl", registry_call("gpl"),
               lambda c, D: ref_gaskell(c, D, ["pi"] if c["single"] else ["pi", "lambda"]),
               inst_strategy(), 4000, 80000, "cost"),
        target("gaskell", call_gaskell,
               lambda c, D: ref_gaskell(c, D, ["pi", "lambda"] if c["method"] == "both" else [c["method"]]),
               inst_strategy(extra=gaskell_method), 4000, 80000, "cost"),
        target("paessens", call_paessens, ref_paessens, inst_strategy(extra=params), 4000, 80000, "cost"),
        core.Target("maximal", maximal_strategy, run_maximal, quick=6000, thorough=120000,
                    timeout_is_violation=True),
    ]


if __name__ == "__main__":
    sys.exit(core.run_check("P06", targets(), rule=(
        "the reference procedure has no ties or borderline constraint checks on the instance, and the "
        "solution has several routes of which one has several customers (maximal: several routes)"),
        assumptions=["symmetric distances", "ties may be resolved either way: such cases are counted as skipped"]))
