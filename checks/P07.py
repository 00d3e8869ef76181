import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from vplib import core, gen, oracle, refs, refcheck
from vplib.refcheck import cons, inst_strategy, large_strategy, registry_call, target
from hypothesis import strategies as st


def ref_sn(case, D):
    return refs.nearest_neighbor(D, *cons(case["inst"]))


def ref_pn(case, D):
    a = refs.nearest_neighbor(D, *cons(case["inst"]))
    runs = [a]
    if not case["single"]:
        runs += [refs.nearest_neighbor(D, *cons(case["inst"]), k=k) for k in range(2, len(a) + 1)]
    return refs.best_of(runs, D, False)


def ref_si(case, D):
    return refs.sequential_insertion(D, *cons(case["inst"]), minimize_K=case["minimize_K"])


def ref_mj_insert(case, D):
    return refs.sequential_insertion(D, *cons(case["inst"]), minimize_K=case["minimize_K"],
                                     lm=case["lm"], mm=case["mm"])


def lm_mm():
    return {"lm": st.sampled_from([0.0, 0.5, 1.0, 1.5, 2.0, 2.5]),
            "mm": st.sampled_from([0.0, 0.5, 1.0])}


def k_ends():
    return {"k": st.integers(1, 4), "ends": st.sampled_from(["both", "end"])}


def targets():
    from verypy.classic_heuristics.cheapest_insertion import (
        cheapest_insertion_init, parametrized_insertion_criteria)
    from verypy.classic_heuristics.nearest_neighbor import nearest_neighbor_init

    def call_ins(ctx, case):
        inst = case["inst"]
        lm, mm = case["lm"], case["mm"]
        return ctx.call(cheapest_insertion_init, gen.matrix(inst), *cons(inst),
                        minimize_K=case["minimize_K"], emerging_route_count=1,
                        insertion_strain_callback=lambda D, i, u, j:
                        parametrized_insertion_criteria(D, i, u, j, lm, mm))

    def call_nn(ctx, case):
        inst = case["inst"]
        return ctx.call(nearest_neighbor_init, gen.matrix(inst), *cons(inst),
                        emerging_route_count=case["k"],
                        add_only_to_end=case["ends"] == "end")

    return [
        target("sn", registry_call("sn"), ref_sn, inst_strategy(min_k=False, big=40), 8000, 160000),
        target("pn", registry_call("pn"), ref_pn, inst_strategy(min_k=False), 6000, 120000, "cost"),
        target("large_sn", registry_call("sn"), ref_sn, large_strategy(min_k=False), 150, 3000),
        target("large_pn", registry_call("pn"), ref_pn, large_strategy(hi=60, min_k=False), 80, 1500, "cost"),
        target("large_si", registry_call("si"), ref_si, large_strategy(hi=70), 100, 2000),
        target("nn_k", call_nn,
               lambda c, D: refs.nearest_neighbor(D, *cons(c["inst"]), k=c["k"], ends=c["ends"]),
               inst_strategy(min_k=False, extra=k_ends, lo=5), 6000, 120000),
        target("si", registry_call("si"), ref_si, inst_strategy(metrics=("EXACT",), big=30), 6000, 120000),
        target("insertion", call_ins, ref_mj_insert, inst_strategy(metrics=("EXACT",), extra=lm_mm), 6000, 120000),
    ]


if __name__ == "__main__":
    sys.exit(core.run_check("P07", targets(), rule=(
        "the reference procedure has no ties or borderline constraint checks on the instance, and the "
        "solution has several routes of which one has several customers"),
        assumptions=["symmetric distances that satisfy the triangle inequality",
                     "ties may be resolved either way: such cases are counted as skipped"]))
