import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from vplib import core, gen, oracle, refs, refcheck
from vplib.refcheck import cons, inst_strategy, large_strategy, registry_call, target
from hypothesis import strategies as st


def ref_swp(case, D):
    inst = case["inst"]
    o = refs.sweep_orders(inst["pts"])
    n = len(o)
    runs = [(0, -1)] if case["single"] else [(a, b) for a in range(n) for b in (1, -1)]
    return refs.best_of([refs.sweep_once([o[(a + b * k) % n] for k in range(n)], D, *cons(inst))
                         for a, b in runs], D, case["minimize_K"])


def ref_sweep_param(case, D):
    inst = case["inst"]
    o = refs.sweep_orders(inst["pts"])
    n = len(o)
    if case["seed"] == "smallest_angle":
        starts = [0]
    elif case["seed"] == "closest":
        c = refs.pick_max([(-D[0][i], i) for i in o])
        starts = [o.index(c)]
    else:
        starts = [o.index(1 + (case["node"] - 1) % n)]
    dirs = {"ccw": [1], "cw": [-1], "both": [1, -1]}[case["direction"]]
    return refs.best_of([refs.sweep_once([o[(a + b * k) % n] for k in range(n)], D, *cons(inst))
                         for a in starts for b in dirs], D, case["minimize_K"])


def sweep_extra():
    return {"seed": st.sampled_from(["smallest_angle", "closest", "node"]),
            "node": st.integers(1, 16), "direction": st.sampled_from(["cw", "ccw", "both"])}


def targets():
    from verypy.classic_heuristics.sweep import sweep_init

    def call_sweep(ctx, case):
        inst = case["inst"]
        n = len(inst["pts"]) - 1
        seed = {"smallest_angle": -1, "closest": 0, "node": 1 + (case["node"] - 1) % n}[case["seed"]]
        return ctx.call(sweep_init, [list(p) for p in inst["pts"]], gen.matrix(inst), *cons(inst),
                        minimize_K=case["minimize_K"], direction=case["direction"], seed_node=seed)

    return [
        target("swp", registry_call("swp"), ref_swp, inst_strategy(metrics=("EXACT",), big=30), 10000, 200000, "cost"),
        target("large_swp", registry_call("swp"), ref_swp, large_strategy(hi=80), 150, 3000, "cost"),
        target("sweep", call_sweep, ref_sweep_param, inst_strategy(metrics=("EXACT",), extra=sweep_extra),
               10000, 200000, "cost"),
    ]


if __name__ == "__main__":
    sys.exit(core.run_check("P08", targets(), rule=(
        "all polar angles differ, and the solution has several routes of which one has several customers"),
        assumptions=["planar points, exact Euclidean distances (also with service times)"]))
