import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, feas, gen, oracle

H = "verypy.classic_heuristics."
pick = lambda *xs: st.sampled_from(xs)
flag = st.booleans
tenths = lambda lo, hi: st.integers(lo * 10, hi * 10).map(lambda x: x / 10.0)
direction = lambda: pick("both", "cw", "ccw")


def tsp(name):
    m, f = {"2opt": ("ropt", "solve_tsp_2opt"), "3opt": ("ropt", "solve_tsp_3opt"),
            "ropt": ("ropt", "solve_tsp_ropt"), "gurobi": ("gurobi", "solve_tsp_gurobi")}[name]
    return getattr(importlib.import_module("verypy.tsp_solvers.tsp_solver_" + m), f)


def k_of(o, n):
    # (also more routes than there are customers)
    return max(1, min(o["k"], n + 2))


def own_seeds(n, step, k):
    """a function that gives seeds for k routes at first, and then for one at a time"""
    order = lambda c: (c * step) % (2 * n + 1)

    def seeds(D, unrouted, rd):
        s = sorted([(order(c), [c]) for c in unrouted])
        return s[-k:] if rd is None else s[-1:]
    return seeds


def far_first(D, i, u, j):
    """a strain function of our own: the most expensive insertion first"""
    return D[i, u] + D[u, j] - D[i, j], D[i, u]


def si(f, a, o, mk):
    from verypy.classic_heuristics.cheapest_insertion import parametrized_insertion_criteria as crit
    lm, mm = o["lm"], o["mm"]
    n = len(a["D"]) - 1
    init = o["init"]
    if isinstance(init, int):
        init = own_seeds(n, init, k_of(o, n))
    return f(a["D"], a["d"], a["C"], a["L"], minimize_K=mk, emerging_route_count=k_of(o, n),
             initialize_routes_with=init,
             insertion_strain_callback=far_first if o["far"] else lambda D, i, u, j: crit(D, i, u, j, lm, mm))


def ss(f, a, o, mk):
    n = len(a["D"]) - 1
    init = o["initialize_routes_with"]
    if isinstance(init, int):
        step = init
        init = lambda D: sorted(range(1, n + 1), key=lambda c: (c * step) % (2 * n + 1))
    return f(a["D"], a["d"], a["C"], a["L"], minimize_K=mk, initialize_routes_with=init)


def nn(f, a, o, mk):
    n = len(a["D"]) - 1
    return f(a["D"], a["d"], a["C"], a["L"], emerging_route_count=k_of(o, n), initialize_routes_with=o["init"],
             add_only_to_end=o["end"])


def sweep_seed(s, n):
    return [1 + (x % n) - 1 for x in s] if isinstance(s, list) else s if s <= 0 else 1 + (s - 1) % n


def plain(pts=False, with_mk=True, **fix):
    def call(f, a, o, mk):
        kw = dict(o, **({"minimize_K": mk} if with_mk else {}))
        return f(*([a["pts"]] if pts else []), a["D"], a["d"], a["C"], a["L"], **kw)
    return call


def swp(f, a, o, mk):
    algo = o["algo"] and tsp(o["algo"])
    return f(a["pts"], a["D"], a["d"], a["C"], a["L"], minimize_K=mk, direction=o["direction"],
             seed_node=sweep_seed(o["seed"], len(a["D"]) - 1), routing_algo=algo)


def gm(f, a, o, mk):
    return f(a["pts"], a["D"], a["d"], a["C"], a["L"], minimize_K=mk, direction=o["direction"],
             seed_node=sweep_seed(o["seed"], len(a["D"]) - 1))


def rfcs(f, a, o, mk):
    return f(a["D"], a["d"], a["C"], a["L"], minimize_K=mk, tsp_gen_algo=tsp(o["gen"]),
             partition_tsp_opt_algo=tsp(o["part"]), route_tsp_opt_algo=tsp(o["route"]))


def mbsa(f, a, o, mk):
    return f(a["D"], a["d"], a["C"], a["L"], minimize_K=mk, W=o["W"], solve_tsp=tsp(o["tsp"]))


def cmt(f, a, o, mk):
    if a["d"] is None and o["phase1_seed_selection_method"] == "biggest":
        o["phase1_seed_selection_method"] = "farthest"
    return f(a["D"], a["d"], a["C"], a["L"], minimize_K=mk, **o)


def ptl(f, a, o, mk):
    # a number of iterations may not be enough to reach a feasible solution from an infeasible one
    return f(a["pts"], a["D"], a["d"], a["C"], a["L"], minimize_K=mk, allow_infeasible=not o["required_iterations"], **o)


def lr3o(f, a, o, mk):
    kw = {"initial_lambda1_C": o["lc"], "initial_lambda1_L": o["ll"], "postoptimize_with_3optstar": o["post"]}
    if o["single_routes"]:
        kw["initialization_algorithm"] = \
            lambda D, d, C, L: (sum(([0, i] for i in range(1, len(D))), []) + [0], 2.0 * sum(D[0]))
    return f(a["D"], a["d"], a["C"], a["L"], **kw)


def gap(f, a, o, mk):
    kw = {"minimize_K": mk, "find_optimal_seeds": o["all"], "seed_method": o["method"],
          "use_adaptive_L_constraint_weights": o["adaptive"], "seed_edge_weight_type": "EXACT_2D"}
    if a["C"] is None and kw["seed_method"] == "large_demands":
        kw["seed_method"] = "cones"
    return f(a["pts"], a["D"], a["d"], a["C"], a["L"], a["st"], **kw)


SEEDS = lambda: st.one_of(pick(0, -1, -2), st.integers(1, 20), st.lists(st.integers(0, 20), min_size=1, max_size=3))
K = lambda: st.integers(1, 4)
# name: (module, function, options, call, instance arguments, minimize_K, quick cases)
HEURISTICS = {
    "insertion": ("cheapest_insertion", "cheapest_insertion_init",
                  dict(k=K(), init=pick("farthest", "closest", "strain", 1, 2, 7), lm=tenths(0, 3), mm=tenths(0, 2),
                       far=pick(False, False, True)),
                  si, {}, True, 3000),
    "nearest_neighbor": ("nearest_neighbor", "nearest_neighbor_init",
                         dict(k=K(), init=pick("farthest", "closest", "nearest"), end=flag()), nn, {}, False, 3000),
    "two_phase": ("cmt_2phase", "cmt_2phase_init",
                  dict(lambda_multiplier=tenths(0, 3), mu_multiplier=tenths(0, 3),
                       phase1_seed_selection_method=pick("first", "farthest", "closest", "biggest"),
                       phase2_choose_most_associated_route=flag(),
                       phase2_repeated_association_with_n_routes=pick(None, 1, 2, 3, "K"),
                       number_of_randomized_retries=pick(None, None, 1, 2, 3)), cmt, {}, True, 2500),
    "tyagi": ("tyagi_nearest_neighbor", "tyagi_init",
              dict(only_large_and_close_customer_single_routes=flag(),
                   try_interchange_with_all_group_customers=flag(),
                   select_grouping=pick("min_penalty", "max_demand", "balanced")), plain(with_mk=False),
              dict(lo=2), False, 2500),
    "suppression": ("suppression_savings", "suppression_savings_init", dict(Lprime=st.integers(0, 12)), plain(), {},
                    True, 1500),
    "sequential": ("sequential_savings", "sequential_savings_init",
                   dict(initialize_routes_with=pick("farthest", "closest", "first", "last", "savings", 1, 3)), ss, {},
                   True, 2000),
    "paessens": ("paessens_savings", "paessens_savings_init",
                 dict(strategy=pick("M1", "M4", "M4", "M4"), do_3opt=flag()), plain(), dict(mid=7, hi=10), True, 600),
    "gaskell": ("gaskell_savings", "gaskell_savings_init", dict(savings_method=pick("both", "lambda", "pi")), plain(),
                {}, True, 1000),
    "mole_jameson": ("mole_jameson_insertion", "mole_jameson_insertion_init",
                     dict(strain_criterion=pick("all", "proximity_ranking", "min_strain", "clarke_wright", "gaskell",
                                                "augumented_min_strain")), plain(), {}, True, 1500),
    "sweep": ("sweep", "sweep_init", dict(direction=direction(), seed=SEEDS(), algo=pick(None, "2opt", "3opt")), swp, {},
              True, 2000),
    "gillet_miller": ("gillet_miller_sweep", "gillet_miller_init", dict(direction=direction(), seed=SEEDS()), gm,
                      dict(mid=9, hi=12), True, 800),
    "wren_holliday": ("wren_holliday_sweep", "wren_holliday_init",
                      dict(seed_node=pick(-99, -98, -2), direction=direction(), full_convergence=flag()),
                      plain(pts=True), dict(lo=2, mid=8, hi=11), True, 600),
    "route_first": ("rfcs", "route_first_cluster_second_init",
                    dict(gen=pick("2opt", "3opt", "ropt"), part=pick("2opt", "3opt", "ropt"),
                         route=pick("2opt", "3opt", "ropt")), rfcs, {}, True, 1200),
    "matching": ("matchingvrp", "mbsa_init", dict(W=pick(0.0, -10.0, -1e4), tsp=pick("2opt", "ropt", "gurobi")), mbsa,
                 dict(lo=1, mid=6, hi=8), True, 300),
    "lagrangian": ("lr3opt", "lr3opt_init",
                   dict(lc=pick(None, 0.05, 0.5, 2.0), ll=pick(None, 0.05, 0.5, 2.0), post=flag(), single_routes=flag()),
                   lr3o, dict(mid=7, hi=9), False, 400),
    "assignment": ("gapvrp", "gap_init",
                   dict(all=flag(), method=pick("cones", "kmeans", "large_demands"),
                        adaptive=flag()), gap, dict(lo=2, mid=5, hi=6, kinds=["generic"]), True, 200),
    "petal": ("petalvrp", "petal_init",
              dict(relaxe_SCP_solutions=flag(), required_iterations=pick(None, None, 3),
                   min_iterations=pick(None, None, 2), restricted_route_ratio=pick(0.75, 0.5, 0.9, None),
                   can_discard_multiple_customers=pick("auto", True, False, 2)), ptl,
              dict(lo=1, mid=6, hi=8, kinds=["generic"]), True, 300),
}
MAY_FAIL = ("assignment",)


def target(name):
    module, function, options, call, kw, mk, quick = HEURISTICS[name]
    f = getattr(importlib.import_module(H + module), function)

    def run(case, ctx):
        inst = case["inst"]
        pts, D, d, C, L, stime, _ = gen.solver_args(inst)
        gen.classify(inst, ctx)
        opts = case["options"]
        for k in opts:
            ctx.label("%s=%s" % (k, type(opts[k]).__name__ if isinstance(opts[k], list) else opts[k]))
        what = "%s with %r, minimize_K=%s," % (function, opts, case["minimize_K"])
        sol = ctx.call(call, f, {"pts": pts, "D": D, "d": d, "C": C, "L": L, "st": stime}, dict(opts), case["minimize_K"])
        if sol is None and name in MAY_FAIL:
            ctx.skip("no solution")
        bad = oracle.solution_defect(sol, gen.matrix(inst), inst["d"], inst["C"], inst["L"])
        ctx.require(bad is None, "%s: %s", what, bad)
        ctx.require(all(a != 0 or b != 0 for a, b in zip(sol, sol[1:])), "%s has an empty route: %r", what, sol)
        k = oracle.n_routes(sol)
        ctx.nontrivial(k > 1 and max(len(r) for r in oracle.routes_of(sol)) > 1)

    args = dict({"zero_demand": True}, **kw)
    return core.Target(name, lambda: st.fixed_dictionaries({
        "inst": gen.instance(**args), "options": st.fixed_dictionaries(options),
        "minimize_K": flag() if mk else st.just(False)}), run, quick=quick * 2 // 3, thorough=quick * 25,
        timeout_is_violation=name not in ("assignment", "petal", "lagrangian"), cpu_limit=60.0)


if __name__ == "__main__":
    sys.exit(core.run_check("P30", [target(n) for n in sorted(HEURISTICS)], rule=feas.RULE, assumptions=feas.ASSUMPTIONS + [
        "the assignment heuristic may find no solution"]))
