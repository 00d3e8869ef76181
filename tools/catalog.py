"""The list of properties and checks. Writes /verif/properties.jsonl and
/verif/MANIFEST.json (run it after an edit; both results are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "verypy/classic_heuristics/"
LS = "verypy/local_search/"
PROPS = []


def prop(id, title, statement, text, why, files, mechanism, technique, over=("inputs",), note="",
         observe=None):
    assert len(title) <= 80, (id, len(title))
    p = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": list(over), "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "hook_needed": None}}
    if observe:
        p["anchors"]["observe_at"] = observe
    PROPS.append((p, " ".join(technique.split()), " ".join(note.split())))


FEAS = """Solving any CVRP instance that has a solution, with a capacity limit, a route cost limit or
both, any combination of the algorithm's quality options and either objective, ends and returns a
solution that visits every customer exactly once, starts and ends at the depot, has no empty routes,
and has no route over the capacity or over the maximum route cost%s. It is so also for degenerate
instances: a single customer, customers at the depot or on top of each other, zero demands, fractional
demands and limits, service times, and limits that are met exactly."""
FEAS_TEXT = """All symmetric instances with planar points (1 to about 20 customers generated, uniform,
clustered, on a line, on a ring, on a small grid), exact, rounded or explicit distances (also ones
without the triangle inequality), with or without service
time, integer or real demands, C and/or L such that each customer can be served alone, both values of
single and minimize_K."""
FEAS_WHY = """The tests solve a few fixed benchmark-like instances per heuristic and compare the
number of routes or the objective; most have no route cost limit and none is degenerate, and the
feasibility of the solutions is asserted on a handful of inputs only."""
FEAS_TECH = """property-based testing: generated CVRP instances (Hypothesis), an independent complete-and-
feasible oracle, shrinking to a minimal instance"""

prop("P01", "Savings heuristics return complete feasible solutions", FEAS % "" + "",
     FEAS_TEXT, FEAS_WHY,
     [H + "parallel_savings.py", H + "sequential_savings.py", H + "gaskell_savings.py",
      H + "paessens_savings.py", H + "suppression_savings.py", H + "matchingvrp.py"],
     [("capacity and route cost checks before a merge", H + "parallel_savings.py"),
      ("emerging route checks", H + "sequential_savings.py"),
      ("matching based merges of route pairs", H + "matchingvrp.py")],
     FEAS_TECH, note="algorithms ps, ps2o, gpl, ss, gps, ims, mbsa")
prop("P02", "Insertion and nearest neighbor heuristics return feasible solutions", FEAS % "",
     FEAS_TEXT + " Tyagi's algorithm: at least 2 customers.", FEAS_WHY,
     [H + "cheapest_insertion.py", H + "mole_jameson_insertion.py", H + "cmt_2phase.py",
      H + "nearest_neighbor.py", H + "tyagi_nearest_neighbor.py"],
     [("insertion validity checks", H + "cheapest_insertion.py"),
      ("two phase insertion", H + "cmt_2phase.py"), ("route closing", H + "nearest_neighbor.py"),
      ("grouping and exchange", H + "tyagi_nearest_neighbor.py")],
     FEAS_TECH, note="algorithms si, pi, mj, cmt, sn, pn, ty")
prop("P03", "Sweep and route-first heuristics return complete feasible solutions", FEAS % "",
     FEAS_TEXT + " Wren and Holliday's algorithm: at least 2 customers.", FEAS_WHY,
     [H + "sweep.py", H + "gillet_miller_sweep.py", H + "wren_holliday_sweep.py", H + "rfcs.py"],
     [("sweep grouping", H + "sweep.py"), ("JII/KII exchanges", H + "gillet_miller_sweep.py"),
      ("refining processes", H + "wren_holliday_sweep.py"), ("partition graph", H + "rfcs.py")],
     FEAS_TECH, note="algorithms swp, wh, gm, rfcs")
prop("P04", "MIP and Lagrangian heuristics return complete feasible solutions",
     FEAS % " (with a maximum route cost the assignment heuristic may also give no solution)",
     FEAS_TEXT + """ Sizes are limited by the bundled MIP solver licence (about 11 customers, 6 for the
     assignment heuristic, of at least 2), and running long is a violation only where it is not
     explained by many equally good solutions.""", FEAS_WHY,
     [H + "gapvrp.py", H + "petalvrp.py", H + "lr3opt.py"],
     [("assignments from decision variables", H + "gapvrp.py"), ("set covering", H + "petalvrp.py"),
      ("penalties and the final repair", H + "lr3opt.py")],
     FEAS_TECH, note="algorithms gap, ptl, lr3o")
prop("P05", "Solving is a pure function of the problem, whatever was solved before",
     """No heuristic changes the points, the distance matrix or the demands it is given. Solving an equal
     problem again with the same heuristic and options returns the identical solution, no matter what
     other problems and heuristics were solved in between, how memory is laid out, or what the state of
     the process-wide random number generator is. So are the coordinates that are made for a problem with distances only.""",
     """All histories of solves over a few generated problems and all the heuristics of the registry, in
     which every solve is repeated later in another order; matrices of up to 13 points.""",
     """Every test calls a heuristic once with fresh data; no test repeats a solve, compares two results or
     looks at the arguments afterwards.""",
     ["verypy/__init__.py", "verypy/cvrp_ops.py", H + "cheapest_insertion.py", H + "suppression_savings.py",
      H + "gaskell_savings.py", H + "sweep.py", LS + "__init__.py"],
     [("heuristics copy what they change", "verypy/classic_heuristics"),
      ("tie breaking by value", H + "cheapest_insertion.py")],
     """stateful property-based testing: generated histories of solves, every call repeated under permuted
     order, perturbed allocator and random state; snapshots of the arguments; results compared""",
     over=("inputs", "histories"))
prop("P06", "Savings heuristics do exactly the published merging procedure",
     """When no two candidate savings tie and no constraint check is borderline, the parallel savings
     heuristic returns exactly the routes of repeatedly applying the feasible route-end merge with the
     largest nonnegative saving, the sequential one extends one route at a time (started from the customer
     closest to the depot) by the best feasible saving at either end, and the lambda/pi, parameterized and
     iteratively suppressed variants return the best solution of the respective savings functions (all
     savings are allowed, also the negative, when the number of routes is minimized). When a parallel
     savings run ends, no two of its routes can be feasibly joined end to end with a clearly positive
     saving.""",
     """All generated instances with 2 to 40 customers with exact Euclidean distances, C and/or L, service
     times, both objectives, and arbitrary savings function parameters.""",
     """The tests compare the result for fixed instances to published or previously computed costs; a wrong
     merge order, a skipped saving or an early stop that leaves those unchanged is not seen.""",
     [H + "parallel_savings.py", H + "sequential_savings.py", H + "gaskell_savings.py",
      H + "paessens_savings.py", H + "suppression_savings.py"],
     [("savings list processing", H + "parallel_savings.py"),
      ("emerging route growing", H + "sequential_savings.py"),
      ("savings functions", H + "gaskell_savings.py"), ("savings functions", H + "paessens_savings.py"),
      ("suppression", H + "suppression_savings.py")],
     """property-based differential testing against an independent brute force reference model of each
     procedure; plus an invariant (maximality) over generated instances""")
prop("P07", "Nearest neighbor and sequential insertion do the documented procedure",
     """When there are no ties or borderline constraint checks, the sequential nearest neighbor heuristic starts
     each route with the customer closest to the depot and keeps adding the customer nearest to the one
     added last, at the cheaper end of the route, closing the route when that customer does not fit; with k emerging
     routes it serves them in turn, and the parallel version returns the best over the numbers of routes it tries.
     Sequential insertion starts each route with the farthest customer and repeatedly makes the feasible
     insertion with the highest saving compared to an own route (or the generalized two parameter criterion), not making
     insertions that cost more than an own route unless the number of routes is minimized.""",
     """All generated instances with 2 to 40 customers with exact Euclidean distances, C and/or L, service
     times, 1-4 emerging routes, and arbitrary insertion criterion parameters.""",
     """The tests check fixed instances against known costs only.""",
     [H + "nearest_neighbor.py", H + "cheapest_insertion.py"],
     [("nearest neighbor lists", H + "nearest_neighbor.py"), ("insertion heap", H + "cheapest_insertion.py")],
     """property-based differential testing against independent brute force reference models""")
prop("P08", "Sweep groups customers in polar angle order and keeps the best sweep",
     """Without tied polar angles, and with exact Euclidean distances, a sweep from a given start customer and
     direction cuts the circular angular order of the customers to a new route exactly when the next customer does
     not fit (in the capacity, or the maximum route cost; no customer is skipped or reordered within a route), and a search over start positions and directions
     returns the best of the individual sweeps for the objective in use.""",
     """All generated planar instances with 2 to 30 customers, C and/or L, service times, every start option
     (smallest angle, closest to the depot, a given customer, all) and direction (clockwise, counter clockwise,
     both).""",
     """The tests use a couple of fixed point sets; directions, start positions and the wrap-around are not
     varied.""",
     [H + "sweep.py"], [("polar coordinates", H + "sweep.py"), ("one sweep", H + "sweep.py")],
     """property-based differential testing against an independent reference sweep""")
prop("P09", "The best of several runs is kept, for the objective in use",
     """Heuristics that run several variants (savings functions, parameter pairs, insertion criteria,
     start customers and directions) return a solution with exactly the value of the best of the individual
     variants, where fewer routes win when the number of routes is minimized and the lower cost wins otherwise.
     Consequently the full run is never worse than the single run, 2-opt post-optimization and savings suppression never
     lose to plain savings, and minimizing routes never gives more routes than minimizing cost when both choose from the same candidate runs.""",
     """All generated instances, both objectives, arbitrary lists of parameter pairs and all directions.""",
     """The tests run the full variants on fixed instances where the last, the first and the best variant
     coincide or the comparison with the objective is not exercised.""",
     [H + "gaskell_savings.py", H + "paessens_savings.py", H + "mole_jameson_insertion.py", H + "sweep.py",
      H + "gillet_miller_sweep.py", H + "nearest_neighbor.py", H + "suppression_savings.py", "verypy/util.py"],
     [("best solution update", "verypy/util.py"), ("variant loops", H + "paessens_savings.py")],
     """property-based metamorphic testing: a combined run against its individually executed variants""")
prop("P10", "Route-first cluster-second partitions the giant tour at least cost",
     """For a given giant tour through all customers, the partition into feasible routes of consecutive
     customers of the (circular) tour has the lowest total cost possible, each of the routes is a contiguous part of
     the tour, and all customers are on the tour that is requested. If the number of routes is to be minimized, it is the
     fewest possible one with the lowest cost for it (exact distances).""",
     """All generated instances (exact distances, or rounded without L), all permutations as giant tours, closed
     or open, without re-optimization of routes.""",
     """The tests compare the cost of a few fixed instances, and the suboptimal partition that was in the code
     passed them.""",
     [H + "rfcs.py"], [("auxiliary graph and all pairs shortest paths", H + "rfcs.py")],
     """property-based differential testing against a dynamic program (least cost circular split)""")

exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog2.py")).read(),
             "catalog2.py", "exec"))

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, tech, note in PROPS:
        if not os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            continue
        c = {"property": p["id"], "quick_cmd": "python3 checks/%s.py quick" % p["id"],
             "thorough_cmd": "python3 checks/%s.py thorough" % p["id"],
             "technique": tech, "level": "exploration"}
        if note:
            c["level_note"] = note
        checks.append(c)
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
         "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
         "notes": "Every check takes `quick`, `thorough` or `--replay FILE`; VERIF_SEED selects the cases."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
