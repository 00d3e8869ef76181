# further properties
LS_TECH = """property-based differential testing: generated routes, distances and limits against the complete
neighborhood of the operator, enumerated independently"""
LS_WHY = """The tests apply each operator to a few fixed or random instances and check single known moves;
which of the candidate moves is missed, wrongly accounted for or breaks a limit depends on positions, route lengths
and limits that they do not vary."""

prop("P11", "Intra-route moves are exact and miss no improvement",
     """For every route and symmetric distance matrix, the 2-opt, 3-opt, relocate and exchange
     operators leave their input unchanged and either return a reordering of the route that is one such move away,
     together with exactly the change of cost, or nothing. A move is returned whenever one changes the cost to less than the
     given bound (zero by default), and with the best accept strategy it is the best one. Repeating an operator
     ends in a route that no such move improves.""",
     """All routes of up to 12 customers (8 for 3-opt), symmetric distances with or without the triangle
     inequality, both strategies, bounds that require an improvement or allow a worsening.""",
     LS_WHY, [LS + "intra_route_operators.py"],
     [("2-opt, 3-opt, relocate and exchange", LS + "intra_route_operators.py")], LS_TECH)
prop("P12", "Inter-route moves are exact, feasible and miss no improvement",
     """For all feasible routes, the 2-opt*, one point, two point and chain operators leave their
     input unchanged and either return routes that are one such move away, keep to the capacity and the maximum route cost,
     and come with their exact costs and loads and the exact change of cost, or nothing. A move is returned whenever
     a feasible one changes the cost to less than the given bound (zero by default), and with the best
     accept strategy it is the best one.""",
     """All sets of two (three for chain) feasible routes with up to 9 customers, symmetric distances with or
     without the triangle inequality, with and without C, L and demands, both strategies, any bound; the
     receiving route may be empty.""",
     LS_WHY, [LS + "inter_route_operators.py", "verypy/routedata.py"],
     [("2-opt*, one point, two point and chain moves", LS + "inter_route_operators.py"),
      ("cumulative costs and loads", "verypy/routedata.py")], LS_TECH)
prop("P13", "3-opt* on a whole solution is exact, feasible and complete",
     """For every feasible solution, the 3-opt* solution operator leaves its input unchanged and
     either returns a solution with all customers, made by reconnecting at most three edges, that keeps to the
     capacity and the maximum route cost and comes with the exact change of cost, or nothing. A move is returned whenever
     a feasible reconnection in which each part contains the depot changes the cost to less than the
     bound (zero by default), and with the best accept strategy it is the best one.""",
     """All feasible solutions with up to 4 routes and 8 customers, symmetric distances, with and without C and L,
     both strategies, any bound, and repeated moves to a local optimum.""",
     LS_WHY, [LS + "solution_operators.py"],
     [("move table and concatenation recipes", LS + "solution_operators.py"),
      ("constant time feasibility check", LS + "solution_operators.py")], LS_TECH)
prop("P14", "Insertion and redistribution moves are exact, feasible and complete",
     """Inserting customers on a route and redistributing the customers of a route to others keep
     the order of the customers that are on the receiving routes, respect the capacity and the maximum route cost, report
     exact costs, loads and the exact increase of the cost of the receiving routes, and leave their input unchanged. Without a bound, they fail only if the
     successive cheapest feasible insertions fail; with the best accept strategy the result costs what those insertions
     cost, for redistribution the least over the insertion orders of the recombination level.""",
     """All feasible routes with up to 10 customers, one to three receiving routes, recombination levels 0 to 3,
     customers given as a number, a list or a route, with and without C, L, demands and bounds. The least over the orders
     is claimed for distances with the triangle inequality, successive insertions where positions do not tie.""",
     LS_WHY, [LS + "inter_route_operators.py"],
     [("insert and redistribute moves", LS + "inter_route_operators.py")],
     """property-based differential testing against an independent simulation of the insertions, plus
     invariants of the result""")
prop("P15", "Local search ends in a feasible, never worse local optimum",
     """Local search with any set of intra- and inter-route operators and any combination of
     operator and iteration strategies ends, and returns a solution with all customers that keeps to the capacity and
     the maximum route cost and does not cost more than the one it was given, which it leaves unchanged. Without an iteration limit no single
     move of the operators on the used routes improves the result; one iteration with best accept makes the best move of all
     operators. The same holds for the educational (naive) operators and their search.""",
     """All feasible solutions with up to 4 routes and 10 customers, all mixes of up to 4 operators, 2 x 4
     strategies, iteration limits, symmetric distances with or without the triangle inequality, with and without C
     and L.""",
     """Local optimality and the bookkeeping of already searched route combinations depend on the
     history of the moves made; the tests run a few operator lists on fixed problems.""",
     [LS + "__init__.py", LS + "naive_implementations.py"],
     [("iteration strategies and searched combinations", LS + "__init__.py"),
      ("naive operators", LS + "naive_implementations.py")],
     """property-based testing of search histories: feasibility and cost invariants, and local optimality
     against independently enumerated neighborhoods""", over=("inputs", "histories"))
prop("P16", "TSP solvers return a short tour of exactly the selected nodes",
     """For any selected nodes, starting with the depot or not, every TSP solver returns
     a closed tour that visits exactly them, with its cost, and leaves its input unchanged. The 2-opt and
     3-opt solvers return a 2- or 3-optimal tour that is not longer than the order they were given (unless it is shuffled), starting
     at the first selected node, as the MIP solver does, whose tour is a shortest one; the LKH and ACOTSP wrappers pass the distances on
     at their precision and translate the tour that the external solver finds back to the selected nodes.""",
     """All selections of 2 to 9 nodes (7 for the MIP and the external solvers) of generated symmetric matrices,
     integer or real, given closed or open.""",
     """The tests solve one small instance per solver; the external solvers are not there at all.""",
     ["verypy/tsp_solvers/tsp_solver_ropt.py", "verypy/tsp_solvers/tsp_solver_gurobi.py",
      "verypy/tsp_solvers/tsp_solver_lkh.py", "verypy/tsp_solvers/tsp_solver_acotsp.py"],
     [("r-opt descent", "verypy/tsp_solvers/tsp_solver_ropt.py"),
      ("subtour elimination", "verypy/tsp_solvers/tsp_solver_gurobi.py"),
      ("file exchange with the external solver", "verypy/tsp_solvers/tsp_solver_lkh.py")],
     """property-based testing against enumeration of tours and 2-/3-opt neighborhoods; the external
     executables are replaced by stand-ins that solve the file they are given""")
prop("P17", "Solution validation, cost and normal form are right for any encoding",
     """For any sequence of nodes that visits the depot, starting at the depot or mid-route,
     closed or not, the solution validation says exactly whether each customer is served once, no route exceeds the
     capacity, and none exceeds the maximum route cost, and prints violations if and only if asked to and there are any. The objective
     is the total cost of the closed routes, for giant tours and for lists of routes with or without the depot visits. The
     normal form has each route in its lexicographically smaller direction, sorted, without empty routes.""",
     """All node sequences of up to 12 nodes: permutations with empty routes, dropped, duplicated and swapped nodes,
     arbitrary ones, rotated; limits that are met exactly, just missed or arbitrary.""",
     """The tests validate a few hand-written solutions; the part of a route that wraps around the end of the
     sequence and the combination of violations are sampled once.""",
     ["verypy/cvrp_ops.py", "verypy/util.py"],
     [("validate_solution_feasibility", "verypy/cvrp_ops.py"), ("recalculate_objective", "verypy/cvrp_ops.py"),
      ("normalize_solution", "verypy/cvrp_ops.py"), ("objf", "verypy/util.py")],
     """property-based differential testing against independent implementations working on explicit routes""")
prop("P18", "Distances and service times are computed as documented",
     """Distance matrices follow the TSPLIB definitions for EUC_2D, CEIL_2D, ATT and GEO, are rounded down for FLOOR_2D, and
     are exact Euclidean, Manhattan and maximum distances for EXACT_2D, MAN_2D and MAX_2D; they are symmetric with a zero diagonal, and with a second set of
     points hold the distances between the sets. Adding a service time yields a symmetric matrix on which
     every route costs its original cost plus the service time times its number of customers, for integer and real distances and
     service times, and leaves the original matrix unchanged.""",
     """All sets of up to 7 points (integer, fractional, coinciding, negative, the poles and the date line for GEO), all
     service times, integer and real matrices of both precisions.""",
     """The tests use a few files whose weights are rounded Euclidean; the other types and fractional service
     times with integer distances have no oracle there.""",
     ["verypy/cvrp_io.py", "verypy/cvrp_ops.py"],
     [("calculate_D", "verypy/cvrp_io.py"), ("D2D_c", "verypy/cvrp_ops.py")],
     """property-based differential testing against formulas evaluated in exact integer arithmetic where
     possible; metamorphic route cost relation for service times""")
prop("P19", "Encodings of solutions convert to each other without loss",
     """Converting a giant tour to routes and back gives the same tour without empty
     routes, for routes with or without the depot at either end; the edge set of a solution has exactly its edges, undirected
     unless asked otherwise, and the total demand counts each visit. A solution is better than another one exactly if it has lower
     cost or, when minimizing routes, fewer routes or as many at lower cost, and any solution is better than none. Natural
     sorting orders numbers in names by value and text case-insensitively, and neighbor lists are complete and sorted.""",
     """All partitions of up to 10 customers to routes with empty routes, all pairs of solution values, names of
     letters, digits and punctuation, generated distance matrices.""",
     """The tests have a few examples for some of these helpers, which all algorithms share.""",
     ["verypy/util.py"],
     [("sol2routes, routes2sol, without_empty_routes, sol2edgeset", "verypy/util.py"),
      ("is_better_sol", "verypy/util.py"), ("natural_sort, produce_nn_list", "verypy/util.py")],
     """property-based round-trip and differential testing against independent definitions""")
prop("P20", "The ordered set behaves like a list without duplicates",
     """After any history of creations, additions (also of elements that are in
     the set), removals, difference updates and accesses, iteration, length, membership and access by index or
     slice show the distinct elements in the order in which they were added, each exactly once.
     Removing an element that is not there is a KeyError and an index out of range is an IndexError.""",
     """All histories of up to 30 operations on 8 elements.""",
     """The tests do not touch it; the index cache can only be wrong after particular operation sequences.""",
     ["verypy/util.py"], [("OrderedDictSet and its cached key list", "verypy/util.py")],
     """stateful model-based property testing: random operation histories against a plain list model""",
     over=("histories",))
prop("P21", "Route data hold the exact costs, loads and customers of routes",
     """Route data made from a solution or from routes hold each route with its exact cost, load and set
     of customers, unpack and index accordingly, tell empty routes, and convert back to the same solution without empty routes. The
     auxiliary data hold, for every position, the cost and the load up to it and from it to the end of the route, in whichever direction
     they are updated. Normalizing turns a route to start with its smaller end.""",
     """All partitions of up to 10 customers to up to 4 routes, empty ones included, generated symmetric distances and
     demands, all update orders.""",
     """The tests check one route; all inter-route operators rely on these data for constant time checks.""",
     ["verypy/routedata.py"], [("RouteData", "verypy/routedata.py")],
     """property-based testing against direct summation over the routes""")
prop("P22", "Problem files are read as what they say",
     """Whatever the order, separators, line ends, line wrapping, indentation and optional fields, a TSPLIB file of any
     supported edge weight type and format is read with its exact size, capacity, demands, coordinates and symmetric distances,
     and with the depot as node 0 also if the file has it elsewhere. The additional constraints are
     exactly the DISTANCE, VEHICLES and SERVICE_TIME or SVC_TIME_SECTION of the file, or None.""",
     """All files of 2 to 7 nodes of 9 weight types and 6 explicit formats, any depot, integer and decimal numbers, any section order,
     with or without each optional part.""",
     """The tests read a few benchmark files; a mistake in one format, or with a depot in another place, would make every result silently
     be about a different problem.""",
     ["verypy/cvrp_io.py"],
     [("read_TSPLIB_CVRP", "verypy/cvrp_io.py"), ("read_TSBLIB_additional_constraints", "verypy/cvrp_io.py")],
     """grammar-based generation of files from a model, compared with the model""")
prop("P23", "Written problem files are read back as the same problem",
     """Writing symmetric distances (all nodes, or selected ones in any order with the depot first), integer demands, capacity and maximum route
     cost to a .vrp file and reading it gives the same problem, with the distances multiplied and truncated if an integer precision is asked
     for; without demands each customer has demand 1. A .tsp file has the distances only. A problem
     that was read, written and read is the same again.""",
     """All symmetric matrices of 2 to 9 nodes with integers, fractions, tiny, large and arbitrary floats, all selections.""",
     """No test writes a file; the external solvers get their problems only this way.""",
     ["verypy/cvrp_io.py"], [("write_TSPLIB_file", "verypy/cvrp_io.py"), ("read_TSPLIB_CVRP", "verypy/cvrp_io.py")],
     """property-based round-trip testing of the writer and the reader""")
prop("P24", "Solutions are written and read without change",
     """A solution in the OPT format has one numbered line per route with its customers in order, and the cost (with two
     decimals unless it is an integer); reading it gives the same routes, cost and number of routes (the one in the file name if it has
     one). OPT files with other spacing, case, line ends, or the cost first or missing, are read likewise. The VRPH format starts
     with the number of nodes, ends with 0 and negates the first customer of each route.""",
     """All solutions of up to 30 customers in any order and partition, also with empty routes, integer and real costs.""",
     """The tests read two files and write none.""",
     ["verypy/cvrp_io.py"], [("as_OPT_solution, as_VRPH_solution", "verypy/cvrp_io.py"),
                             ("read_OPT_CVRP", "verypy/cvrp_io.py")],
     """property-based round-trip testing with an independent parser""")
prop("P25", "Malformed problem files are rejected, never silently read",
     """A TSPLIB file with an unsupported problem type, weight type or matrix format, without the type or format it needs, with too few or too
     many weights or coordinates or demands, with something else than a number among them or as the capacity, or with two depots,
     raises an exception when it is read. Different service times of customers raise an exception too.""",
     """All generated valid files (see P22) with one of these errors anywhere in them.""",
     """The tests read valid files only.""",
     ["verypy/cvrp_io.py"], [("read_TSPLIB_CVRP validation", "verypy/cvrp_io.py"),
                             ("read_TSBLIB_additional_constraints", "verypy/cvrp_io.py")],
     """mutation-based fuzzing of valid generated files with a fault of a known kind""")
prop("P26", "Algorithm names find the heuristics they document",
     """Each abbreviation and each of its documented aliases, in any case, gives exactly that heuristic with its name, description
     and function, in the order asked for; 'all' gives every heuristic once and 'classical' all but the plain ps2o, si, pi, sn, pn
     and swp; an unknown name is reported and skipped. An alias solves a problem exactly as the abbreviation does, and as the library
     function of the heuristic called with the same data.""",
     """All lists of up to 6 names of the alias table in any case, group names and unknown ones; generated
     instances of 2 to 11 customers for the comparison.""",
     """The smoke test uses 'all' only; a wrong entry or a wrapper that passes other data runs something else silently.""",
     ["verypy/__init__.py", "verypy/classic_heuristics/"],
     [("get_algorithms, algo_name_aliases", "verypy/__init__.py"),
      ("get_*_algorithm wrappers", "verypy/classic_heuristics/")],
     """property-based testing against a table of names, and differential testing of the ways to call a heuristic""")
prop("P27", "The command line reports the true results of what it was asked for",
     """The command line calls each requested and not forbidden algorithm once per problem file, in order, with the data of the file (distances as -D
     says and with service time), the objective and -1, unless simulating. It reports the algorithm's solution
     (post-optimized ones with the same customers per route and not longer), its true feasibility, number of routes, length or cost, per-route and VRPH
     output, and the same values in the collected table; debug output (-v) only adds to it. A failing algorithm is reported as unsolved, an interruption ends the run with its solution reported.""",
     """1 to 3 generated files of all formats (see P22) with constraints, all options except --iinfo and --recursive, stand-in algorithms that give right and wrong
     solutions, none, fail or are interrupted; 11 of the registered heuristics on feasible problems.""",
     """No test runs the command line.""",
     ["verypy/VeRyPy.py", "verypy/shared_cli.py"],
     [("main", "verypy/VeRyPy.py"), ("print_solution_statistics, print_problem_information", "verypy/shared_cli.py")],
     """property-based testing with stand-in algorithms: the output is parsed and compared with an independent evaluation""")
prop("P28", "Problem files are found once, and the best of n runs is returned",
     """A folder stands for its .vrp, .tsp and .pickle files in natural order, recursively for those of all its subfolders too, each
     once; a text file for the existing files it lists; a problem file for itself; anything else is reported and skipped. Reading and solving a problem
     n times calls the algorithm n times with the data of the file and returns the best solution by the chosen
     objective with its length and cost, or none if there is none; an interruption stops it and is passed on.""",
     """All trees of up to 5 folders with up to 5 files each, all histories of up to 5 runs with solutions, none, or an
     interruption with or without a solution, through the function and the command line of a heuristic.""",
     """No test covers this code.""",
     ["verypy/shared_cli.py"], [("get_a_problem_file_list", "verypy/shared_cli.py"),
                                ("read_and_solve_a_problem, cli", "verypy/shared_cli.py")],
     """property-based testing on generated file trees and scripted stand-in algorithms""")
prop("P29", "An interrupted heuristic stops with a feasible solution or none",
     """A keyboard interruption of any of the heuristics, when one of its functions is entered, stops it: it raises a KeyboardInterrupt, which carries either nothing or a
     complete feasible solution of the problem (each customer once, routes from depot to depot within capacity and maximum cost). It never crashes with another
     exception, goes on as if nothing happened, or passes on an
     incomplete or infeasible solution, and the distances, demands and coordinates it was given are unchanged.""",
     """All heuristics but the one using an external solver while inside it, instances as in P01 to P04, interrupted on entering any of the present functions of the library (its updates are not atomic).""",
     """No test interrupts anything; the moments are too many to choose by hand.""",
     ["verypy/classic_heuristics/"],
     [("except KeyboardInterrupt handlers", "verypy/classic_heuristics/"),
      ("interruption handling in cheapest insertion", "verypy/classic_heuristics/cheapest_insertion.py")],
     """property-based testing with fault injection: generated instances and interruption points, an independent feasibility oracle""",
     over=("inputs", "fault_sequences"))
prop("P30", "Every documented option of the heuristics keeps solutions feasible",
     """Called with any combination of its documented options (initialization of routes, number of emerging routes, direction and seed of the sweep,
     strategies, insertion criteria and multipliers, TSP algorithms, relaxation, discarding, retries, post-optimization, ...), each heuristic
     function returns routes from depot to depot, none empty, that visit each customer once, carry at most C and cost at most L.
     It does not crash; only the assignment heuristic may find no solution.""",
     """The 17 heuristic functions with all combinations of the documented values of 2 to 6 options each, instances as in P01 to P04.""",
     """The tests call each with the few option values of one paper; the combinations are many.""",
     ["verypy/classic_heuristics/"],
     [("keyword options of *_init functions", "verypy/classic_heuristics/"),
      ("initialize_routes_with", "verypy/classic_heuristics/cheapest_insertion.py")],
     """property-based testing of options and instances with an independent feasibility oracle""",
     over=("inputs", "configurations"))
prop("P31", "Heuristics end where their improvement phase cannot improve",
     """A heuristic that ends with local search returns a local optimum: no 2-opt move shortens a route of the parallel savings with 2-opt and Mole & Jameson insertion;
     no 3-opt move shortens one of Gaskell, two-phase, Tyagi, Gillett & Miller, route first, matching and assignment heuristics; no 3-opt* move gives a
     cheaper feasible solution than the Lagrangian one. The matching heuristic leaves no two routes that save when merged.""",
     """All instances as in P01 to P04 with 2 to 11 customers (matching 8, assignment 6, Lagrangian 7), and larger scattered instances (2-opt 45, 3-opt 17), routes of up to 45 (2-opt) or 15 (3-opt) customers, both objectives, both ways to count a route.""",
     """A solution that is feasible but was not improved fully passes the tests unless it is one of theirs.""",
     ["verypy/classic_heuristics/", "verypy/local_search/", "verypy/tsp_solvers/tsp_solver_ropt.py"],
     [("post-optimization of routes", "verypy/classic_heuristics/"),
      ("merging loop of mbsa_init", "verypy/classic_heuristics/matchingvrp.py"),
      ("lr3opt_init", "verypy/classic_heuristics/lr3opt.py")],
     """property-based testing: exhaustive enumeration of the neighborhood of each solution of a generated instance""")
prop("P32", "Solutions do not depend on the units of cost and demand or the origin",
     """Multiplying all distances, maximum cost and service time, or all demands and the capacity, by a power of two (and moving the coordinates) is the same problem in other
     units, and a constructive, savings, sweep or two-phase heuristic returns the same routes for it in the same order.""",
     """15 heuristics (not ty, wh, lr3o, mbsa, gap and ptl, whose formulas or solvers mix in constants), instances as in P01 to P04, factors 1/16 to 16 for cost and 1/8 to 128 for demand,
     integer translations, both objectives.""",
     """Tests use problems of one scale; constants and tolerances that depend on it act only beyond theirs.""",
     ["verypy/classic_heuristics/", "verypy/config.py"],
     [("tolerances", "verypy/config.py"), ("heuristics", "verypy/classic_heuristics/")],
     """metamorphic property-based testing""")
prop("P33", "Routes do not depend on how customers are numbered or the plane is turned",
     """If no two distances, places or angles are the same, renumbering the customers, and turning the plane by right angles or mirroring it, gives the same routes with the new
     numbers, for all savings heuristics but Gaskell's, the insertion, nearest neighbor and two-phase heuristics and the sweep from all starts in both directions;
     and renumbering does for Gillet & Miller's.""",
     """14 heuristics, instances of 2 to 16 customers with coordinates of 6 decimals, with any constraints and objective, all permutations, 8 symmetries of the plane.""",
     """A test cannot know the right routes of a random problem; off-by-one errors treat some number (the first, the last) differently.""",
     ["verypy/classic_heuristics/"],
     [("heuristics", "verypy/classic_heuristics/"), ("bw, sweep", "verypy/classic_heuristics/sweep.py")],
     """metamorphic property-based testing""")
prop("P34", "A limit that cannot bind changes nothing",
     """Adding a capacity well above the total demand or a maximum route cost well above the cost of any tour, to a problem without it, leaves the solution of each
     savings, insertion, nearest neighbor, sweep, route first, two-phase, matching and Lagrangian heuristic the same (Tyagi: maximum cost only;
     Mole & Jameson, Wren & Holliday, petal and assignment heuristics: not claimed).""",
     """17 heuristics, instances as in P01 to P04 that lack one of the limits, limits 1.5 to a million times the bound, both objectives.""",
     """A branch for one limit that is wrong goes unnoticed if the solutions are feasible.""",
     ["verypy/classic_heuristics/"],
     [("checks of C and L", "verypy/classic_heuristics/"),
      ("_gillet_miller_improvement_callback", "verypy/classic_heuristics/gillet_miller_sweep.py")],
     """metamorphic property-based testing""")
prop("P35", "Debug output and python -O do not change solutions",
     """Solving with debug output of any verbosity, whose messages are all well-formed, or in a Python that omits assertions and debugging code (-O), gives exactly the solution
     of solving quietly. It does not fail either.""",
     """All 21 heuristics (the assignment heuristic without maximum cost), instances as in P01 to P04, logging levels DEBUG to DEBUG-9.""",
     """Tests run quietly and with assertions on; about 180 blocks of code depend on __debug__ and the level.""",
     ["verypy/classic_heuristics/", "verypy/local_search/"],
     [("if __debug__ blocks", "verypy/")],
     """differential property-based testing of the ways to run""", over=("inputs", "configurations"))
prop("P36", "Random problems are as asked, and the small command lines report truly",
     """A generated random problem has N customers around a depot at the origin, demands between 1 and C (the mean if there is no deviation), EUC_2D distances, and if regular all customers evenly spaced on the circle.
     The command line of a heuristic solves a random problem n times and reports the best solution by the objective with its true feasibility, routes and
     length, or none. That of a TSP solver reports a tour of all nodes of the file with its true cost.""",
     """1 to 30 customers, all parameters; scripted stand-in heuristics with solutions, none, or interruptions; TSPLIB files of up to 9 nodes and the 2-opt, 3-opt and mixed solvers.""",
     """No test covers this code.""",
     ["verypy/cvrp_io.py", "verypy/shared_cli.py"],
     [("generate_CVRP", "verypy/cvrp_io.py"), ("cli, tsp_cli", "verypy/shared_cli.py")],
     """property-based testing with stand-in algorithms and an independent evaluation""")

prop("P37", "Two-phase, assignment, matching and petal heuristics work as published",
     """With a capacity only (matching: also a maximum cost) and no ties, the two-phase heuristic returns the better of its sequential phase one routes (filled from each seed by increasing c_0l + lambda c_ls) and its parallel phase two routes, and the assignment heuristic the customers-to-seeds assignment of least total insertion cost, best over the seeds it tries.
     The matching heuristic repeatedly merges the best pair of a maximum weight matching of the savings.
     The petal heuristic picks the cheapest (or, if so asked, fewest) of the given petals that serve each customer once, and is never worse than one of its sweeps.""",
     """3 to 16 customers (assignment 3 to 6, matching 4 to 8, petals 3 to 9); all values of the parameters; ties and near-ties are skipped.""",
     """The tests compare totals on published instances with wide tolerances, so that a different procedure passes them (the assignment and matching heuristics had such defects).""",
     ["verypy/classic_heuristics/cmt_2phase.py", "verypy/classic_heuristics/gapvrp.py",
      "verypy/classic_heuristics/matchingvrp.py", "verypy/classic_heuristics/petalvrp.py"],
     [("cmt_2phase_init", "verypy/classic_heuristics/cmt_2phase.py"),
      ("gap_init", "verypy/classic_heuristics/gapvrp.py"),
      ("mbsa_init", "verypy/classic_heuristics/matchingvrp.py"),
      ("petal_init", "verypy/classic_heuristics/petalvrp.py")],
     """model-based differential testing against exhaustive reference procedures""")

prop("P38", "Pictures show the whole solution, and the GUI shows and exports what it solved",
     """A DOT picture shows every node once at its place (scaled to the frame, proportions kept), every leg of every route once in the color of its kind, and every ray from the depot to the
     frame in its direction. The pictures that the visualizers make of a heuristic's debug output start without routes and end with its solution.
     The GUI shows the cost and number of routes of the solution and exports it in the chosen format, or shows an error.""",
     """Pictures of up to 102 nodes; the 7 visualizers of heuristics with their command lines on problems of 2 to 8 customers; sequences of up to 8 actions in the GUI with two problems and 15 heuristics.
     Graphviz, gifsicle and Tk are stand-ins; the nearest neighbor visualizer is unfinished (not claimed).""",
     """No test covers the visualizers or the GUI.""",
     ["verypy/visualizers/", "verypy/VeRyPyGui.py"],
     [("output_dot", "verypy/visualizers/export_dot.py"), ("visualize_procedure", "verypy/visualizers/shared_visualize.py"),
      ("VeRyPyGuiApp", "verypy/VeRyPyGui.py")],
     """property-based testing by parsing the output; stateful testing of the GUI with stand-in widgets""")
