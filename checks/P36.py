import io, math, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, oracle, tsplib

number = lambda lo, hi: st.one_of(st.integers(lo, hi), st.integers(lo * 4, hi * 4).map(lambda x: x / 4.0))


# ------------------------------------------------------------------- random problems
def problem_case():
    return st.fixed_dictionaries({"N": st.integers(1, 30), "C": number(1, 200), "mu": number(-5, 120), "sd": number(0, 60),
                                  "regular": st.booleans(), "R": st.sampled_from([None, 1.0, 10.5, 200.0, 1000]),
                                  "seed": st.integers(0, 10**6)})


def problem(c, ctx):
    from verypy import cvrp_io
    random.seed(c["seed"])
    kw = {} if c["R"] is None else {"R": c["R"]}
    if c["regular"]:
        kw["regular"] = True
    P = ctx.call(cvrp_io.generate_CVRP, c["N"], c["C"], c["mu"], c["sd"], **kw)
    what = "generate_CVRP(%r, %r, %r, %r, %r)" % (c["N"], c["C"], c["mu"], c["sd"], kw)
    N, pts, dd_pts, d, D, C, ewt = P
    ctx.require(N == c["N"] and C == c["C"] and dd_pts is None, "%s has the size %r, capacity %r", what, N, C)
    ctx.require(len(pts) == len(d) == c["N"] + 1 and D.shape == (c["N"] + 1,) * 2, "%s has %d points, %d demands and "
                "distances %r", what, len(pts), len(d), D.shape)
    ctx.require(tuple(pts[0]) == (0, 0) and d[0] == 0, "%s has a depot at %r with demand %r", what, pts[0], d[0])
    ctx.require(all(0 < x <= C and x >= min(1, C) for x in d[1:]), "%s has the demands %r", what, d)
    if c["sd"] == 0:
        ctx.require(all(x == min(C, max(1, c["mu"])) for x in d[1:]), "%s has the demands %r", what, d)
    E = oracle.dist_matrix(pts, "ROUND")
    for i in range(c["N"] + 1):
        for j in range(c["N"] + 1):
            ctx.require(abs(D[i, j] - E[i][j]) <= (0 if abs(math.dist(pts[i], pts[j]) % 1 - .5) > 1e-9 else 1),
                        "%s: the distance of %r and %r is %r", what, pts[i], pts[j], D[i, j])
    R = 200.0 if c["R"] is None else c["R"]
    if c["regular"]:
        step = 2 * R * math.sin(math.pi / c["N"])
        for i in range(1, c["N"] + 1):
            ctx.require(abs(math.hypot(*pts[i]) - R) < 1e-6 * R, "%s has the point %r", what, pts[i])
            j = i % c["N"] + 1
            ctx.require(abs(math.dist(pts[i], pts[j]) - step) < 1e-6 * R, "%s has the neighbors %r and %r", what, pts[i],
                        pts[j])
    else:
        ctx.require(all(math.hypot(*p) < 4 * R for p in pts), "%s has the points %r", what, pts)
        if c["N"] >= 10:
            ctx.require(len(set(pts)) == len(pts), "%s has the points %r", what, pts)
            ctx.require(any(p[0] * pts[1][0] + p[1] * pts[1][1] < 0 for p in pts) or c["N"] < 25, "%s has all points on "
                        "one side: %r", what, pts)
    ctx.label("regular" if c["regular"] else "random")
    ctx.nontrivial(c["N"] > 2 and c["sd"] > 0)


# ------------------------------------------------------------------- a heuristic's command line with a random problem
def split(draw, n):
    sol = [0]
    for i, x in enumerate(draw(st.permutations(list(range(1, n + 1))))):
        if i and draw(st.integers(0, 2)) == 0:
            sol.append(0)
        sol.append(x)
    return sol + [0]


@st.composite
def cli_case(draw):
    n = draw(st.integers(1, 9))
    runs = [[draw(st.sampled_from(["sol"] * 10 + ["none", "stop", "stopsol"])), split(draw, n)]
            for _ in range(draw(st.integers(1, 4)))]
    return {"n": n, "runs": runs, "minimize_K": draw(st.booleans()), "single": draw(st.booleans()),
            "seed": draw(st.integers(0, 10**6))}


def near(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(b))


def cli(c, ctx):
    from verypy import shared_cli
    calls = []

    def algo(points, D, d, C, L, stime, wtt, single, minimize_K):
        calls.append((points, D, d, C, L, stime, wtt, single, minimize_K))
        what, sol = c["runs"][len(calls) - 1]
        if what == "none":
            return None
        if what == "stop":
            raise KeyboardInterrupt()
        if what == "stopsol":
            raise KeyboardInterrupt(list(sol))
        return list(sol)
    stops = [i for i, r in enumerate(c["runs"]) if r[0].startswith("stop")]
    expected = c["runs"][:stops[0] + 1] if stops else c["runs"]
    random.seed(c["seed"])
    old, keep = sys.argv, shared_cli.set_logger_level
    sys.argv = ["x.py", "-v", "3", "-n", str(len(c["runs"])), "-b", "K" if c["minimize_K"] else "cost"] + \
        (["-1"] if c["single"] else []) + [str(c["n"])]
    shared_cli.set_logger_level = lambda *a, **k: None
    here = os.getcwd()
    os.chdir(ctx.tmp)
    what = "a random problem of %d customers and the solutions %r" % (c["n"], c["runs"])
    try:
        ctx.call(shared_cli.cli, "stand-in", "a stand-in", algo)
    except KeyboardInterrupt:
        ctx.require(bool(stops), "%s: interrupted", what)
    finally:
        os.chdir(here)
        sys.argv, shared_cli.set_logger_level = old, keep
    out = ctx.stdout
    ctx.require(len(calls) == len(expected), "%s: it is called %d times", what, len(calls))
    for points, D, d, C, L, stime, wtt, single, minK in calls:
        ctx.require(len(points) == len(D) == len(d) == c["n"] + 1 and L is None and stime is None and C == 100,
                    "%s: called with %r", what, (points, D, d, C, L, stime))
        ctx.require(all(x == int(x) and 1 <= x <= C for x in d[1:]) and d[0] == 0, "%s: the demands are %r", what, d)
        ctx.require(bool(single) == c["single"] and bool(minK) == c["minimize_K"], "%s: single %r, minimize_K %r", what,
                    single, minK)
    D, d = calls[0][1], calls[0][2]
    sols = [s for k, s in expected if k in ("sol", "stopsol")]
    printed = re.findall(r"^SOLUTION: (\[[^\]]*\])$", out, re.M)
    ctx.require(len(printed) == (1 if sols else 0), "%s: the output is\n%s", what, out)
    if not sols:
        return
    got = [int(x) for x in printed[0].strip("[]").split(",")]

    def quality(s):
        f, K = oracle.sol_len(s, D), len(oracle.routes_of(s))
        return (K, f) if c["minimize_K"] else (f,)
    best, q = min(quality(s) for s in sols), quality(got)
    ctx.require(all(near(a, b) for a, b in zip(q, best)), "%s: printed is %r of %r, the best is %r", what, got, q, best)
    routes = oracle.routes_of(got)
    full = all(sum(d[i] for i in r) <= 100 for r in routes)
    served = sorted(x for r in routes for x in r) == list(range(1, c["n"] + 1))
    field = lambda name: (re.findall(r"^%s: (\S+)" % name, out, re.M) or [None])[0]
    ctx.require(field("ALL SERVED") == str(served) and field("IS C FEASIBLE") == str(full), "%s: the loads of %r (%r) "
                "are reported as\n%s", what, got, d, out)
    ctx.require(field("SOLUTION K") == str(len(routes)), "%s: the routes of %r are reported as\n%s", what, got, out)
    if oracle.sol_len(got, D):
        ctx.require(near(float(field("SOLUTION LENGTH")), oracle.sol_len(got, D)), "%s: the length of %r is reported as\n%s",
                    what, got, out)
    ctx.label("feasible" if full else "over capacity", "stopped" if stops else "not stopped")
    ctx.nontrivial(len(sols) > 1)


# ------------------------------------------------------------------- the command line of a TSP solver
def tsp_case():
    return st.fixed_dictionaries({"m": tsplib.model(nmax=9), "solver": st.sampled_from(["ropt", "2opt", "3opt", "perm"]),
                                  "perm": st.integers(0, 9999)})


def tsp(c, ctx):
    from verypy import shared_cli
    from verypy.tsp_solvers import tsp_solver_ropt as r
    m = c["m"]
    W = tsplib.distances(m)[0]
    n = len(W)

    def perm(D, nodes):
        nodes = list(nodes)
        x = nodes[1:]
        random.Random(c["perm"]).shuffle(x)
        t = nodes[:1] + x + nodes[:1]
        return t, sum(D[a, b] for a, b in zip(t, t[1:]))
    f = {"ropt": r.solve_tsp_ropt, "2opt": r.solve_tsp_2opt, "3opt": r.solve_tsp_3opt, "perm": perm}[c["solver"]]
    path = os.path.join(ctx.tmp, "t.tsp" if m["style"]["tsp"] else "t.vrp")
    with open(path, "w", newline="") as fh:
        fh.write(tsplib.text(m))
    old = sys.argv
    sys.argv = ["x.py", path]
    try:
        ctx.call(shared_cli.tsp_cli, c["solver"], f)
    finally:
        sys.argv = old
        os.remove(path)
    what = "the TSP solver %s for\n%s\n" % (c["solver"], tsplib.text(m))
    got = re.findall(r"^SOLUTION: (\[.*\])$", ctx.stdout, re.M)
    cost = re.findall(r"^COST: (\S+)$", ctx.stdout, re.M)
    ctx.require(len(got) == len(cost) == 1, "%sprints\n%s", what, ctx.stdout)
    t = [int(x) for x in got[0].strip("[]").split(",")]
    ctx.require(sorted(set(t)) == list(range(n)) and len(t) in (n, n + 1) and (len(t) == n or t[0] == t[-1]),
                "%sgives the tour %r", what, t)
    # rounded distances are either way if they are borderline
    lo, hi = (sum(pick(W[a][b]) for a, b in zip(t, t[1:] + t[:1])) for pick in (min, max))
    ctx.require(lo - 1e-6 * (1 + lo) <= float(cost[0]) <= hi + 1e-6 * (1 + hi), "%sgives %r and the cost %s, which is %r",
                what, t, cost[0], hi)
    ctx.label(c["solver"])
    ctx.nontrivial(n > 3)


def targets():
    import verypy.shared_cli
    import verypy.tsp_solvers.tsp_solver_ropt
    return [core.Target("problem", problem_case, problem, quick=3000, thorough=80000, timeout_is_violation=True),
            core.Target("cli", cli_case, cli, quick=3000, thorough=60000, timeout_is_violation=True),
            core.Target("tsp", tsp_case, tsp, quick=2000, thorough=40000, timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P36", targets(), rule="three customers or more and varying demands (problem), two solutions or "
                            "more (cli), more than three nodes (tsp)", assumptions=["logging is not set up"]))
