import os, sys
import random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
import shutil, stat, tempfile
from itertools import permutations
from hypothesis import strategies as st
from vplib import core, ls, oracle
from vplib.nbhd import n_2opt, n_3opt

# Stand-ins for the external solvers, which are not part of the repository: they read the files the
# wrappers write, find the shortest tour by enumeration, and answer in the format of the originals,
# starting anywhere on the tour and going in either direction.
FAKE = r'''
import sys
from itertools import permutations
def read(path):
    head, nums, sec = {}, [], False
    for l in open(path):
        l = l.strip()
        if l == "EOF":
            break
        if sec:
            nums += [float(x) for x in l.split()]
        elif l == "EDGE_WEIGHT_SECTION":
            sec = True
        else:
            k, v = l.split(":", 1)
            head[k.strip()] = v.strip()
    n = int(head["DIMENSION"])
    assert head["TYPE"] == "TSP" and head["EDGE_WEIGHT_FORMAT"] == "UPPER_ROW"
    assert len(nums) == n * (n - 1) // 2, (n, nums)
    assert all(x == int(x) for x in nums), nums
    w = [[0] * n for _ in range(n)]
    it = iter(nums)
    for i in range(n):
        for j in range(i + 1, n):
            w[i][j] = w[j][i] = int(next(it))
    return n, w
def best(n, w):
    if n <= 7:
        f, t = min((sum(w[p[i]][p[i + 1]] for i in range(n - 2)) + w[0][p[0]] + w[p[-1]][0], p)
                   for p in permutations(range(1, n)))
        t = [0] + list(t)
    else:
        best = {(1 << j, j): (w[0][j], 0) for j in range(1, n)}
        for S in range(2, 1 << n, 2):
            for j in range(1, n):
                if S >> j & 1 and S != 1 << j:
                    T = S & ~(1 << j)
                    best[S, j] = min((best[T, i][0] + w[i][j], i) for i in range(1, n) if T >> i & 1)
        S = (1 << n) - 2
        f, j = min((best[S, j][0] + w[j][0], j) for j in range(1, n))
        t = []
        while j:
            t.append(j)
            i = best[S, j][1]
            S, j = S & ~(1 << j), i
        t = [0] + t
    r = f % n
    t = t[r:] + t[:r]
    return f, (t if f % 2 else t[::-1])
'''
FAKE_LKH = FAKE + r'''
par = dict(l.split(" = ") for l in open(sys.argv[1]).read().strip().split("\n"))
f, t = best(*read(par["PROBLEM_FILE"]))
with open(par["OUTPUT_TOUR_FILE"], "w") as o:
    o.write("NAME : temporary.%d.tour\nCOMMENT : Length = %d\nCOMMENT : Found by LKH\nTYPE : TOUR\n"
            "DIMENSION : %d\nTOUR_SECTION\n" % (f, f, len(t)))
    for x in t:
        o.write("%d\n" % (x + 1))
    o.write("-1\nEOF\n")
'''
FAKE_ACO = FAKE + r'''
f, t = best(*read(sys.argv[sys.argv.index("-i") + 1]))
print("best solution so far is " + " ".join(map(str, t)))
print("try 0, Best %d, found at iteration 1" % f)
'''


def fake_home():
    home = tempfile.mkdtemp(prefix="vp-p16-")
    for rel, code in (("Research/TSP/LKH-2.0.9/lkh", FAKE_LKH), ("Research/TSP/ACOTSP-1.03-ls/acotsp", FAKE_ACO)):
        p = os.path.join(home, rel)
        os.makedirs(os.path.dirname(p))
        with open(p, "w") as o:
            o.write("#!%s -SE\n%s" % (os.path.realpath(sys.executable), code))
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
    real = os.environ.get("HOME")
    os.environ["HOME"] = home
    try:
        import verypy.config
    finally:
        if real is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = real
    return home


@st.composite
def tsp(draw, nmin, nmax, closed=True):
    n = draw(st.integers(nmin - 1, nmax + 1))
    m = draw(ls.matrix(max(n, 1)))
    sel = draw(st.permutations(list(range(len(m["M"])))))
    if draw(st.integers(0, 3)):
        sel = [0] + [x for x in sel if x]
    k = draw(st.integers(nmin, min(nmax, len(sel))))
    return {"m": m, "sel": list(sel[:k]), "closed": closed and draw(st.booleans())}


@st.composite
def tsp_large(draw, nmin, nmax, closed=True):
    """groups of nodes far from each other (each of which would like to be a tour on its own), or anywhere"""
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    n = draw(st.integers(nmin, nmax))
    g = draw(st.integers(1, 4))
    c = [(rng.uniform(-100, 100), rng.uniform(-100, 100)) for _ in range(g)]
    spread = 60 if g == 1 else rng.choice([1, 5, 20])
    pts = [(c[i % g][0] + rng.gauss(0, spread), c[i % g][1] + rng.gauss(0, spread)) for i in range(n + rng.randrange(3))]
    kind = draw(st.sampled_from(["pts", "round"]))
    M = oracle.dist_matrix(pts, "ROUND" if kind == "round" else "EXACT")
    sel = list(range(len(pts)))
    rng.shuffle(sel)
    if draw(st.booleans()):
        sel = [0] + [x for x in sel if x]
    return {"m": {"M": M, "kind": kind}, "sel": sel[:n], "closed": closed and draw(st.booleans())}


def length(tour, M):
    return sum(M[tour[i - 1]][tour[i]] for i in range(1, len(tour)))


def optimum(sel, M):
    a, rest = sel[0], sel[1:]
    if len(rest) > 6:       # dynamic programming over subsets
        n = len(rest)
        best = {(1 << j, j): M[a][rest[j]] for j in range(n)}
        for S in range(1, 1 << n):
            for j in range(n):
                if S >> j & 1 and S != 1 << j:
                    T = S & ~(1 << j)
                    best[S, j] = min(best[T, i] + M[rest[i]][rest[j]] for i in range(n) if T >> i & 1)
        return min(best[(1 << n) - 1, j] + M[rest[j]][a] for j in range(n))
    return min(length((a,) + p + (a,), M) for p in permutations(rest) if not p or p[0] <= p[-1])


def check_tour(ctx, what, res, case, first=True):
    D, sel = case["m"]["M"], case["sel"]
    sol, f = res
    sol = [int(x) for x in sol]
    ctx.require(len(sol) == len(sel) + 1 and sol[0] == sol[-1], "%s returned %r", what, sol)
    ctx.require(sorted(sol[:-1]) == sorted(sel), "%s returned %r", what, sol)
    if first:
        ctx.require(sol[0] == sel[0], "%s returned %r", what, sol)
    return sol, float(f), length(sol, D)


def ropt(case, ctx):
    import verypy.tsp_solvers.tsp_solver_ropt as t
    D = ls.array(case["m"])
    sel = list(case["sel"])
    given = sel + [sel[0]] if case["closed"] else list(sel)
    keep = list(given)
    kind = case["kind"]
    if kind == "2opt":
        f, kw, two, three = t.solve_tsp_2opt, {}, True, False
    elif kind == "3opt":
        f, kw, two, three = t.solve_tsp_3opt, {}, False, True
    else:
        f, kw, two, three = t.solve_tsp_ropt, {"do_shuffle": kind == "shuffle", "do2opt": case["two"],
                                               "do3opt": case["three"]}, case["two"], case["three"]
    what = "%s(%r, %r)" % (f.__name__, given, kw)
    res = ctx.call(f, D, given, **kw)
    ctx.require(given == keep, "%s changed its input", what)
    sol, rep, real = check_tour(ctx, what, res, case)
    ctx.require(abs(rep - real) <= oracle.tol(real), "%s reports the cost %r, it is %r", what, rep, real)
    start = length(sel + [sel[0]], D)
    if kind != "shuffle":
        ctx.require(real <= start + oracle.tol(start), "%s makes the tour longer: %r", what, sol)
    elif not (two or three):
        pass
    # local optimality, with the tour rotated so that the depot role is played by its first node
    n = len(sel)
    order = {x: i for i, x in enumerate(sol[:-1])}
    M = [[float(D[a, b]) for b in sol[:-1]] for a in sol[:-1]]
    c = {"M": M, "C": None, "L": None, "d": None}
    r = list(range(1, n))
    if r:
        for on, nbhd in ((two and not three, n_2opt), (three, n_3opt)):
            if on:
                nb = ls.Neighborhood(c, [r], None)
                nbhd(r, nb)
                ctx.require(nb.best_sure is None, "%s returned %r, it can be improved by %r", what, sol,
                            nb.best_sure)
    ctx.label(kind)
    ctx.nontrivial(real < start - 1e-9)


def gurobi(case, ctx):
    from verypy.tsp_solvers.tsp_solver_gurobi import solve_tsp_gurobi
    D = ls.array(case["m"])
    sel = list(case["sel"])
    given = sel + [sel[0]] if case["closed"] else list(sel)
    keep = list(given)
    what = "solve_tsp_gurobi(%r)" % given
    res = ctx.call(solve_tsp_gurobi, D, given)
    ctx.require(given == keep, "%s changed its input", what)
    sol, rep, real = check_tour(ctx, what, res, case)
    ctx.require(abs(rep - real) <= 1e-5 * max(1.0, real), "%s reports the cost %r, it is %r", what, rep, real)
    best = optimum(sel, case["m"]["M"])
    ctx.require(real <= best + 2e-4 * max(1.0, best), "%s returned %r of cost %r, the shortest tour costs %r",
                what, sol, real, best)
    ctx.nontrivial(len(sel) > 3)


def external(case, ctx):
    D = ls.array(case["m"])
    sel = list(case["sel"])
    given = list(sel)
    n = len(sel)
    prec = 1000.0
    if case["solver"] == "lkh":
        from verypy.tsp_solvers.tsp_solver_lkh import solve_tsp_lkh as f
        kw = {"num_runs": 1} if case["opt"] else {}
    else:
        from verypy.tsp_solvers.tsp_solver_acotsp import solve_tsp_acotsp as f
        kw = {"use_ants": True} if case["opt"] else {}
    if case["prec"]:
        kw["float_accuracy"] = prec = case["prec"]
    what = "%s(%r, %r)" % (f.__name__, given, kw)
    before = set(os.listdir(tempfile.gettempdir()))
    res = ctx.call(f, D, given, **kw)
    ctx.require(given == sel, "%s changed its input", what)
    sol, rep, real = check_tour(ctx, what, res, case, first=False)
    ctx.require(sol[0] == 0 or sel[0] != 0, "%s returned %r", what, sol)
    err = 1e-9 * max(1.0, real) + (n / prec if D.dtype.kind == "f" else 0.0)
    ctx.require(abs(rep - real) <= err, "%s reports the cost %r of %r, it is %r", what, rep, sol, real)
    best = optimum(sel, case["m"]["M"])
    ctx.require(real <= best + err, "%s returned %r of cost %r, the shortest tour costs %r", what, sol, real,
                best)
    ctx.label(case["solver"], "tiny" if n <= 3 else "solver called")
    ctx.nontrivial(n > 3)


def targets():
    import verypy.tsp_solvers.tsp_solver_ropt, verypy.tsp_solvers.tsp_solver_gurobi
    return [core.Target("ropt", lambda: st.builds(
                lambda t, kind, two, three: dict(t, kind=kind, two=two, three=three), tsp(2, 9),
                st.sampled_from(["2opt", "3opt", "ropt", "shuffle"]), st.booleans(), st.booleans()), ropt,
                quick=8000, thorough=120000, timeout_is_violation=True),
            core.Target("ropt_large", lambda: st.builds(
                lambda t, kind, two, three: dict(t, kind=kind, two=two, three=three), tsp_large(10, 30),
                st.just("2opt"), st.booleans(), st.booleans()), ropt,
                quick=150, thorough=6000, timeout_is_violation=True),
            core.Target("ropt_3opt_large", lambda: st.builds(
                lambda t, kind, two, three: dict(t, kind=kind, two=two, three=three), tsp_large(9, 13),
                st.sampled_from(["3opt", "3opt", "ropt", "shuffle"]), st.booleans(), st.booleans()), ropt,
                quick=150, thorough=6000, timeout_is_violation=True),
            core.Target("gurobi_large", lambda: tsp_large(8, 11), gurobi, quick=120, thorough=3000),
            core.Target("external_large", lambda: st.builds(
                lambda t, s, o, p: dict(t, solver=s, opt=o, prec=p), tsp_large(8, 11, closed=False),
                st.sampled_from(["lkh", "acotsp"]), st.booleans(), st.sampled_from([None, None, 100.0, 10000.0])),
                external, quick=80, thorough=2000),
            core.Target("gurobi", lambda: tsp(2, 7), gurobi, quick=2000, thorough=30000),
            core.Target("external", lambda: st.builds(
                lambda t, s, o, p: dict(t, solver=s, opt=o, prec=p), tsp(2, 7, closed=False),
                st.sampled_from(["lkh", "acotsp"]), st.booleans(), st.sampled_from([None, None, 100.0, 10000.0])),
                external, quick=1500, thorough=20000)]


if __name__ == "__main__":
    HOME = fake_home()
    try:
        rc = core.run_check("P16", targets(), rule=(
            "ropt: the order given is improved; gurobi and external: more than three nodes"),
            assumptions=["symmetric distances", "the LKH and ACOTSP executables are replaced by stand-ins "
                         "that enumerate tours", "gurobi's default relative gap of 1e-4 is allowed"])
    finally:
        shutil.rmtree(HOME, ignore_errors=True)
    sys.exit(rc)
