import importlib.util, os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, oracle, tsplib

_spec = importlib.util.spec_from_file_location("p27", os.path.join(os.path.dirname(os.path.abspath(__file__)), "P27.py"))
p27 = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(p27)

EXT = (".vrp", ".vrp", ".vrp", ".tsp", ".pickle", ".txt", ".opt", "", ".vrp.bak", ".VRP", ".dat")


# ------------------------------------------------------------------- file lists
@st.composite
def tree_case(draw):
    base = st.sampled_from(["a", "b", "n2", "n10", "n1", "B", "x-n5-k2", "x-n12-k2", "07", "7"])
    fname = st.tuples(base, st.sampled_from(EXT)).map("".join)
    dname = st.sampled_from(["sub", "d1", "d10", "d2", "a b", "c[1]", "old"])
    dirs = [""]
    for _ in range(draw(st.integers(0, 4))):
        parent = draw(st.sampled_from(dirs))
        d = (parent + "/" if parent else "") + draw(dname)
        if d not in dirs:
            dirs.append(d)
    files = []
    for d in dirs:
        for f in draw(st.lists(fname, max_size=5, unique_by=str)):
            files.append((d + "/" if d else "") + f)
    recursive = draw(st.booleans())
    lists = []
    targets = st.sampled_from(dirs + files + ["missing", "missing.vrp"])
    if recursive:
        paths = [draw(st.sampled_from([d for d in dirs]))]
    else:
        paths = draw(st.lists(targets, min_size=1, max_size=3))
        if files and draw(st.booleans()):
            lists = [draw(st.lists(st.sampled_from(files + ["missing.vrp", ""]), max_size=5))]
            paths.append("LIST.txt")
    return {"dirs": dirs, "files": files, "recursive": recursive, "paths": paths, "lists": lists,
            "upper": draw(st.booleans())}


def natural(f):
    return [int(x) if x.isdigit() else x.lower() for x in re.split("([0-9]+)", f)]


def tree(c, ctx):
    from verypy import shared_cli
    root = os.path.join(ctx.tmp, "tree")
    os.mkdir(root)
    lst = os.path.join(root, "LIST" + (".TXT" if c["upper"] else ".txt"))

    def full(p):
        return lst if p == "LIST.txt" else os.path.join(root, p) if p else root
    try:
        for d in c["dirs"]:
            if d:
                os.mkdir(os.path.join(root, d))
        for f in c["files"]:
            with open(full(f), "w") as h:
                h.write("x\n")
        for l in c["lists"]:
            with open(lst, "w") as h:
                h.write("".join((full(f) if f else "") + "\n" for f in l))
        got = ctx.call(shared_cli.get_a_problem_file_list, [full(p) for p in c["paths"]], c["recursive"])
    finally:
        shutil.rmtree(root)

    def of_dir(d):
        here = [f for f in c["files"] if os.path.dirname(f) == d]
        return [[f for f in here if f.endswith(e)] for e in (".vrp", ".tsp", ".pickle")]
    rel = [os.path.normpath(os.path.relpath(g, root)) for g in got]
    what = "the files %r, of which %r are asked for%s, give %r" % (c["files"], c["paths"] + c["lists"],
                                                                  " recursively" if c["recursive"] else "", rel)
    if c["recursive"]:
        top = c["paths"][0]
        want = [f for d in c["dirs"] if d == top or not top or d.startswith(top + "/") for g in of_dir(d) for f in g]
        ctx.require(sorted(rel) == sorted(want), "%s", what)
        ctx.nontrivial(len(want) > 1)
        return
    rest = list(rel)
    bad = 0
    for p in c["paths"]:
        if p in c["dirs"]:
            for group in of_dir(p):
                part, rest = rest[:len(group)], rest[len(group):]
                ctx.require(sorted(part) == sorted(group), "%s: %r of %r", what, part, p)
                keys = [natural(f) for f in part]
                ctx.require(keys == sorted(keys), "%s: the order of %r", what, part)
        elif p == "LIST.txt":
            want = [f for f in c["lists"][0] if f in c["files"]]
            part, rest = rest[:len(want)], rest[len(want):]
            ctx.require(part == want, "%s: %r are listed", what, want)
        elif p in c["files"] and p.lower().endswith(".txt"):
            pass  # a list without existing files
        elif p in c["files"] and p.lower().endswith((".vrp", ".tsp", ".pickle")):
            ctx.require(rest and rest[0] == p, "%s: not %r", what, p)
            rest.pop(0)
        else:
            bad += 1
    ctx.require(not rest, "%s: unexpected %r", what, rest)
    ctx.require(len([l for l in ctx.stderr.split("\n") if l]) == bad, "%s: the messages are %r", what, ctx.stderr)
    ctx.nontrivial(len(rel) > 1)


# ------------------------------------------------------------------- read and solve
@st.composite
def solve_case(draw):
    m = draw(p27.problem("p1", nmin=3, nmax=7))
    n = m["n"] - 1
    runs = []
    count = draw(st.integers(1, 5))
    for _ in range(count):
        order = list(draw(st.permutations(list(range(1, n + 1)))))
        sol = [0]
        for i, x in enumerate(order):
            if i and draw(st.integers(0, 2)) == 0:
                sol.append(0)
            sol.append(x)
        what = draw(st.sampled_from(["sol"] * 12 + ["none", "stop", "stopsol"]))
        runs.append([what, sol + [0]])
    return {"problem": m, "runs": runs, "minimize_K": draw(st.booleans()), "single": draw(st.booleans()),
            "verbosity": draw(st.sampled_from([-1, -1, 0, 1, 3])), "time": draw(st.booleans()),
            "cli": draw(st.booleans())}


def read_and_solve(c, ctx):
    from verypy import shared_cli
    m = c["problem"]
    e = p27.Expect(m, {"D": None})
    calls = []
    path = os.path.join(ctx.tmp, m["name"] + (".tsp" if m["style"]["tsp"] else ".vrp"))
    with open(path, "w", newline="") as f:
        f.write(tsplib.text(m))

    def algo(points, D, d, C, L, stime, wtt, single, minimize_K):
        calls.append((points, D, d, C, L, stime, wtt, single, minimize_K))
        what, sol = c["runs"][len(calls) - 1]
        if what == "none":
            return None
        if what == "stop":
            raise KeyboardInterrupt()
        if what == "stopsol":
            raise KeyboardInterrupt(list(sol))
        return list(sol)
    stops = [i for i, r in enumerate(c["runs"]) if r[0].startswith("stop")]
    expected = c["runs"][:stops[0] + 1] if stops else c["runs"]
    result, stopped = None, False
    what = "%d runs of a stand-in with the solutions %r on\n%s\n" % (len(c["runs"]), c["runs"], tsplib.text(m))
    old = sys.argv
    try:
        if c["cli"]:
            sys.argv = ["x.py", "-n", str(len(c["runs"])), "-b", "K" if c["minimize_K"] else "cost"] + \
                (["-1"] if c["single"] else []) + [path]
            # the command line sets up logging to the present output
            keep = shared_cli.set_logger_level
            shared_cli.set_logger_level = lambda *a, **k: None
            try:
                ctx.call(shared_cli.cli, "stand-in", "a stand-in", algo)
            finally:
                shared_cli.set_logger_level = keep
        else:
            result = ctx.call(shared_cli.read_and_solve_a_problem, path, algo, c["minimize_K"], len(c["runs"]),
                              c["verbosity"], c["single"], c["time"])
    except KeyboardInterrupt:
        stopped = True
    finally:
        sys.argv = old
        os.remove(path)
    out = ctx.stdout
    ctx.require(len(calls) == len(expected), "%s: it is called %d times", what, len(calls))
    ctx.require(stopped == bool(stops), "%s: interrupted is %r", what, stopped)
    for points, D_c, d, C, L, stime, wtt, single, minK in calls:
        ctx.require(C == e.C and (L if L is None else float(L)) == e.L and (stime or None) == e.st,
                    "%s: the constraints %r, %r, service time %r", what, C, L, stime)
        ctx.require(bool(single) == c["single"] and bool(minK) == c["minimize_K"], "%s: single %r, minimize_K %r",
                    what, single, minK)
        ctx.require((d is None and e.d is None) or list(d) == e.d, "%s: the demands %r", what, d)
        ctx.require(points is not None and len(points) == e.n, "%s: the points %r", what, points)
        D = p27.unbake(D_c, e.st) if e.st else D_c
        bad = e.check_D(D, {"D": None})
        ctx.require(not bad, "%s: %s", what, bad)
    sols = [s for k, s in expected if k in ("sol", "stopsol")]

    def quality(s):
        f, K = oracle.sol_len(s, D_c), len(oracle.routes_of(s))
        return (K, f) if c["minimize_K"] else (f,)
    if stops or c["cli"]:
        if c["cli"] or c["verbosity"] >= 0:
            printed = re.findall(r"^SOLUTION: (\[[^\]]*\])$", out, re.M)
            ctx.require(len(printed) == (1 if sols else 0), "%s: the output\n%s", what, out)
            got = [int(x) for x in printed[0].strip("[]").split(",")] if sols else None
        else:
            return
    else:
        ctx.require(isinstance(result, tuple) and len(result) == 4, "%s: the result is %r", what, result)
        got, length, cost, elapsed = result
        if got is None:
            ctx.require(not sols and length == cost == float("inf"), "%s: the result is %r", what, result)
            return
        ctx.require(p27.near(length, oracle.sol_len(got, D)) and p27.near(cost, oracle.sol_len(got, D_c)),
                    "%s: the costs of %r are %r and %r", what, got, length, cost)
        ctx.require(elapsed >= 0, "%s: the time is %r", what, elapsed)
    if not sols:
        return
    best = min(quality(s) for s in sols)
    q = quality(got)
    ctx.require(len(q) == len(best) and all(p27.near(a, b) for a, b in zip(q, best)),
                "%s: the result is %r of quality %r, the best is %r", what, got, q, best)
    forms = [sorted(min(r, r[::-1]) for r in oracle.routes_of(s)) for s in sols]
    ctx.require(sorted(min(r, r[::-1]) for r in oracle.routes_of(got)) in forms, "%s: the result %r is not one of "
                "them", what, got)
    ctx.label("cli" if c["cli"] else "function", "stopped" if stops else "not stopped")
    ctx.nontrivial(len(sols) > 1)


def targets():
    import verypy.shared_cli
    return [core.Target("files", tree_case, tree, quick=2500, thorough=60000, timeout_is_violation=True),
            core.Target("solve", solve_case, read_and_solve, quick=3000, thorough=60000, timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P28", targets(), rule="two files or more (files), two solutions or more (solve)",
                            assumptions=["folders are searched recursively one at a time",
                                         "a file with a capacity has demands"]))
