import logging, math, os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, oracle, solve, tsplib
from vplib.dist import allowed

ABBRS = ("ps", "ss", "gpl", "swp", "si", "pi", "sn", "pn", "mj", "ims", "gm")
STUBS = ("ps", "ss", "swp", "pi")
ALIAS = {"ps": ("ps", "PS", "cw", "ClarkeWright"), "ss": ("ss", "sequentialsavings"), "swp": ("swp", "Sweep"),
         "pi": ("pi", "ParallelInsertion")}


@st.composite
def problem(draw, name, nmin=2, nmax=6):
    m = draw(tsplib.model(nmax=nmax))
    m["name"] = name
    if m["ST_section"] and m["depot"] != 1:
        m["ST"] = None
    m["style"]["tsp"] = draw(st.integers(0, 3)) == 0
    if m["C"] is not None and m["demands"] is None:
        m["C"] = None
    if m["C"] is not None:
        m["C"] = draw(st.integers(1, 120))
    if m["L"] is not None:
        m["L"] = str(draw(st.integers(1, 2000)))
    return m


@st.composite
def some_solution(draw, n):
    """of n customers, now and then with a wrong one"""
    order = list(draw(st.permutations(list(range(1, n + 1)))))
    wrong = draw(st.integers(0, 7))
    if wrong == 0 and n > 1:
        order.pop()
    elif wrong == 1:
        order.append(order[0])
    sol = [0]
    for i, c in enumerate(order):
        if i and draw(st.integers(0, 2)) == 0:
            sol.append(0)
        sol.append(c)
    return sol + [0]


@st.composite
def options(draw):
    return {"b": draw(st.sampled_from([None, None, "c", "cost", "K", "vehicles"])),
            "m": draw(st.booleans()), "c": draw(st.booleans()), "one": draw(st.booleans()),
            "t": draw(st.booleans()), "routes": draw(st.booleans()), "vrph": draw(st.booleans()),
            "D": draw(st.sampled_from([None, None, "ROUND", "TRUNCATE"])),
            "simulate": draw(st.integers(0, 9)) == 0, "argv": draw(st.booleans())}


def argv(o):
    a = []
    if o["b"]:
        a += ["-b", o["b"]]
    for k, f in (("m", "-m"), ("c", "-c"), ("one", "-1"), ("t", "-t"), ("routes", "--routes"), ("vrph", "--vrph"),
                 ("simulate", "--simulate")):
        if o[k]:
            a.append(f)
    if o["D"]:
        a += ["-D", o["D"]]
    return a


@st.composite
def stub_case(draw):
    count = draw(st.integers(1, 3))
    names = draw(st.permutations(["p1", "q2", "R3", "s-n10"]))[:count]
    ps = [draw(problem(nm)) for nm in names]
    algos = draw(st.permutations(list(STUBS)))[:draw(st.integers(1, 3))]
    plan = {}
    for m in ps:
        for a in algos:
            what = draw(st.sampled_from(["sol"] * 9 + ["none", "fail", "stop", "stopsol"]))
            plan["%s/%s" % (m["name"], a)] = [what, draw(some_solution(m["n"] - 1))]
    for m in ps:
        if draw(st.integers(0, 2)):
            # a maximum route cost about that of a solution
            D = [[x[0] for x in r] for r in tsplib.distances(m)[0]]
            sol = plan["%s/%s" % (m["name"], algos[0])][1]
            rs = oracle.routes_of(sol)
            s = float(m["ST"] or 0)
            if rs:
                m["L"] = str(max(1, int(max(oracle.route_len(r, D) + draw(st.sampled_from([0, s / 2, s])) * len(r)
                                            for r in rs)) + draw(st.integers(-1, 2))))
    o = draw(options())
    o["post"] = draw(st.sampled_from([[], [], ["2opt"], ["3opt"], ["2opt", "3opt"]]))
    forbid = draw(st.sampled_from([[], [], [], [algos[0]], ["unknown", "TP"]]))
    return {"problems": ps, "algos": list(algos), "plan": plan, "options": o,
            "forbid": [draw(st.sampled_from(ALIAS[f])) if f in ALIAS else f for f in forbid],
            "dir": draw(st.booleans()) or count > 1}


class Expect(object):
    """what is known about a problem file and the options"""

    def __init__(self, m, o):
        import numpy as np
        self.m = m
        self.name = m["name"]
        self.n = m["n"]
        idx = tsplib.nodes(m)
        self.d = [float(m["demands"][i]) for i in idx] if m["demands"] else None
        self.C = m["C"]
        self.L = float(m["L"]) if m["L"] else None
        self.st = float(m["ST"]) if m["ST"] else None
        self.refs, self.real = tsplib.distances(m)

    def check_D(self, D, o):
        for i in range(self.n):
            for j in range(self.n):
                v = float(D[i][j])
                if o["D"] == "ROUND":
                    opts = [x for r in self.refs[i][j] for x in (float(round(r)), float(math.floor(r + 0.5)))]
                    opts += [float(round(r + e)) for r in self.refs[i][j] for e in (1e-9, -1e-9)]
                elif o["D"] == "TRUNCATE":
                    opts = [float(math.floor(r + e)) for r in self.refs[i][j] for e in (0, 1e-9, -1e-9)]
                else:
                    opts = self.refs[i][j]
                if not allowed(v, opts, self.real):
                    return "the distance of %d and %d is %r, not %r" % (i, j, v, opts)
        return None


def unbake(D, s):
    """distances without the service time"""
    n = len(D)
    return [[0.0 if i == j else float(D[i][j]) - (s / 2.0 if 0 in (i, j) else s) for j in range(n)]
            for i in range(n)]


def write(c, ctx):
    folder = os.path.join(ctx.tmp, "problems")
    os.mkdir(folder)
    for m in c["problems"]:
        with open(os.path.join(folder, m["name"] + (".tsp" if m["style"]["tsp"] else ".vrp")), "w", newline="") as f:
            f.write(tsplib.text(m))
    if c["dir"]:
        return folder, folder
    m = c["problems"][0]
    return folder, os.path.join(folder, m["name"] + (".tsp" if m["style"]["tsp"] else ".vrp"))


def file_order(ps):
    def key(nm):
        return [int(x) if x.isdigit() else x.lower() for x in re.split("([0-9]+)", nm)]
    return sorted([m for m in ps if not m["style"]["tsp"]], key=lambda m: key(m["name"] + ".vrp")) + \
        sorted([m for m in ps if m["style"]["tsp"]], key=lambda m: key(m["name"] + ".tsp"))


def run_main(ctx, args, use_argv):
    import verypy.VeRyPy as V
    if not use_argv:
        ctx.call(V.main, args)
        return
    old = sys.argv
    sys.argv = ["VeRyPy.py"] + args
    try:
        ctx.call(V.main)
    finally:
        sys.argv = old


def fmt(x):
    return "inf" if x == float("inf") else "%.2f" % x


def near(a, b):
    return a == b or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def feasible(sol, D_c, e):
    served = sorted(x for x in sol if x)
    if served != list(range(1, e.n)):
        return False, False
    ok, sharp = True, False
    for r in oracle.routes_of(sol):
        if e.C is not None and sum(e.d[x] for x in r) > e.C:
            ok = False
            sharp = sharp or sum(e.d[x] for x in r) - e.C < 1e-5
        if e.L is not None:
            excess = oracle.route_len(r, D_c) - e.L
            sharp = sharp or abs(excess) < 1e-5
            if excess > 0:
                ok = False
    return ok, sharp


def section_of(out, e, longname):
    """the part of the output of one algorithm on one problem"""
    head = "Solving %s with %s" % (e.name, longname)
    i = out.index(head)
    j = out.find("Solving ", i + len(head))
    return out[i:j if j >= 0 else len(out)]


def check_output(ctx, o, post, entries, what, nprob, nalg):
    """entries: in order (e, abbr, name, D, D_c, sol or None, interrupted, started)"""
    out = ctx.stdout
    results = {}
    lines = out.split("\n")
    if o["m"]:
        ctx.require(lines[0] == "algo;problem;is_feasible;f;K;t", "%s: the header is %r", what, lines[0])
        rows = [l for l in lines[1:] if l]
        ctx.require(len(rows) == len(entries), "%s: %d results, not %d", what, len(rows), len(entries))
    for k, (e, abbr, name, D, D_c, sol, stopped) in enumerate(entries):
        M = D_c if o["c"] else D
        where = "%s\n%s with %s" % (what, e.name, abbr)
        f0 = oracle.sol_len(sol, M) if sol else float("inf")
        K = len(oracle.routes_of(sol)) if sol else float("inf")
        if o["m"]:
            row = rows[k].split(";")
            ctx.require(len(row) == 6 and row[0] == abbr and row[1] == e.name, "%s: the row %r", where, rows[k])
            f = float(row[3])
            if post and sol:
                ctx.require(f <= f0 + 0.00501 + 1e-9 * f0, "%s: the result %r is over %r", where, f, f0)
            else:
                ctx.require(f == f0 or abs(f - f0) <= 0.00501 + 1e-9 * f0, "%s: the result is %r, not %r", where, f, f0)
            ctx.require(float(row[4]) == K, "%s: %r routes, not %r", where, row[4], K)
            ctx.require(row[5].endswith("*") == bool(stopped), "%s: the time is %r", where, row[5])
            ok, sharp = feasible(sol, D_c, e) if sol else (False, False)
            if not sharp and not (post and sol and not ok):
                ctx.require(row[2] == str(ok), "%s: the solution %r is reported as feasible %r", where, sol, row[2])
            results[(e.name, name)] = f
            continue
        if not sol:
            results[(e.name, name)] = float("inf")
            ctx.require("SOLUTION:" not in section_of(out, e, name), "%s: a solution is printed", where)
            continue
        sec = section_of(out, e, name)
        printed = re.findall(r"^SOLUTION: (\[[^\]]*\])$", sec, re.M)
        ctx.require(len(printed) == 1, "%s: the output\n%s\nhas %d solutions", where, sec, len(printed))
        got = [int(x) for x in printed[0].strip("[]").split(",")]
        a = sorted(sorted([r, r[::-1]])[0] for r in oracle.routes_of(sol))
        b = sorted(sorted([r, r[::-1]])[0] for r in oracle.routes_of(got))
        if post:
            ctx.require(sorted(map(sorted, a)) == sorted(map(sorted, b)), "%s: %r is post-optimized to %r", where, sol,
                        got)
            ctx.require(oracle.sol_len(got, D) <= oracle.sol_len(sol, D) + 1e-6 * max(1, oracle.sol_len(sol, D)),
                        "%s: %r is post-optimized to %r which is worse", where, sol, got)
        else:
            ctx.require(a == b, "%s: the solution %r is printed as %r", where, sol, got)
        ok, sharp = feasible(got, D_c, e)
        stat = dict(re.findall(r"^(FEASIBLE|IS C FEASIBLE|IS L FEASIBLE|ALL SERVED|SOLUTION K|SOLUTION LENGTH|SIZE|"
                               r"CAPACITY|DISTANCE|SERVICE_TIME): (\S+)", sec, re.M))
        if "FEASIBLE" in stat:
            rep = stat["FEASIBLE"] == "True"
        else:
            ctx.require("ALL SERVED" in stat, "%s: the output\n%s\ndoes not tell the feasibility", where, sec)
            rep = stat["ALL SERVED"] == "True" and stat.get("IS C FEASIBLE", "True") == "True" and \
                stat.get("IS L FEASIBLE", "True") == "True"
        if not sharp:
            ctx.require(rep == ok, "%s: the solution %r is reported as feasible %r", where, got, rep)
        ctx.require(int(stat["SOLUTION K"]) == K, "%s: the number of routes of %r is %s", where, got,
                    stat["SOLUTION K"])
        length, cost = oracle.sol_len(got, D), oracle.sol_len(got, D_c)
        if "SOLUTION LENGTH" in stat:
            ctx.require(near(float(stat["SOLUTION LENGTH"]), length), "%s: the length of %r is %s, not %r", where, got,
                        stat["SOLUTION LENGTH"], length)
        else:
            ctx.require(cost == 0, "%s: no length is printed", where)
        costs = re.findall(r"^SOLUTION COST: (\S+)", sec, re.M)
        ctx.require(len(costs) <= 1 and (costs or near(length, cost)), "%s: the cost is not printed", where)
        if costs:
            ctx.require(near(float(costs[0]), cost), "%s: the cost of %r is %s, not %r", where, got, costs[0], cost)
        if e.C:
            ctx.require(float(stat["CAPACITY"]) == e.C, "%s: the capacity %s", where, stat["CAPACITY"])
        ctx.require(int(stat["SIZE"]) == e.n or int(stat["SIZE"]) == e.n - 1, "%s: the size %s", where, stat["SIZE"])
        ctx.require((stat["DISTANCE"] == "None") == (e.L is None) and (e.L is None or float(stat["DISTANCE"]) == e.L),
                    "%s: the constraint %s", where, stat["DISTANCE"])
        if o["routes"]:
            rows = re.findall(r"^(\d+)\t(\S+)\t(\S+)\t(\S+)\t(\[[^\]]*\])$", sec, re.M)
            ctx.require(len(rows) == K, "%s: %d routes in\n%s", where, len(rows), sec)
            table = []
            for no, rc, rl, load, rt in rows:
                r = [int(x) for x in rt.strip("[]").split(",")]
                inner = [x for x in r if x]
                table.append(inner)
                ctx.require(abs(float(rc) - oracle.route_len(inner, D_c)) < 0.00501 + 1e-9 * float(rc) and
                            abs(float(rl) - oracle.route_len(inner, D)) < 0.00501 + 1e-9 * float(rl),
                            "%s: the costs of the route %r are %s and %s", where, r, rc, rl)
                if e.C:
                    ctx.require(near(float(load), sum(e.d[x] for x in inner)), "%s: the load of the route %r is %s",
                                where, r, load)
            ctx.require(table == oracle.routes_of(got), "%s: the routes are %r", where, table)
        if o["vrph"]:
            i = sec.index("SOLUTION IN VRPH FORMAT:\n") + len("SOLUTION IN VRPH FORMAT:\n")
            nodes = [int(x) for x in sec[i:].split("\n")[0].split()]
            routes = []
            for x in nodes[1:-1]:
                if x < 0:
                    routes.append([])
                routes[-1].append(abs(x))
            ctx.require(routes == oracle.routes_of(got) and nodes[-1] == 0 and nodes[0] == max(got) + 1,
                        "%s: the VRPH solution %r", where, nodes)
        f = oracle.sol_len(got, M)
        results[(e.name, name)] = f if not post else min(f, f0)
    if not o["m"] and (len({e.name for e, _ in results_problems(entries)}) > 1 or nalg > 1):
        tab = [l.split("\t") for l in lines if "\t" in l]
        heads = [i for i, r in enumerate(tab) if r[0] == "instance"]
        ctx.require(len(heads) == 1, "%s: the output\n%s\nhas no collected results", what, out)
        head = tab[heads[0]]
        rows = tab[heads[0] + 1:]
        byprob = {}
        for (pn, an), f in results.items():
            byprob.setdefault(pn, {})[an] = f
        ctx.require(sorted(r[0] for r in rows) == sorted(byprob), "%s: the collected results %r", what, rows)
        for r in rows:
            res = byprob[r[0]]
            at = 7
            ctx.require(len(r) == at + len(res), "%s: the collected row %r", what, r)
            full = len(head) - at == len(res)
            for col, v in enumerate(r[at:]):
                if full:
                    an = head[at + col]
                    if post:
                        an = an[:-len("+" + "+".join(post))]
                else:
                    an = sorted(res)[col]
                ctx.require(an in res and near(float(v), res[an]), "%s: the collected result of %r with %r is %r of %r",
                            what, r[0], an, v, res)
    return results


def results_problems(entries):
    return [(e, abbr) for e, abbr, _, _, _, _, _ in entries]


def stub(c, ctx):
    import verypy
    import verypy.VeRyPy as V
    o = c["options"]
    post = o["post"]
    calls, asked = [], []
    by = {m["name"]: Expect(m, o) for m in c["problems"]}
    order = [by[m["name"]] for m in file_order(c["problems"])]
    banned = [k for f in c["forbid"] for k in ALIAS if f in ALIAS[k]]
    active = [a for a in c["algos"] if a not in banned]
    todo = [(e, a) for e in order for a in active]

    def make(abbr):
        def call(points, D, d, C, L, stime, wtt, single, minimize_K):
            if len(calls) >= len(todo):
                raise KeyboardInterrupt()
            e, a = todo[len(calls)]
            calls.append((abbr, points, D, d, C, L, stime, wtt, single, minimize_K))
            what, sol = c["plan"]["%s/%s" % (e.name, a)]
            if what == "none":
                return None
            if what == "fail":
                raise ValueError("no way")
            if what == "stop":
                raise KeyboardInterrupt()
            if what == "stopsol":
                raise KeyboardInterrupt(list(sol))
            return list(sol)
        return (abbr, "NAME-" + abbr, "a stand-in", call)

    def fake(names="all"):
        asked.append(names)
        return [make(a) for a in c["algos"]]
    folder, arg = write(c, ctx)
    args = [x for a in c["algos"] for x in ("-a", a)] + argv(o) + [x for p in post for x in ("--post-optimize", p)] + \
        [x for f in c["forbid"] for x in ("--forbid", f)] + [arg]
    old = (verypy.get_algorithms, getattr(V, "get_algorithms", None))
    verypy.get_algorithms = fake
    if old[1] is not None:
        V.get_algorithms = fake
    try:
        run_main(ctx, args, o["argv"])
    finally:
        verypy.get_algorithms = old[0]
        if old[1] is not None:
            V.get_algorithms = old[1]
        shutil.rmtree(folder)
    if not asked:
        ctx.skip("stand-in not used")
    what = "main(%s) of %s" % (" ".join(args[:-1]), "; ".join(tsplib.text(m) for m in c["problems"]))
    ctx.require(list(asked[-1]) == c["algos"], "%s asks for %r", what, asked)
    expected = [] if o["simulate"] else todo
    entries = []
    done = 0
    for e, a in todo:
        if o["simulate"]:
            M = oracle.as_array([[x[0] for x in r] for r in e.refs])
            entries.append((e, a, "NAME-" + a, M, M, None, False))
            continue
        ctx.require(done < len(calls), "%s: only %d calls", what, done)
        abbr, points, D_c, d, C, L, stime, wtt, single, minK = calls[done]
        done += 1
        where = "%s: %s on %s" % (what, a, e.name)
        ctx.require(abbr == a, "%s: %s is called", where, abbr)
        ctx.require(C == e.C and (L if L is None else float(L)) == e.L, "%s: the constraints %r, %r", where, C, L)
        ctx.require((stime or None) == e.st, "%s: the service time %r", where, stime)
        ctx.require(bool(single) == o["one"] and bool(minK) == (o["b"] in ("K", "vehicles")),
                    "%s: single %r, minimize_K %r", where, single, minK)
        ctx.require((d is None and e.d is None) or list(d) == e.d, "%s: the demands %r", where, d)
        ctx.require(points is not None and len(points) == e.n, "%s: the points %r", where, points)
        D = unbake(D_c, e.st) if e.st else D_c
        bad = e.check_D(D, o)
        ctx.require(not bad, "%s: %s", where, bad)
        kind, sol = c["plan"]["%s/%s" % (e.name, a)]
        entries.append((e, a, "NAME-" + a, D, D_c, sol if kind in ("sol", "stopsol") else None,
                        kind.startswith("stop")))
        ctx.label(kind)
        if kind.startswith("stop"):
            break
    ctx.require(len(calls) == done, "%s: %d calls, not %d", what, len(calls), done)
    check_output(ctx, o, post, entries, what, len(c["problems"]), len(active))
    ctx.label("minimal" if o["m"] else "full", "post" if post else "no post")
    ctx.nontrivial(any(x[5] for x in entries))


@st.composite
def real_case(draw):
    m = draw(problem("p7", nmin=3, nmax=7))
    n = m["n"]
    if m["demands"] is None:
        m["demands"] = [str(draw(st.integers(0, 20))) for _ in range(n)]
        m["demands"][m["depot"] - 1] = "0"
    d = [float(x) for x in m["demands"]]
    lo = int(math.ceil(max(d))) or 1
    m["C"] = draw(st.integers(lo, max(lo, int(sum(d)) + 1)))
    m["L"] = None
    algos = draw(st.permutations([a for a in ABBRS]))[:draw(st.integers(1, 3))]
    o = draw(options())
    o["simulate"] = False
    if o["b"] in ("K", "vehicles"):
        algos = [a for a in algos if a not in solve.NO_MIN_K] or ["ps"]
    o["post"] = draw(st.sampled_from([[], [], ["2opt"], ["3opt"]]))
    # a maximum route cost that each single customer route keeps
    return {"problems": [m], "algos": list(algos), "options": o, "dir": False,
            "slack": draw(st.sampled_from([None, 0, 50, 400]))}


def real(c, ctx):
    """the registered heuristics through the command line"""
    o, m = c["options"], c["problems"][0]
    e = Expect(m, o)
    if c["slack"] is not None:
        far = max(max(r) for row in e.refs for r in row)
        need = 2 * far + 2 + (e.st or 0)
        m["L"] = str(int(need) + 1 + c["slack"])
        e = Expect(m, o)
    folder, arg = write(c, ctx)
    args = [x for a in c["algos"] for x in ("-a", a)] + argv(o) + \
        [x for p in o["post"] for x in ("--post-optimize", p)] + [arg]
    what = "main(%s) of %s" % (" ".join(args[:-1]), tsplib.text(m))
    names = {a: solve.algorithm(a)[1] for a in c["algos"]}
    try:
        run_main(ctx, args, o["argv"])
    finally:
        shutil.rmtree(folder)
    ctx.require("ERROR" not in ctx.stderr, "%s: %s", what, ctx.stderr)
    if o["m"]:
        rows = [l.split(";") for l in ctx.stdout.split("\n")[1:] if l.count(";") == 5]
        ctx.require([r[0] for r in rows] == c["algos"], "%s: the output\n%s", what, ctx.stdout)
        ctx.require(all(r[2] == "True" and r[1] == e.name for r in rows), "%s: the output\n%s", what, ctx.stdout)
        ctx.nontrivial(m["n"] > 3)
        return
    for a in c["algos"]:
        sec = section_of(ctx.stdout, e, names[a])
        sol = re.findall(r"^SOLUTION: (\[[^\]]*\])$", sec, re.M)
        ctx.require(len(sol) == 1, "%s: the output\n%s", what, ctx.stdout)
        sol = [int(x) for x in sol[0].strip("[]").split(",")]
        ctx.require(sorted(x for x in sol if x) == list(range(1, e.n)), "%s: %s gives %r", what, a, sol)
        lo = [[min(x) for x in r] for r in e.refs]
        for r in oracle.routes_of(sol):
            ctx.require(sum(e.d[x] for x in r) <= e.C + 1e-6 * max(1, e.C), "%s: %s gives %r over capacity", what, a, sol)
            if e.L and not o["D"]:
                length = oracle.route_len(r, lo) + (e.st or 0) * len(r)
                ctx.require(length <= e.L + 1e-5 * max(1, e.L), "%s: %s gives %r, over the maximum cost", what, a, sol)
        ctx.require(re.search(r"^FEASIBLE: True$", sec, re.M) or re.search(r"^ALL SERVED: True$", sec, re.M),
                    "%s: the output\n%s", what, sec)
        ctx.require(not re.search(r"FEASIBLE: False", sec), "%s: the output\n%s", what, sec)
        ctx.label(a)
    ctx.nontrivial(m["n"] > 3)


@st.composite
def verbose_case(draw):
    return dict(draw(real_case()), level=draw(st.integers(0, 3)))


def verbose(c, ctx):
    """debug output is added to what is reported, and changes nothing of it"""
    o = c["options"]
    folder, arg = write(c, ctx)
    args = [x for a in c["algos"] for x in ("-a", a)] + argv(o) + \
        [x for p in o["post"] for x in ("--post-optimize", p)] + [arg]
    out = []
    root = logging.getLogger()
    old = root.handlers[:], root.level, root.manager.disable
    try:
        for extra in ([], ["-v", str(c["level"])]):
            root.handlers[:] = [] if extra else old[0]
            logging.disable(logging.NOTSET if extra else old[2])
            run_main(ctx, extra + args, o["argv"])
            ctx.require("ERROR" not in ctx.stderr, "main(%s): %s", " ".join(extra + args[:-1]), ctx.stderr)
            text = re.sub(r"solution in [0-9.]+ s", "solution in T s", ctx.stdout)
            if o["m"]:
                text = re.sub(r"(?m)^([^;\n]+(?:;[^;\n]*){4});[0-9.]+(\*?)$", r"\1;T\2", text)
            lines = text.count("\n")
            out.append(re.sub(r"DEBUG:.*\n", "", text).split("\n"))
    finally:
        root.handlers[:] = old[0]
        root.setLevel(old[1])
        logging.disable(old[2])
        shutil.rmtree(folder)
    rest = iter(out[1])
    for line in out[0]:
        ctx.require(any(line == x for x in rest), "main(%s) reports\n%s\nbut with -v %d\n%s", " ".join(args[:-1]),
                    "\n".join(out[0])[:1500], c["level"], "\n".join(x for x in out[1] if not x.startswith("DEBUG"))[:1500])
    ctx.label("level %d" % c["level"])
    ctx.nontrivial(lines > len(out[0]))


def targets():
    import verypy.VeRyPy
    solve.preload(ABBRS)
    return [core.Target("stub", stub_case, stub, quick=2500, thorough=60000, timeout_is_violation=True),
            core.Target("real", real_case, real, quick=800, thorough=20000),
            core.Target("verbose", verbose_case, verbose, quick=400, thorough=8000)]


if __name__ == "__main__":
    sys.exit(core.run_check("P27", targets(), rule="a solution is reported (stub), three customers or more (real)", assumptions=[
        "problem files have different names; a file with a capacity has demands",
        "post-optimized solutions are compared by cost, customers of routes and feasibility"]))
