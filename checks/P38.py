"""P38: pictures of solutions (DOT files) and the graphical interface."""
import contextlib, glob, io, math, os, re, shutil, subprocess, sys, types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, oracle

HALF, PAD = 5.0, 0.2


# ---- reading DOT ---------------------------------------------------------------------------------

ATTR = re.compile(r'(\w+)=("[^"]*"|<.*?>+|[^\s\]"]+)')


class Dot(object):
    """nodes (name -> attributes) and edges (a, b, attributes) in order of a file of statements"""

    def __init__(self, text):
        lines = [l.strip() for l in text.split("\n") if l.strip()]
        self.problem = None
        self.nodes, self.edges, self.title = {}, [], None
        if not lines or not re.match(r"graph\s+\w*\s*\{$", lines[0]) or lines[-1] != "}":
            self.problem = "not a graph"
            return
        for l in re.findall(r'(?:<<.*?>>|"[^"]*"|[^;"])+', "\n".join(lines[1:-1])):
            l = l.strip()
            if not l:
                continue
            m = re.match(r'label="([^"]*)"\s*\n?', l)
            if m:
                self.title = m.group(1)
                l = l[m.end():].strip()
                if not l:
                    continue
            m = re.match(r"^(\w+)--(\w+)\s*(?:\[(.*)\])?$", l, re.S)
            if m:
                self.edges.append((m.group(1), m.group(2), self.attrs(m.group(3) or "")))
                continue
            m = re.match(r"^(\w+)\s*\[(.*)\]$", l, re.S)
            if not m:
                self.problem = "the statement %r" % l
                return
            if m.group(1) == "node":
                continue
            if m.group(1) in self.nodes:
                self.problem = "the node %s twice" % m.group(1)
            self.nodes[m.group(1)] = self.attrs(m.group(2))
        for a, b, _ in self.edges:
            if a not in self.nodes or b not in self.nodes:
                self.problem = "the edge %s--%s of an undrawn node" % (a, b)

    @staticmethod
    def attrs(s):
        return {k: v.strip('"') for k, v in ATTR.findall(s)}

    def pos(self, name):
        m = re.match(r"^(-?[\d.]+),(-?[\d.]+)!$", self.nodes[name].get("pos", ""))
        return (float(m.group(1)), float(m.group(2))) if m else None

    def numbered(self):
        """name -> number of the nodes that show one"""
        return {k: int(v["label"]) for k, v in self.nodes.items() if v.get("label", "").isdigit()}


def legs(routes):
    out = {}
    for r in routes:
        for a, b in zip(r, r[1:]):
            k = (min(a, b), max(a, b))
            out[k] = out.get(k, 0) + 1
    return out


def drawn_legs(edges, num):
    out = {}
    for a, b, _ in edges:
        if a in num and b in num:
            k = (min(num[a], num[b]), max(num[a], num[b]))
            out[k] = out.get(k, 0) + 1
    return out


# ---- output_dot and the normalization ------------------------------------------------------------

@st.composite
def picture(draw):
    n = draw(st.one_of(st.integers(1, 12), st.sampled_from([9, 10, 11, 99, 100, 101])))
    co = st.one_of(st.integers(-100, 100), st.integers(-10 ** 6, 10 ** 6).map(lambda x: x / 64.0))
    pts = [[draw(co), draw(co)] for _ in range(min(n + 1, 14))]
    while len(pts) < n + 1:
        k = len(pts)
        pts.append([(k * 37) % 101 - 50, (k * 61) % 97])
    kinds = draw(st.sampled_from(["any", "any", "line", "vline"]))
    if kinds == "line":
        pts = [[x, pts[0][1]] for x, _ in pts]
    elif kinds == "vline":
        pts = [[pts[0][0], y] for _, y in pts]
    order = draw(st.permutations(list(range(1, min(n, 12) + 1))))
    sets = {"black": [], "gray": [], "red": []}
    r = [0]
    for c in order:
        r.append(c)
        if draw(st.integers(0, 2)) == 0:
            sets[draw(st.sampled_from(["black", "black", "gray", "red"]))].append(r + [0])
            r = [0]
    if len(r) > 1:
        sets["black"].append(r + [0])
    rays = draw(st.one_of(st.none(), st.lists(st.one_of(st.floats(-math.pi, 3 * math.pi), st.integers(0, 8).map(
        lambda i: i * math.pi / 4)), max_size=4)))
    return {"pts": pts, "routes": sets, "rays": rays,
            "active_rays": draw(st.lists(st.integers(0, 3), max_size=2)),
            "active": draw(st.one_of(st.none(), st.lists(st.integers(1, n), max_size=3))),
            "poi": draw(st.one_of(st.none(), st.lists(st.tuples(st.floats(-5, 5), st.floats(-5, 5)), max_size=2))),
            "title": draw(st.sampled_from([None, "START", "K=2, a b"])), "D": draw(st.booleans()),
            "range": draw(st.sampled_from([[-5.0, 5.0], [0, 1], [-1, 3]])), "aspect": draw(st.integers(0, 3)) > 0}


def dot(c, ctx):
    import numpy as np
    from verypy.visualizers import export_dot, shared_visualize as sv
    pts = [tuple(p) for p in c["pts"]]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    w, h = max(xs) - min(xs), max(ys) - min(ys)
    if max(w, h) == 0 or (not c["aspect"] and min(w, h) == 0):
        ctx.skip("no extent")
    lo, hi = c["range"]
    params = ctx.call(sv.get_normalization_params, pts, tuple(c["range"]), keep_aspect_ratio=c["aspect"])
    got = list(ctx.call(sv.normalize_to_rect, pts, params))
    what = "%r scaled to %r (keep_aspect_ratio=%r) are %r" % (pts, c["range"], c["aspect"], got)
    ctx.require(len(got) == len(pts), "%s: not as many", what)
    sx, sy = (hi - lo) / float(max(w, h) if c["aspect"] else w), (hi - lo) / float(max(w, h) if c["aspect"] else h)
    for p, q in zip(pts, got):
        want = ((p[0] - min(xs)) * sx + lo, (p[1] - min(ys)) * sy + lo)
        ctx.require(abs(want[0] - q[0]) < 1e-6 and abs(want[1] - q[1]) < 1e-6, "%s: %r goes to %r, not %r",
                    what, p, q, want)
    # the picture, of the frame the visualizers use
    params = ctx.call(sv.get_normalization_params, pts, (-HALF, HALF), keep_aspect_ratio=True)
    npts = list(ctx.call(sv.normalize_to_rect, pts, params))
    D = np.array(oracle.dist_matrix(pts, "EXACT")) if c["D"] else None
    out = io.StringIO()
    kw = dict(active_point_idxs=c["active"], rays=c["rays"], active_ray_idxs=c["active_rays"],
              points_of_interest=c["poi"], gray_routes=c["routes"]["gray"], red_routes=c["routes"]["red"],
              black_routes=c["routes"]["black"], title=c["title"], D=D)
    ctx.call(export_dot.output_dot, out, npts, **kw)
    g = Dot(out.getvalue())
    what = "%r drawn with %r as\n%s\n" % (npts, {k: v for k, v in kw.items() if k != "D"}, out.getvalue())
    ctx.require(g.problem is None, "%shas %s", what, g.problem)
    ctx.require(g.title == c["title"], "%shas the title %r", what, g.title)
    num = g.numbered()
    ctx.require(sorted(num.values()) == list(range(len(pts))), "%sshows the nodes %r", what, sorted(num.values()))
    for k, i in num.items():
        p = g.pos(k)
        ctx.require(p and abs(p[0] - npts[i][0]) < 1e-5 and abs(p[1] - npts[i][1]) < 1e-5,
                    "%sshows node %d at %r", what, i, p)
        marked = g.nodes[k].get("shape") == "doublecircle"
        ctx.require(marked == (i in (c["active"] or ())), "%sshows node %d as active: %r", what, i, marked)
    for color, name in ((None, "black"), ("gray", "gray"), ("red", "red")):
        es = [e for e in g.edges if e[0] in num and e[1] in num and e[2].get("color") == color]
        ctx.require(drawn_legs(es, num) == legs(c["routes"][name]), "%shas other %s legs", what, name)
        for a, b, at in es:
            want = None if D is None else "%.1f" % D[num[a], num[b]]
            ctx.require(at.get("label") == want, "%slabels the leg %d--%d by %r, not %r", what, num[a], num[b],
                        at.get("label"), want)
    # rays go from the depot to the frame in their direction
    depot = [k for k, i in num.items() if i == 0][0]
    ends = [(b if a == depot else a, at) for a, b, at in g.edges if not (a in num and b in num)]
    ctx.require(len(ends) == len(c["rays"] or ()), "%shas %d rays", what, len(ends))
    nx, ny = [p[0] for p in npts], [p[1] for p in npts]
    box = (min(nx) - PAD, max(nx) + PAD, min(ny) - PAD, max(ny) + PAD)
    left = []
    for e, at in ends:
        p = g.pos(e)
        inside = box[0] - 1e-5 <= p[0] <= box[1] + 1e-5 and box[2] - 1e-5 <= p[1] <= box[3] + 1e-5
        edge = min(abs(p[0] - box[0]), abs(p[0] - box[1]), abs(p[1] - box[2]), abs(p[1] - box[3])) < 1e-5
        ctx.require(inside and edge, "%sends a ray at %r, not on the frame %r", what, p, box)
        left.append((math.atan2(p[1] - npts[0][1], p[0] - npts[0][0]), at.get("style")))
    for i, al in enumerate(c["rays"] or ()):
        style = "dashed" if i in c["active_rays"] else "dotted"
        hit = [x for x in left if abs(math.remainder(x[0] - al, 2 * math.pi)) < 1e-4 and x[1] == style]
        ctx.require(hit, "%shas no %s ray at the angle %r (has %r)", what, style, al, left)
        left.remove(hit[0])
    pois = sorted(g.pos(k) for k in g.nodes if k not in num and "label" in g.nodes[k] and g.nodes[k]["label"] != "")
    ctx.require(len(pois) == len(c["poi"] or ()) and all(
        abs(a[0] - b[0]) < 1e-5 and abs(a[1] - b[1]) < 1e-5
        for a, b in zip(pois, sorted((round(x, 6), round(y, 6)) for x, y in (c["poi"] or ())))),
        "%shas the points of interest %r", what, pois)
    ctx.label(*(["rays"] if c["rays"] else []) + ["%d routes" % min(9, sum(map(len, c["routes"].values())))])
    ctx.nontrivial(sum(map(len, c["routes"].values())) > 1)


# ---- problem files -------------------------------------------------------------------------------

@st.composite
def problem(draw, lo, hi):
    n = draw(st.integers(lo, hi))
    co = st.integers(-40, 60)
    pts = [[draw(co), draw(co)] for _ in range(n + 1)]
    d = [0] + [draw(st.integers(1, 9)) for _ in range(n)]
    C = max(max(d), draw(st.integers(5, 9 * n)))
    return {"pts": pts, "d": d, "C": C}


def write(m, path):
    with open(path, "w") as f:
        f.write("NAME : t\nCOMMENT : t\nTYPE : CVRP\nDIMENSION : %d\nEDGE_WEIGHT_TYPE : EUC_2D\nCAPACITY : %d\n" %
                (len(m["d"]), m["C"]))
        f.write("NODE_COORD_SECTION\n" + "".join("%d %d %d\n" % (i + 1, x, y) for i, (x, y) in enumerate(m["pts"])))
        f.write("DEMAND_SECTION\n" + "".join("%d %d\n" % (i + 1, q) for i, q in enumerate(m["d"])))
        f.write("DEPOT_SECTION\n 1\n -1\nEOF\n")


# ---- the pictures of the command line visualizers ------------------------------------------------

TOOLS = {"savings": "parallel_savings", "sweep": "sweep", "cheapest_insertion": "cheapest_insertion",
         "cmt": "cmt_2phase", "gillet_miller_sweep": "gillet_miller_sweep", "gapvrp": "gapvrp", "lr3opt": "lr3opt"}


@st.composite
def movie(draw):
    tool = draw(st.sampled_from(["savings", "sweep", "cheapest_insertion", "cmt", "gillet_miller_sweep", "savings",
                                 "sweep", "cheapest_insertion", "cmt", "gillet_miller_sweep", "gapvrp", "lr3opt"]))
    return {"tool": tool, "m": draw(problem(2, 5 if tool in ("gapvrp", "lr3opt") else 8))}


def frames(c, ctx):
    m = c["m"]
    if len(set(map(tuple, m["pts"]))) == 1:
        ctx.skip("no extent")
    home = os.path.join(ctx.tmp, "movie")
    os.makedirs(os.path.join(home, "bin"))
    try:
        for name in ("neato", "gifsicle"):
            with open(os.path.join(home, "bin", name), "w") as f:
                f.write("#!/bin/sh\nexit 0\n")
            os.chmod(os.path.join(home, "bin", name), 0o755)
        os.symlink(sys.executable, os.path.join(home, "bin", "python"))
        with open(os.path.join(home, "bin", "python.sh"), "w") as f:
            f.write("#!/bin/sh\nexec %s -W ignore \"$@\"\n" % sys.executable)
        os.chmod(os.path.join(home, "bin", "python.sh"), 0o755)
        os.replace(os.path.join(home, "bin", "python.sh"), os.path.join(home, "bin", "python"))
        write(m, os.path.join(home, "t.vrp"))
        env = dict(os.environ, PATH=os.path.join(home, "bin") + ":/usr/bin:/bin", PYTHONPATH=boot.REPO)
        p = subprocess.run([sys.executable, "-W", "ignore",
                            os.path.join(boot.REPO, "verypy", "visualizers", "visualize_%s.py" % c["tool"]), "-k",
                            "t.vrp"], cwd=home, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=240)
        what = "the pictures of %s of %r" % (c["tool"], m)
        ctx.require(p.returncode == 0, "%s: failed with\n%s", what, p.stderr[-1500:])
        sols = [l.split(":", 1)[1].strip() for l in p.stdout.split("\n") if l.startswith("SOLUTION:")]
        files = sorted(glob.glob(os.path.join(home, "output", "**", "*.dot"), recursive=True))
        pics = [(os.path.basename(f), Dot(open(f, encoding="utf-8").read())) for f in files]
    finally:
        shutil.rmtree(home, ignore_errors=True)
    ctx.require(pics, "%s: there are none; the output is\n%s\n%s", what, p.stdout[-1000:], p.stderr[-500:])
    n = len(m["pts"])
    place = None
    for name, g in pics:
        ctx.require(g.problem is None, "%s: %s has %s", what, name, g.problem)
        num = g.numbered()
        ctx.require(sorted(num.values()) == list(range(n)), "%s: %s shows the nodes %r", what, name,
                    sorted(num.values()))
        at = {i: g.pos(k) for k, i in num.items()}
        ctx.require(place in (None, at), "%s: nodes move from %r to %r", what, place, at)
        place = at
    far = max(((math.dist(m["pts"][i], m["pts"][j]), i, j) for i in range(n) for j in range(i)))
    scale = math.dist(place[far[1]], place[far[2]]) / far[0]
    for i in range(n):
        for k in (0, 1):
            ctx.require(abs((place[i][k] - place[0][k]) - scale * (m["pts"][i][k] - m["pts"][0][k])) < 1e-4 and
                        abs(place[i][k]) <= HALF + 1e-4, "%s: the nodes are shown at %r", what, place)
    first = [g for nm, g in pics if g.title == "START"]
    ctx.require(first and all(not g.edges for g in first), "%s: start with %r", what, [g.edges for g in first])
    last = [g for nm, g in pics if g.title == "STOP"]
    ctx.require(last and len(sols) == 1, "%s: have %d final ones of the solutions %r", what, len(last), sols)
    sol = [int(x) for x in re.findall(r"\d+", sols[0])]
    why = oracle.solution_defect(sol, oracle.as_array(oracle.dist_matrix([tuple(q) for q in m["pts"]], "ROUND")),
                                 m["d"], m["C"], None)
    ctx.require(why is None, "%s: the solution %r: %s", what, sol, why)
    for g in last:
        num = g.numbered()
        es = [e for e in g.edges if e[0] in num and e[1] in num]
        ctx.require(drawn_legs(es, num) == legs([[0] + list(r) + [0] for r in _routes(sol)]),
                    "%s: the last one shows %r, not the solution %r", what, drawn_legs(es, num), sol)
    ctx.label(c["tool"])
    ctx.nontrivial(n > 2)


def _routes(sol):
    out, r = [], []
    for x in sol:
        if x:
            r.append(x)
        else:
            if r:
                out.append(r)
            r = []
    return out


# ---- the graphical interface, with a stand-in for Tk ---------------------------------------------

class Widget(object):
    made = []

    def __init__(self, *a, **kw):
        self.args, self.kw, self.text = a, dict(kw), ""
        Widget.made.append(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None

    def insert(self, at, text):
        self.text = text

    def delete(self, *a):
        self.text = ""

    def config(self, **kw):
        self.kw.update(kw)
    configure = config

    def get(self):
        return self.text


class Var(Widget):
    def __init__(self, master=None, value="", name=None):
        Widget.__init__(self)
        self.text = value

    def set(self, v):
        self.text = v


def fake_tk(files, log):
    tk = types.ModuleType("tkinter")
    for w in ("Tk", "Frame", "Entry", "Button", "Label", "OptionMenu", "Canvas", "Menu", "Text", "Toplevel"):
        setattr(tk, w, type(w, (Widget,), {}))
    tk.StringVar = tk.Variable = Var
    tk.END = "end"
    fd, mb = types.ModuleType("tkinter.filedialog"), types.ModuleType("tkinter.messagebox")
    fd.askopenfilename = lambda **kw: files.get("open", "")
    fd.asksaveasfilename = lambda **kw: files.get("save", "")
    mb.showerror = lambda title=None, message=None, **kw: log.append(("error", message))
    mb.showinfo = lambda title=None, message=None, **kw: log.append(("info", message))
    tk.filedialog, tk.messagebox = fd, mb
    return {"tkinter": tk, "tkinter.filedialog": fd, "tkinter.messagebox": mb}


QUICK = ["ps", "ss", "swp", "cmt", "si", "pi", "sn", "pn", "rfcs", "gps", "mj", "gm", "ims", "ps2o", "gpl"]


@st.composite
def session(draw):
    acts = draw(st.lists(st.sampled_from(["solve", "solve", "export", "export", "cancel", "info", "bad"]),
                         min_size=1, max_size=6))
    if draw(st.integers(0, 4)):
        acts.insert(0, "solve")
    if draw(st.integers(0, 2)):
        acts.append("export")
    return {"problems": [draw(problem(1, 8)) for _ in range(2)],
            "acts": [[a, draw(st.integers(0, 1)), draw(st.integers(0, 99)), draw(st.sampled_from([".opt", ".sol",
                      ".OPT"]))] for a in acts]}


def gui(c, ctx):
    import verypy, importlib
    files, log = {}, []
    fakes = fake_tk(files, log)
    names = list(fakes) + ["verypy.VeRyPyGui"]
    before = {k: sys.modules.get(k) for k in names}
    sys.modules.update(fakes)
    sys.modules.pop("verypy.VeRyPyGui", None)
    Widget.made = []
    paths = []
    try:
        mod = ctx.call(importlib.import_module, "verypy.VeRyPyGui")
        app = ctx.call(mod.VeRyPyGuiApp)
        for i, m in enumerate(c["problems"]):
            paths.append(os.path.join(ctx.tmp, "g%d.vrp" % i))
            write(m, paths[-1])
        bad = os.path.join(ctx.tmp, "bad.vrp")
        with open(bad, "w") as f:
            f.write("NAME : x\nEDGE_WEIGHT_TYPE : NONSENSE\n")
        paths.append(bad)
        made = list(Widget.made)
        entry = [w for w in made if type(w).__name__ == "Entry"][0]
        button = {str(w.kw.get("text")): w.kw["command"] for w in made if "command" in w.kw}
        menu = [w for w in made if type(w).__name__ == "OptionMenu"][0]
        choice = menu.args[1]
        opts = list(menu.args[2:])
        fast = []
        for a, name, desc, f in verypy.get_algorithms(QUICK):
            fast += [o for o in opts if o.startswith(name + ":")]
        ctx.require(len(opts) == len(verypy.get_algorithms()) and len(fast) == len(QUICK),
                    "the menu of the GUI has %r", opts)
        shown = [w.kw["textvariable"] for w in made if "textvariable" in w.kw]
        best = None
        trail = []
        for act, pi, ai, ext in c["acts"]:
            del log[:]
            trail.append((act, pi, ai, ext))
            what = "%r in the GUI" % (trail,)
            if act in ("solve", "bad"):
                files["open"] = bad if act == "bad" else paths[pi]
                ctx.call(button["..."])
                ctx.require(entry.get() == files["open"], "%s: %r was selected", what, entry.get())
                choice.set(fast[ai % len(fast)])
                what += " with %s" % choice.get()
                texts = [v.get() for v in shown]
                with contextlib.redirect_stdout(io.StringIO()):
                    ctx.call(button["solve"])
                if act == "bad":
                    ctx.require([k for k, _ in log] == ["error"], "%s: no error was shown (%r)", what, log)
                    ctx.require(texts == [v.get() for v in shown], "%s: shows %r", what, [v.get() for v in shown])
                    continue
                ctx.require(not log, "%s: solving %r showed %r", what, c["problems"][pi], log)
                mo = [re.search(r"value (-?[\d.]+) \(K=(\d+)\)", v.get()) for v in shown]
                mo = [x for x in mo if x]
                ctx.require(len(mo) == 1, "%s: shows %r", what, [v.get() for v in shown])
                best = (c["problems"][pi], float(mo[0].group(1)), int(mo[0].group(2)))
            elif act == "info":
                choice.set(fast[ai % len(fast)])
                ctx.call([v for k, v in button.items() if k not in ("...", "solve", "export")][0])
                ctx.require(len(log) == 1 and log[0][0] == "info" and log[0][1], "%s: showed %r", what, log)
            else:
                out = os.path.join(ctx.tmp, "out" + ext)
                files["save"] = "" if act == "cancel" else out
                try:
                    ctx.call(button["export"])
                    text = None
                    if os.path.exists(out):
                        with open(out) as f:
                            text = f.read()
                finally:
                    if os.path.exists(out):
                        os.remove(out)
                if best is None:
                    ctx.require([k for k, _ in log] == ["error"] and not text, "%s: without a solution, showed %r and "
                                "wrote %r", what, log, text)
                    continue
                if act == "cancel":
                    ctx.require(text is None, "%s: wrote %r", what, text)
                    continue
                ctx.require(text is not None and not log, "%s: wrote %r and showed %r", what, text, log)
                exported(ctx, what, text, best, ext)
        ctx.label(*sorted(set(a for a, _, _, _ in c["acts"])))
        ctx.nontrivial(best is not None and any(a == "export" for a, _, _, _ in c["acts"]))
    finally:
        for k, v in before.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        for p in paths:
            if os.path.exists(p):
                os.remove(p)


def exported(ctx, what, text, best, ext):
    m, value, K = best
    if ext == ".sol":
        nums = [int(x) for x in re.findall(r"-?\d+", text)]
        ctx.require(nums and nums[0] == len(m["d"]) and nums[-1] == 0, "%s: wrote %r", what, text)
        routes = []
        for x in nums[1:-1]:
            if x < 0:
                routes.append([])
            ctx.require(x and routes, "%s: wrote %r", what, text)
            routes[-1].append(abs(x))
        cost = None
    else:
        routes, cost = [], None
        for l in text.split("\n"):
            head, _, tail = l.partition(":")
            if head.startswith("Route"):
                routes.append([int(x) for x in tail.split()])
            elif head.strip() == "Cost":
                cost = float(tail)
        ctx.require(cost is not None and abs(cost - value) < 0.06, "%s: shows the cost %r but writes %r", what, value,
                    text)
    D = oracle.as_array(oracle.dist_matrix([tuple(q) for q in m["pts"]], "ROUND"))
    sol = [0] + [x for r in routes for x in r + [0]]
    why = oracle.solution_defect(sol, D, m["d"], m["C"], None)
    ctx.require(why is None, "%s: wrote %r for %r: %s", what, text, m, why)
    true = sum(oracle.route_len([0] + r + [0], D) for r in routes)
    # distances half way between two integers may be rounded either way
    ctx.require(len(routes) == K and abs(true - value) <= 0.06 + _ties(m["pts"]), "%s: shows the cost %r and %d routes "
                "of %r, which costs %r", what, value, K, routes, true)


def _ties(pts):
    k = 0
    for i, a in enumerate(pts):
        for b in pts[:i]:
            x = math.dist(a, b) + 0.5
            k += abs(x - round(x)) < 1e-9
    return k


def targets():
    import verypy.shared_cli, verypy.visualizers.shared_visualize
    return [core.Target("dot", picture, dot, quick=2000, thorough=60000),
            core.Target("frames", movie, frames, quick=40, thorough=2400, cpu_limit=300.0),
            core.Target("gui", session, gui, quick=300, thorough=12000, cpu_limit=120.0)]


if __name__ == "__main__":
    sys.exit(core.run_check("P38", targets(), rule="more than one route is drawn, more than one customer, or a solution "
                            "is exported", assumptions=[
        "points are not all in one place (along an axis, if the aspect ratio is not kept)",
        "neato, gifsicle and Tk are stand-ins"]))
