import logging, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, gen, optimized, oracle, solve

# quick cases
ALGOS = {"ps": 220, "ps2o": 220, "gpl": 200, "ss": 220, "gps": 120, "ims": 160, "si": 220, "mj": 120, "pi": 180, "sn": 220,
         "pn": 180, "swp": 220, "gm": 120, "rfcs": 180, "cmt": 220, "ty": 200, "wh": 120, "mbsa": 40, "lr3o": 60, "ptl": 40,
         "gap": 30}
SMALL = ("mbsa", "lr3o", "ptl")


class Sink(logging.Handler):
    """formats all messages, and does not tolerate that it fails"""
    count = 0

    def emit(self, record):
        self.format(record)
        Sink.count += 1


def case(abbr):
    n = dict(mid=4, hi=5) if abbr == "gap" else dict(mid=6, hi=8) if abbr in SMALL else \
        dict(mid=9, hi=11) if ALGOS[abbr] < 150 else dict(mid=9, hi=16, big=24)
    kw = dict(kinds=["generic"]) if abbr in ("ptl", "gap") else {}
    if abbr == "gap":
        kw["L_ok"] = False
    inst = gen.instance(lo=2 if abbr in ("ty", "wh", "gap") else 1, zero_demand=True, **dict(n, **kw))
    return st.fixed_dictionaries({"inst": inst, "single": st.booleans(), "minimize_K": st.booleans(),
                                  "how": st.sampled_from(["verbose", "verbose", "optimized"]), "level": st.integers(0, 9)})


def verbosely(ctx, level, f, *args):
    root, sink = logging.getLogger(), Sink()
    old, handlers = root.level, root.handlers[:]
    Sink.count = 0
    root.handlers[:] = [sink]
    root.setLevel(logging.DEBUG - level)
    try:
        return ctx.call(f, *args)
    finally:
        root.setLevel(old)
        root.handlers[:] = handlers


def runner(abbr):
    def run(c, ctx):
        inst = c["inst"]
        gen.classify(inst, ctx)
        mk = c["minimize_K"] and abbr not in solve.NO_MIN_K
        f = solve.algorithm(abbr)[3]
        a = list(ctx.call(f, *gen.solver_args(inst), c["single"], mk))
        ctx.label(c["how"])
        if c["how"] == "verbose":
            b = list(verbosely(ctx, c["level"], f, *gen.solver_args(inst), c["single"], mk))
            ctx.nontrivial(Sink.count > 0 and oracle.n_routes(a) > 1)
            how = "debug output at verbosity %d" % c["level"]
        else:
            status, b = optimized.solve(abbr, inst, c["single"], mk)
            ctx.require(status == "ok", "%s of %r fails with python -O: %s", abbr, inst, b)
            ctx.nontrivial(oracle.n_routes(a) > 1)
            how = "python -O"
        ctx.require(a == b, "%s (single=%s, minimize_K=%s) gives %r, and with %s %r", abbr, c["single"], mk, a, how, b)
    return run


def targets():
    solve.preload(sorted(ALGOS))
    return [core.Target(a, lambda a=a: case(a), runner(a), quick=q, thorough=q * 40, min_shards=2) for a, q in ALGOS.items()]


if __name__ == "__main__":
    sys.exit(core.run_check("P35", targets(), rule=(
        "several routes, and there was debug output if asked for"), assumptions=[
        "the assignment heuristic without a maximum cost"]))
