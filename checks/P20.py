import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core

el = st.integers(0, 7)
els = st.lists(el, max_size=5)
ops = st.one_of(
    st.tuples(st.just("add"), el), st.tuples(st.just("add"), el), st.tuples(st.just("remove"), el),
    st.tuples(st.just("difference_update"), els), st.tuples(st.just("difference_update"), els),
    st.tuples(st.just("index"), st.integers(-9, 9)), st.tuples(st.just("index"), st.integers(-3, 3)),
    st.tuples(st.just("slice"), st.integers(-9, 9)), st.tuples(st.just("iter"), st.just(0)),
    st.tuples(st.just("len"), st.just(0)), st.tuples(st.just("in"), el)).map(list)


def large_strategy():
    """histories of many operations on many elements"""
    el = st.integers(0, 60)
    els = st.lists(el, max_size=30)
    op = st.one_of(
        st.tuples(st.just("add"), el), st.tuples(st.just("add"), el), st.tuples(st.just("remove"), el),
        st.tuples(st.just("difference_update"), st.lists(el, max_size=6)),
        st.tuples(st.just("index"), st.integers(-40, 40)), st.tuples(st.just("index"), st.integers(-3, 3)),
        st.tuples(st.just("slice"), st.integers(-40, 40)), st.tuples(st.just("iter"), st.just(0)),
        st.tuples(st.just("len"), st.just(0)), st.tuples(st.just("in"), el)).map(list)
    return st.fixed_dictionaries({"init": st.one_of(st.none(), els, els), "kind": st.sampled_from(["list", "iter"]),
                                  "ops": st.lists(op, min_size=20, max_size=150)})


def case_strategy():
    return st.fixed_dictionaries({"init": st.one_of(st.none(), els, els), "kind": st.sampled_from(["list", "iter"]),
                                  "ops": st.lists(ops, max_size=30)})


def run(case, ctx):
    from verypy.util import OrderedDictSet
    init = case["init"]
    model = []
    for x in init or []:
        if x not in model:
            model.append(x)
    if init is None:
        s = ctx.call(OrderedDictSet)
    else:
        given = list(init) if case["kind"] == "list" else tuple(init)
        s = ctx.call(OrderedDictSet, given)
        ctx.require(list(given) == list(init), "the set changed the collection it was made of")
    hist = ["OrderedDictSet(%r)" % (init,)]
    changes = indexed = 0
    for op, arg in case["ops"]:
        hist.append("%s(%r)" % (op, arg))
        h = "; ".join(hist)
        if op == "add":
            ctx.call(s.add, arg)
            if arg not in model:
                model.append(arg)
            changes += 1
        elif op == "remove":
            # removing what is not in the set is an error
            try:
                ctx.call(s.remove, arg)
                ok = True
            except KeyError:
                ok = False
            ctx.require(ok == (arg in model), "%s: %s", h, "removed" if ok else "KeyError")
            if ok:
                model.remove(arg)
            changes += 1
        elif op == "difference_update":
            given = list(arg)
            ctx.call(s.difference_update, given)
            ctx.require(given == list(arg), "%s changed its argument", h)
            model = [x for x in model if x not in arg]
            changes += 1
        elif op == "index":
            indexed += 1
            try:
                got = ctx.call(s.__getitem__, arg)
            except IndexError:
                got = IndexError
            want = model[arg] if -len(model) <= arg < len(model) else IndexError
            ctx.require(got == want, "%s is %r, not %r", h, got, want)
        elif op == "slice":
            indexed += 1
            got = list(ctx.call(s.__getitem__, slice(None, arg)))
            ctx.require(got == model[:arg], "%s is %r, not %r", h, got, model[:arg])
        elif op == "iter":
            ctx.require(list(s) == model, "%s is %r, not %r", h, list(s), model)
        elif op == "len":
            ctx.require(len(s) == len(model), "%s is %d, not %d", h, len(s), len(model))
        elif op == "in":
            ctx.require((arg in s) == (arg in model), "%s is %r", h, arg in s)
    h = "; ".join(hist)
    ctx.require(list(s) == model and len(s) == len(model), "%s is %r, not %r", h, list(s), model)
    got = [s[i] for i in range(len(s))]
    ctx.require(got == model, "%s: by index it is %r, not %r", h, got, model)
    ctx.nontrivial(changes >= 2 and indexed >= 1)


def targets():
    import verypy.util
    return [core.Target("history", case_strategy, run, quick=10000, thorough=300000,
                        timeout_is_violation=True),
            core.Target("long_history", large_strategy, run, quick=300, thorough=10000,
                        timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P20", targets(), rule=(
        "a history with at least two changes and one access by index")))
