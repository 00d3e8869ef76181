import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from hypothesis import strategies as st
from vplib import core, ls, oracle
from vplib.nbhd import giant, split, n_3optstar


@st.composite
def strategy(draw, nmax=7, kmax=3):
    c = draw(ls.routes_case(kmin=1, kmax=kmax, nmin=2, nmax=nmax,
                            constraints=("", "C", "C", "L", "CL", "CL")))
    return {"case": c, "best": draw(st.booleans()),
            "bound": draw(st.one_of(ls.bounds(), st.just(0.0))), "aux": draw(st.booleans())}


def cumulative(sol, D, d):
    """demand and cost from the depot up to each position of a solution"""
    q, l = [0.0] * len(sol), [0.0] * len(sol)
    for i in range(1, len(sol)):
        if sol[i]:
            q[i] = q[i - 1] + (d[sol[i]] if d else 0.0)
            l[i] = l[i - 1] + D[sol[i - 1]][sol[i]]
    return q, l


def with_auxiliary_data(sol, D, d):
    from verypy.local_search.solution_operators import SolutionAuxiliaryData
    fq, fl = cumulative(sol, D, d)
    rq, rl = cumulative(sol[::-1], D, d)
    return SolutionAuxiliaryData(sol, fq, rq[::-1], fl, rl[::-1])


def check_solution(ctx, what, new, c):
    ctx.require(new[0] == 0 and new[-1] == 0, "%s returned %r", what, new)
    ctx.require(sorted(x for x in new if x) == sorted(sum(c["routes"], [])), "%s returned %r", what, new)


def same(a, b):
    return a[0] is None and b[0] is None or \
        a[0] is not None and b[0] is not None and list(a[0]) == list(b[0]) and abs(a[1] - b[1]) <= 1e-9 * (1 + abs(a[1]))


def move(case, ctx):
    from verypy.local_search import LSOPT
    from verypy.local_search.solution_operators import do_3optstar_move
    c = case["case"]
    sol = giant(c["routes"])
    D, d = ls.array(c), (list(c["d"]) if c["d"] else None)
    given = list(sol)
    res = ctx.call(do_3optstar_move, given, D, d, c["C"], c["L"],
                   LSOPT.BEST_ACCEPT if case["best"] else LSOPT.FIRST_ACCEPT, case["bound"])
    what = "do_3optstar_move(%r, d=%r, C=%r, L=%r, %s, %r)" % (
        sol, d, c["C"], c["L"], "best" if case["best"] else "first", case["bound"])
    ctx.require(given == sol and (D == ls.array(c)).all() and d == c["d"], "%s changed its input", what)
    if case.get("aux"):
        # the same is found if the cumulative demands and costs are given
        res2 = ctx.call(do_3optstar_move, with_auxiliary_data(list(sol), D, d), D, d, c["C"], c["L"],
                        LSOPT.BEST_ACCEPT if case["best"] else LSOPT.FIRST_ACCEPT, case["bound"])
        ctx.require(same(res, res2), "%s returned %r but %r if the auxiliary data are given", what, res, res2)
    new, delta = res
    ctx.require((new is None) == (delta is None), "%s returned %r", what, res)
    nb = ls.Neighborhood(c, c["routes"], case["bound"], ordered=False)
    n_3optstar(sol, nb)
    rs = None
    if new is not None:
        new = list(new)
        check_solution(ctx, what, new, c)
        rs = split(new)
    nb.judge(ctx, what, new is not None, rs, delta, case["best"])
    ctx.label("found" if new is not None else "not_found")
    if nb.infeasible:
        ctx.label("constraints_bind")
    ctx.nontrivial(bool(nb.infeasible) or (not (c["C"] or c["L"]) and len(c["routes"]) > 1))


def descent(case, ctx):
    """repeated moves end in a local optimum that keeps to the limits"""
    from verypy.local_search import LSOPT
    from verypy.local_search.solution_operators import do_3optstar_move
    c = case["case"]
    sol = giant(c["routes"])
    D, d = ls.array(c), c["d"]
    steps, f = 0, sum(oracle.route_len(r, D) for r in c["routes"])
    while True:
        new, delta = ctx.call(do_3optstar_move, sol, D, d, c["C"], c["L"],
                              LSOPT.BEST_ACCEPT if case["best"] else LSOPT.FIRST_ACCEPT)
        if new is None:
            break
        steps += 1
        check_solution(ctx, "do_3optstar_move(%r)" % sol, list(new), c)
        rs = split(new)
        f2 = sum(oracle.route_len(r, D) for r in rs)
        ctx.require(f2 < f, "do_3optstar_move(%r) does not improve", sol)
        for r in rs:
            ctx.require(ls.feasible(r, c) is not False, "do_3optstar_move(%r, d=%r, C=%r, L=%r) returned the "
                        "infeasible %r", sol, d, c["C"], c["L"], new)
        sol, f = list(new), f2
    c2 = dict(c, routes=split(sol))
    if len(sol) <= 8:
        nb = ls.Neighborhood(c2, c2["routes"], None, ordered=False)
        n_3optstar(sol, nb)
        ctx.require(nb.best_sure is None, "do_3optstar_move stops at %r, which can be improved by %r", sol,
                    nb.best_sure)
    ctx.nontrivial(steps >= 2)


def targets():
    import verypy.local_search.solution_operators
    return [core.Target("move", strategy, move, quick=3500, thorough=100000, timeout_is_violation=True),
            core.Target("long_move", lambda: st.fixed_dictionaries({
                "case": ls.planted_case(2, 4, 7, ("", "C", "CL"), ["rev", "reloc", "exch", "move", "cross"]),
                "best": st.booleans(), "bound": st.none()}), move, quick=100, thorough=4000, timeout_is_violation=True),
            core.Target("descent", lambda: strategy(8, 4), descent, quick=2000, thorough=40000,
                        timeout_is_violation=True)]


if __name__ == "__main__":
    sys.exit(core.run_check("P13", targets(), rule=(
        "move: a limit rules out at least one otherwise improving move (without limits: more than one "
        "route); descent: at least two improving moves"),
        assumptions=["symmetric distances, also such that do not satisfy the triangle inequality",
                     "moves that change the cost by less than 1e-8 relative to the bound, or meet a limit "
                     "within 1e-8, may be made or not"]))
