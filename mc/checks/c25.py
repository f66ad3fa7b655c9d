"""C25 — subset values are exact and incremental models equal fresh ones."""
import itertools

import numpy as np

import instances as I
from core import Violation
from harness import call, close, instance, oracle_of, repo

CONTRACT = 1e-4
CASE_SECONDS = 120
WHAT = ("real Evaluator on every scenario, every ordered subset and every "
        "partition; real DeterModel driven through every sequence of add and "
        "remove operations; oracle by brute force over the listed scenarios")
BOUNDS = dict(quick="N<=5 subsets in every order (N<=4) or sorted; all "
              "partitions N<=5; one evaluator with all 1023 subsets of ten "
              "scenarios; up to 14 scenarios added and removed at once; "
              "up to 150 scenarios and subsets, also with rows in common, "
              "all of them removed at once; add/remove sequences of depth 4 with single "
              "scenarios and lists, N=3",
              thorough="depth 6, N<=4; all partitions N<=6; 4095 subsets of "
              "twelve scenarios; more instances")
ASSUMPTIONS = ["Gurobi answers correctly on b>0 packing models"]


def specs(q):
    fams = [itertools.islice(I.fam_n1((3, 4)), 0, None, 11 if q else 2),
            itertools.islice(I.fam_n2((3, 4)), 0, None, 71 if q else 9),
            itertools.islice(I.fam_n2m2((3,)), 0, None, 8 if q else 1),
            itertools.islice(I.fam_rot(5, 3), 0, None, 101 if q else 13),
            I.catalogue([(5, 2, 3), (5, 3, 3)] + (
                [] if q else [(6, 2, 3), (6, 1, 4)]), 4)]
    for f in fams:
        yield from I.with_k(f, ks=(1,))


def cases(tier, seed):
    q = tier == "quick"
    for cont in (0, 1):
        yield dict(kind="all", N=12 if cont and not q else 10, cont=cont)
        for N in (9, 14) if q else (7, 9, 12, 14, 20):
            for a in range(1, N + 1):
                yield dict(kind="lists", N=N, a=a, cont=cont)
        for N in (33, 150, 270) if q else (33, 64, 100, 120, 150, 257, 270, 530):
            yield dict(kind="many", N=N, cont=cont)
        for N in (8, 13, 40):
            for m, row in ((2, 0), (2, 1), (3, 1), (3, 2)):
                yield dict(kind="many", N=N, cont=cont, m=m, row=row)
    for i, sp in enumerate(specs(q)):
        yield dict(kind="eval", sp=sp)
        N = len(sp["A"])
        if N <= (3 if q else 4) or (i % 5 == 0 and N <= 4):
            # split over the first operation to balance the load
            for f in range(len(ops(N))):
                yield dict(kind="seq", sp=sp, first=f,
                           depth=(4 if N == 3 else 3) if q else
                           (5 if N == 3 else 4))


def identity(N, cont, costs=None):
    """Every subset has its own value: scenario s costs 2**s."""
    return I.spec(costs or [float(2 ** s) for s in range(N)],
                  [[[2.0 if i == s else 0.0 for i in range(N)]]
                   for s in range(N)], (1.0,), 1, cont)


def all_subsets(case, ctx):
    """One evaluator asked for every subset, twice in different orders."""
    from src.Evaluator import Evaluator
    N, cont = case["N"], case["cont"]
    sp = identity(N, cont)
    ev = call(Evaluator, "Evaluator", instance(sp, ctx))
    subsets = [S for r in range(1, N + 1)
               for S in itertools.combinations(range(N), r)]
    for S in subsets + subsets[::-7]:
        want = sum(2.0 ** s * ((0.5 if cont else 0.0) if s in S else 1.0)
                   for s in range(N))
        v, x = call(ev.subset_cost, "subset_cost", list(S))
        x = [float(t) for t in np.asarray(x)]
        good = [(0.5 if cont else 0.0) if s in S else 1.0 for s in range(N)]
        if abs(float(v) - want) > 0.2 or not np.allclose(x, good, atol=1e-3):
            raise Violation("the value or solution of a subset depends on "
                            "the subsets evaluated before", spec=sp,
                            subset=list(S), value=float(v), expected=want,
                            x=x)
        ctx.step()
        ctx.state("all", N, cont, S)
    ctx.trace()
    ctx.outcome("all subsets N%d" % N)


def lists(case, ctx):
    """One model: a scenarios at once are added, then r of them removed, then
    the others removed and the first ones added again."""
    from src.optim.DeterModel import DeterModel
    N, a, cont = case["N"], case["a"], case["cont"]
    costs = [float(s + 1) for s in range(N)]
    sp = identity(N, cont, costs)
    ci = instance(sp, ctx)
    for r in range(1, a + 1):
        for rev in (0, 1):
            new = list(range(N - 1, -1, -1) if rev else range(N))[:a]
            out, left = new[-r:], new[:-r]
            steps = [("build", new), ("remove", out), ("add", out),
                     ("remove", new[:r]), ("add", new[:r][::-1])]
            m, cur = DeterModel(ci), set()
            for i, (op, S) in enumerate(steps):
                arg = list(S)
                call(getattr(m, op), op, arg)
                cur = cur - set(S) if op == "remove" else cur | set(S)
                call(m.solve, "solve")
                want = sum(costs[s] * ((0.5 if cont else 0.0) if s in cur
                                       else 1.0) for s in range(N))
                v = float(call(m.get_obj_val, "get_obj_val"))
                if abs(v - want) > 0.2:
                    raise Violation("the value of a model is not that of its "
                                    "scenarios", spec=sp, value=v,
                                    expected=want, operations=steps[:i + 1],
                                    scenarios=sorted(cur))
                ctx.step()
            ctx.state("lists", N, cont, a, r, rev)
            ctx.trace()
    ctx.outcome("lists N%d" % N)


def many(case, ctx):
    """Many scenarios, each limiting an item of its own."""
    from src.Evaluator import Evaluator
    N, cont = case["N"], case["cont"]
    m, row = case.get("m", 1), case.get("row", 0)
    # scenarios differ in one row only
    sp = I.spec([float(s + 1) for s in range(N)],
                [[[2.0 if i == s and j == row else 0.0 for i in range(N)]
                  for j in range(m)] for s in range(N)], (1.0,) * m, 1, cont)
    ev = call(Evaluator, "Evaluator", instance(sp, ctx))
    total, loss = N * (N + 1) / 2, 0.5 if cont else 1.0

    def judge(S, v, x, what):
        want = total - loss * sum(s + 1 for s in S)
        if abs(float(v) - want) > 1e-6 + 1e-4 * want:
            raise Violation("the value is not the optimum over the listed "
                            "scenarios", what=what, N=N, binary=not cont,
                            scenarios=list(S), value=float(v), expected=want)
        if x is not None:
            x = np.asarray(x, float)
            if abs(float(x @ np.arange(1, N + 1)) - float(v)) > 1e-4 or any(
                    x[s] > 1 - loss + 1e-5 for s in S):
                raise Violation("the solution does not attain the value for "
                                "the listed scenarios", what=what, N=N,
                                scenarios=list(S), value=float(v))
        ctx.step()
    for sc in (range(N), range(N - 1, -1, -1), range(1, N, 3)):
        got = call(ev.scenario_costs, "scenario_costs", list(sc))
        if len(got) != len(sc):
            raise Violation("not one value per scenario", N=N)
        for s, v in zip(sc, got):
            judge([s], v, None, "scenario")
    got = call(ev.get_all_single_scenario_costs,
               "get_all_single_scenario_costs")
    if len(got) != N:
        raise Violation("not one value per scenario", N=N)
    for s, v in enumerate(got):
        judge([s], v, None, "scenario")
    from src.optim.DeterModel import DeterModel
    for r in sorted({1, N // 3, N // 2 + 1, N - 3, N}):
        if r > 2 and m > 1:
            continue
        model = call(DeterModel, "DeterModel", instance(sp, ctx))
        cur = set()
        for op, S in (("build", range(N)), ("remove", range(N - r, N)),
                      ("add", range(N - 1, N - r - 1, -1)),
                      ("remove", range(r)), ("add", range(0, r, 2))):
            call(getattr(model, op), op, list(S))
            cur = cur - set(S) if op == "remove" else cur | set(S)
            call(model.solve, "solve")
            judge(sorted(cur), call(model.get_obj_val, "get_obj_val"), None,
                  "%s %d" % (op, len(S)))
        ctx.state("many model", N, cont, r)
    for d in sorted({1, 2, 7, N // 2, N}):
        P = [list(range(i, N, d)) for i in range(d)]
        for Q in (P, [p[::-1] for p in P[::-1]]):
            costs, sols = call(ev.partition_cost, "partition_cost",
                               [list(p) for p in Q])
            if len(costs) != d or len(sols) != d:
                raise Violation("not one value per subset", N=N, subsets=d)
            for p, v, x in zip(Q, costs, sols):
                judge(p, v, x, "partition")
            ctx.state("many", N, cont, d, Q[0][0])
    ctx.trace()
    ctx.outcome("many N%d" % N)


def check_sol(orc, S, cost, x, sp, what):
    true = orc.subset(S)
    info = dict(spec=sp, scenarios=list(S), value=cost, optimum=true,
                x=np.asarray(x).tolist(), what=what)
    if not close(float(cost), true, 2e-4 if not sp["cont"] else 1e-6):
        raise Violation("the value is not the optimum over the listed "
                        "scenarios", **info)
    x = np.asarray(x, float)
    if x.shape != (orc.n,) or (x < -1e-6).any() or (x > 1 + 1e-6).any() or \
            orc.violations_of(x, 1e-5)[list(S)].any():
        raise Violation("the solution is not feasible for the listed "
                        "scenarios", **info)
    if not sp["cont"] and (np.abs(x - np.round(x)) > 1e-5).any():
        raise Violation("the solution is not binary", **info)
    if not close(float(orc.c @ x), float(cost), 1e-5):
        raise Violation("the solution does not attain the value", **info)


def run_case(case, ctx):
    if case["kind"] == "seq":
        return sequences(case, ctx)
    if case["kind"] == "all":
        return all_subsets(case, ctx)
    if case["kind"] == "lists":
        return lists(case, ctx)
    if case["kind"] == "many":
        return many(case, ctx)
    from src.Evaluator import Evaluator
    sp = case["sp"]
    orc = oracle_of(sp)
    ci = instance(sp, ctx)
    ev = call(Evaluator, "Evaluator", ci)
    N = orc.N
    for s in range(N):
        v, x = call(ev.subset_cost, "subset_cost", s)
        check_sol(orc, [s], v, x, sp, "scenario")
        ctx.step()
    for r in range(1, N + 1):
        for S in itertools.combinations(range(N), r):
            orders = itertools.permutations(S) if N <= 4 else (S, S[::-1])
            for o in orders:
                arg = list(o)
                v, x = call(ev.subset_cost, "subset_cost", arg)
                check_sol(orc, S, v, x, sp, "subset")
                if arg != list(o):
                    raise Violation("the subset was altered", spec=sp)
                ctx.step()
            ctx.state(sp["A"], S)
    want = [orc.subset([s]) for s in range(N)]
    for sc in ([list(range(N)), list(range(N))[::-1], list(range(0, N, 2)),
                [N - 1]]):
        got = call(ev.scenario_costs, "scenario_costs", sc)
        if len(got) != len(sc) or any(not close(float(g), want[s], 2e-4)
                                      for g, s in zip(got, sc)):
            raise Violation("scenario values are wrong or out of order",
                            spec=sp, scenarios=sc, got=got, expected=want)
    got = call(ev.get_all_single_scenario_costs,
               "get_all_single_scenario_costs")
    if len(got) != N or any(not close(float(g), w, 2e-4)
                            for g, w in zip(got, want)):
        raise Violation("scenario values are wrong or out of order", spec=sp,
                        got=got, expected=want)
    for P in I.bell(N):
        for Q in (P, P[::-1]):
            costs, sols = call(ev.partition_cost, "partition_cost",
                               [list(p) for p in Q])
            if len(costs) != len(Q) or len(sols) != len(Q):
                raise Violation("not one value per subset", spec=sp,
                                partition=Q)
            for p, v, x in zip(Q, costs, sols):
                check_sol(orc, p, v, x, sp, "partition")
            ctx.step()
        ctx.state(sp["A"], "P", P)
    ctx.trace()
    ctx.outcome("eval N%d" % N)
    ctx.sample(spec=sp)


def ops(N):
    """Operations: add/remove of a scenario (as int or list) or of a pair."""
    out = []
    for kind in ("add", "remove"):
        for s in range(N):
            out.append((kind, (s,), "int" if s % 2 else "list"))
        for a, b in itertools.combinations(range(N), 2):
            out.append((kind, (a, b), "list"))
    return out


def sequences(case, ctx):
    from src.optim.DeterModel import DeterModel
    sp = case["sp"]
    orc = oracle_of(sp)
    ci = instance(sp, ctx)
    N = orc.N
    O = ops(N)

    def ok(op, cur):
        return (not set(op[1]) & cur) if op[0] == "add" else set(
            op[1]) <= cur

    def rec(seq, cur):
        if seq:
            run(seq)
        if len(seq) == case["depth"]:
            return
        for o in O:
            if ok(o, cur):
                nxt = cur | set(o[1]) if o[0] == "add" else cur - set(o[1])
                rec(seq + [o], nxt)

    def run(seq):
        """Replays the sequence on one real model; solved after each step for
        the first half of the sequences, only at the end for the others."""
        for every in (True, False):
            def go():
                m = DeterModel(ci)
                m.build([0])
                cur = {0}
                for i, (kind, S, form) in enumerate(seq):
                    arg = S[0] if form == "int" else list(S)
                    getattr(m, kind)(arg)
                    cur = cur | set(S) if kind == "add" else cur - set(S)
                    if every and i < len(seq) - 1:
                        m.solve()
                m.solve()
                return m.get_obj_val(), m.get_var_x_val(), cur
            v, x, cur = call(go, "an incremental model")
            check_sol(orc, sorted(cur), v, x, sp,
                      dict(operations=[list(o) for o in seq]))
            ctx.step(len(seq))
            ctx.trace()
        ctx.state(sp["A"], sp["cont"], seq)
    first = O[case["first"]]
    if ok(first, {0}):
        rec([first], {0} | set(first[1]) if first[0] == "add"
            else {0} - set(first[1]))
    ctx.outcome("sequences N%d" % N)
