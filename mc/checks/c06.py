"""C06 — refinement excludes the relaxed solution with the fewest splits."""
import itertools

import numpy as np

import instances as I
from core import Violation, under
from diag import canon, diag_spec, partition_error, patterns, point
from harness import Fixed, call, instance

CASE_SECONDS = 200
WHAT = ("every set partition x every violated set x every random choice on the "
        "real refiners (diagonal instances), fresh and long-lived, subsets "
        "listed in several internal orders; full postcondition checked")
BOUNDS = dict(quick="N<=5 random split (all choices for N<=4, <=3 deviations "
              "for N=5), N<=5 cost split with 4 upper-bound "
              "levels and either side of a split named first; 40 tolerances "
              "for each N in {27,50,100,144,300}; up to 20 splits at once of "
              "pairs and triples, N<=40",
              thorough="N<=6 random, N<=5 cost")
ASSUMPTIONS = ["scenario data do not influence random splitting"]


def cases(tier, seed):
    q = tier == "quick"
    for N in range(2, 6 if q else 7):
        for k in range(1, N):
            for i, P in enumerate(I.bell(N)):
                if len(P) >= k + 1:
                    yield dict(N=N, k=k, P=P, split="random",
                               dev=None if N <= 4 else (3 if N == 5 else 1))
    if q:
        for k in (2, 3):
            for lvl, swap in ((3, 1), (3, 0), (1, 2)):
                yield dict(N=5, k=k, split="cost", order=1, lvl=lvl, swap=swap)
    for N in (27, 50, 100, 144, 300):
        for k, eps in I.large_eps(N):
            if k >= 1:
                yield dict(kind="large", N=N, k=k, eps=eps)
    for g, s in ((8, 2), (14, 2), (7, 3), (20, 2)) if q else (
            (8, 2), (14, 2), (7, 3), (20, 2), (13, 3), (34, 2)):
        for lvl in (0, 1, 2):
            for split in ("cost", "random"):
                yield dict(kind="many", g=g, s=s, lvl=lvl, split=split)
    for N in range(2, 5 if q else 6):
        for k in range(1, N):
            # one long-lived refiner sees every partition and pattern
            for order in range(2):
                for lvl in (0, 1, 2, 3):
                    for swap in (0, 1, 2):
                        yield dict(N=N, k=k, split="cost", order=order,
                                   lvl=lvl, swap=swap)
            # values below one and in the hundreds
            for unit, lvl in ((0.1, 1), (0.1, 2), (0.1, 3), (100, 2)):
                yield dict(N=N, k=k, split="cost", order=0, lvl=lvl, swap=0,
                           unit=unit)


def verify(P, before, V, k, nb, Q, ref, N):
    bad = set(V)

    def fail(msg, **kw):
        raise Violation(msg, partition=P, violated=sorted(bad), result=Q, k=k,
                        **kw)
    if before != P:
        fail("the caller's partition was modified", now=before)
    err = partition_error(Q, N, k + 1)
    if err:
        fail(err)
    inf_old = [i for i, p in enumerate(P) if bad & set(p)]
    mu = k + 1 - len(inf_old)
    if nb != len(Q) or len(Q) != len(P) + mu:
        fail("the partition does not grow by the missing number of subsets",
             expected=len(P) + mu, got=len(Q))
    inf_new = [i for i, q in enumerate(Q) if bad & set(q)]
    if len(inf_new) != k + 1:
        fail("the relaxed solution is not excluded by exactly k+1 violated "
             "subsets", infeasible=len(inf_new))
    for q in Q:
        if not any(set(q) <= set(p) for p in P):
            fail("a new subset is not inside one old subset", subset=q)
    for i, p in enumerate(P):
        if len(bad & set(p)) < 2 and set(Q[i]) != set(p):
            fail("a subset without two violated scenarios was changed",
                 index=i)
    changed = [i for i in range(len(Q))
               if i >= len(P) or set(Q[i]) != set(P[i])]
    if sorted(ref.new_subsets) != changed:
        fail("the refiner does not name the changed subsets", changed=changed,
             named=list(ref.new_subsets))
    feas = [i for i in range(len(Q)) if i not in inf_new]
    if sorted(ref.feasible_subsets) != feas:
        fail("the refiner does not name the satisfied subsets", expected=feas,
             named=list(ref.feasible_subsets))
    if getattr(ref, "mu", mu) != mu:
        fail("wrong number of splits reported", mu=ref.mu, expected=mu)


def large(case, ctx):
    """consecutive blocks, violated: the heaviest, and every other one"""
    from src.refiner.RandomRefiner import RandomRefiner
    N, k = case["N"], case["k"]
    sp = dict(I.spec([1], [[[1.0 + s]] for s in range(N)], [.5], k, 1),
              eps=case["eps"])
    ci = instance(sp, ctx)
    for v in sorted({k + 1, min(N, 2 * k + 2), N}):
        x = np.array([0.5 / (N - v + 0.5) if v < N else 1.0])
        V = list(range(N - v, N))
        call(ci.check_feasibility, "check_feasibility", x)
        # the violated scenarios share as few, and as many subsets as allowed
        for share in sorted({1, max(1, k // 2), k}):
            rest = N - v
            P = [[] for _ in range(share)]
            for i, s in enumerate(V):
                P[i % share].append(s)
            more = min(rest, max(k + 1 - share, 0))
            if share + more < k + 1:
                continue
            P += [[] for _ in range(more)]
            for i in range(rest):
                P[share + i % more if more else i % share].append(i)
            for mode in (0, 2):
                given = [list(p) for p in P]
                ref = RandomRefiner(ci)
                with under(Fixed(mode)):
                    nb, Q = call(ref.refine, "refine", given, x)
                verify(P, given, V, k, nb, Q, ref, N)
                ctx.step()
                ctx.trace()
        ctx.state("large", N, k, case["eps"], v)
    ctx.outcome("large N%d" % N)


def many(case, ctx):
    """g subsets of s scenarios, each to be split at most s - 1 times: every
    number of splits"""
    g, s = case["g"], case["s"]
    N = g * s
    P = [[i + g * j for j in range(s)] for i in range(g)]
    V = list(range(N))
    x = point(N, V)
    tot = sum(range(1, N + 1))
    for mu in range(1, g * (s - 1) + 1) if s == 2 else (1, g, g * (s - 1)):
        if case["split"] == "cost" and mu not in (1, g - 1, g, N - g):
            continue
        ci = instance(diag_spec(N, g + mu - 1, extra=True), ctx)
        call(ci.check_feasibility, "check_feasibility", x)
        given = [list(p) for p in P]
        if case["split"] == "cost":
            from src.refiner.CostRefiner import CostRefiner
            ref = call(CostRefiner, "CostRefiner", ci, use_acc_obj=True)
            costs = [tot - 0.5 * sum(1 + t for t in p) for p in P]
            ref.subset_costs = costs
            ref.vUB = (0.0, sorted(costs)[g // 2], float(tot))[case["lvl"]]
            nb, Q = call(ref.refine, "refine", given, x)
        else:
            from src.refiner.RandomRefiner import RandomRefiner
            ref = RandomRefiner(ci)
            with under(Fixed(case["lvl"])):
                nb, Q = call(ref.refine, "refine", given, x)
        verify(P, [list(p) for p in given], V, g + mu - 1, nb, Q, ref, N)
        ctx.step()
        ctx.trace()
        ctx.state("many", g, s, mu, case["split"], case["lvl"])
    ctx.outcome("many %d" % N)


def run_case(case, ctx):
    if case.get("kind") == "large":
        return large(case, ctx)
    if case.get("kind") == "many":
        return many(case, ctx)
    N, k = case["N"], case["k"]
    unit = case.get("unit", 1)
    ci = instance(diag_spec(N, k, extra=True, unit=unit), ctx)
    if case["split"] == "random":
        from src.refiner.RandomRefiner import RandomRefiner
        P = case["P"]
        old = RandomRefiner(ci)
        for V in patterns(N, k, P):
            x = point(N, V)
            call(ci.check_feasibility, "check_feasibility", x)

            def one(ch):
                ref = old if sum(ch.prefix) % 2 else RandomRefiner(ci)
                given = [list(p) for p in P]
                with under(ch):
                    nb, Q = call(ref.refine, "refine", given, x)
                verify(P, given, V, k, nb, Q, ref, N)
                ctx.step()
                ctx.trace()
                ctx.state(N, k, P, V, sorted(map(sorted, canon(Q))))
            ctx.count("choice_tree_executions",
                      ctx.explore(one, max_dev=case["dev"]))
            ctx.sample(partition=P, violated=V)
        ctx.outcome("N%d k%d" % (N, k))
        return
    from src.refiner.CostRefiner import CostRefiner
    ref = call(CostRefiner, "CostRefiner", ci, use_acc_obj=True)
    # the two sides of a split are interchangeable: the solver may name
    # either of them first
    turn = [0]
    if hasattr(ref, "accurate_obj_split"):
        real = ref.accurate_obj_split

        def sides(*a, **kw):
            v, left, right = real(*a, **kw)
            turn[0] += 1
            if case["swap"] == 1 or (case["swap"] == 2 and turn[0] % 2):
                return v, right, left
            return v, left, right
        ref.accurate_obj_split = sides
    allP = [P for P in I.bell(N) if len(P) >= k + 1]
    if case["order"]:
        allP = [[list(reversed(p)) for p in reversed(P)]
                for P in reversed(allP)]
    tot = sum(range(1, N + 1))
    for P in allP:
        for V in patterns(N, k, P):
            x = point(N, V)
            call(ci.check_feasibility, "check_feasibility", x)
            costs = [unit * (tot - 0.5 * sum(1 + s for s in p)) for p in P]
            ref.subset_costs = costs
            ref.vUB = (0.0, sorted(costs)[len(costs) // 2],
                       float(tot * unit), float("inf"))[case["lvl"]]
            given = [list(p) for p in P]
            nb, Q = call(ref.refine, "refine", given, x)
            verify(P, given, V, k, nb, Q, ref, N)
            ctx.step()
            ctx.trace()
            ctx.state(N, k, P, V, case["lvl"], sorted(map(sorted, canon(Q))))
    ctx.outcome("cost N%d k%d lvl%d" % (N, k, case["lvl"]))
