"""C07 — merging preserves scenarios, bound and progress."""
import itertools
import math

import numpy as np

import env
import instances as I
from core import Violation
from diag import canon, diag_spec, partition_error
from harness import Fixed, Run, call, close, instance, oracle_of, repo

CASE_SECONDS = 120
WHAT = ("real Merger on every set partition with every ordered candidate list; "
        "margin-based choice against recomputed margins for every point of a "
        "grid; merges met in full solves (Gurobi and all optimal environment "
        "answers): size, relaxed optimum over the merged partition by brute "
        "force, exclusion of the last relaxed solution")
BOUNDS = dict(quick="N<=5, candidate lists of length <=4; solves on tie and "
              "rotation families with <=2 deviations; 16 solves with large "
              "merges; every number merged of 7, 9 and 14 subsets in six "
              "orders; pairs to quadruples of 12 and 23 subsets",
              thorough="N<=6, candidate lists <=5; <=3 deviations")
ASSUMPTIONS = ["Gurobi answers correctly on b>0 packing models"]
C = I.CONFIGS
GAPS = (1e-4, 0.02, 1e-4, 0.1, 1e-4, 0.3)
MERGING = [j for j in env.CFGS if C[j]["merger"]]


def cases(tier, seed):
    q = tier == "quick"
    for N in range(2, 6 if q else 7):
        for P in I.bell(N):
            if len(P) >= 2:
                yield dict(kind="all", N=N, P=P, r=4 if q else 5)
    for i, (c, A, b) in enumerate(itertools.islice(
            I.fam_rot(5, 2, b=(3,), vals=(0, 1, 3, 4), costs=((1, 1),)),
            0, None, 3 if q else 1)):
        yield dict(kind="margin", c=c, A=A, b=b)
    for i, (c, A, b) in enumerate(itertools.islice(
            I.fam_n2m2((4,)), 0, None, 9 if q else 1)):
        yield dict(kind="margin", c=c, A=A, b=b)
        if i % 3 == 0:
            # rows with norms below one and far above it
            yield dict(kind="margin", c=c, b=b, A=[
                [[round(v * f, 1) for v in r] for r in s]
                for s, f in zip(A, (0.1, 1, 100, 0.1, 10, 1))])
    # margins that only the division by the row norm puts in this order
    units = [(.1, .2), (.2, .1), (1, 0), (0, 1), (0, 2), (3, 1), (0, 0)]
    for i, R in enumerate(itertools.combinations_with_replacement(units, 4)):
        if not q or i % 3 == 0:
            yield dict(kind="margin", c=(1, 1), A=[[r] for r in R], b=(3,))
    # margins that are all small
    for R in itertools.permutations([(100, 133.6), (100, 133.5), (100, 133.3),
                                     (133.4, 100), (133.6, 100.0)], 4):
        if not q or R[0] < R[1]:
            yield dict(kind="margin", c=(1, 1), A=[[r] for r in R], b=(70.1,))
    # subsets of many rows: the smallest margin may be in any of them
    for g, m in ((13, 1), (21, 2), (70, 1)) if q else (
            (13, 1), (21, 2), (33, 1), (70, 2), (140, 1)):
        yield dict(kind="rows", g=g, m=m)
    i = 0
    for sp in itertools.islice(env.tie_specs(q), 0, None, 5 if q else 1):
        yield dict(kind="env", sp=sp, cfg=MERGING[i % len(MERGING)],
                   dev=2 if q else 3)
        i += 1
    for sp in itertools.chain(
            itertools.islice(I.with_k(I.fam_rot(8, 3), ks=(1, 2, 3)), 0, None,
                             17 if q else 2),
            I.with_k(I.catalogue([(12, 1, 3), (14, 2, 3)], 8 if q else 24,
                                 hi=9, zero=3), ks=(1, 2, 4)),
            itertools.islice(I.degenerate(), 0, None, 2 if q else 1),
            I.deep(24 if q else None)):
        mg = [j for j, c in enumerate(C) if c["merger"]]
        for j in range(2 if q else 6):
            yield dict(kind="solve", sp=sp, cfg=mg[(i * 5 + j * 9) % len(mg)],
                       mode=i % 4, gap=GAPS[(i + j) % 6])
        i += 1
    for sp, cfg, mode in I.big_merges(16 if q else None):
        yield dict(kind="solve", sp=sp, cfg=cfg, mode=mode)
    # the choice among many satisfied subsets
    for nb in (7, 9, 14) if q else (7, 9, 12, 14, 20, 40):
        yield dict(kind="order", nb=nb)
    # partitions of more subsets, any three or four of which are merged
    for nb in (12, 23) if q else (9, 11, 12, 16, 23, 104):
        for extra in (0, 3):
            yield dict(kind="long", nb=nb, extra=extra)


def merger(ci):
    from src.Merger import Merger
    part = repo().PartitionChanceKnapInstance(ci)
    return Merger(ci, part), part


def verify_merge(P, groups, Q, nb, mg):
    """groups: lists of old indices merged together."""
    def fail(msg):
        raise Violation(msg, partition=P, merged=groups, result=Q,
                        deleted=[int(v) for v in mg.deleted_subsets],
                        targets=[int(v) for v in mg.target_subsets])
    gone = [max_i for g in groups for max_i in sorted(g)[1:]]
    if sorted(int(v) for v in mg.deleted_subsets) != sorted(gone):
        fail("the deleted subsets are not those merged away")
    if nb != len(Q) or len(Q) != len(P) - len(gone):
        fail("wrong number of subsets after the merge")
    if sorted(s for q in Q for s in q) != sorted(s for p in P for s in p):
        fail("scenarios were lost or duplicated by the merge")
    expect = []
    for i, p in enumerate(P):
        if i in gone:
            continue
        g = [g for g in groups if i in g]
        expect.append(set(p) if not g else
                      set(s for j in g[0] for s in P[j]))
    if [set(q) for q in Q] != expect:
        fail("the merged partition is not the old one with the chosen subsets "
             "united in place")
    tg = []
    for g in groups:
        if len(g) > 1:
            t = sorted(g)[0]
            tg.append(t)
    if sorted(int(v) for v in mg.target_subsets) != sorted(tg):
        fail("the target subsets are not the merged ones")


def run_case(case, ctx):
    if case["kind"] == "all":
        N, P = case["N"], case["P"]
        ci = instance(diag_spec(N, 0), ctx)
        mg, _ = merger(ci)          # long-lived on purpose
        for r in range(2, min(len(P), case["r"]) + 1):
            for cand in itertools.permutations(range(len(P)), r):
                Q, nb = call(mg.merge_all, "merge_all",
                             [list(p) for p in P], list(cand))
                verify_merge(P, [list(cand)], Q, nb, mg)
                ctx.step()
                ctx.trace()
                ctx.state(P, cand)
        for r in (1, 2):
            if 2 * r > len(P):
                break
            for pr in itertools.permutations(range(len(P)), 2 * r):
                a, b = list(pr[:r]), list(pr[r:])
                Q, nb = call(mg.merge, "merge", [list(p) for p in P], a, b)
                verify_merge(P, [[u, v] for u, v in zip(a, b)], Q, nb, mg)
                ctx.step()
                ctx.trace()
        ctx.sample(partition=P)
        ctx.outcome("direct N%d" % N)
        return
    if case["kind"] == "order":
        return order(case["nb"], ctx)
    if case["kind"] == "long":
        return long_partition(case["nb"], case["extra"], ctx)
    if case["kind"] == "rows":
        return many_rows(case["g"], case["m"], ctx)
    if case["kind"] == "margin":
        return margin(case, ctx)
    sp = case["sp"]

    def one(ch, stub=None):
        run = Run(sp, C[case["cfg"]], ctx, ch, gap=case.get("gap", 1e-4))
        run.stub_cclp = stub
        st = dict(merges=0)

        def on_check(r, x, ok):
            st["x"], st["size"] = np.array(x, float), len(r.partitions[-1])

        def on_next(r, P):
            """the partition that the next relaxed problem is solved on"""
            if "x" not in st:
                return
            bad = set(np.nonzero(r.orc.violations_of(st["x"]))[0].tolist())
            if len(bad) > r.k:
                inf = sum(1 for p in P if bad & set(p))
                if inf <= r.k:
                    r.fail("the last relaxed solution is admitted again",
                           x=st["x"].tolist(), partition=P)

        def on_load(r, nb, P):
            P = [list(map(int, p)) for p in P]
            if "prev" in st and len(P) < len(st["prev"]):
                st["merges"] += 1
                ctx.step()
                ctx.state("merge", sp["A"], P)
                old = st["prev"]
                if any(not any(set(o) <= set(p) for p in P) for o in old):
                    r.fail("the merge tore a subset apart", before=old,
                           after=P)
                moved = [p for p in P if not any(set(p) == set(o)
                                                 for o in old)]
                if len(moved) != 1:
                    r.fail("more than one subset changed in a merge",
                           before=old, after=P)
                if len(P) > st["size"]:
                    r.fail("the partition grew although it was merged",
                           before_refinement=st["size"], after=len(P))
                rel = r.orc.partition(P, r.k)
                ub = float(r.solver.vUB)
                if rel > ub + 1e-6 * max(1, abs(ub)):
                    r.fail("the merged partition has a worse relaxed optimum "
                           "than the known bound", relaxed=rel, partition=P)
                on_next(r, P)
            st["prev"] = P
        run.on_check, run.on_load = on_check, on_load
        run.go()
        if st["merges"]:
            ctx.count("merges", st["merges"])
        ctx.outcome("merges %d" % st["merges"])

    if case["kind"] == "solve":
        one(Fixed(case["mode"]))
    else:
        ctx.count("environment_executions",
                  ctx.explore(lambda ch: one(ch, env.stub(ch)),
                              max_dev=case["dev"]))
    ctx.sample(spec=sp, config=C[case["cfg"]])


def long_partition(nb, extra, ctx):
    N = nb + extra
    P = [[s for s in range(N) if s % nb == i] for i in range(nb)]
    ci = instance(I.spec([1], [[[1]]] * N, [1], 0, 1), ctx)
    mg, _ = merger(ci)
    step = max(1, nb // 11)
    some = sorted(set(range(0, nb, step)) | {nb - 1})
    for r in (2, 3, 4):
        for cand in itertools.combinations(some, r):
            for o in (cand, cand[::-1]):
                Q, n = call(mg.merge_all, "merge_all", [list(p) for p in P],
                            list(o))
                verify_merge(P, [list(o)], Q, n, mg)
                ctx.step()
                ctx.trace()
    for first in (some, some[::-1]):    # all but one, all
        for o in (first[1:], first):
            Q, n = call(mg.merge_all, "merge_all", [list(p) for p in P],
                        list(o))
            verify_merge(P, [list(o)], Q, n, mg)
            ctx.step()
    for a, b, c, d in itertools.combinations(some, 4):
        for u, v in (([a, c], [b, d]), ([d, a], [b, c]), ([a, d], [c, b])):
            Q, n = call(mg.merge, "merge", [list(p) for p in P], list(u),
                        list(v))
            verify_merge(P, [[x, y] for x, y in zip(u, v)], Q, n, mg)
            ctx.step()
            ctx.trace()
    ctx.state("long", nb, extra)
    ctx.outcome("long %d" % nb)


def order(nb, ctx):
    """All margins differ; they come in several orders, with some subsets left
    out of the candidates; every number of subsets to merge."""
    P = [[i] for i in range(nb)]
    steps = [t for t in (1, 3, 5, 7) if math.gcd(t, nb) == 1]
    for t in range(6):
        rank = [(i * steps[t % len(steps)] * (1, -1)[t % 2] + t) % nb
                for i in range(nb)]
        sp = I.spec([1], [[[1.0 + r]] for r in rank], [50.0], 0, 1)
        ci = instance(sp, ctx)
        mg, part = merger(ci)
        x = np.ones(1)
        for out in range(3):
            cand = [i for i in range(nb) if out == 0 or (i + t) % 4 != out]
            for mu in range(1, len(cand)):
                for o in (cand, cand[::-1]):
                    part.load_partition(nb, [list(p) for p in P])
                    Q, n = call(mg.merge_feasible, "merge_feasible",
                                [list(p) for p in P], x, list(o), mu)
                    # margin 50/(1+rank) - 1
                    want = sorted(cand, key=lambda i: rank[i])[:mu + 1]
                    verify_merge(P, [sorted(want)], Q, n, mg)
                    ctx.step()
                    ctx.trace()
            ctx.state("order", nb, t, out)
    ctx.outcome("order %d" % nb)


def many_rows(g, m, ctx):
    """Four subsets of g scenarios with m rows each; all rows have the same
    margin but one of each subset, at any place."""
    N = 4 * g
    P = [list(range(i, N, 4)) for i in range(4)]
    for pos in range(g * m):
        for t, order in enumerate(itertools.permutations(range(4))):
            if (t + pos) % 4:
                continue
            A = [[[1.0] for _ in range(m)] for _ in range(N)]
            for i, rank in enumerate(order):
                at = (pos * (1 + 2 * (i % 2)) + i) % (g * m)
                A[P[i][at // m]][at % m] = [2.0 + rank]
            sp = I.spec([1], A, [9.0] * m, 0, 1)
            ci = instance(sp, ctx)
            mg, part = merger(ci)
            for mu in (1, 2):
                part.load_partition(4, [list(p) for p in P])
                Q, nb = call(mg.merge_feasible, "merge_feasible",
                             [list(p) for p in P], np.ones(1), [0, 1, 2, 3],
                             mu)
                # margins 9/(2+rank) - 1: smallest ranks first
                want = sorted(i for i in range(4) if order[i] <= mu)
                verify_merge(P, [want], Q, nb, mg)
                ctx.step()
                ctx.trace()
            ctx.state("rows", g, m, pos, order)
    ctx.outcome("rows %d" % (g * m))


def margin(case, ctx):
    sp = I.spec(case["c"], case["A"], case["b"], 0, 1)
    ci = instance(sp, ctx)
    orc = oracle_of(sp)
    N = orc.N
    mg, part = merger(ci)
    norm = np.linalg.norm(orc.A, axis=2)
    norm[norm == 0] = 1.0
    for x in itertools.product((0.0, 0.3, 1.0), repeat=orc.n):
        x = np.array(x)
        m = ((orc.b - orc.A @ x) / norm).min(axis=1)       # per scenario
        for P in I.bell(N):
            if len(P) < 2:
                continue
            marg = [min(m[s] for s in p) for p in P]
            feas = [i for i in range(len(P)) if marg[i] >= -1e-9]
            for mu in range(1, len(feas)):
                for order in (feas, feas[::-1]):
                    part.load_partition(len(P), [list(p) for p in P])
                    Q, nb = call(mg.merge_feasible, "merge_feasible",
                                 [list(p) for p in P], x, list(order), mu)
                    ctx.step()
                    ctx.trace()
                    new = [q for q in Q if set(q) not in
                           [set(p) for p in P]]
                    if len(new) != 1:
                        raise Violation("merge_feasible did not unite one "
                                        "group", partition=P, result=Q, mu=mu)
                    g = [i for i, p in enumerate(P) if set(p) <= set(new[0])]
                    if len(g) != mu + 1 or not set(g) <= set(feas):
                        raise Violation("merge_feasible united the wrong "
                                        "number of subsets or infeasible ones",
                                        partition=P, result=Q, mu=mu, group=g)
                    verify_merge(P, [g], Q, nb, mg)
                    best = sorted((marg[i] for i in feas), reverse=True)
                    if not np.allclose(sorted((marg[i] for i in g),
                                              reverse=True), best[:mu + 1],
                                       atol=1e-9):
                        raise Violation("merge_feasible did not choose the "
                                        "subsets with the largest margins",
                                        partition=P, x=x.tolist(), mu=mu,
                                        margins=marg, group=g, spec=sp)
            ctx.state("margin", sp["A"], P, x.tolist())
    ctx.outcome("margin")
