"""C05 — the partition always partitions the scenarios."""
import itertools

import numpy as np

import env
import instances as I
from core import Violation, under
from diag import canon, diag_spec, partition_error, patterns, point
from harness import Fixed, Run, call, instance, repo

CASE_SECONDS = 200
WHAT = ("breadth-first exploration to a fixpoint of the partitions reachable "
        "on the real Initializer, RandomRefiner, CostRefiner and Merger: "
        "states = partitions, transitions = refine under every violation "
        "pattern and every random choice, merge of every candidate list that "
        "keeps k+1 subsets; number of initial subsets for large N; plus every partition loaded in full solves")
BOUNDS = dict(quick="N<=5 (random split), N<=4 (cost split), all k; initial size: all (N,k) N<=60, 40 tolerances "
              "for each of 7 larger N up to 5000; solves on "
              "rotation patterns and catalogue N<=14",
              thorough="N<=6 (random), N<=5 (cost); more solves, N<=20")
ASSUMPTIONS = ["scenario data do not influence random splitting"]
C = I.CONFIGS
GAPS = (1e-4, 0.02, 1e-4, 0.1, 1e-4, 0.3)


def cases(tier, seed):
    q = tier == "quick"
    for N in range(1, 6 if q else 7):
        for k in range(N):
            yield dict(kind="bfs", N=N, k=k, split="random",
                       dev=None if N <= 4 else 2)
    for N in range(2, 5 if q else 6):
        for k in range(1, N):
            yield dict(kind="bfs", N=N, k=k, split="cost", dev=None)
    for N in range(2, 61 if q else 101):
        yield dict(kind="size", N=N)
    for N in I.LARGE + (5000,):
        yield dict(kind="size", N=N)
    for N in range(1, 8 if q else 10):
        for nb in range(1, N + 1):
            yield dict(kind="init", N=N, nb=nb)
    i = 0
    for sp in itertools.chain(
            itertools.islice(I.with_k(I.fam_rot(8, 3), ks=(1, 2, 3)), 0, None,
                             31 if q else 3),
            I.with_k(I.catalogue([(14, 1, 3), (11, 2, 4)] + (
                [] if q else [(20, 2, 3)]), 6 if q else 24),
                ks=(0, 1, 2, 4, 7, 10)), I.deep(12 if q else None),
            itertools.islice(I.degenerate(), 0, None, 2 if q else 1)):
        for j in range(3 if q else 9):
            yield dict(kind="solve", sp=sp, cfg=(i * 9 + j * 23) % 56,
                       mode=i % 4, gap=GAPS[(i + j) % 6])
        i += 1
    for sp, cfg, mode in I.big_merges(16 if q else None):
        yield dict(kind="solve", sp=sp, cfg=cfg, mode=mode)
    for sp in itertools.islice(env.tie_specs(True), 0, None, 9 if q else 2):
        yield dict(kind="env", sp=sp, cfg=env.CFGS[i % len(env.CFGS)])
        i += 1


def bfs(case, ctx):
    R = repo()
    N, k = case["N"], case["k"]
    ci = instance(diag_spec(N, k, extra=True), ctx)
    minimum = k + 1
    seen, todo = {}, []

    def visit(P, how):
        err = partition_error(P, N, minimum)
        if err:
            raise Violation("after %s: %s" % (how[-1], err), history=how,
                            partition=P, N=N, k=k)
        key = canon(P)
        if key not in seen:
            seen[key] = how
            ctx.state(N, k, case["split"], sorted(map(sorted, key)))
            todo.append(sorted(sorted(p) for p in key))

    # initial partitions, all random choices
    def init(ch):
        with under(ch):
            part = R.PartitionChanceKnapInstance(ci)
            from src.Initializer import Initializer
            ini = Initializer(ci, part)
            for t in ("random", "cost"):
                P = call(ini.create_first_partition, "initial partition",
                         k + 1, partition_type=t)
                if len(P) != k + 1:
                    raise Violation("the initial partition does not have k+1 "
                                    "subsets", partition=P)
                visit(P, ["initial %s" % t])
        ctx.trace()
    ctx.explore(init, max_dev=case["dev"])
    if case["split"] == "cost":
        refiner = call(_cost_refiner, "CostRefiner", ci)
    else:
        from src.refiner.RandomRefiner import RandomRefiner
        refiner = RandomRefiner(ci)
    part = R.PartitionChanceKnapInstance(ci)
    from src.Merger import Merger
    while todo:
        P = todo.pop(0)
        how = seen[canon(P)]
        for V in patterns(N, k, P):
            x = point(N, V)
            call(ci.check_feasibility, "check_feasibility", x)

            def ref(ch):
                if case["split"] == "cost":
                    refiner.vUB = float(N)
                    refiner.subset_costs = [float(sum(
                        (1 + s) * .5 if s in p else 1 + s
                        for s in range(N))) for p in P]
                with under(ch):
                    nb, Q = call(refiner.refine, "refine",
                                 [list(p) for p in P], x)
                ctx.step()
                ctx.trace()
                if nb != len(Q):
                    raise Violation("refine reports a wrong number of subsets",
                                    partition=P, result=Q, reported=nb)
                visit(Q, how + ["refine %s for violated %s" % (P, V)])
            ctx.explore(ref, max_dev=case["dev"])
        for r in range(2, len(P) - k + 1):
            for cand in itertools.combinations(range(len(P)), r):
                mg = Merger(ci, part)
                Q, nb = call(mg.merge_all, "merge_all", [list(p) for p in P],
                             list(cand))
                ctx.step()
                ctx.trace()
                if nb != len(Q):
                    raise Violation("merge reports a wrong number of subsets",
                                    partition=P, result=Q, reported=nb)
                visit(Q, how + ["merge %s of %s" % (cand, P)])
    ctx.outcome("N%d k%d %s: %d partitions" % (N, k, case["split"], len(seen)))


def _cost_refiner(ci):
    from src.refiner.CostRefiner import CostRefiner
    return CostRefiner(ci, use_acc_obj=True)


def size(case, ctx):
    """the number of subsets a solver starts with"""
    N = case["N"]
    if N <= 100:
        todo = [(k, e) for k in range(N) for e in {
            k / N, (k + .5) / N, (k + .999) / N} | {
            round(k / N, 2) if abs(round(k / N, 2) * N - k) < 1e-9 else k / N}]
    else:
        todo = I.large_eps(N)
    R = repo()
    Part, seen = R.PartitionChanceKnapInstance, []
    real = Part.load_partition

    def load(self, nb, partition):
        seen.append([list(p) for p in partition])
        return real(self, nb, partition)
    for k, eps in todo:
        sp = dict(I.spec([1], [[[1.0]]] * N, [.5], k, 1), eps=eps)
        ci = instance(sp, ctx)
        seen.clear()
        Part.load_partition = load
        try:
            with under(Fixed(0)):
                call(R.AdaptivePartitioner, "AdaptivePartitioner", ci,
                     split_method="random", initial_partition_type="random",
                     time_limit=1800)
        finally:
            Part.load_partition = real
        P = seen[-1] if seen else []
        err = partition_error(P, N, k + 1)
        if err or len(P) != k + 1:
            raise Violation("the initial partition: %s" % (
                err or "not k+1 subsets"), N=N, k=k, eps=eps, subsets=len(P))
        ctx.step()
        ctx.trace()
        ctx.state("size", N, k, eps)


def run_case(case, ctx):
    if case["kind"] == "size":
        return size(case, ctx)
    if case["kind"] == "bfs":
        return bfs(case, ctx)
    if case["kind"] == "init":
        R = repo()
        N, nb = case["N"], case["nb"]
        # ties in cost on purpose: c and b make two cost classes
        ci = instance(I.spec([2, 1], [[[1 + s % 2, 1]] for s in range(N)],
                             [2], 0, 1), ctx)
        part = R.PartitionChanceKnapInstance(ci)

        def init(ch):
            with under(ch):
                from src.Initializer import Initializer
                ini = call(Initializer, "Initializer", ci, part)
                for t in ("random", "cost"):
                    P = call(ini.create_first_partition, "initial partition",
                             nb, partition_type=t)
                    err = partition_error(P, N, nb)
                    if err or len(P) != nb:
                        raise Violation("initial partition (%s): %s" % (
                            t, err or "wrong number of subsets"), partition=P)
                    ctx.state(N, nb, t, sorted(map(sorted, canon(P))))
                    ctx.step()
            ctx.trace()
        ctx.explore(init, max_dev=None if N <= 5 else 2)
        return
    sp = case["sp"]

    def one(ch, stub=None):
        run = Run(sp, C[case["cfg"]], ctx, ch,
                  gap=case.get("gap", 1e-4))
        run.stub_cclp = stub

        def on_load(r, nb, P):
            err = partition_error(P, r.N, r.k + 1)
            if err is None and nb != len(P):
                err = "declared size differs from the partition"
            if err is None and len(r.partitions) == 1 and len(P) != r.k + 1:
                err = "initial partition does not have k+1 subsets"
            if err:
                r.fail("loaded partition: " + err, partition=P)
            ctx.step()
        run.on_load = on_load
        run.go()
        ctx.outcome("loads %d" % len(run.partitions))
    if case["kind"] == "solve":
        one(Fixed(case["mode"]))
    else:
        ctx.explore(lambda ch: one(ch, env.stub(ch)), max_dev=1)
    ctx.sample(spec=sp)
