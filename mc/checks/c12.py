"""C12 — quantile and first-iteration bounds are exact."""
import itertools

import numpy as np

import instances as I
from core import Violation
from harness import call, close, instance, oracle_of, repo

CONTRACT = 1e-4
CASE_SECONDS = 200
WHAT = ("real UpperBounder on every value vector of a grid (ties included), "
        "every k, with epsilon = k/N, between two steps and just above a step; "
        "on every set partition into k+1 subsets the first relaxed bound is "
        "compared with the brute-force relaxation optimum")
BOUNDS = dict(quick="values {0,1,2,3}^N, N<=6; all (N,k), N<=200, and 40 tolerances for each of "
              "8 larger N up to 5000; partitions of "
              "N<=6 scenarios",
              thorough="values {0,1,2,3,4}^N, N<=7; all (N,k), N<=400; "
              "partitions of N<=7")
ASSUMPTIONS = []


def cases(tier, seed):
    q = tier == "quick"
    for N in range(1, 7 if q else 8):
        for k in range(N):
            yield dict(kind="vec", N=N, k=k, V=4 if q else (5 if N < 7 else 3))
    top = 201 if q else 401
    for lo in range(1, top, 5):
        yield dict(kind="nk", lo=lo, hi=min(lo + 5, top))
    for N in I.LARGE + (3000, 5000):
        yield dict(kind="large", N=N)
    fams = itertools.chain(
        itertools.islice(I.fam_n2((2, 3, 4)), 0, None, 29 if q else 5),
        itertools.islice(I.fam_n2m2((2, 3, 4)), 0, None, 11 if q else 2),
        itertools.islice(I.fam_rot(5, 3), 0, None, 23 if q else 3),
        I.catalogue([(5, 1, 3), (5, 2, 3), (6, 1, 3)]
                    + ([] if q else [(7, 2, 3)]), 6 if q else 24))
    # values that differ in the third decimal only
    near = [([1], [[[10 + 0.1 * v]] for v in p], [5])
            for N in (3, 4) for p in itertools.permutations(range(N))]
    for c, A, b in itertools.chain(fams, near):
        for cont in (0, 1):
            yield dict(kind="first", c=c, A=A, b=b, cont=cont)


def upper(part=None):
    from src.UpperBounder import UpperBounder
    return call(UpperBounder, "UpperBounder", part, "random", "cost")


def quantile(ub, costs, eps, k, **kw):
    N = len(costs)
    v = call(ub.ahmed_et_al_bound, "ahmed_et_al_bound", costs,
             np.full(N, 1 / N), eps)
    true = sorted(costs)[k]
    s = ub.bounding_scenario
    if v is None or v != true:
        raise Violation("the quantile bound is not the (k+1)-th smallest "
                        "value", costs=list(costs)[:12], eps=eps, k=k, N=N,
                        value=v, true=true, **kw)
    if not 0 <= s < N or costs[s] != v:
        raise Violation("the bounding scenario does not have the bound's "
                        "value", costs=list(costs)[:12], scenario=int(s))


def run_case(case, ctx):
    if case["kind"] == "vec":
        ub = upper()
        N, k = case["N"], case["k"]
        for costs in itertools.product(range(case["V"]), repeat=N):
            costs = [(1.5 * c, 7 + 0.004 * c)[sum(costs) % 2] for c in costs]
            for eps in ((k / N, (k + .5) / N) if N < 6 else (k / N,)):
                quantile(ub, costs, eps, k)
                ctx.step()
            ctx.state(N, k, costs)
            ctx.trace()
        ctx.outcome("N%d" % N)
    elif case["kind"] == "large":
        ub = upper()
        N = case["N"]
        orders = [list(range(N)), list(range(N))[::-1],
                  [(7 * i + 3) % N for i in range(N)] if N % 7 else
                  [(11 * i + 3) % N for i in range(N)]]
        for i, (k, eps) in enumerate(I.large_eps(N)):
            quantile(ub, [float(v) for v in orders[i % 3]], eps, k)
            ctx.step()
            ctx.state(N, k, eps)
            ctx.trace()
    elif case["kind"] == "nk":
        ub = upper()
        for N in range(case["lo"], case["hi"]):
            orders = [list(range(N)), list(range(N))[::-1],
                      [(7 * i + 3) % N for i in range(N)]]
            for k in range(N):
                for o in orders[k % 3:k % 3 + 1]:
                    for eps in (k / N, (k + .5) / N, (k + .99) / N):
                        quantile(ub, [float(v) for v in o], eps, k)
                        ctx.step()
                # decimal epsilons written by a user
                for d in (1, 2, 3):
                    e = round(k / N, d)
                    if abs(e * N - k) < 1e-9:
                        quantile(ub, [float(v) for v in orders[0]], e, k)
                        ctx.step()
                ctx.state(N, k)
                ctx.trace()
        ctx.outcome("all k")
    else:
        first(case, ctx)
        ctx.sample(case=case)


def first(case, ctx):
    R = repo()
    sp0 = I.spec(case["c"], case["A"], case["b"], 0, case["cont"])
    orc = oracle_of(sp0)
    N = orc.N
    from src.Evaluator import Evaluator
    for k in range(N):
        sp = dict(sp0, k=k)
        ci = instance(sp, ctx)
        ev = Evaluator(ci)
        part = R.PartitionChanceKnapInstance(ci)
        ub = upper(part)
        opt = orc.opt(k)
        costs = call(ev.get_all_single_scenario_costs, "scenario costs")
        v = call(ub.ahmed_et_al_bound, "ahmed_et_al_bound", costs,
                 ci.get_proba(), ci.get_epsilon())
        if v is None or v < opt - 1e-6 * max(1, opt):
            raise Violation("the quantile bound is below the optimum", spec=sp,
                            bound=v, optimum=opt)
        true = sorted(orc.subset([s]) for s in range(N))[k]
        if not close(v, true, 2e-4):
            raise Violation("the quantile bound is not the (k+1)-th smallest "
                            "scenario optimum", spec=sp, bound=v, true=true)
        for P in I.bell(N):
            if len(P) != k + 1:
                continue
            part.load_partition(k + 1, [list(p) for p in P])
            cs, xs = call(ev.partition_cost, "partition_cost", P)
            cs0 = list(cs)
            x, z, vo, vb = call(ub.first_iteration_bound,
                                "first_iteration_bound", cs, xs)
            true = orc.partition(P, k)
            info = dict(spec=sp, partition=P, obj=vo, bound=vb, true=true,
                        x=np.asarray(x).tolist(), z=np.asarray(z).tolist())
            if cs != cs0:
                raise Violation("the subset values were modified", **info)
            if not close(vo, true, 2e-4) or not close(vb, true, 2e-4):
                raise Violation("the first bound is not the relaxed optimum",
                                **info)
            if len(z) != k + 1 or any(t not in (0, 1) for t in z) or (
                    len(z) - sum(z) > k):
                raise Violation("wrong indicators of the first solution",
                                **info)
            bad = orc.violations_of(np.asarray(x, float), 1e-5)
            for t, p in zip(z, P):
                if t == 1 and bad[list(p)].any():
                    raise Violation("the first solution violates the subset it "
                                    "marks as satisfied", **info)
            if not close(float(orc.c @ x), true, 2e-4):
                raise Violation("the first solution does not attain the bound",
                                **info)
            ctx.step()
            ctx.trace()
            ctx.state(sp["A"], sp["b"], sp["c"], k, P)
    ctx.outcome("first N%d" % N)
