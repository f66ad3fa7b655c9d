"""C14 — cost-based splits are optimal, also when reused."""
import itertools

import numpy as np

import answers
import instances as I
from core import Violation
from diag import diag_spec, patterns, point
from harness import call, instance, oracle_of

ANSWERS = True
CONTRACT = 1e-4
CASE_SECONDS = 300
WHAT = ("real CostRefiner/AccObjModel on every subset and violated set, "
        "compared with the best of all bipartitions (continuous subset optima "
        "by brute force); every pair (N=4) and triple (N=3) of refinement "
        "requests on one refiner, each answer judged against the current "
        "violated set")
BOUNDS = dict(quick="direct: N<=5, n<=3, m<=2; subsets of 6 and 7; request pairs N<=4; "
              "up to 1100 different requests to one refiner",
              thorough="direct: N<=6; request pairs N<=5 and triples N<=4")
ASSUMPTIONS = ["Gurobi solves the bipartition model within its 1e-4 gap"]


def cases(tier, seed):
    q = tier == "quick"
    sh = [(4, 1, 3), (4, 2, 3), (3, 2, 3), (4, 3, 2), (5, 1, 2)]
    fams = itertools.chain(
        itertools.islice(I.fam_n2((3, 4)), 0, None, 57 if q else 9),
        itertools.islice(I.fam_n2m2((3, 4)), 0, None, 37 if q else 5),
        I.catalogue(sh if q else sh + [(5, 1, 3), (5, 2, 3), (6, 1, 2)],
                    9 if q else 20, hi=9, zero=3))
    for c, A, b in fams:
        for cont in (0, 1) if len(A) < 6 else (1,):
            yield dict(kind="direct", c=c, A=A, b=b, cont=cont)
    # long subsets, in one or two of their sizes
    for c, A, b in I.catalogue([(7, 1, 2)] if q else [(7, 1, 2), (9, 2, 2)],
                               6 if q else 12, hi=9, zero=3):
        yield dict(kind="direct", c=c, A=A, b=b, cont=1, least=len(A) - 1)
    # other units: costs of 0.1 or of thousands, data in the thousands, ...
    for i, (c, A, b) in enumerate(I.rescale(
            I.catalogue([(4, 1, 3), (4, 2, 3), (3, 2, 3)], 6 if q else 20,
                        hi=9, zero=3))):
        yield dict(kind="direct", c=c, A=A, b=b, cont=i % 2)
    # one refiner asked for many splits: nothing is taken for something else
    for N, r in ((14, 0), (14, 3), (9, 4)) if q else (
            (14, 0), (14, 3), (10, 4), (24, 0), (8, 5)):
        yield dict(kind="long", N=N, r=r)
    for var in range(2 if q else 6):
        for N in ((3, 4) if q else (3, 4, 5)):
            for k in range(1, N - 1):
                R = requests(N, k)
                for i in range(len(R)):
                    yield dict(kind="pairs", N=N, k=k, var=var, first=i,
                               step=1)
    for N in (3,) if q else (3, 4):
        for k in range(1, N - 1):
            R = requests(N, k)
            for i in range(len(R)):
                yield dict(kind="triples", N=N, k=k, var=0, first=i)


def coupled(N, k, var):
    """Scenario s is violated by a 0/1 point exactly when item s is chosen, but
    the scenarios also share the other items, so bipartitions differ."""
    A = [[[5.0 if j == s else ((3 * s + 2 * j + var) % 4) / 5.0
           for j in range(N)]] for s in range(N)]
    c = [2.0 + ((5 * j + 3 * var) % 7) for j in range(N)]
    return I.spec(c, A, [4.5 if N < 4 else 4.2], k, 1)


def requests(N, k):
    return [(P, V) for P in I.bell(N) if len(P) >= k + 1
            for V in patterns(N, k, P)]


def long_lived(case, ctx):
    """Pairs and triples violated as a whole (r = 0), or all subsets of r with
    two violated scenarios; the rest in subsets of one; each asked twice."""
    from src.refiner.CostRefiner import CostRefiner
    N = case["N"]
    sp = diag_spec(N, 1, extra=True)
    ci = instance(sp, ctx)
    ref = call(CostRefiner, "CostRefiner", ci, use_acc_obj=True)
    total = N * (N + 1) / 2
    if case["r"]:
        asked = [(S, V) for S in itertools.combinations(range(N), case["r"])
                 for V in itertools.combinations(S, 2)]
    else:
        asked = [(S, S) for r in (2, 3)
                 for S in itertools.combinations(range(N), r)]
    for S, V in asked + asked[::3]:
        x = point(N, V)
        call(ci.check_feasibility, "check_feasibility", x)
        P = [[s] for s in range(N) if s not in S]
        P.insert(len(P) // 2, list(S))
        ref.subset_costs = [total - .5 * sum(1 + s for s in p) for p in P]
        ref.vUB = total
        nb, Q = call(ref.refine, "refine", [list(p) for p in P], x)
        new = [list(map(int, q)) for q in Q if set(q) & set(S)]
        info = dict(subset=S, violated=V, result=new, N=N)
        if len(new) != 2 or sorted(new[0] + new[1]) != sorted(S) or \
                any(not set(q) & set(V) for q in new):
            raise Violation("not a split of the subset", **info)
        value = max(total - .5 * sum(1 + s for s in q) for q in new)
        best = min(max(total - .5 * sum(1 + s for s in L),
                       total - .5 * sum(1 + s for s in S if s not in L))
                   for r in range(1, len(S))
                   for L in itertools.combinations(S, r)
                   if 0 < len(set(L) & set(V)) < len(V))
        if value > best + TOL * total:
            raise Violation("the split is not the best one", value=value,
                            best=best, **info)
        ctx.step()
        ctx.trace()
        ctx.state("long", N, S, V)
    ctx.outcome("long N%d" % N)


def best(orc, S, bad, memo):
    key = (frozenset(S), frozenset(bad))
    if key not in memo:
        S = sorted(S)
        v = []
        for r in range(1, len(S)):
            for L in itertools.combinations(S, r):
                if S[0] not in L:
                    continue
                Rr = [s for s in S if s not in L]
                if set(L) & bad and set(Rr) & bad:
                    v.append(max(orc.subset(L), orc.subset(Rr)))
        memo[key] = min(v)
    return memo[key]


def cont_oracle(sp):
    return oracle_of(dict(sp, cont=1))


TOL = 2e-4


def run_case(case, ctx):
    def exact(model):
        """The optimizer is not allowed more than its usual tolerance."""
        if model.NumIntVars and model.Params.MIPGap > 1.001e-4:
            raise Violation("the split is not asked for as an optimal one",
                            gap=model.Params.MIPGap, case=case)
        return False
    with answers.answer(exact, None):
        _run_case(case, ctx)


def _run_case(case, ctx):
    from src.refiner.CostRefiner import CostRefiner
    if case["kind"] == "direct":
        sp = I.spec(case["c"], case["A"], case["b"], 0, case["cont"])
        ci = instance(sp, ctx)
        orc = cont_oracle(sp)
        N, memo = orc.N, {}
        ref = call(CostRefiner, "CostRefiner", ci, use_acc_obj=True)
        for r in range(case.get("least", 2), N + 1):
            for S in itertools.combinations(range(N), r):
                for t in range(2, r + 1):
                    for bad in itertools.combinations(S, t):
                        S_ = list(S) if sum(bad) % 2 else list(S)[::-1]
                        v, L, Rt = call(ref.accurate_obj_split,
                                        "accurate_obj_split", S_, list(bad))
                        judge(orc, S, set(bad), v, L, Rt, memo, sp)
                        ctx.step()
                        ctx.trace()
                        ctx.state(sp["A"], sp["c"], sp["b"], S, bad)
        ctx.outcome("direct N%d" % N)
        ctx.sample(spec=sp)
        return
    if case["kind"] == "long":
        return long_lived(case, ctx)
    N, k = case["N"], case["k"]
    sp = coupled(N, k, case["var"])
    ci = instance(sp, ctx)
    orc = cont_oracle(sp)
    memo = {}
    R = requests(N, k)
    n2 = R if case["kind"] == "triples" else [None]
    for i, r2 in enumerate(R[::case.get("step", 1)]):
        for r3 in n2:
            ref = call(CostRefiner, "CostRefiner", ci, use_acc_obj=True)
            hist = []
            for P, V in [R[case["first"]], r2] + ([r3] if r3 else []):
                hist.append((P, V))
                x = point(N, V)
                call(ci.check_feasibility, "check_feasibility", x)
                if list(ci.infeasible_scenarios) != list(V):
                    raise AssertionError("pattern not realised")
                costs = [orc.subset(p) for p in P]
                ref.subset_costs = costs
                ref.vUB = [0.0, float(np.median(costs)), 1e3][i % 3]
                nb, Q = call(ref.refine, "refine", [list(p) for p in P], x)
                tree(orc, P, Q, set(V), memo, hist, sp)
                ctx.step()
                ctx.state(P, V, case["var"], sorted(map(sorted, Q)))
            ctx.trace()
    ctx.outcome("%s N%d k%d" % (case["kind"], N, k))
    ctx.sample(spec=sp)


def judge(orc, S, bad, v, L, R, memo, sp):
    info = dict(spec=sp, subset=list(S), violated=sorted(bad), left=L,
                right=R, value=v)
    if sorted(list(L) + list(R)) != sorted(S):
        raise Violation("the split is not a bipartition of the subset", **info)
    if not set(L) & bad or not set(R) & bad:
        raise Violation("a side has no violated scenario", **info)
    got = max(orc.subset(L), orc.subset(R))
    opt = best(orc, S, bad, memo)
    if abs(got - opt) > TOL * max(1, abs(opt)):
        raise Violation("the split is not the best one", best=opt, got=got,
                        **info)
    if abs(v - opt) > TOL * max(1, abs(opt)):
        raise Violation("the returned value is not that of the best split",
                        best=opt, **info)


def tree(orc, P, Q, bad, memo, hist, sp):
    """Each old subset was split by a sequence of best bipartitions."""
    def optimal_cut(A, B):
        got = max(orc.subset(A), orc.subset(B))
        opt = best(orc, A | B, bad, memo)
        return abs(got - opt) <= TOL * max(1, abs(opt))

    def ok(pieces):
        if len(pieces) == 1:
            return True
        for r in range(1, len(pieces)):
            for L in itertools.combinations(range(len(pieces)), r):
                if 0 not in L:
                    continue
                A = [pieces[i] for i in L]
                B = [pieces[i] for i in range(len(pieces)) if i not in L]
                ua, ub = frozenset().union(*A), frozenset().union(*B)
                if ua & bad and ub & bad and optimal_cut(ua, ub) \
                        and ok(A) and ok(B):
                    return True
        return False
    for p in P:
        pieces = [frozenset(q) for q in Q if set(q) <= set(p)]
        if len(pieces) > 1:
            if any(not f & bad for f in pieces) or not ok(pieces):
                raise Violation("a split of a refinement is not the best one "
                                "for the current violated scenarios",
                                partition=P, violated=sorted(bad), result=Q,
                                requests=hist, spec=sp)
