"""C11 — the projection step yields valid, history-free lower bounds."""
import itertools

import numpy as np

import answers
import instances as I
from core import Violation
from harness import call, instance, oracle_of

ANSWERS = True
CONTRACT = 1e-4
CASE_SECONDS = 200
WHAT = ("all sequences of projected points x non-decreasing lower bounds on a "
        "long-lived real LowerBounder; every answer is compared with the "
        "brute-force optimum over a smallest sufficient set of least violated "
        "(most often satisfied) scenarios, ties either way")
BOUNDS = dict(quick="N<=6, m<=2, n<=3; 4 points, sequences of 3, bounds "
              "{-inf, below (far or just), optimum, above}; every (N,k) with N<=41, and 40 tolerances for each N in "
              "{144,270,500,999,1000,1999}, for the "
              "number of enforced scenarios; excesses of 0.0012 to 0.025 in "
              "every order; counter histories of 3N+2, 150 and 300 saves",
              thorough="5 points and sequences of 4 for more instances")
ASSUMPTIONS = ["Gurobi solves the deterministic problem within its 1e-4 gap"]


def cases(tier, seed):
    q = tier == "quick"
    fams = itertools.chain(
        itertools.islice(I.fam_n2((4,)), 0, None, 131 if q else 9),
        itertools.islice(I.fam_n2m2((3, 4)), 0, None, 97 if q else 9),
        itertools.islice(I.fam_rot(6, 3), 0, None, 251 if q else 23),
        I.catalogue([(5, 1, 3), (6, 2, 3), (4, 3, 2)], 2 if q else 16,
                    hi=9, zero=3))
    for lo in range(2, 41 if q else 101, 2):
        yield dict(kind="size", lo=lo, hi=lo + 2)
    for N in I.LARGE:
        ks = I.large_eps(N)
        for i in range(0, len(ks), 6):
            yield dict(kind="large", N=N, ks=ks[i:i + 6])
    for N in (2, 3, 4):
        for k in range(1, N):
            yield dict(kind="long", N=N, k=k, L=3 * N + 2)
    for L in (150, 300) if q else (130, 150, 300, 40000):
        for k in (1, 2) if L < 1000 else (1,):
            yield dict(kind="long", N=3, k=k, L=L)
    for N in (3, 4) if q else (3, 4, 5):
        for t, d in enumerate(itertools.combinations(SMALL, N)):
            if q and N == 4 and t % 3:
                continue
            yield dict(kind="fine", N=N, d=d)
    # the solver stops where its gap allows, with any valid bound
    for t, (c, A, b) in enumerate(I.catalogue(
            [(4, 1, 4), (5, 2, 4), (4, 3, 3)], 2 if q else 8, hi=99, zero=5)):
        for k in (1, 2):
            for rule in ("rescaled_max_violation", "counter"):
                yield dict(sp=I.spec([v * 100 for v in c], A, b, k, 0),
                           rule=rule, pts=3, depth=2, loose=1, near=0)
    for t, (c, A, b) in enumerate(fams):
        for k in range(1 if len(A) > 3 else 0, len(A)):
            if (t + k) % 2 and q:
                continue
            for cont in (0, 1):
                for rule in ("rescaled_max_violation", "counter"):
                    yield dict(sp=I.spec(c, A, b, k, cont), rule=rule,
                               pts=4 if q else 5, depth=3,
                               near=(t // 2 + k + cont) % 2)


# violations around the amount from which one counts
SMALL = (0, 0.0012, 0.003, 0.007, 0.012, 0.018, 0.025)


def amounts(orc, x):
    v = np.maximum(orc.A @ x - orc.b, 0)
    v[v < 1e-3] = 0
    nrm = np.linalg.norm(orc.A, axis=2)
    nrm[nrm == 0] = 1
    return (v / nrm).max(axis=1)


def valid_sets(key, need):
    """All sets of `need` scenarios with the smallest key, ties either way."""
    order = np.sort(key)
    t = order[need - 1]
    must = [s for s in range(len(key)) if key[s] < t - 1e-9]
    tied = [s for s in range(len(key)) if abs(key[s] - t) <= 1e-9]
    for extra in itertools.combinations(tied, need - len(must)):
        yield must + list(extra)


def pick_points(orc, k, want):
    X = [np.zeros(orc.n), np.ones(orc.n)] + [x for x in orc.X] + [
        0.5 * (x + y) for x, y in zip(orc.X[:-1:3], orc.X[1::3])]
    seen, out, rest = set(), [], []
    for x in X:
        a = amounts(orc, x)
        sig = tuple(np.round(np.argsort(a, kind="stable"), 0)) + (
            int((a > 0).sum()),)
        if int((a > 0).sum()) <= k:
            rest.append(x)
        elif sig not in seen:
            seen.add(sig)
            out.append(x)
    out = out[::max(1, len(out) // max(1, want - 1))][:want - 1]
    return (out + rest)[:want]


def single(weights, b, k):
    """One variable, one constraint per scenario: the optimum b/max(w) over a
    set of scenarios reveals the heaviest scenario in it."""
    return I.spec([1], [[[float(w)]] for w in weights], [b], k, 1)


def size(N, k, eps, ctx):
    from src.LowerBounder import LowerBounder
    unit = 1 if N < 100 else 10     # values are compared with 1e-4 relative
    sp = dict(single(range(unit, unit * N + unit, unit), 0.5 * unit, k),
              eps=eps)
    ci = instance(sp, ctx)
    lb = call(LowerBounder, "LowerBounder", ci)
    call(lb.save_feasible_scenarios, "save_feasible_scenarios",
         np.zeros(N, bool))
    lb.vLB = -np.inf
    y, v = call(lb.deterministic_bound, "deterministic_bound", np.ones(1))
    # x = 1 violates scenario s by 1 - 0.5/(s+1): smallest first
    true = 0.5 / (N - k)
    if y is None or abs(v - true) > 2e-4 * true:
        raise Violation("the projection does not enforce the smallest "
                        "sufficient set of least violated scenarios", N=N,
                        k=k, eps=eps, value=v, expected=true)
    ctx.step()
    ctx.trace()
    ctx.state("size", N, k, eps)


def sizes(case, ctx):
    """the number of enforced scenarios, for every (N, k) of a range"""
    if case["kind"] == "large":
        for k, eps in case["ks"]:
            size(case["N"], k, eps, ctx)
        return
    for N in range(case["lo"], case["hi"]):
        for k in range(N):
            for eps in {k / N, (k + .5) / N} | {
                    e for e in (round(k / N, 2),) if abs(e * N - k) < 1e-9}:
                size(N, k, eps, ctx)
    ctx.outcome("sizes")


def long_history(case, ctx):
    """counter rule over many saves: every order of the scenarios' totals"""
    from src.LowerBounder import LowerBounder
    N, k, L = case["N"], case["k"], case["L"]
    sp = single(range(1, N + 1), 0.5, k)
    ci = instance(sp, ctx)
    for stop in itertools.product((1, L // 2, L - 1, L), repeat=N):
        lb = call(LowerBounder, "LowerBounder", ci,
                  projection_method="counter")
        for t in range(L):
            call(lb.save_feasible_scenarios, "save_feasible_scenarios",
                 np.array([t < e for e in stop]))
        lb.vLB = -np.inf
        y, v = call(lb.deterministic_bound, "deterministic_bound", np.ones(1))
        vals = [0.5 / (1 + max(S)) for S in valid_sets(
            -np.array(stop, float), N - k)]
        if y is None or not any(abs(v - t) <= 2e-4 * t for t in vals):
            raise Violation("the projection does not enforce the scenarios "
                            "that were satisfied most often", N=N, k=k,
                            satisfied=stop, value=v, allowed=vals)
        ctx.step()
        ctx.trace()
        ctx.state("long", N, k, stop)
    ctx.outcome("long history")


def fine(case, ctx):
    """Scenario s limits item s only: x exceeds each limit by a given amount,
    and the optimum tells which limits were enforced."""
    from src.LowerBounder import LowerBounder
    N = case["N"]
    w = [2.0, 20.0, 4.0, 2.0, 10.0][:N]
    A = [[[w[s] if j == s else 0 for j in range(N)]] for s in range(N)]
    for k in range(1, N):
        sp = I.spec([2 ** s for s in range(N)], A, [1], k, 1)
        orc, ci = oracle_of(sp), instance(sp, ctx)
        for d in itertools.permutations(case["d"]):
            x = np.array([(1 + d[s]) / w[s] for s in range(N)])
            lb = call(LowerBounder, "LowerBounder", ci)
            call(lb.save_feasible_scenarios, "save_feasible_scenarios",
                 ~orc.violations_of(x))
            lb.vLB = -np.inf
            y, v = call(lb.deterministic_bound, "deterministic_bound",
                        x.copy())
            vals = [orc.subset(S) for S in valid_sets(amounts(orc, x), N - k)]
            judge(y, v, vals, -np.inf, orc, k, sp, dict(exceeded_by=d))
            ctx.step()
            ctx.trace()
            ctx.state("fine", N, k, d)
    ctx.outcome("fine N%d" % N)


def run_case(case, ctx):
    from src.LowerBounder import LowerBounder
    if case.get("kind") in ("size", "large"):
        return sizes(case, ctx)
    if case.get("kind") == "long":
        return long_history(case, ctx)
    if case.get("kind") == "fine":
        return fine(case, ctx)
    sp = case["sp"]
    orc, k, N = oracle_of(sp), sp["k"], len(sp["A"])
    ci = instance(sp, ctx)
    need = N - k
    P = pick_points(orc, k, case["pts"])
    opt = orc.opt(k)
    low = opt - 5e-5 * max(1, opt) if case.get("near") else 0.6 * opt
    levels = [-np.inf, low, opt, 1.5 * opt + 1]
    memo = {}

    def opt_of(S):
        S = tuple(sorted(S))
        if S not in memo:
            memo[S] = orc.subset(S)
        return memo[S]

    for seq in itertools.product(range(len(P)), repeat=case["depth"]):
        for lv in itertools.combinations_with_replacement(
                range(len(levels)), case["depth"]):
            if lv[0] == len(levels) - 1:
                continue
            if (sum(seq) + sum(lv)) % 2 and case["rule"] == "counter":
                continue     # thinned, deterministic
            lb = call(LowerBounder, "LowerBounder", ci,
                      projection_method=case["rule"])
            count = np.zeros(N)
            for step, (p, l) in enumerate(zip(seq, lv)):
                x = P[p]
                sat = ~orc.violations_of(x)
                call(lb.save_feasible_scenarios, "save_feasible_scenarios",
                     np.array(sat))
                count += sat
                key = amounts(orc, x) if case["rule"] != "counter" else -count
                lb.vLB = levels[l]
                x0 = x.copy()
                turn = sum(seq) * 3 + sum(lv) + step
                with answers.answer(
                        lambda model: case.get("loose") and model.NumIntVars,
                        lambda model, pool: answers.within_gap(
                            model, pool, turn)):
                    y, v = call(lb.deterministic_bound, "deterministic_bound",
                                x)
                if not np.array_equal(x, x0):
                    raise Violation("the projected solution was modified",
                                    spec=sp)
                vals = [opt_of(S) for S in valid_sets(key, need)]
                ctx.step()
                judge(y, v, vals, levels[l], orc, k, sp,
                      dict(rule=case["rule"], sequence=[P[i].tolist()
                           for i in seq[:step + 1]],
                           bounds=[levels[i] for i in lv[:step + 1]]))
                ctx.state(sp["A"], k, case["rule"], seq[:step + 1],
                          lv[:step + 1])
            ctx.trace()
    ctx.outcome("%s N%d k%d" % (case["rule"], N, k))
    ctx.sample(spec=sp)


def judge(y, v, vals, vLB, orc, k, sp, info):
    tol = 2e-4
    info = dict(info, spec=sp, allowed_optima=sorted(set(
        round(t, 6) for t in vals)), value=v,
        x=None if y is None else np.asarray(y).tolist())
    if y is None:
        if min(vals) > vLB + 1e-5 * max(1, abs(vLB)):
            raise Violation("no projection although there is one above the "
                            "lower bound", **info)
        if v > vLB:
            raise Violation("no projection but a value", **info)
        return
    y = np.asarray(y, float)
    if v < vLB - 1e-5 * max(1, abs(vLB)):
        raise Violation("projection below the current lower bound", **info)
    if orc.violations_of(y, 2e-6).sum() > k:
        raise Violation("the projected solution is not feasible", **info)
    if (y < -1e-6).any() or (y > 1 + 1e-6).any() or (
            not sp["cont"] and (abs(y - np.round(y)) > 1e-5).any()):
        raise Violation("the projected solution is not in the domain", **info)
    if abs(float(orc.c @ y) - v) > 1e-5 * max(1, abs(v)):
        raise Violation("the value is not that of the projected solution",
                        **info)
    if not any(abs(v - t) <= tol * max(1, abs(t)) for t in vals):
        raise Violation("the projection is not the optimum over the least "
                        "violated scenarios", **info)
