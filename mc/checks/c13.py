"""C13 — the feasibility verdict is exact."""
import itertools

import numpy as np

import instances as I
from core import Violation
from harness import call, instance, oracle_of, repo

CASE_SECONDS = 200
WHAT = ("real instance verdicts on every pair of consecutive points, where the "
        "points are all vertices/grid points, and those moved so that one "
        "scenario is exceeded by 5e-7, 2e-6, 1e-5 or 0.05; scenarios of up to 12 rows with "
        "every interval of rows exceeded, the largest excess anywhere; all (N,k) with every "
        "number of violated scenarios around k")
BOUNDS = dict(quick="n<=3, m<=2, N<=6; up to 12 rows with N<=8; all (N,k) N<=200, and "
              "40 tolerances for each of 8 larger N up to 5000",
              thorough="more instances, up to 17 rows, all (N,k) N<=500")
ASSUMPTIONS = ["violations between 0.8e-6 and 1.2e-6 are not judged"]


def cases(tier, seed):
    q = tier == "quick"
    top = 201 if q else 501
    for N in range(1, top):
        yield dict(kind="nk", N=N)
    for N in I.LARGE + (3000, 5000):
        ks = I.large_eps(N)
        for i in range(0, len(ks), 8):
            yield dict(kind="large", N=N, ks=ks[i:i + 8])
    fams = itertools.chain(
        itertools.islice(I.fam_n2((2, 3, 4)), 0, None, 37 if q else 5),
        itertools.islice(I.fam_n2m2((2, 3, 4)), 0, None, 13 if q else 2),
        itertools.islice(I.fam_rot(6, 3), 0, None, 53 if q else 7),
        I.catalogue([(5, 1, 3), (4, 2, 3), (3, 3, 2)], 8 if q else 40))
    for i, (c, A, b) in enumerate(fams):
        yield dict(kind="pts", c=c, A=A, b=b)
        if i % 4 == 0:       # large entries: the tolerance is absolute
            yield dict(kind="pts", c=c, b=[v * 1000 for v in b], A=[
                [[v * 1000 for v in r] for r in s] for s in A])
    for m in (4, 5, 7, 9, 12) if q else (4, 5, 6, 7, 8, 9, 10, 11, 12, 17):
        yield dict(kind="rows", m=m)


def truth(A, b, x):
    """(violated flags | None if too close to call, amounts)."""
    d = A @ x - b
    if ((d > 0.8e-6) & (d < 1.2e-6)).any():
        return None, None
    on = d > 1e-6
    nrm = np.linalg.norm(A, axis=2)
    nrm[nrm == 0] = 1
    return on.any(axis=1), np.where(on, d / nrm, 0).max(axis=1)


def judge(ci, A, b, x, ks, info):
    x0 = x.copy()
    bad, amt = truth(A, b, x)
    if bad is None:
        return False
    k = ks
    want = int(bad.sum()) <= k
    r = call(ci.is_feasible, "is_feasible", x)
    ok = call(ci.check_feasibility, "check_feasibility", x)
    info = dict(info, x=x.tolist(), violated=np.nonzero(bad)[0].tolist(), k=k)
    if bool(r[0]) != want or bool(ok) != want:
        raise Violation("wrong feasibility verdict", verdict=bool(r[0]),
                        check=bool(ok), true=want, **info)
    if int(r[1]) != int(bad.sum()):
        raise Violation("wrong number of violated scenarios",
                        value=int(r[1]), **info)
    if [bool(v) for v in r[3]] != bad.tolist():
        raise Violation("wrong violated scenarios", **info)
    if list(ci.infeasible_scenarios) != np.nonzero(bad)[0].tolist():
        raise Violation("wrong list of violated scenarios",
                        value=list(ci.infeasible_scenarios), **info)
    sat = np.asarray(call(ci.get_feasible_scenarios, "get_feasible_scenarios"))
    if sat.astype(bool).tolist() != (~bad).tolist():
        raise Violation("wrong satisfied scenarios", value=sat.tolist(), **info)
    v = np.asarray(call(ci.get_sum_infeasibility, "get_sum_infeasibility"),
                   float)
    if v.shape != amt.shape or not np.allclose(v, amt, atol=1e-9):
        raise Violation("wrong violation amounts", value=v.tolist(),
                        true=amt.tolist(), **info)
    if not np.array_equal(x, x0):
        raise Violation("the point was modified", **info)
    return True


def run_case(case, ctx):
    if case["kind"] == "nk":
        N = case["N"]
        A = [[[1.0 if j == s else 0.0 for j in range(N)]] for s in range(N)] \
            if N <= 12 else [[[1.0 + s]] for s in range(N)]
        n = len(A[0][0])
        path = I.path_of(I.spec([1] * n, A, [.5], 0, 1), ctx.scratch)
        for k in range(N):
            epss = [k / N, (k + .5) / N]
            for d in (1, 2, 3):
                e = round(k / N, d)
                if abs(e * N - k) < 1e-9 and e not in epss:
                    epss.append(e)
            for eps in epss:
                if eps == (k + .5) / N and N > 60:
                    continue
                ci = repo().ChanceKnapInstance(path, True, eps)
                near = {0, k - 1, k, k + 1, N} if N <= 60 else {k, k + 1}
                for v in sorted(near & set(range(N + 1))):
                    x = np.zeros(n)
                    if N <= 12:
                        x[:v] = 1
                    else:
                        # scenario s limits x to 0.5/(1+s): v largest violated
                        x[0] = 0.5 / (N - v + 0.5) if v < N else 1.0
                    r = call(ci.is_feasible, "is_feasible", x)
                    if bool(r[0]) != (v <= k) or int(r[1]) != v:
                        raise Violation(
                            "wrong feasibility verdict", N=N, k=k, eps=eps,
                            violated=v, verdict=bool(r[0]), count=int(r[1]))
                    ctx.step()
                ctx.state(N, k, eps)
                ctx.trace()
        ctx.outcome("nk")
        return
    if case["kind"] == "large":
        N = case["N"]
        path = I.path_of(I.spec([1], [[[1.0 + s]] for s in range(N)], [.5], 0,
                                1), ctx.scratch)
        for k, eps in case["ks"]:
            ci = repo().ChanceKnapInstance(path, True, eps)
            for v in (k, k + 1):
                x = np.array([0.5 / (N - v + 0.5) if v < N else 1.0])
                r = call(ci.is_feasible, "is_feasible", x)
                if bool(r[0]) != (v <= k) or int(r[1]) != v:
                    raise Violation(
                        "wrong feasibility verdict", N=N, k=k, eps=eps,
                        violated=v, verdict=bool(r[0]), count=int(r[1]))
                ctx.step()
            ctx.state(N, k, eps)
            ctx.trace()
        return
    if case["kind"] == "rows":
        return many_rows(case["m"], ctx)
    sp0 = I.spec(case["c"], case["A"], case["b"], 0, 1)
    orc = oracle_of(sp0)
    A, b, N = orc.A, orc.b, orc.N
    base = [x for x in orc.X] + [
        np.array(t) for t in itertools.product((0, .5, 1), repeat=orc.n)]
    base = base[::max(1, len(base) // 12)]
    pts = list(base)
    for x in base[:6]:
        for s in range(N):
            for d in (5e-7, 2e-6, 1e-5, 0.05, -5e-7):
                for i in range(orc.m):
                    row = A[s, i]
                    t = row @ x
                    if t > 0:
                        pts.append(x * ((b[i] + d) / t))
    pts = pts[::max(1, len(pts) // 22)]
    for k in range(N):
        ci = instance(dict(sp0, k=k), ctx)
        for x, y in itertools.product(pts, repeat=2):
            if judge(ci, A, b, x, k, dict(spec=sp0)):
                judge(ci, A, b, y, k, dict(spec=sp0, before=x.tolist()))
                ctx.step(2)
                ctx.trace()
        for x in pts:
            ctx.state(sp0["A"], sp0["b"], k, np.round(x, 8).tolist())
        ctx.outcome("pts N%d k%d" % (N, k))
    ctx.sample(spec=sp0, points=len(pts))



def many_rows(m, ctx):
    """Scenarios of m rows: every interval of rows is exceeded, by amounts that
    grow, fall, or peak in one place."""
    peaks = sorted({0, 1, 2, 3, m // 2, m - 2, m - 1})
    n = 2
    for lo in range(m):
        for hi in range(lo, m):
            A = []
            for peak in peaks:
                rows = []
                for i in range(m):
                    far = 4 + m - abs(i - peak)         # more than 3
                    rows.append([far, 2] if lo <= i <= hi else [1, 2])
                A.append(rows)
            A.append([[1, 1]] * m)
            sp = I.spec([1] * n, A, [3] * m, 2, 1)
            orc = oracle_of(sp)
            ci = instance(sp, ctx)
            for x in ((1, 0), (0, 1), (0.7, 0.1), (1, 1), (0, 0)):
                if judge(ci, orc.A, orc.b, np.array(x, float), 2,
                         dict(spec=sp)):
                    ctx.step()
                    ctx.trace()
                ctx.state("rows", m, lo, hi, x)
    ctx.outcome("rows")
