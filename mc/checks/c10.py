"""C10 — the compiled violation kernel computes exact knapsack maxima."""
import itertools

import numpy as np

from core import Violation
from harness import call
from oracle import arrangement

CASE_SECONDS = 200
WHAT = ("every ordered pair of scenarios whose rows come from a grid is given "
        "to the compiled kernel and to the Python implementation and compared "
        "with the maximum over every vertex of the box cut by one row (wide "
        "rows: an independent greedy)")
BOUNDS = dict(quick="n<=3 with entries {0,1,2,5} (all 4^n rows, m=1; all pairs "
              "of 8 rows, m=2), capacities {0.5,2,3,7.5}; rotations of rows of "
              "17 to 100 items; 70 and 130 scenarios of few different rows",
              thorough="entries {0,0.1,1,2,5}, n<=4, all row orders, m=3; "
              "widths 17..40 and up to 300; up to 400 scenarios")
ASSUMPTIONS = ["data have one decimal, as the instance reader guarantees"]


def rows(n, vals):
    return [list(r) for r in itertools.product(vals, repeat=n)]


def cases(tier, seed):
    q = tier == "quick"
    vals = (0, 1, 2, 5) if q else (0, 0.1, 1, 2, 5)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        R = rows(n, vals if n < 4 else (0, 1, 3))
        step = 64 if q else 45
        for bs in itertools.product((0.5, 2, 3, 7.5), repeat=2):
            for lo in range(0, len(R), step):
                for rev in (0, 1):
                    # block of left rows against all rows
                    blk = R[lo:lo + step]
                    oth = R if len(R) <= 64 else None
                    if oth is None:
                        for l2 in range(lo, len(R), step):
                            yield dict(kind="m1", A=blk + R[l2:l2 + step],
                                       bs=bs, rev=rev)
                    else:
                        yield dict(kind="m1", A=blk, bs=bs, rev=rev)
    # entries and capacities of very different sizes
    R = rows(2, (0, 0.1, 3, 4000))
    for bs in itertools.product((0.1, 5, 30000, 4e7), repeat=2):
        for rev in (0, 1):
            yield dict(kind="m1", A=R, bs=bs, rev=rev)
    # all but a little of a large capacity is used up
    R = list(itertools.product((0, 1999.9, 3000), (0, 2000, 2999.9),
                               (0, 0.1, 5000)))
    for bs in itertools.product((2000, 2000.1, 4999.9, 5000), repeat=2):
        for rev in (0, 1):
            yield dict(kind="m1", A=R, bs=bs, rev=rev)
    base = [[0, 0, 0], [0, 1, 2], [2, 0, 1], [3, 3, 0], [1, 1, 1], [0, 0, 5],
            [5, 2, 1], [0.1, 4, 0]]
    for m in (2,) if q else (2, 3):
        sc = list(itertools.product(range(len(base)), repeat=m))
        bl = list(itertools.product((1, 2.5, 6), repeat=m))
        for i, b in enumerate(bl):
            for sh in range(0, len(sc), 64):
                yield dict(kind="mm", A=[[base[j] for j in s]
                                         for s in sc[sh:sh + 64]],
                           b=list(b), var=i % 2)
    # maxima that are nearly the same for the constraints of a scenario
    near = [[1000, 0, 3000], [0, 4000, 100], [5, 2, 1], [1, 2000, 7],
            [3000, 3000, 0], [0.1, 7000, 900]]
    sc = list(itertools.product(range(len(near)), repeat=2))
    for i, b in enumerate(itertools.product((1, 1.1, 1.2, 6), repeat=2)):
        yield dict(kind="mm", A=[[near[j] for j in s] for s in sc],
                   b=list(b), var=i % 2)
    # many scenarios, few different entries
    for N in (70, 130) if q else (70, 130, 260, 400):
        R = list(itertools.product((0, 1, 3), (0, 0.1, 1, 2, 4, 5, 7)))
        for t in range(2):
            bs = ((0.5, 3), (2, 7.5))[t]
            yield dict(kind="m1", A=[R[(i * i // 3 + t * i) % len(R)]
                                     for i in range(N)], bs=bs, rev=t)
    for n in (17, 24, 40, 64, 100) if q else list(range(17, 41)) + [
            64, 65, 100, 129, 300]:
        for pat in range(6 if q else 12):
            yield dict(kind="wide", n=n, pat=pat)


def exact_small(p, w, cap):
    """max p.x s.t. w.x <= cap over the box, by vertices."""
    X = arrangement(np.array([w], float), np.array([cap], float))
    ok = X @ w <= cap + 1e-9
    return float((X[ok] @ p).max())


def exact_wide(p, w, cap):
    v, left = 0.0, cap
    items = []
    for a, b in zip(p, w):
        if b == 0:
            v += a
        else:
            items.append((a / b, a, b))
    for r, a, b in sorted(items, reverse=True):
        t = min(1.0, left / b)
        if t <= 0:
            break
        v += a * t
        left -= b * t
    return v


def check(A, b, ctx, what, exact, python=True, diag=True):
    """A [N,m,n], b [N,m]."""
    from violations import compute_all_violations as fast
    from src.song_big_m import compute_all_violations as slow
    N, m, n = A.shape
    memo = {}

    def mx(s, i, t, l):
        key = (tuple(A[s, i]), tuple(A[t, l]), b[t, l])
        if key not in memo:
            memo[key] = exact(A[s, i], A[t, l], b[t, l])
        return memo[key] - b[s, i]
    A0, b0 = A.copy(), b.copy()
    res = [("compiled", call(fast, "compute_all_violations", A, b))]
    if python:
        res.append(("python", call(slow, "song_big_m.compute_all_violations",
                                   A, b)))
    if not (np.array_equal(A, A0) and np.array_equal(b, b0)):
        raise Violation("the instance data were modified", A=A0, b=b0)
    again = call(fast, "compute_all_violations", A, b)
    if not np.allclose(again, res[0][1], atol=1e-6):
        raise Violation("a second call gives other values", A=A0, b=b0)
    for s in range(N):
        for t in range(N):
            for i in range(m):
                true = min(mx(s, i, t, l) for l in range(m))
                if s != t:
                    for name, r in res:
                        v = float(r[s, t, i])
                        if not abs(v - true) <= 1e-5 * max(1, abs(true)):
                            raise Violation(
                                "%s: wrong maximum violation" % name,
                                row=A[s, i], capacity=float(b[s, i]),
                                against=A[t], capacities=b[t],
                                value=v, true=true)
                elif diag:
                    X = arrangement(A[s], b[s])
                    ok = (X @ A[s].T <= b[s] + 1e-9).all(axis=1)
                    need = float((X[ok] @ A[s, i]).max()) - b[s, i]
                    for name, r in res:
                        v = float(r[s, s, i])
                        if not need - 1e-6 <= v <= 1e-6:
                            raise Violation(
                                "%s: diagonal value is not a valid bound"
                                % name, rows=A[s], capacities=b[s],
                                constraint=i, value=v, needed=need)
                ctx.step()
    ctx.trace(N * N * m)
    ctx.state(what, A.tobytes(), b.tobytes())
    for key in memo:
        ctx.state(key)
    ctx.outcome(what)


def run_case(case, ctx):
    if case["kind"] == "m1":
        A = np.array(case["A"], float)[:, None, :]
        if case["rev"]:
            A = A[::-1].copy()
        bs = case["bs"]
        b = np.array([[bs[(s // 2 + s) % 2]] for s in range(len(A))], float)
        check(np.ascontiguousarray(A), b, ctx, "m1 n%d" % A.shape[2],
              exact_small)
    elif case["kind"] == "mm":
        A = np.array(case["A"], float)
        N, m, n = A.shape
        b = np.broadcast_to(np.array(case["b"], float), (N, m)).copy()
        if case["var"]:
            b[1::2] = b[1::2][:, ::-1]
        check(A, b, ctx, "m%d" % m, exact_small)
    else:
        n, pat = case["n"], case["pat"]
        j = np.arange(n)
        pats = [(j * 7) % 5, (j * 3) % 11, (j % 2) * 4, np.full(n, 3),
                (j * j) % 7, np.where(j == 3, 9, 0)]
        rowsA = []
        for s in range(6):
            r1 = np.roll(pats[(pat + s) % 6], s + pat)
            r2 = np.roll(pats[(pat + 2 * s + 1) % 6], 3 * s)
            if s % 2:
                r1 = r1 / 10.0
            rowsA.append([r1, r2])
        A = np.array(rowsA, float)
        tot = A.sum(axis=2)
        f = np.array([0.1, 0.3, 0.5, 0.9, 1.2, 0.02])[:, None]
        b = np.round(np.maximum(tot * np.roll(f, pat), 0.1), 1)
        check(A, b, ctx, "wide", exact_wide, diag=False)
    ctx.sample(kind=case["kind"])
