"""C22 — the incumbent search returns the best feasible candidate."""
import copy
import itertools

import numpy as np

import instances as I
from core import Violation
from harness import call, instance, oracle_of

CASE_SECONDS = 60
WHAT = ("LowerBounder.incumbent_bound on every list of candidates drawn from "
        "the relevant points of an instance with every pair of bounds; oracle "
        "by direct enumeration")
BOUNDS = dict(quick="lists of <=3 of up to 7 points; bounds from the attained "
              "values, +/-inf and values in between; n,m<=2 (3), N<=5, all k; "
              "rotations of lists of 12, 33, 70 and 140 candidates of which "
              "the best f are infeasible, 9 to 15 values of f",
              thorough="lists of <=4 of up to 8 points; a third of the listed instances; "
              "rotations of 11 lengths up to 520")
ASSUMPTIONS = ["candidate values on a bound up to 1e-8 count as the code "
               "documents (strictly improving, not above)"]


def specs(q):
    fams = [itertools.islice(I.fam_n1((3, 4)), 0, None, 9 if q else 2),
            itertools.islice(I.fam_n2((3, 4)), 0, None, 61 if q else 11),
            itertools.islice(I.fam_n2m2((3,)), 0, None, 9 if q else 2),
            itertools.islice(I.fam_rot(5, 3), 0, None, 97 if q else 17)]
    for f in fams:
        yield from I.with_k(f)
    # zero, equal and negative-free costs: ties between candidates
    for c in ((0, 0), (1, 1), (0, 1)):
        yield from I.with_k([(c, [[(3, 0)], [(0, 3)], [(1, 1)]], (2,))])


def cases(tier, seed):
    q = tier == "quick"
    for sp in specs(q):
        yield dict(sp=sp, r=3 if q else 4, pts=6 if q else 7)
    for r in (12, 33, 70, 140) if q else (9, 12, 17, 33, 40, 65, 70, 129, 140,
                                          260, 520):
        for cont in (0, 1):
            yield dict(long=r, cont=cont)


def points(orc, k, limit):
    X = list(orc.X)
    ok = orc.V.sum(axis=1) <= k
    order = sorted(range(len(X)), key=lambda i: (orc.obj[i], tuple(X[i])))
    feas = [i for i in order if ok[i]]
    inf = [i for i in order if not ok[i]]

    def pick(L, n):
        if len(L) <= n:
            return L
        return sorted(set(L[round(j * (len(L) - 1) / (n - 1))]
                          for j in range(n)))
    h = (limit + 1) // 2
    a, b = pick(feas, h), pick(inf, limit - min(h, len(feas)))
    return [np.array(X[i], float) for i in a + b]


def run_case(case, ctx):
    from src.LowerBounder import LowerBounder
    if "long" in case:
        return long_list(case["long"], case["cont"], ctx)
    sp = case["sp"]
    orc, k = oracle_of(sp), sp["k"]
    ci = instance(sp, ctx)
    lb = call(LowerBounder, "LowerBounder", ci)
    pts = points(orc, k, case["pts"])
    vals = sorted(set(float(orc.c @ p) for p in pts))
    feas = [orc.feasible(p, k) for p in pts]
    bounds = [-np.inf] + vals + [(a + b) / 2 for a, b in
                                 zip(vals, vals[1:])][:2]
    ubs = [np.inf] + vals + [vals[0] - 1]
    # just above and below a value
    edge = [v + d for v in (vals[-1], vals[len(vals) // 2])
            for d in (5e-7, -5e-7)]
    bounds, ubs = bounds + edge, ubs + edge
    for r in range(0, case["r"] + 1):
        for idx in itertools.product(range(len(pts)), repeat=r):
            if r > 2 and len(set(idx)) < r:
                continue
            cand = [pts[i].copy() for i in idx]
            for vub in ubs:
                for vlb in bounds:
                    if vlb > vub:
                        continue
                    probe(lb, orc, idx, pts, feas, cand, vub, vlb, sp, ctx)
            ctx.state(sp["A"], k, idx)
    ctx.sample(spec=sp, candidates=[p.tolist() for p in pts])


def probe(lb, orc, idx, pts, feas, cand, vub, vlb, sp, ctx):
    found, x, obj = call(lb.incumbent_bound, "incumbent_bound", cand, vub,
                         vlb, verbose=False)
    ctx.step()
    ctx.trace()
    val = {i: float(orc.c @ pts[i]) for i in idx if feas[i]}

    def fuzzy(v):        # on the upper bound, up to rounding of the product
        return v != round(v) and 0 < abs(v - vub) < 1e-9 or (
            v != round(v) and v == vub)
    good = [v for v in val.values() if (v <= vub or fuzzy(v)) and
            v >= vlb + 1e-8]
    if any(fuzzy(v) for v in good):
        ctx.count("skipped_on_rounding_edge")
        return
    info = dict(spec=sp, candidates=[pts[i].tolist() for i in idx],
                feasible=[feas[i] for i in idx], vUB=vub, vLB=vlb,
                found=bool(found), obj=obj,
                x=None if x is None else np.asarray(x).tolist())
    if len(cand) != len(idx) or any(
            not np.array_equal(cand[j], pts[i]) for j, i in enumerate(idx)):
        raise Violation("the candidates were altered", **info)
    if not good:
        if found or x is not None or obj is not None:
            raise Violation("an improvement is reported where there is none",
                            **info)
        ctx.outcome("none")
        return
    if not found:
        raise Violation("an improving feasible candidate is missed",
                        best=max(good), **info)
    if abs(obj - max(good)) > 1e-9:
        raise Violation("not the best improving feasible candidate",
                        best=max(good), **info)
    if not any(feas[i] and np.array_equal(pts[i], x) and
               abs(float(orc.c @ pts[i]) - obj) < 1e-9 for i in idx):
        raise Violation("the returned solution is not a feasible candidate "
                        "with the returned value", **info)
    ctx.outcome("found")


def long_list(r, cont, ctx):
    """r candidates of different values: the first f of them by value are
    infeasible, and their places in the list run through every rotation of
    several orders."""
    from src.LowerBounder import LowerBounder
    n = 4 if cont else r.bit_length()
    if cont:                 # values 1..r along one coordinate
        c = [r + 3] + [1] * (n - 1)
        P = [np.array([(i + 1.0) / r] + [0] * (n - 1)) for i in range(r)]
    else:                    # the numbers 1..r in binary
        c = [2 ** i for i in range(n)]
        P = [np.array([(i + 1) >> j & 1 for j in range(n)], float)
             for i in range(r)]
    for f in sorted({0, 1, 2, 5, r // 4, r // 2, r - 2, r - 1, r} |
                    {t for t in (20, 31, 32, 33, 64, 100) if t < r}):
        # value above which two of the three scenarios are violated
        cut = round((r - f + .5) * ((r + 3) / r if cont else 1), 1)
        A = [[list(map(float, c))], [list(map(float, c))], [[0.0] * n]]
        sp = I.spec(c, A, [cut], 1, cont)
        orc = oracle_of(sp)
        ci = instance(sp, ctx)
        lb = call(LowerBounder, "LowerBounder", ci)
        feas = [orc.feasible(p, 1) for p in P]
        vals = [float(orc.c @ p) for p in P]
        turns = range(r) if r <= 33 else range(0, r, r // 16)
        for order in (1, -1):
            for t in turns:
                idx = [(t + order * j) % r for j in range(r)]
                cand = [P[i].copy() for i in idx]
                for vub in (np.inf, vals[-1] + 1, vals[r // 2] + .1):
                    for vlb in (-np.inf, vals[max(0, r - f - 2)] + .1):
                        if vlb <= vub:
                            probe(lb, orc, idx, P, feas, cand, vub, vlb, sp,
                                  ctx)
            ctx.state("long", r, cont, f, order)
