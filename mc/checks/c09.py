"""C09 — big-M values never cut off a feasible solution."""
import itertools

import numpy as np

import instances as I
import answers
from core import Violation
from harness import call, instance, oracle_of, repo
from oracle import FEAS, arrangement, cube

ANSWERS = True
CASE_SECONDS = 120
WHAT = ("real BigMFinder on the original instance and on every partition; each "
        "value is compared with the largest violation over every "
        "chance-feasible point (all binary points; all vertices of the "
        "arrangement of all rows, the box and the objective cut); every ordered "
        "pair of updates of one finder (partitions of one size, two upper "
        "bounds, methods in turn) is compared with a fresh finder")
BOUNDS = dict(quick="n<=3, m<=2, N<=5, all k, all partitions with >=k+1 "
              "subsets (thinned families); one finder over all partitions "
              "of 6 and 7 scenarios; subsets of up to 41 scenarios (n=1)",
              thorough="the families completely, N<=6")
ASSUMPTIONS = ["the extreme violation over the chance-feasible set is attained "
               "at a vertex of the arrangement",
               "Gurobi's dual bound is valid on one-row knapsacks"]
METHODS = ("naive", "belotti", "song")


def fams(q):
    sh = [(4, 1, 3), (5, 1, 3), (4, 2, 3), (5, 2, 2), (3, 2, 3)]
    fams = [
        itertools.islice(I.fam_n1((1, 2, 3, 4)), 0, None, 7 if q else 1),
        itertools.islice(I.fam_n2((2, 3, 4)), 0, None, 13 if q else 2),
        itertools.islice(I.fam_n2m2((2, 3, 4)), 0, None, 11 if q else 1),
        itertools.islice(I.fam_rot(5, 3), 0, None, 41 if q else 3),
        I.catalogue(sh if q else sh + [(6, 1, 3), (6, 2, 2)], 6 if q else 40,
                    hi=9, zero=3),
    ]
    return itertools.chain(*fams)


def cases(tier, seed):
    q = tier == "quick"
    for i, (c, A, b) in enumerate(fams(q)):
        for cont in (0, 1):
            yield dict(kind="full", c=c, A=A, b=b, cont=cont)
            if len(A) <= 4 or not q:
                yield dict(kind="part", c=c, A=A, b=b, cont=cont)
            if len(A) <= 4 and (not q or (i + cont) % 6 == 0):
                yield dict(kind="pairs", c=c, A=A, b=b, cont=cont,
                           method=METHODS[i // 6 % 3] if q else None)
    # many partitions of few different entries: sums often agree
    for i, (c, A, b) in enumerate(I.catalogue(
            [(5, 1, 3), (5, 2, 2), (5, 1, 2)], 4 if q else 24, hi=4, zero=2)):
        yield dict(kind="pairs", c=c, A=A, b=b, cont=i % 2, method="song")
    for i, (c, A, b) in enumerate(I.catalogue(
            [(6, 1, 3), (6, 2, 2), (7, 1, 3)], 4 if q else 24, hi=9, zero=3)):
        yield dict(kind="long", c=c, A=A, b=b, cont=i % 2)
    # subsets of many scenarios
    for N in (24, 45) if q else (24, 33, 45, 90):
        for G in (2, 3, 5):
            for t in range(3):
                yield dict(kind="many", c=[1], b=[2] if t else [2, 3], cont=1,
                           G=G, t=t, A=[[[round(.1 * ((s * (7, 1, N - 1)[t]
                                                       + G) % N), 1)]] if t
                                        else [[s / 10], [(N - s) / 10]]
                                        for s in range(N)])
    # the solver of the one-row problems stops where its gap allows
    for i, (a, b) in enumerate(itertools.product(
            ((10000, 0.5), (3000, 2000, 0.2), (100, 99.9), (5, 4)),
            (6000, 1.2))):
        n = len(a)
        for t in range(2 if q else 8):
            yield dict(kind="loose", c=[1 + (j + t) % 3 for j in range(n)],
                       A=[[list(a)], [list(a[::-1])], [[0.0] * n]],
                       b=[b], cont=0)


def loose(sp0, N, ctx):
    """Every answer of the optimizer within the gap it is asked for."""
    R = repo()
    for k in range(N):
        sp = dict(sp0, k=k)
        ci = instance(sp, ctx)
        groups = [[s] for s in range(N)]
        for vUB in bounds_for(sp, k) + [float(sum(sp["c"]))]:
            need = needed(sp, points(sp, vUB), groups, k, vUB)
            for worst, hi in itertools.product((0, 1), (0, 1)):
                def pick(model, pool):
                    g = model.Params.MIPGap
                    P = pool(levels=(.99999, .9999, .999))
                    best = P[0][0]
                    P = [p for p in P if best - p[0] <= g * abs(p[0])]
                    p = P[-1 if worst else 0]
                    return p, max(best, p[0] + g * abs(p[0]) if hi
                                  else best), "gap"
                f = call(R.BigMFinder, "BigMFinder", ci)
                with answers.answer(
                        lambda model: model.NumVars == len(sp["c"]) and
                        model.ModelSense < 0, pick):
                    call(f.run_belotti_et_al_big_M, "belotti", vUB)
                valid([f.get_vector_big_M(s) for s in range(N)], need,
                      "belotti, solver within its gap", spec=sp, vUB=vUB)
                ctx.step()
                ctx.trace()
            ctx.state("loose", sp["A"], sp["c"], k, vUB)
    ctx.outcome("loose N%d" % N)


def points(sp, vUB):
    c, A, b = I.as_arrays(sp)
    N, m, n = A.shape
    if sp["cont"]:
        X = arrangement(np.vstack([A.reshape(N * m, n), c[None]]),
                        np.append(np.broadcast_to(b, (N, m)).ravel(), vUB))
    else:
        X = cube(n)
    return X


def needed(sp, X, groups, k, vUB=None):
    """[G][rows]: largest A_si x - b_i over the chance-feasible points."""
    c, A, b = I.as_arrays(sp)
    V = (np.einsum("smn,xn->xsm", A, X) - b)           # x, s, i
    bad = (V > 1e-7).any(axis=2)
    gb = np.column_stack([bad[:, list(g)].any(axis=1) for g in groups])
    ok = gb.sum(axis=1) <= k
    if vUB is not None:
        ok &= X @ c <= vUB + 1e-9
    if not ok.any():
        return None
    W = V[ok].max(axis=0)
    return [np.concatenate([W[s] for s in g]) for g in groups]


def valid(ms, need, what, **kw):
    if need is None:
        return
    for g, w in enumerate(need):
        m = np.asarray(ms[g], float)
        if m.shape != w.shape:
            raise Violation("%s: wrong number of values for a subset" % what,
                            subset=g, values=m.tolist(), **kw)
        if not np.isfinite(m).all() or (m < w - 1e-6).any():
            raise Violation("%s: a value cuts off a feasible solution" % what,
                            subset=g, values=m.tolist(), needed=w.tolist(),
                            **kw)


def run_case(case, ctx):
    sp0 = I.spec(case["c"], case["A"], case["b"], 0, case["cont"])
    N = len(case["A"])
    if case["kind"] == "loose":
        loose(sp0, N, ctx)
    elif case["kind"] == "many":
        many(case, sp0, N, ctx)
    elif case["kind"] == "long":
        long_song(sp0, N, ctx)
    elif case["kind"] == "pairs":
        pairs(sp0, N, ctx, [case["method"]] if case["method"] else METHODS)
    else:
        (full if case["kind"] == "full" else part)(sp0, N, ctx)
    ctx.sample(spec=sp0)


def bounds_for(sp, k):
    o = oracle_of(sp)
    v = o.opt(k)
    single = sorted(o.subset([s]) for s in range(o.N))
    return sorted({v, single[min(k, o.N - 1)], 0.5 * v})


def full(sp0, N, ctx):
    R = repo()
    for k in range(N):
        sp = dict(sp0, k=k)
        ci = instance(sp, ctx)
        groups = [[s] for s in range(N)]
        for vUB in bounds_for(sp, k):
            X = points(sp, vUB)
            finder = call(R.BigMFinder, "BigMFinder", ci)
            any_ = needed(sp, X, groups, k)
            valid([finder.get_vector_big_M(s) for s in range(N)], any_,
                  "naive", spec=sp)
            for order in (("belotti",), ("song",), ("song", "belotti"),
                          ("belotti", "song")):
                f = call(R.BigMFinder, "BigMFinder", ci)
                for m in order:
                    if m == "belotti":
                        call(f.run_belotti_et_al_big_M, m, vUB)
                    else:
                        call(f.run_song_et_al_big_m, m, ci)
                    ms = [f.get_vector_big_M(s) for s in range(N)]
                    valid(ms, needed(sp, X, groups, k,
                                     vUB if m == "belotti" else None),
                          m, spec=sp, vUB=vUB, order=order)
                    ctx.step()
                ctx.trace()
            ctx.state(sp["c"], sp["A"], sp["b"], sp["cont"], k, vUB)
        # one finder with every ordered pair of bounds
        f = call(R.BigMFinder, "BigMFinder", ci)
        vs = bounds_for(sp, k)
        X = [points(sp, v) for v in vs]
        last = None
        for i in walk(len(vs)):
            call(f.run_belotti_et_al_big_M, "belotti", vs[i])
            valid([f.get_vector_big_M(s) for s in range(N)],
                  needed(sp, X[i], groups, k, vs[i]), "belotti, again",
                  spec=sp, vUB=vs[i], previous=last)
            last = vs[i]
            ctx.step()
        ctx.trace()
    ctx.outcome("full N%d" % N)


def part(sp0, N, ctx):
    R = repo()
    allp = list(I.bell(N))
    for k in range(N):
        sp = dict(sp0, k=k)
        ci = instance(sp, ctx)
        vs = bounds_for(sp, k)
        # the arrangement with every objective cut at once
        if sp["cont"]:
            c, A, b = I.as_arrays(sp)
            X = arrangement(
                np.vstack([A.reshape(-1, len(c))] + [c[None]] * len(vs)),
                np.concatenate([np.broadcast_to(b, A.shape[:2]).ravel(), vs]))
        else:
            X = cube(len(sp["c"]))
        Ps = [P for P in allp if len(P) >= k + 1]
        pi = R.PartitionChanceKnapInstance(ci)
        pi.load_partition(len(Ps[0]), Ps[0])
        longf = call(R.BigMFinder, "BigMFinder", pi)
        i = 0
        for P in Ps + Ps[::-1]:
            need = {}
            for meth in METHODS:
                vUB = vs[(i // 3 + i) % len(vs)]
                i += 1
                pi.load_partition(len(P), [list(p) for p in P])
                need = needed(sp, X, P, k, vUB if meth == "belotti" else None)
                call(longf.update_big_M, "update_big_M", len(P), vUB,
                     method=meth, chance_instance=ci, partition=P)
                ms = [np.array(longf.get_vector_big_M(g), float)
                      for g in range(len(P))]
                valid(ms, need, meth, spec=sp, partition=P, vUB=vUB)
                fresh = call(R.BigMFinder, "BigMFinder", pi)
                call(fresh.update_big_M, "update_big_M", len(P), vUB,
                     method=meth, chance_instance=ci, partition=P)
                for g in range(len(P)):
                    f = np.asarray(fresh.get_vector_big_M(g), float)
                    if f.shape != ms[g].shape or not np.allclose(
                            f, ms[g], atol=1e-6, rtol=1e-6):
                        raise Violation(
                            "%s: values differ from those of a fresh finder"
                            % meth, spec=sp, partition=P, subset=g,
                            values=ms[g].tolist(), fresh=f.tolist())
                ctx.step()
                ctx.trace()
            ctx.state(sp["c"], sp["A"], sp["b"], sp["cont"], k, P)
    ctx.outcome("part N%d" % N)


def walk(n):
    """Visits 0..n-1 so that every ordered pair of them is adjacent."""
    for i in range(n):
        for j in range(i + 1, n):
            yield i
            yield j
        yield i


def long_song(sp0, N, ctx):
    """One finder meets every partition, forth and back."""
    R = repo()
    Ps = sorted(I.bell(N), key=len)
    for k in range(1, N - 1):
        sp = dict(sp0, k=k)
        ci = instance(sp, ctx)
        pi = R.PartitionChanceKnapInstance(ci)
        longf, ref = None, {}
        L = [P for P in Ps if len(P) > k]
        for P in L + L[::-1]:
            pi.load_partition(len(P), [list(p) for p in P])
            if longf is None:
                longf = call(R.BigMFinder, "BigMFinder", pi)

            def ask(f):
                call(f.update_big_M, "update_big_M", len(P), 1.0,
                     method="song", chance_instance=ci,
                     partition=[list(p) for p in P])
                return [np.array(f.get_vector_big_M(g), float)
                        for g in range(len(P))]
            key = tuple(map(tuple, P))
            if key not in ref:
                ref[key] = ask(call(R.BigMFinder, "BigMFinder", pi))
            got = ask(longf)
            for g in range(len(P)):
                if got[g].shape != ref[key][g].shape or not np.allclose(
                        got[g], ref[key][g], atol=1e-6, rtol=1e-6):
                    raise Violation("song: values differ from those of a "
                                    "fresh finder", spec=sp, partition=P,
                                    subset=g, values=got[g].tolist(),
                                    fresh=ref[key][g].tolist())
            ctx.step()
        ctx.trace()
        ctx.state("long", sp["c"], sp["A"], sp["b"], k)
    ctx.outcome("long N%d" % N)


def many(case, sp0, N, ctx):
    """One variable: the points where a row becomes tight are enough."""
    R = repo()
    G = case["G"]
    for P in ([[s for s in range(N) if s % G == g] for g in range(G)],
              [list(range(N))[g * N // G:(g + 1) * N // G][::-1]
               for g in range(G)],
              [[s] for s in range(G - 1)] + [list(range(G - 1, N))]):
        for k in range(G):
            sp = dict(sp0, k=k)
            c, A, b = I.as_arrays(sp)
            b2 = np.broadcast_to(b, A.shape[:2])
            ci = instance(sp, ctx)
            X = [0.0, 1.0] + [float(v / a) for a, v in zip(
                A.ravel(), b2.ravel()) if a > v]
            pi = R.PartitionChanceKnapInstance(ci)
            pi.load_partition(G, [list(p) for p in P])
            f = call(R.BigMFinder, "BigMFinder", pi)
            for vUB in sorted({min(X[2:], default=1.0), 0.7, 1.0}):
                XX = np.array(sorted(set(X) | {vUB}))[:, None]
                for meth in METHODS:
                    call(f.update_big_M, "update_big_M", G, vUB, method=meth,
                         chance_instance=ci, partition=[list(p) for p in P])
                    valid([f.get_vector_big_M(g) for g in range(G)],
                          needed(sp, XX, P, k,
                                 vUB if meth == "belotti" else None),
                          meth, spec=sp, partition=P, vUB=vUB)
                    ctx.step()
                    ctx.trace()
            ctx.state("many", N, G, case["t"], P, k)
    ctx.outcome("many N%d" % N)


def pairs(sp0, N, ctx, methods):
    """One finder, the same method again and again: every ordered pair of
    partitions of one size, and each partition with two upper bounds in turn."""
    R = repo()
    for k in range(N):
        sp = dict(sp0, k=k)
        ci = instance(sp, ctx)
        pi = R.PartitionChanceKnapInstance(ci)
        lo, hi = bounds_for(sp, k)[0], bounds_for(sp, k)[-1]
        for size, meth in itertools.product(range(k + 1, N + 1), methods):
            Ps = [P for P in I.bell(N) if len(P) == size]
            longf, ref = None, {}
            nodes = [(P, hi) for P in Ps]
            seq = [nodes[i] for i in walk(len(nodes))]
            for P in Ps:
                seq += [(P, lo), (P, hi), (P, lo)]
            for at, (P, v) in enumerate(seq):
                pi.load_partition(size, [list(p) for p in P])
                if longf is None:
                    longf = call(R.BigMFinder, "BigMFinder", pi)
                key = (tuple(map(tuple, P)), v)

                def ask(f):
                    call(f.update_big_M, "update_big_M", size, v, method=meth,
                         chance_instance=ci, partition=[list(p) for p in P])
                    return [np.array(f.get_vector_big_M(g), float)
                            for g in range(size)]
                if key not in ref:
                    ref[key] = ask(call(R.BigMFinder, "BigMFinder", pi))
                got = ask(longf)
                for g in range(size):
                    if got[g].shape != ref[key][g].shape or not np.allclose(
                            got[g], ref[key][g], atol=1e-6, rtol=1e-6):
                        raise Violation(
                            "%s: values after another update differ from "
                            "those of a fresh finder" % meth, spec=sp,
                            partition=P, vUB=v, subset=g,
                            before=seq[at - 1] if at else None,
                            values=got[g].tolist(),
                            fresh=ref[key][g].tolist())
                ctx.step()
            ctx.trace()
            ctx.state("pairs", sp["c"], sp["A"], sp["b"], sp["cont"], k, size,
                      meth)
    ctx.outcome("pairs N%d" % N)
