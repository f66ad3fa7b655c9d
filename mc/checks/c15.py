"""C15 — the partitioned model is exactly the relaxation over the partition."""
import itertools

import numpy as np

import instances as I
from core import Violation
from harness import call, close, instance, oracle_of, repo

CONTRACT = 1e-4
CASE_SECONDS = 200
WHAT = ("every set partition is loaded into one long-lived real "
        "PartitionChanceKnapInstance; stacked data, tolerance for every set of "
        "violated subsets, and the real model's optimum in every formulation "
        "are compared with the brute-force relaxation")
BOUNDS = dict(quick="N<=5, n<=3, m<=3, all k, all partitions with >=k+1 "
              "subsets; tolerance and stacked data for all (N,k) N<=100 and "
              "chain partitions",
              thorough="more instances, N<=6; tolerance N<=200")
ASSUMPTIONS = ["Gurobi answers correctly on b>0 packing models"]
FORMS = [(None, 0), ("naive", 0), ("belotti", 0), ("song", 0), ("naive", 1),
         ("belotti", 1), ("song", 1)]


def cases(tier, seed):
    q = tier == "quick"
    sh = [(4, 1, 3), (4, 2, 3), (5, 2, 2), (3, 3, 3)]
    fams = itertools.chain(
        itertools.islice(I.fam_n2((2, 3, 4)), 0, None, 53 if q else 7),
        itertools.islice(I.fam_n2m2((2, 3, 4)), 0, None, 23 if q else 3),
        itertools.islice(I.fam_rot(5, 3), 0, None, 211 if q else 23),
        I.catalogue(sh if q else sh + [(6, 1, 3)], 3 if q else 16, hi=9,
                    zero=3))
    for i, (c, A, b) in enumerate(fams):
        N = len(A)
        for k in range(N):
            if len(A) == 5 and q and (k + i) % 2:
                continue
            for cont in (0, 1):
                yield dict(kind="model", sp=I.spec(c, A, b, k, cont), t=i)
    for N in range(1, 101 if q else 201):
        yield dict(kind="tol", N=N)
    for N in I.LARGE + (5000,):
        ks = I.large_eps(N)
        for i in range(0, len(ks), 8):
            yield dict(kind="tol", N=N, ks=ks[i:i + 8])


def snapshot(ci):
    return [np.array(v).tolist() for v in (
        ci.get_matrices_A(), ci.get_vectors_b(), ci.get_vector_c(),
        ci.get_proba(), [ci.get_epsilon()], ci.get_var_type(),
        [ci.get_nb_scenarios()],
        [ci.get_nb_constraints(s) for s in range(ci.get_nb_scenarios())])]


def run_case(case, ctx):
    if case["kind"] == "tol":
        return tolerance(case["N"], ctx, case.get("ks"))
    R = repo()
    sp = case["sp"]
    orc, k, N = oracle_of(sp), sp["k"], len(sp["A"])
    m = orc.m
    ci = instance(sp, ctx)
    snap = snapshot(ci)
    pi = R.PartitionChanceKnapInstance(ci)
    solver = call(R.MilpSolver, "MilpSolver", ci, time_limit=1000)
    Ps = [P for P in I.bell(N) if len(P) >= k + 1]
    for i, P in enumerate(Ps + Ps[::-1]):
        if i % 3 == 1:      # internal order of subsets is free
            P = [p[::-1] for p in P][::-1]
        if i % 2:       # the caller's list, changed in place
            lst[:] = [list(p) for p in P]
        else:
            lst = [list(p) for p in P]
        call(pi.load_partition, "load_partition", len(P), lst)
        info = dict(spec=sp, partition=P)
        if pi.get_nb_scenarios() != len(P):
            raise Violation("wrong number of subsets", **info)
        for g, p in enumerate(P):
            A, b = np.asarray(pi.get_matrix_A(g)), np.asarray(
                pi.get_vector_b(g))
            tA = np.vstack([orc.A[s] for s in p])
            tb = np.concatenate([orc.b for s in p])
            if A.shape != tA.shape or not np.array_equal(A, tA) or \
                    b.shape != tb.shape or not np.array_equal(b, tb) or \
                    pi.get_nb_constraints(g) != m * len(p):
                raise Violation("a subset's constraints are not those of its "
                                "scenarios stacked in order", subset=g,
                                A=A.tolist(), b=b.tolist(), **info)
        tol(pi, len(P), k, info)
        true = orc.partition(P, k)
        for f in ((i + case["t"]) % 7, (i + case["t"] + 3) % 7):
            meth, lazy = FORMS[f]
            bm = call(R.BigMFinder, "BigMFinder", pi)
            if meth:
                call(bm.update_big_M, "update_big_M", len(P),
                     true + (0, 1, 1e-7)[i % 3] + 1e-6, method=meth,
                     chance_instance=ci, partition=[list(p) for p in P])
            x, z, v, bnd = call(
                solver.solve_cclp_model, "solve_cclp_model", pi, bm, gap=1e-8,
                use_big_M=meth is not None, use_lazy=bool(lazy))
            inf = dict(info, method=meth, lazy=lazy, obj=v, bound=bnd,
                       true=true, x=np.asarray(x).tolist(),
                       z=np.asarray(z).tolist())
            if not close(v, true, 1e-5) or not close(bnd, true, 1e-5):
                raise Violation("the model's optimum is not that of the "
                                "relaxation", **inf)
            if abs(orc.c @ x - v) > 1e-5 * max(1, v):
                raise Violation("wrong objective of the solution", **inf)
            bad = orc.violations_of(np.asarray(x, float), 1e-5)
            zz = np.round(np.asarray(z, float))
            if np.abs(zz - z).max() > 1e-5 or len(P) - zz.sum() > k:
                raise Violation("wrong indicators", **inf)
            for t, p in zip(zz, P):
                if t == 1 and bad[list(p)].any():
                    raise Violation("a subset marked satisfied is violated",
                                    **inf)
            ctx.step()
            ctx.trace()
        ctx.state(sp["A"], sp["b"], sp["c"], sp["cont"], k, P)
    if snapshot(ci) != snap:
        raise Violation("the original instance was changed", spec=sp)
    ctx.outcome("N%d k%d" % (N, k))
    ctx.sample(spec=sp)


def tol(pi, n, k, info):
    pr = np.asarray(pi.get_proba(), float)
    eps = float(pi.get_epsilon())
    if pr.shape != (n,) or (pr <= 0).any():
        raise Violation("wrong probabilities of the subsets",
                        proba=pr.tolist(), **info)
    for r in (range(n + 1) if n <= 6 else (k - 1, k, k + 1)):
        if r < 0 or r > n:
            continue
        for V in itertools.islice(itertools.combinations(range(n), r),
                                  40 if n <= 200 else 3):
            sat = pr.sum() - pr[list(V)].sum()
            if (sat >= 1 - eps - 1e-9) != (r <= k):
                raise Violation("a set of violated subsets is wrongly "
                                "tolerated or rejected", violated=V,
                                proba=pr.tolist(), epsilon=eps, k=k, **info)


def data(pi, A, P, info):
    for g, p in enumerate(P):
        M, v = np.asarray(pi.get_matrix_A(g)), np.asarray(pi.get_vector_b(g))
        want = np.array([A[s][0] for s in p])
        if M.shape != want.shape or not np.array_equal(M, want) or \
                v.shape != (len(p),) or (v != .5).any() or \
                pi.get_nb_constraints(g) != len(p):
            raise Violation("a subset's constraints are not those of its "
                            "scenarios stacked in order", subset=g,
                            scenarios=p, A=M.tolist(), b=v.tolist(), **info)


def tolerance(N, ctx, ks=None):
    R = repo()
    A = [[[1.0 + s % 3]] for s in range(N)]
    path = I.path_of(I.spec([1], A, [.5], 0, 1), ctx.scratch)
    for k in (range(N) if ks is None else sorted(set(k for k, e in ks))):
        epss = [k / N, (k + .5) / N] if ks is None else [
            e for kk, e in ks if kk == k]
        for d in (1, 2, 3):
            e = round(k / N, d)
            if abs(e * N - k) < 1e-9 and e not in epss:
                epss.append(e)
        for eps in epss:
            if 40 < N <= 100 and eps == (k + .5) / N:
                continue
            pi = R.PartitionChanceKnapInstance(
                R.ChanceKnapInstance(path, True, eps))
            sizes = {k + 1, (k + 1 + N) // 2, N}
            for n in sorted(sizes):
                P = [[] for _ in range(n)]
                for s in range(N):
                    P[min(s, n - 1) if k % 2 else s % n].append(s)
                call(pi.load_partition, "load_partition", n, P)
                if N <= 150 or eps == epss[0]:
                    data(pi, A, P, dict(N=N, eps=eps, subsets=n))
                tol(pi, n, k, dict(N=N, eps=eps, subsets=n))
                ctx.step()
            ctx.trace()
            ctx.state(N, k, eps)
    ctx.outcome("tolerance")
