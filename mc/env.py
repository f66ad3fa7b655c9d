"""The relaxed problem's solver as an environment: any optimal answer may come
back. The stub answers Solver.solve_cclp_model by exhaustive choice among the
optimal points of the relaxation over the partition that is loaded."""
import itertools

import numpy as np

import instances as I

# configurations where the relaxed problem is stubbed: big-M is irrelevant
CFGS = [i for i, c in enumerate(I.CONFIGS)
        if c["bigm"] is None] + [
    i for i, c in enumerate(I.CONFIGS)
    if c["bigm"] == "belotti" and not c["lazy"]]


def tie_specs(quick=True):
    """Instances with many equally good relaxed solutions."""
    costs = ((1, 1, 1), (2, 0, 2), (1, 1, 2))
    for N, ks in ((5, (1, 2)), (6, (2, 3)), (7, (2,))):
        for t, (c, A, b) in enumerate(I.fam_rot(N, 3, costs=costs)):
            if t % (23 if quick else 4):
                continue
            for k in ks:
                for cont in (0, 1):
                    yield I.spec(c, A, b, k, cont)
    # the livelock family: mixed rows with ties
    rows = [[0, 3, 0], [0, 0, 3], [3, 3, 0], [1, 2, 0], [3, 0, 1], [2, 3, 3],
            [0, 3, 3], [1, 1, 3]]
    for c in costs:
        for k in (1, 2, 3):
            for sh in range(8):
                A = [[r] for r in rows[sh:] + rows[:sh]]
                for cont in (0, 1):
                    yield I.spec(c, A, (2,), k, cont)


NOISE = [(0.0, 0.0), (0.0, 9e-9), (-9e-9, 0.0), (2e-9, 2e-9), (2e-9, 9e-9)]


def scaled(sp, f):
    return dict(sp, c=[v * f for v in sp["c"]])


def stub(ch, max_points=4, zmodes=(0, 1), noise=False,
         loose=(0.0,)):
    """Returns a function for harness.Run.stub_cclp. loose: how far above the
    optimum, relative to it, the bound may be."""
    def answer(run, part, kw):
        P = [list(p) for p in run.partitions[-1]]
        orc = run.orc
        X, Z = orc.partition_points(P, run.k)
        prune = set(int(i) for i in kw.get("prune_indices", []))
        if prune:
            keep = []
            for i in range(len(X)):
                z = Z[i].copy()
                z[list(prune)] = 0
                if len(P) - z.sum() <= run.k:
                    keep.append(i)
            if keep:
                X, Z = X[keep], Z[keep]
        # distinct points, in a canonical order
        key = np.round(np.column_stack([X, Z]), 7)
        _, idx = np.unique(key, axis=0, return_index=True)
        X, Z = X[idx], Z[idx]
        n = min(len(X), max_points)
        i = ch.choose(n, "env")
        x, z = X[i].copy(), Z[i].copy()
        z[list(prune)] = 0
        mode = zmodes[ch.choose(len(zmodes), "z")]
        if mode == 1:
            extra = int(run.k - (len(P) - z.sum()))
            for c in range(len(P)):
                if extra <= 0:
                    break
                if z[c] == 1 and z.sum() > 1:
                    z[c] = 0
                    extra -= 1
        v = float(orc.c @ x)
        run.ctx.step()
        lo = up = 0.0
        if noise:      # within the gap and tolerances the solver is called with
            lo, up = NOISE[ch.choose(len(NOISE), "noise")]
        if len(loose) > 1:
            up = loose[ch.choose(len(loose), "bound")]
        return x, z, v * (1 + lo), v * (1 + up)
    return answer
