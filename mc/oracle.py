"""Reference answers by brute force. Shares no code with /repo and uses no solver.

Problem: max c.x  s.t.  #{s : A[s] x <= b violated} <= k,  x in {0,1}^n or [0,1]^n.
"""
import itertools
from functools import lru_cache

import numpy as np

FEAS = 1e-6      # violation that counts (the documented feasibility tolerance)
VTX = 1e-9


@lru_cache(maxsize=None)
def cube(n):
    return np.array(list(itertools.product((0.0, 1.0), repeat=n)))


@lru_cache(maxsize=None)
def _combos(r, n):
    return np.array(list(itertools.combinations(range(r), n)), dtype=int)


def violated(A, b, X, tol=FEAS):
    """bool [len(X), N]: scenario s violated by point x."""
    return ((np.einsum("smn,xn->xsm", A, X) - b) > tol).any(axis=2)


def vertices(A, b):
    """Every basic point of the arrangement (rows and box) inside the box."""
    N, m, n = A.shape
    return arrangement(A.reshape(N * m, n),
                       np.broadcast_to(b, (N, m)).ravel())


def arrangement(R, r):
    n = R.shape[1]
    R = np.vstack([R, np.eye(n), np.eye(n)])
    r = np.concatenate([r, np.ones(n), np.zeros(n)])
    # drop duplicate rows to keep the arrangement small
    key = np.unique(np.round(np.column_stack([R, r]), 9), axis=0)
    key = key[np.abs(key[:, :n]).sum(axis=1) > 0]
    R, r = key[:, :n], key[:, n]
    C = _combos(len(r), n)
    M = R[C]
    d = np.linalg.det(M)
    ok = np.abs(d) > 1e-9
    X = np.linalg.solve(M[ok], r[C][ok][..., None])[..., 0]
    ins = ((X > -VTX) & (X < 1 + VTX)).all(axis=1)
    return np.clip(X[ins], 0.0, 1.0)


class Oracle:
    def __init__(self, c, A, b, cont):
        self.c = np.asarray(c, float)
        self.A = np.asarray(A, float)
        self.b = np.asarray(b, float)
        self.N, self.m, self.n = self.A.shape
        self.cont = cont
        self.X = vertices(self.A, self.b) if cont else cube(self.n)
        # candidate points; for an LP over any sub-collection of rows the
        # optimum is attained at one of these vertices
        self.V = violated(self.A, self.b, self.X, 1e-7)
        self.obj = self.X @ self.c

    def opt(self, k):
        ok = self.V.sum(axis=1) <= k
        return float(self.obj[ok].max())

    def opt_points(self, k):
        ok = self.V.sum(axis=1) <= k
        best = self.obj[ok].max()
        return self.X[ok & (self.obj >= best - 1e-9)]

    def subset(self, S):
        """Optimum when all scenarios of S must hold."""
        S = list(S)
        ok = ~self.V[:, S].any(axis=1) if S else np.ones(len(self.X), bool)
        return float(self.obj[ok].max())

    def subset_points(self, S):
        S = list(S)
        ok = ~self.V[:, S].any(axis=1) if S else np.ones(len(self.X), bool)
        best = self.obj[ok].max()
        return self.X[ok & (self.obj >= best - 1e-9)]

    def partition(self, P, k):
        """Optimum of the partitioned relaxation: at most k subsets violated."""
        bad = np.column_stack([self.V[:, list(S)].any(axis=1) for S in P])
        ok = bad.sum(axis=1) <= k
        return float(self.obj[ok].max())

    def partition_points(self, P, k):
        bad = np.column_stack([self.V[:, list(S)].any(axis=1) for S in P])
        ok = bad.sum(axis=1) <= k
        best = self.obj[ok].max()
        sel = ok & (self.obj >= best - 1e-9)
        return self.X[sel], (~bad[sel]).astype(float)

    def violations_of(self, x, tol=FEAS):
        return violated(self.A, self.b, np.asarray(x, float)[None, :], tol)[0]

    def feasible(self, x, k, tol=FEAS):
        return int(self.violations_of(x, tol).sum()) <= k
