"""Diagonal instances: n = N, scenario s bounds only x_s, so that the 0/1 point
x violates exactly the scenarios in its support. With them the refinement step
can be driven through every violation pattern."""
import itertools

import numpy as np

import instances as I
from harness import call, instance, repo


def diag_spec(N, k, cont=1, extra=False, unit=1):
    A = [[[1.0 if j == s else 0.0 for j in range(N)]] for s in range(N)]
    if extra:     # distinct subset costs
        return I.spec([round((1 + j) * unit, 1) for j in range(N)], A, [0.5],
                      k, cont)
    return I.spec([1.0] * N, A, [0.5], k, cont)


def point(N, V):
    x = np.zeros(N)
    x[list(V)] = 1.0
    return x


def patterns(N, k, P):
    """Violated sets that a relaxed solution over P can show: more than k
    violated scenarios inside at most k subsets."""
    for r in range(k + 1, N + 1):
        for V in itertools.combinations(range(N), r):
            v = set(V)
            if sum(1 for p in P if v & set(p)) <= k:
                yield V


def canon(P):
    return frozenset(frozenset(int(s) for s in p) for p in P)


def partition_error(P, N, minimum):
    flat = [int(s) for p in P for s in p]
    if any(len(p) == 0 for p in P):
        return "a subset is empty"
    if len(flat) != len(set(flat)):
        return "a scenario appears twice"
    if set(flat) != set(range(N)):
        return "a scenario is missing or foreign"
    if len(P) < minimum:
        return "fewer subsets than k+1"
    return None
