"""Enumerated instance spaces (no sampling: every family is a finite set that is
listed completely, in a fixed order; `spread` only decides the visiting order)."""
import hashlib
import itertools
import math
import os

import numpy as np


def spec(c, A, b, k, cont, eps=None):
    d = dict(c=[float(v) for v in c],
             A=[[[float(v) for v in row] for row in s] for s in A],
             b=[float(v) for v in b], k=int(k), cont=int(cont))
    if eps is not None:
        d["eps"] = eps
    return d


def eps_of(sp):
    return sp["eps"] if "eps" in sp else sp["k"] / len(sp["A"])


def text_of(c, A, b):
    N, m, n = len(A), len(A[0]), len(c)
    out = ["%d,%d,%d" % (n, m, N), ",".join(repr(float(v)) for v in c)]
    for s in A:
        for row in s:
            out.append(",".join(repr(float(v)) for v in row))
    out.append(",".join(repr(float(v)) for v in b))
    return "\n".join(out) + "\n"


_files = {}


def path_of(sp, scratch):
    txt = text_of(sp["c"], sp["A"], sp["b"])
    if "file" in sp:        # a name of its own, (re)written at every use
        p = os.path.join(scratch, sp["file"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fh:
            fh.write(txt)
        return p
    key = hashlib.blake2b(txt.encode(), digest_size=8).hexdigest()
    if key not in _files:
        if len(_files) > 20000:
            for p in _files.values():
                os.unlink(p)
            _files.clear()
        p = os.path.join(scratch, "i%s.csv" % key)
        with open(p, "w") as fh:
            fh.write(txt)
        _files[key] = p
    return _files[key]


# ------------------------------------------------------------ families
ROWS2 = [(0, 0), (2, 1), (1, 2), (3, 0), (0, 3), (3, 3), (2, 2)]
COSTS2 = [(1, 1), (2, 1), (1, 3)]


def fam_n1(Ns=(1, 2, 3, 4, 5), vals=(0, 1, 2, 4, 5), b=(2,)):
    for N in Ns:
        for rows in itertools.combinations_with_replacement(vals, N):
            yield [1], [[[v]] for v in rows], b


def fam_n2(Ns=(2, 3, 4), rows=ROWS2, costs=COSTS2, b=(2,)):
    for N in Ns:
        for R in itertools.combinations_with_replacement(rows, N):
            for c in costs:
                yield c, [[r] for r in R], b


def fam_n2m2(Ns=(2, 3), b=(2, 3)):
    rows = [((2, 1), (1, 3)), ((0, 3), (4, 0)), ((3, 0), (1, 1)),
            ((1, 2), (4, 4)), ((0, 0), (2, 3)), ((3, 3), (0, 0))]
    for N in Ns:
        for R in itertools.combinations_with_replacement(rows, N):
            for c in COSTS2[:2]:
                yield c, [list(r) for r in R], b


def rotations(vals=(0, 1, 2, 3), n=3):
    seen = set()
    for p in itertools.product(vals, repeat=n):
        orbit = [p[i:] + p[:i] for i in range(n)]
        rep = min(orbit)
        if rep not in seen:
            seen.add(rep)
            yield rep


def fam_rot(N=6, n=3, b=(2,), vals=(0, 1, 2, 3),
            costs=((1, 2, 3), (1, 1, 1), (2, 3, 2))):
    """Scenario s: pattern p (first half) or q (second half) rotated by s."""
    reps = list(rotations(vals, n))
    for p, q in itertools.combinations_with_replacement(reps, 2):
        rows = []
        for s in range(N):
            w = p if s < (N + 1) // 2 else q
            r = s % n
            rows.append([w[r:] + w[:r]])
        for c in costs:
            yield c, rows, b


def _lcg(seed):
    x = (seed * 2654435761 + 12345) & 0x7FFFFFFF
    while True:
        x = (x * 1103515245 + 12345) & 0x7FFFFFFF
        yield x >> 8


def catalogue(shapes, per_shape, hi=40, dec=10, zero=4):
    """A fixed list of larger instances with one-decimal data. The entries come
    from a linear congruential sequence: the list is the bound, not a sample."""
    for (N, m, n) in shapes:
        for t in range(per_shape):
            g = _lcg(1000003 * N + 7919 * m + 101 * n + t)
            c = [1 + next(g) % hi for _ in range(n)]
            if t % 3 == 2:
                c = [v / dec for v in c]
            A = []
            for s in range(N):
                sc = []
                for i in range(m):
                    row = []
                    for j in range(n):
                        z = next(g) % zero
                        v = next(g) % hi
                        if t % 2:
                            v = v / dec
                        row.append(0 if z == 0 else v)
                    sc.append(row)
                A.append(sc)
            lim = hi * n * 0.35
            b = []
            for i in range(m):
                v = 1 + next(g) % int(lim)
                b.append(v / dec if t % 2 else v)
            yield c, A, b


# catalogue entries (shape, hi, zero, index, k, cont) that need four or more
# refinement rounds whatever the method: found by trying 20000 of them
DEEP = [
    ((10, 1, 4), 9, 2, 5, 3, 0),
    ((20, 1, 3), 40, 4, 3, 5, 1),
    ((10, 1, 5), 5, 2, 5, 3, 0),
    ((9, 1, 3), 9, 3, 5, 2, 1),
    ((12, 1, 5), 9, 2, 5, 3, 0),
    ((16, 1, 3), 40, 4, 3, 5, 1),
    ((12, 1, 4), 5, 2, 1, 5, 0),
    ((12, 1, 3), 9, 2, 2, 3, 1),
    ((12, 1, 5), 40, 4, 0, 3, 0),
    ((12, 1, 3), 9, 2, 2, 5, 1),
    ((14, 1, 5), 9, 2, 3, 2, 0),
    ((12, 1, 3), 40, 4, 2, 2, 1),
    ((14, 1, 4), 9, 3, 0, 5, 0),
    ((12, 2, 3), 9, 3, 0, 5, 1),
    ((14, 1, 3), 40, 4, 5, 5, 0),
    ((14, 1, 2), 40, 4, 5, 3, 1),
    ((14, 1, 4), 9, 3, 2, 3, 0),
    ((12, 1, 3), 9, 3, 2, 2, 1),
    ((16, 1, 4), 9, 3, 1, 5, 0),
    ((16, 1, 3), 40, 4, 4, 5, 1),
    ((8, 2, 4), 40, 4, 1, 3, 0),
    ((12, 1, 3), 40, 4, 2, 5, 1),
    ((8, 2, 5), 9, 3, 3, 3, 0),
    ((16, 1, 2), 40, 4, 3, 5, 1),
    ((16, 1, 5), 40, 4, 5, 5, 0),
    ((14, 1, 2), 9, 3, 3, 5, 1),
    ((9, 2, 5), 5, 2, 5, 3, 0),
    ((14, 1, 3), 40, 4, 1, 5, 1),
    ((9, 2, 5), 40, 4, 1, 5, 0),
    ((20, 1, 3), 40, 4, 3, 3, 1),
    ((20, 1, 5), 9, 3, 0, 2, 0),
    ((14, 1, 3), 40, 4, 4, 5, 1),
    ((20, 1, 5), 5, 2, 0, 5, 0),
    ((20, 1, 3), 9, 2, 1, 3, 1),
    ((20, 1, 4), 9, 3, 4, 3, 0),
    ((14, 1, 3), 9, 2, 2, 5, 1),
    ((20, 1, 4), 9, 2, 1, 5, 0),
    ((20, 1, 3), 5, 2, 4, 5, 1),
    ((20, 1, 5), 9, 3, 5, 5, 0),
    ((14, 1, 2), 9, 3, 3, 2, 1),
    ((20, 1, 5), 9, 2, 1, 5, 0),
    ((20, 2, 3), 9, 2, 2, 5, 1),
    ((20, 1, 5), 9, 3, 3, 3, 0),
    ((20, 1, 3), 5, 2, 2, 5, 1),
    ((10, 2, 5), 9, 3, 3, 5, 0),
    ((14, 1, 3), 9, 3, 2, 2, 1),
    ((20, 1, 5), 9, 3, 3, 5, 0),
    ((14, 1, 3), 40, 4, 1, 3, 1),
    ((8, 3, 5), 9, 3, 5, 3, 0),
    ((16, 2, 3), 9, 2, 3, 5, 1),
    ((8, 3, 5), 9, 2, 5, 3, 0),
    ((14, 1, 3), 40, 4, 2, 5, 1),
    ((12, 2, 4), 9, 3, 2, 5, 0),
    ((14, 1, 3), 40, 4, 4, 2, 1),
    ((12, 2, 4), 9, 2, 4, 2, 0),
    ((16, 1, 2), 9, 3, 3, 5, 1),
    ((12, 2, 5), 9, 2, 0, 3, 0),
    ((16, 1, 3), 40, 4, 5, 5, 1),
    ((12, 2, 5), 9, 3, 0, 5, 0),
    ((16, 1, 2), 9, 3, 2, 5, 1),
    ((9, 3, 4), 9, 3, 4, 3, 0),
    ((12, 2, 3), 40, 4, 3, 3, 1),
    ((9, 3, 5), 5, 2, 1, 2, 0),
    ((16, 1, 3), 9, 2, 4, 3, 1),
    ((9, 3, 5), 5, 2, 3, 2, 0),
    ((16, 1, 3), 5, 2, 2, 3, 1),
    ((14, 2, 5), 9, 2, 5, 5, 0),
    ((16, 1, 2), 40, 4, 1, 3, 1),
    ((14, 2, 5), 40, 4, 5, 5, 0),
    ((16, 1, 2), 5, 2, 2, 5, 1),
    ((20, 2, 4), 9, 2, 5, 5, 0),
    ((16, 1, 3), 40, 4, 2, 5, 1),
    ((10, 3, 5), 9, 3, 0, 5, 0),
    ((16, 1, 3), 40, 4, 5, 3, 1),
    ((16, 2, 5), 9, 3, 2, 5, 0),
    ((16, 1, 3), 5, 2, 2, 5, 1),
    ((20, 2, 5), 9, 3, 3, 3, 0),
    ((9, 2, 3), 40, 4, 0, 3, 1),
    ((16, 2, 4), 9, 2, 5, 5, 0),
    ((9, 2, 3), 9, 3, 5, 3, 1),
    ((16, 2, 5), 9, 3, 4, 5, 0),
    ((10, 2, 2), 9, 3, 2, 3, 1),
    ((16, 2, 4), 5, 2, 1, 5, 0),
    ((10, 2, 3), 9, 3, 1, 2, 1),
    ((16, 2, 5), 40, 4, 5, 5, 0),
    ((10, 2, 3), 40, 4, 4, 3, 1),
    ((12, 3, 5), 9, 3, 2, 5, 0),
    ((20, 1, 3), 9, 3, 2, 3, 1),
]


def deep(count=None, small=None):
    out = []
    for sh, hi, zero, t, k, cont in DEEP:
        if small and sh[0] * sh[1] > small:
            continue
        c, A, b = next(itertools.islice(catalogue([sh], t + 1, hi=hi,
                                                  zero=zero), t, None))
        out.append(spec(c, A, b, k, cont))
        if len(out) == count:
            break
    return out


def rescale(fam):
    """The same kinds of instance in other units: tiny costs, huge data, huge
    costs with tiny data."""
    for t, (c, A, b) in enumerate(fam):
        f, g = [(0.1, 1), (0.1, 1000), (5000, 0.1), (1, 300)][t % 4]

        def sc(v, f):
            return round(max(1, round(v)) * f, 1) if v else 0
        yield ([sc(v, f) for v in c],
               [[[sc(v, g) for v in row] for row in s] for s in A],
               [sc(v, g) for v in b])


def with_k(fam, cont=(0, 1), ks=None, half=False):
    for c, A, b in fam:
        N = len(A)
        for k in (range(N) if ks is None else [k for k in ks if k < N]):
            for co in cont:
                yield spec(c, A, b, k, co)
                if half:
                    yield spec(c, A, b, k, co, eps=(k + 0.5) / N)


LARGE = (144, 270, 500, 999, 1000, 1999)


def large_eps(N):
    """(k, epsilon) for large numbers of scenarios: both ends, and decimal
    epsilons whose product with N is an integer, just below or far from one."""
    out = {}
    for e in (.001, .002, .003, .007, .01, .015, .025, .05, .058, .07, .1,
              .15, .2, .29, .3, .35, .55, .57, .58, .7, .83, .9, .95, .99):
        out[e] = math.floor(e * N + 1e-7)
    for k in (0, 1, 2, N // 3, N // 2, N - 3, N - 2, N - 1):
        out[k / N] = k
        out[(k + .5) / N] = k
        out[(k + .999) / N] = k
    return sorted((k, e) for e, k in out.items() if k < N)


def large_n1(N, k, eps):
    """One item, N scenarios of distinct weights 1..N (7 must not divide N),
    and the optimum: the k heaviest scenarios are given up."""
    assert N % 7
    b = max(1, N // 10)
    sp = spec([1000], [[[1 + 7 * s % N]] for s in range(N)], [b], k, 1)
    sp["eps"] = eps
    return sp, 1000.0 * min(1.0, b / (N - k))


def bell(N):
    """All set partitions of range(N) (each as a list of sorted lists)."""
    def rec(i, parts):
        if i == N:
            yield [list(p) for p in parts]
            return
        for p in parts:
            p.append(i)
            yield from rec(i + 1, parts)
            p.pop()
        parts.append([i])
        yield from rec(i + 1, parts)
        parts.pop()
    yield from rec(0, [])


CONFIGS = [dict(init=i, split=s, bigm=m, merger=g, lazy=z)
           for m in (None, "naive", "belotti", "song")
           for s in ("random", "cost") for i in ("random", "cost")
           for g in (0, 1) for z in ((0, 1) if m else (0,))]


def as_arrays(sp):
    return (np.array(sp["c"], float), np.array(sp["A"], float),
            np.array(sp["b"], float))


def degenerate():
    """Corner cases: one or two scenarios, nothing or all but one tolerated,
    zero rows and costs, identical scenarios, nothing or everything fits."""
    rows = {"zero": [0, 0], "fit": [1, 1], "one": [5, 0], "none": [5, 5],
            "mix": [2, 2]}
    for c in ([1, 2], [0, 3], [2, 2]):
        for names in (["mix"], ["none"], ["zero"], ["mix", "mix"],
                      ["none", "zero"], ["one", "none"], ["mix", "mix", "mix"],
                      ["none", "none", "none"], ["zero", "one", "none"],
                      ["fit", "none", "mix", "mix"],
                      ["none", "none", "one", "zero"],
                      ["one", "one", "mix", "mix", "none"]):
            A = [[rows[v]] for v in names]
            for k in sorted({0, len(A) - 1, len(A) // 2}):
                for cont in (0, 1):
                    yield spec(c, A, [3], k, cont)
    for A in ([[[4]]], [[[1]]], [[[0]], [[9]]], [[[4]], [[4]], [[4]]]):
        for k in range(len(A)):
            for cont in (0, 1):
                yield spec([2], A, [3], k, cont)

# solves in which many subsets are merged at once:
# (shape, hi, zero, t, k, cont, configuration, random choices)
BIG_MERGES = [
    ((16, 2, 2), 9, 3, 5, 9, 0, 50, 3),
    ((18, 1, 3), 9, 2, 1, 9, 0, 50, 3),
    ((18, 1, 5), 9, 3, 5, 8, 0, 51, 1),
    ((18, 2, 3), 9, 2, 4, 10, 0, 35, 1),
    ((18, 2, 3), 9, 3, 0, 11, 0, 50, 3),
    ((18, 2, 4), 9, 3, 5, 8, 0, 43, 1),
    ((18, 2, 4), 5, 2, 0, 11, 0, 50, 3),
    ((20, 1, 3), 5, 2, 4, 10, 0, 27, 1),
    ((20, 1, 4), 9, 2, 0, 10, 0, 19, 1),
    ((20, 2, 3), 5, 2, 0, 11, 0, 50, 3),
    ((20, 1, 2), 9, 2, 4, 6, 0, 11, 1),
    ((18, 1, 2), 40, 4, 0, 11, 0, 50, 3),
    ((18, 1, 3), 9, 2, 2, 11, 0, 50, 3),
    ((16, 1, 2), 40, 4, 5, 8, 0, 19, 1),
    ((14, 2, 5), 40, 4, 1, 8, 0, 19, 1),
    ((20, 1, 4), 9, 2, 4, 7, 0, 50, 3),
    ((20, 2, 3), 9, 2, 0, 11, 0, 50, 3),
    ((20, 2, 4), 9, 2, 4, 11, 0, 50, 3),
    ((20, 2, 5), 9, 3, 4, 11, 0, 50, 3),
    ((18, 1, 3), 40, 4, 0, 10, 0, 51, 1),
    ((18, 2, 4), 9, 3, 3, 9, 0, 50, 3),
    ((16, 1, 5), 9, 2, 0, 11, 0, 50, 3),
    ((16, 2, 2), 40, 4, 4, 11, 0, 50, 3),
    ((16, 2, 3), 5, 2, 5, 8, 0, 19, 1),
    ((16, 2, 3), 40, 4, 0, 7, 0, 50, 3),
    ((16, 2, 4), 40, 4, 2, 10, 0, 51, 1),
    ((16, 2, 5), 40, 4, 5, 9, 0, 50, 3),
    ((14, 1, 3), 9, 2, 2, 6, 0, 43, 1),
    ((14, 1, 4), 40, 4, 1, 8, 0, 51, 1),
    ((14, 2, 4), 9, 2, 1, 9, 0, 50, 3),
    ((20, 1, 2), 9, 2, 4, 11, 0, 50, 3),
    ((20, 1, 3), 9, 2, 1, 9, 0, 50, 3),
    ((20, 1, 5), 9, 3, 0, 10, 0, 11, 1),
    ((20, 1, 5), 9, 3, 0, 11, 0, 50, 3),
    ((20, 2, 2), 9, 2, 0, 6, 0, 35, 1),
    ((20, 2, 2), 9, 2, 3, 9, 0, 50, 3),
    ((20, 2, 3), 9, 2, 0, 6, 0, 51, 1),
    ((20, 2, 4), 9, 2, 1, 8, 0, 43, 1),
    ((18, 1, 2), 5, 2, 2, 6, 0, 43, 1),
    ((18, 1, 4), 9, 2, 4, 6, 0, 22, 1),
    ((18, 1, 4), 9, 3, 2, 6, 0, 11, 1),
    ((18, 1, 5), 40, 4, 4, 10, 0, 11, 1),
    ((18, 2, 2), 40, 4, 5, 8, 0, 43, 1),
    ((18, 2, 2), 9, 2, 2, 11, 0, 50, 3),
]


def big_merges(count=None):
    """(spec, configuration, random choices)"""
    for sh, hi, zero, t, k, cont, cfg, mode in BIG_MERGES[:count]:
        c, A, b = next(itertools.islice(catalogue([sh], t + 1, hi=hi,
                                                  zero=zero), t, None))
        yield spec(c, A, b, k, cont), cfg, mode
