"""C24 — generated instances are well formed and keep the base data."""
import contextlib
import itertools
import math
import os
import runpy
import shutil
import sys

import numpy as np

import build
from core import Violation
from harness import quiet, repo, tb

CASE_SECONDS = 120
WHAT = ("the real generator script is run with every random draw scripted: "
        "all failure patterns of tiny shapes, scripted normal values including "
        "negative and many-digit ones, probabilities outside [0,1]; the files "
        "are read as text and with the real instance class")
BOUNDS = dict(quick="all failure patterns for items*scenarios <= 8 (all "
              "shapes, 1-2 constraints), 1-3 files per run, half of them "
              "over files of an earlier run; larger shapes with "
              "cyclic patterns; runs of 12 and 23 files; the 8 shipped base "
              "instances",
              thorough="all failure patterns for items*scenarios <= 10, 3 "
              "constraints")
ASSUMPTIONS = ["numpy's normal, binomial and exponential draw from their "
               "distributions (they are replaced by the script)"]
SCRIPT = "data/cc-instances/knapsack/instance-generator.py"
DEVS = [0.0, 1.0, -1.5, 0.123456789, 3.0, -12.0, -0.33337, 2.00005]


def cases(tier, seed):
    q = tier == "quick"
    top = 8 if q else 10
    for n in range(1, top + 1):
        for N in range(1, top // n + 1):
            for m in (1, 2) if q else (1, 2, 3):
                yield dict(kind="all", n=n, m=m, N=N)
    for n, m, N, Q in [(5, 3, 7, 2), (3, 5, 12, 3), (7, 2, 20, 1),
                       (1, 4, 9, 2), (12, 1, 3, 1), (2, 1, 2, 12),
                       (1, 2, 3, 23)] + (
                           [] if q else [(20, 5, 60, 2), (9, 9, 9, 4)]):
        for t in range(4):
            yield dict(kind="big", n=n, m=m, N=N, Q=Q, t=t)
    for i in range(1, 9):
        yield dict(kind="orlib", i=i)


class Script:
    """Answers every draw; remembers what it answered."""
    def __init__(self, fails, shift, probs):
        self.fails, self.shift, self.probs = fails, shift, probs
        self.normals, self.binomials, self.expo = [], [], 0
        self.scales = []

    def exponential(self, scale=1.0, size=None):
        size = 1 if size is None else size
        k = int(np.prod(size))
        out = np.array([self.probs[(self.expo + i) % len(self.probs)]
                        for i in range(k)], float)
        self.expo += k
        return out.reshape(size)

    def _one(self, p):
        if not 0 <= p <= 1:
            raise ValueError("p < 0, p > 1 or p is NaN")
        b = self.fails[len(self.binomials) % len(self.fails)]
        self.binomials.append((float(p), int(b)))
        return int(b)

    def binomial(self, n, p, size=None):
        p = np.asarray(p, float)
        if size is None:
            size = p.shape
        full = np.broadcast_to(p, size) if p.ndim else np.full(size, p)
        out = np.array([self._one(v) for v in full.ravel()], int)
        return out.reshape(full.shape) if full.shape else int(out[0])

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, float), np.asarray(scale, float)
        if (scale < 0).any():
            raise ValueError("scale < 0")
        if size is None:
            size = np.broadcast(loc, scale).shape
        L = np.broadcast_to(loc, size)
        S = np.broadcast_to(scale, size)
        out = np.empty(L.shape)
        for idx in np.ndindex(*L.shape):
            j = len(self.normals)
            v = L[idx] + S[idx] * DEVS[(j * 3 + self.shift) % len(DEVS)]
            self.normals.append((float(L[idx]), float(v)))
            self.scales.append(float(S[idx]))
            out[idx] = v
        return out if out.shape else float(out)


@contextlib.contextmanager
def scripted(sc):
    names = ("exponential", "binomial", "normal")
    old = {a: getattr(np.random, a) for a in names}
    old_rng = np.random.default_rng
    for a in names:
        setattr(np.random, a, getattr(sc, a))
    np.random.default_rng = lambda *a, **k: sc
    try:
        yield
    finally:
        for a in names:
            setattr(np.random, a, old[a])
        np.random.default_rng = old_rng


def generate(base, N, Q, sc, ctx, info):
    d = os.path.join(ctx.scratch, "gen")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    # what an earlier run of the generator left there
    for left in info.get("earlier", ()):
        with open(os.path.join(d, left), "w") as fh:
            fh.write("1,1,1\n1\n1\n1\n" * 50)
    old_argv, cwd = sys.argv, os.getcwd()
    path = os.path.join(build.REPO, SCRIPT)
    sys.argv = [path, base, str(N), str(Q)]
    os.chdir(d)
    try:
        with quiet(), scripted(sc):
            runpy.run_path(path, run_name="__main__")
    except SystemExit as e:
        if e.code:
            raise Violation("the generator exits with %r" % (e.code,), **info)
    except Violation:
        raise
    except Exception as e:
        raise Violation("the generator raised %s: %s" % (
            type(e).__name__, str(e)[:200]), trace=tb(e), **info)
    finally:
        sys.argv = old_argv
        os.chdir(cwd)
    return d


def rounded(w, v):
    """v is w rounded to four decimals (either way at a tie)"""
    return abs(v * 1e4 - round(v * 1e4)) < 1e-6 and abs(w - v) < 5.0001e-5


def judge(d, n, m, N, Q, c, A, b, sc, info, ctx):
    stem = "ccmknap-%d-%d-%d-" % (n, m, N)
    want = sorted(stem + "%d.csv" % (i + 1) for i in range(Q))
    if sorted(os.listdir(d)) != want:
        raise Violation("not the requested files", expected=want,
                        got=sorted(os.listdir(d)), **info)
    for (loc, _), scale in zip(sc.normals, sc.scales):
        if abs(scale - 0.1 * abs(loc)) > 1e-9 * max(1, abs(loc)):
            raise Violation("a value is not drawn with a tenth of the base "
                            "entry as standard deviation", mean=loc,
                            scale=scale, **info)
    R = repo()
    per_n, per_b = len(sc.normals) // Q, len(sc.binomials) // Q
    for i in range(Q):
        path = os.path.join(d, stem + "%d.csv" % (i + 1))
        try:
            with quiet():
                ci = R.ChanceKnapInstance(path, True, 0.1)
        except Exception as e:
            raise Violation("a generated file cannot be loaded: %s" % e,
                            **info)
        if (ci.get_nb_vars(), ci.get_nb_scenarios()) != (n, N) or any(
                ci.get_nb_constraints(s) != m for s in range(N)):
            raise Violation("a generated file has other dimensions", **info)
        with open(path) as fh:
            rows = [[float(v) for v in ln.split(",")] for ln in fh
                    if ln.strip()]
        if len(rows) != 3 + N * m:
            raise Violation("a generated file has a wrong number of lines",
                            **info)
        if rows[0] != [n, m, N] or rows[1] != list(c) or rows[-1] != list(b):
            raise Violation("a generated file does not keep the base data",
                            file=[rows[0], rows[1], rows[-1]], **info)
        if not np.allclose(ci.get_vector_c(), np.round(c, 1), atol=1e-9) or \
                any(not np.allclose(ci.get_vector_b(s), np.round(b, 1),
                                    atol=1e-9) for s in range(N)):
            raise Violation("costs or capacities are not loaded as in the "
                            "base instance", **info)
        D = np.array(rows[2:-1]).reshape(N, m, n)
        if (D < 0).any():
            raise Violation("a scenario entry is negative", **info)
        draws = {}
        for loc, v in sc.normals[i * per_n:(i + 1) * per_n]:
            draws.setdefault(round(loc, 9), []).append(max(v, 0.0))
        fails = {}
        for p, f in sc.binomials[i * per_b:(i + 1) * per_b]:
            fails[p] = fails.get(p, 0) + f
        probs = [min(max(v, 0.0), 1.0) for v in
                 [sc.probs[(i * n + j) % len(sc.probs)] for j in range(n)]]
        used = {}
        for j in range(n):
            for r in range(m):
                L = draws.get(round(A[r][j], 9), [])
                pool = used.setdefault(round(A[r][j], 9), [
                    float(v) for v in L])
                for s in range(N):
                    v = D[s, r, j]
                    if v == 0:
                        continue
                    hit = [w for w in pool if rounded(w, v)]
                    if not hit:
                        raise Violation("an entry is not one of the values "
                                        "drawn for it, rounded to four "
                                        "decimals", entry=float(v),
                                        scenario=s, row=r, item=j, drawn=L,
                                        **info)
                    pool.remove(hit[0])
        if not sc.allpos:
            continue
        zero = (D == 0)
        if m > 1 and (zero != zero[:, :1, :]).any():
            raise Violation("an item fails in some constraints of a scenario "
                            "only", **info)
        if len(set(probs)) == n:
            for j in range(n):
                f = fails.get(probs[j])
                if f is None:
                    raise Violation("no failures are drawn with the clipped "
                                    "probability of an item",
                                    expected=probs[j], drawn=sorted(fails),
                                    **info)
                if int(zero[:, 0, j].sum()) != f:
                    raise Violation("an item is zero in other scenarios than "
                                    "those it fails in", item=j, failures=f,
                                    zeros=int(zero[:, 0, j].sum()), **info)
        ctx.state(n, m, N, zero[:, 0, :].tolist())


def base_file(ctx, c, A, b):
    p = os.path.join(ctx.scratch, "base.txt")
    with open(p, "w") as fh:
        fh.write("%d %d\n" % (len(c), len(A)))
        for r in [c] + list(A) + [b]:
            fh.write(" ".join(("%d" % v) if v == int(v) else repr(v)
                              for v in r) + "\n")
    return p


def run_case(case, ctx):
    if case["kind"] == "orlib":
        return orlib(case["i"], ctx)
    n, m, N = case["n"], case["m"], case["N"]
    c = [3.0 + 1.5 * j for j in range(n)]
    A = [[10.0 + 7 * j + 61 * i + (0.7 if (i + j) % 2 else 0)
          for j in range(n)] for i in range(m)]
    b = [50.0 + 2.5 * i for i in range(m)]
    base = base_file(ctx, c, A, b)
    probs = [0.11 + 0.8 * j / (n + 1) for j in range(n)]
    if case["kind"] == "all":
        pats = list(itertools.product((0, 1), repeat=n * N))
    else:
        pats = [tuple(int((a * (case["t"] + 2)) % 5 < case["t"])
                      for a in range(n * N * case["Q"]))]
    for k, pat in enumerate(pats):
        Q = case.get("Q", 1 + k % 3)
        fails = pat if case["kind"] == "big" else sum(
            [pat[a:] + pat[:a] for a in range(Q)], ())
        for variant in ((k % 4, ) if case["kind"] == "all" else range(4)):
            pr = list(probs)
            if variant == 1:
                pr[0] = 1.7
            if variant == 2:
                pr[-1] = -0.2 if n > 1 else 0.0
            sc = Script(fails, k, pr)
            sc.allpos = variant != 3
            if sc.allpos:          # failures are then exactly the zeros
                orig = sc.normal
                sc.normal = lambda *a, **kw: positive(sc, orig, *a, **kw)
            info = dict(n=n, m=m, N=N, files=Q, pattern=list(fails),
                        variant=variant)
            if (k + variant) % 2:
                info["earlier"] = ["ccmknap-%d-%d-%d-%d.csv" % (
                    n, m, N, i + 1) for i in range(Q)]
            d = generate(base, N, Q, sc, ctx, info)
            judge(d, n, m, N, Q, c, A, b, sc, info, ctx)
            ctx.step()
            ctx.trace()
    ctx.outcome("%s %d %d" % (case["kind"], n * N, m))
    ctx.sample(case=case)


def positive(sc, orig, *a, **kw):
    start = len(sc.normals)
    out = np.abs(np.asarray(orig(*a, **kw), float)) + 0.5
    for idx, v in zip(range(start, len(sc.normals)), out.ravel()):
        sc.normals[idx] = (sc.normals[idx][0], float(v))
    return out if out.shape else float(out)


def orlib(i, ctx):
    base = os.path.join(build.REPO, "data/orlib/instance%d.txt" % i)
    with open(base) as fh:
        rows = [[float(v) for v in ln.split()] for ln in fh if ln.strip()]
    n, m = int(rows[0][0]), int(rows[0][1])
    c, A, b = rows[1], rows[2:2 + m], rows[2 + m]
    N = 3
    sc = Script((0, 0, 1), i, [0.05])
    sc.allpos = False
    info = dict(base=base, N=N)
    d = generate(base, N, 2, sc, ctx, info)
    # equal base entries share their draws, so that only membership is judged
    pool = {}
    for loc, v in sc.normals:
        pool.setdefault(round(loc, 9), []).append(max(v, 0))
    stem = "ccmknap-%d-%d-%d-" % (n, m, N)
    if sorted(os.listdir(d)) != [stem + "1.csv", stem + "2.csv"]:
        raise Violation("not the requested files", got=os.listdir(d), **info)
    for t in (1, 2):
        with open(os.path.join(d, stem + "%d.csv" % t)) as fh:
            R = [[float(v) for v in ln.split(",")] for ln in fh if ln.strip()]
        if R[0] != [n, m, N] or R[1] != c or R[-1] != b or \
                len(R) != 3 + N * m:
            raise Violation("a generated file does not keep the base data",
                            **info)
        for s, r, j in itertools.product(range(N), range(m), range(n)):
            v = R[2 + s * m + r][j]
            if v < 0 or (v != 0 and not any(
                    rounded(w, v)
                    for w in pool.get(round(A[r][j], 9), []))):
                raise Violation("an entry was not drawn for its item",
                                entry=v, **info)
    ctx.trace()
    ctx.step()
    ctx.state("orlib", i)
    ctx.outcome("orlib")
