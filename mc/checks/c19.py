"""C19 — instance files are read back exactly."""
import itertools
import os

import numpy as np

from core import Violation
from harness import call, repo

WHAT = ("every dimension triple, number format, line ending and variable type "
        "is written to a file whose entries are all different and read with "
        "the real instance class; scenario data are then written to, to see "
        "that no other scenario changes")
BOUNDS = dict(quick="n,m,N <= 4 (all 64), 6 number formats, LF/CRLF, with and "
              "without final newline, 2 variable types, 4 epsilons",
              thorough="n,m,N <= 7, the same formats")
ASSUMPTIONS = ["entries exactly half-way between two tenths are not judged"]


def cases(tier, seed):
    top = 5 if tier == "quick" else 8
    for n, m, N in itertools.product(range(1, top), repeat=3):
        yield dict(n=n, m=m, N=N)
    for n, m, N in ((2, 30, 5000), (1, 3, 12000), (3, 200, 300),
                    (300, 2, 2), (1, 130, 2)):
        yield dict(n=n, m=m, N=N, big=1)


FORMATS = [
    ("integer", lambda v: "%d" % round(v)),
    ("one decimal", lambda v: "%.1f" % v),
    ("four decimals", lambda v: "%.4f" % (v + 0.0123)),
    ("exponent", lambda v: "%.6e" % v),
    ("millions", lambda v: "%.1f" % (v * 1234567 + .1)),
    ("signed, padded", lambda v: " %.2f" % (v + 0.01)),
]


def run_case(case, ctx):
    R = repo()
    n, m, N = case["n"], case["m"], case["N"]
    cnt = itertools.count(1)
    c = [next(cnt) * 1.7 for _ in range(n)]
    A = [[[next(cnt) * 1.3 if (s + i + j) % 5 else 0.0 for j in range(n)]
          for i in range(m)] for s in range(N)]
    b = [next(cnt) * 2.1 for _ in range(m)]
    for (fname, f), eol, last in [(FORMATS[1], "\n", True)] if case.get(
            "big") else itertools.product(FORMATS, ("\n", "\r\n"), (True, False)):
        lines = ["%d,%d,%d" % (n, m, N)]
        tc = [f(v) for v in c]
        tA = [[[f(v) for v in r] for r in s] for s in A]
        tb = [f(v) for v in b]
        lines.append(",".join(tc))
        for s in tA:
            for r in s:
                lines.append(",".join(r))
        lines.append(",".join(tb))
        stem = "p-%d-%d.x-%d" % (n, m, N)
        path = os.path.join(ctx.scratch, stem + ".csv")
        with open(path, "w", newline="") as fh:
            fh.write(eol.join(lines) + (eol if last else ""))
        want = [np.array(t, dtype=float) for t in (tc, tA, tb)]
        for cont, eps in ((True, 0.1), (False, 0.25), (1, 0.0), (0, 0.999)
                          )[:1 if case.get("big") else 4]:
            info = dict(dims=(n, m, N), format=fname, eol=eol, final=last,
                        cont=cont)

            def bad(msg, **kw):
                raise Violation(msg, file="\n".join(lines[:20]), **info, **kw)
            ci = call(R.ChanceKnapInstance, "ChanceKnapInstance", path, cont,
                      eps)
            if (ci.get_nb_vars(), ci.get_nb_scenarios()) != (n, N) or any(
                    ci.get_nb_constraints(s) != m for s in range(N)):
                bad("wrong dimensions")
            got = [np.asarray(ci.get_vector_c()),
                   np.array([ci.get_matrix_A(s) for s in range(N)]),
                   None]
            for name, g, w in (("costs", got[0], want[0]),
                               ("matrices", got[1], want[1]),
                               ("all matrices",
                                np.asarray(ci.get_matrices_A()), want[1])):
                rounded(name, g, w, bad)
            for s in range(N):
                rounded("capacities", np.asarray(ci.get_vector_b(s)), want[2],
                        bad)
            B = np.asarray(ci.get_vectors_b())
            if B.shape != (N, m):
                bad("wrong capacities")
            p = np.asarray(ci.get_proba())
            if p.shape != (N,) or not np.allclose(p, 1 / N, rtol=1e-12):
                bad("wrong probabilities", proba=p.tolist())
            if ci.get_epsilon() != eps:
                bad("wrong epsilon")
            vt = list(ci.get_var_type())
            if len(vt) != n or any(bool(t) != bool(cont) for t in vt):
                bad("wrong variable types", types=vt)
            if cont and (list(ci.get_var_lb()) != [0] * n or
                         list(ci.get_var_ub()) != [1] * n):
                bad("wrong variable bounds")
            if ci.get_file_name() != stem:
                bad("wrong name", name=ci.get_file_name())
            # independence of the scenarios' data
            for s in range(N) if not case.get("big") else (0, N // 2):
                keepA = [np.array(ci.get_matrix_A(t)) for t in range(N)]
                keepb = [np.array(ci.get_vector_b(t)) for t in range(N)]
                try:
                    ci.get_vector_b(s)[0] = -1.0
                    ci.get_matrix_A(s)[0, 0] = -1.0
                except ValueError:
                    break         # read-only: nothing can leak
                for t in range(N):
                    if t != s and not (
                            np.array_equal(keepA[t], ci.get_matrix_A(t))
                            and np.array_equal(keepb[t], ci.get_vector_b(t))):
                        bad("data of one scenario depend on another's")
                ci.get_vector_b(s)[0] = keepb[s][0]
                ci.get_matrix_A(s)[0, 0] = keepA[s][0, 0]
            ctx.step()
            ctx.trace()
            ctx.state(n, m, N, fname, eol, last, cont, eps)
            ctx.outcome(fname)
    ctx.sample(dims=(n, m, N), file=lines[:4])


def rounded(name, g, w, bad):
    if g.shape != w.shape:
        bad("wrong shape of the " + name, shape=g.shape)
    if (np.abs(g - w) > 0.05 + 1e-9).any() or (
            np.abs(g * 10 - np.round(g * 10)) > 1e-6).any():
        bad("wrong %s" % name, value=g.tolist(), expected=w.tolist())
