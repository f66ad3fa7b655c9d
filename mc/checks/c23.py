"""C23 — the recorded bound trace is monotone and truthful."""
import csv
import itertools
import os

import numpy as np

import instances as I
from core import CLOCK, Violation
from harness import instance, oracle_of, quiet, repo, tb

CASE_SECONDS = 300
WHAT = ("real solves with bound recording; the solver is stopped (interrupt, "
        "and out of time) at every single callback it makes, and not at all; "
        "the trace file of each outcome is checked against brute force; and solves "
        "in which the solver's reports (incumbent, bound) follow every "
        "monotone sequence over a grid, and very long ones")
BOUNDS = dict(quick="first 40 callbacks of each tree search kind and 8 of "
              "each other kind; "
              "N<=16, n<=8, indicator/naive/belotti/song; all "
              "sequences of 5 reports over 3 incumbents and 3 bounds, and "
              "sequences of up to 20000",
              thorough="every non-polling callback; more instances; "
              "sequences of 6 reports over 4 and 4 levels")
ASSUMPTIONS = ["Gurobi's callback values are truthful",
               "polling callbacks are not distinguished (they come from "
               "Gurobi's own timer)"]
FORMS = [(None, "m"), ("naive", "m"), ("belotti", "m"), ("song", "m"),
         (None, "s"), ("naive", "s")]
_real = []
CTRL = dict(n=0, stop=None, how=None, hit=False, kinds=[], seen=[],
            at=[], opt=0.0)


def setup(ctx):
    """gurobipy's Model, with every callback observed and the solve stopped at
    a chosen one. The code under test creates its models with gp.Model."""
    import gurobipy as gp
    from gurobipy import GRB
    if _real:
        return
    base = gp.Model
    _real.append(base)

    class Model(base):
        def optimize(self, callback=None):
            if callback is None:
                return base.optimize(self)
            CTRL["opt"] = CLOCK.now
            if CTRL.get("script") is not None:
                return scripted(self, callback)
            if CTRL["how"] == "none at all":
                self.setParam("TimeLimit", 0)

            def cb(model, where):
                if where == GRB.Callback.MIP:
                    v = (model.cbGet(GRB.Callback.MIP_OBJBST),
                         model.cbGet(GRB.Callback.MIP_OBJBND))
                    if CTRL["seen"][-1:] != [v]:
                        CTRL["seen"].append(v)
                        CTRL["at"].append([CLOCK.now, None])
                callback(model, where)
                if CTRL["at"] and CTRL["at"][-1][1] is None:
                    CTRL["at"][-1][1] = CLOCK.now
                if where != GRB.Callback.POLLING:
                    if CTRL["n"] == CTRL["stop"]:
                        CTRL["hit"] = True
                        model.terminate()
                    CTRL["n"] += 1
                    CTRL["kinds"].append(where)
            try:
                return base.optimize(self, cb)
            finally:
                CTRL["status"] = base.getAttr(self, "Status")

        def cbGet(self, what):
            if CTRL.get("now") is None:
                return base.cbGet(self, what)
            C = GRB.Callback
            if what in (C.MIP_OBJBST, C.MIPSOL_OBJBST, C.MIPNODE_OBJBST):
                return CTRL["now"][0]
            if what in (C.MIP_OBJBND, C.MIPSOL_OBJBND, C.MIPNODE_OBJBND):
                return CTRL["now"][1]
            if what == C.RUNTIME:
                return CLOCK.now - CTRL["opt"]
            return 0.0

        def getAttr(self, name, *a):
            v = base.getAttr(self, name, *a)
            if name == GRB.Attr.Status and CTRL.get("script") is not None \
                    and CTRL["how"] == "interrupt":
                return GRB.INTERRUPTED
            if name == GRB.Attr.Status and v == GRB.INTERRUPTED and \
                    CTRL["hit"] and CTRL["how"] == "time":
                return GRB.TIME_LIMIT
            return v

        def __getattr__(self, name):
            if name == "Status":
                return self.getAttr("Status")
            return base.__getattr__(self, name)
    def scripted(model, callback):
        """A solver that reports exactly the given incumbents and bounds."""
        C = GRB.Callback
        for j, v in enumerate(CTRL["script"]):
            CTRL["now"] = v
            try:
                for where in (C.POLLING, C.MIP, C.SIMPLEX, C.MIP)[
                        :4 if len(CTRL["script"]) < 50 else 2]:
                    if where == C.MIP and CTRL["seen"][-1:] != [v]:
                        CTRL["seen"].append(v)
                        CTRL["at"].append([CLOCK.now, None])
                    callback(model, where)
                    if CTRL["at"] and CTRL["at"][-1][1] is None:
                        CTRL["at"][-1][1] = CLOCK.now
            finally:
                CTRL["now"] = None
        try:
            return base.optimize(model)
        finally:
            CTRL["status"] = base.getAttr(model, "Status")
    gp.Model = Model


def scripts(levels, length):
    """All ways in which incumbent and bound can approach the optimum (1)."""
    inc = [-1e100] + [0.0, .75, 1.0][1 - levels:]
    bnd = [1e100] + [2.0, 1.25, 1.0][1 - levels:]
    for a in itertools.combinations_with_replacement(inc, length):
        for b in itertools.combinations_with_replacement(bnd, length):
            yield list(zip(a, b))


def cases(tier, seed):
    q = tier == "quick"
    shapes = [(8, 1, 4), (12, 2, 5), (16, 1, 8)]
    i = 0
    for sp in itertools.chain(
            I.with_k(I.catalogue(shapes, 3 if q else 12), ks=(1, 3)),
            itertools.islice(I.with_k(I.fam_rot(6, 3), ks=(2,)), 0, None,
                             97 if q else 11)):
        if sp["cont"] and len(sp["c"]) > 4:
            continue
        for f in ([i % 6, (i + 3) % 6] if q else range(6)):
            yield dict(sp=sp, form=f, dense=40 if q else 10 ** 6)
        i += 1
    # the whole set-up takes time before the solver starts
    for sp in itertools.islice(I.with_k(I.catalogue([(8, 1, 4)], 2),
                                        ks=(1, 2)), 0, None, 3):
        for f in range(6):
            yield dict(sp=sp, form=f, dense=3, late=1)
    # the solver's reports themselves are enumerated
    sp = next(s for s in I.with_k(I.catalogue([(8, 1, 4)], 4), ks=(1, 3))
              if oracle_of(s).opt(s["k"]) > 1)
    S = list(scripts(3, 5) if q else scripts(4, 6))
    for f in (0, 4):
        for lo in range(0, len(S), 60):
            yield dict(sp=sp, form=f, scripts=S[lo:lo + 60])
        # very many reports
        for n in (300, 3000, 20000):
            yield dict(sp=sp, form=f, scripts=[
                [(1 - 1 / (1 + j // 2), 1 + 1 / (1 + (j + 1) // 2))
                 for j in range(n)]])


def run_case(case, ctx):
    setup(ctx)
    sp = case["sp"]
    orc = oracle_of(sp)
    opt = orc.opt(sp["k"])
    ci = instance(sp, ctx)

    def once(stop, how, script=None):
        CTRL.update(script=script)
        CTRL.update(n=0, stop=stop, how=how, hit=False, kinds=[], seen=[],
                    at=[])
        path = os.path.join(ctx.scratch, "trace.csv")
        with open(path, "w") as fh:     # left by an earlier run
            fh.write("1.0,2.0,3.0\n" * 50)
        try:
            r, el = solve(ci, case, path)
            spent = CLOCK.now - CLOCK.T0 + (el if el == 777.625 else 0)
        finally:
            n, hit = CTRL["n"], CTRL["hit"]
            kinds, seen = CTRL["kinds"], CTRL["seen"]
            CTRL.update(stop=None, how=None, script=None)
        label = "%s at callback %s" % (how, stop) if stop is not None else how
        rows = read(path, sp, label)
        judge(rows, opt, el, spent, sp, label)
        want = [(-o, -b) for o, b in seen]
        got = [(o, b) for _, o, b in rows]
        if len(got) != len(want) or not np.allclose(
                np.array(got).reshape(-1, 2), np.array(want).reshape(-1, 2),
                rtol=1e-9):
            raise Violation("the trace misses changes the solver reported",
                            spec=sp, how=label, rows=got[-6:],
                            reported=want[-6:])
        for (t, _, _), (t0, t1) in zip(rows, CTRL["at"]):
            if not el + t0 - CTRL["opt"] - 1e-6 <= t <= \
                    (el if el == 777.625 else 0) + t1 - CLOCK.T0 + 1e-6:
                raise Violation("a time of the trace is not the elapsed time "
                                "plus that of the solve", spec=sp, how=label,
                                time=t, elapsed=el, solve_began=CTRL["opt"],
                                between=[t0, t1])
        if script is not None and r != (
                "interrupt" if how == "interrupt" else "end"):
            raise Violation("the solve ended with " + r, spec=sp, how=how)
        if stop is None and how == "no stop" and r != "end":
            raise Violation("an undisturbed solve ended with " + r, spec=sp)
        if hit and how == "interrupt" and CTRL["status"] == 11 and \
                r != "interrupt":
            raise Violation("the interruption is lost", spec=sp, how=label)
        ctx.trace()
        ctx.step()
        ctx.state(sp["A"], sp["k"], sp["cont"], case["form"], label,
                  want if script is not None and len(want) < 50 else len(want))
        ctx.outcome("%s %s %d rows" % (how, r, len(rows)))
        return kinds
    if case.get("late"):
        CLOCK.step = 100.0
    else:
        CLOCK.step = 0.25
    if case.get("scripts"):
        for S in case["scripts"]:
            S = [(a * opt if abs(a) < 1e99 else a,
                  b * opt if abs(b) < 1e99 else b) for a, b in S]
            once(None, "no stop", S)
            once(None, "interrupt", S)
            ctx.count("scripted_reports", len(S))
        return
    kinds = once(None, "no stop")
    n = len(kinds)
    once(None, "none at all")
    seen = {}
    stops = []
    for i, w in enumerate(kinds):
        j = seen.setdefault(w, 0)
        seen[w] += 1
        # the callbacks of the tree search, and some of each other kind
        if j < (case["dense"] if w in (3, 4, 5) else case["dense"] // 5):
            stops.append(i)
    for i in stops:
        once(i, "interrupt")
        once(i, "time")
    ctx.count("callbacks", n)
    ctx.sample(spec=sp, form=case["form"], callbacks=n)


def solve(ci, case, path):
    """-> ('end'|'interrupt', elapsed time when the solver starts)"""
    R = repo()
    method, via = FORMS[case["form"]]
    CLOCK.now = CLOCK.T0
    start = CLOCK.now
    with quiet():
        try:
            if via == "m":
                s = R.MilpSolver(ci, time_limit=1e7, gap=1e-6)
                s.solve(use_big_m=method is not None,
                        big_m_method=method or "naive", save_bounds=True,
                        path=path)
                el = float(s.big_m_time)
            else:
                s = R.Solver(ci, 1e7, 1e-6)
                kw = {} if case["form"] % 2 else dict(elapsed_time=777.625)
                el = kw.get("elapsed_time", 0.0)
                s.solve_cclp_model(
                    ci, R.BigMFinder(ci), use_big_M=method is not None,
                    save_bounds=True, path=path, time_limit=1e7, **kw)
            return "end", el
        except KeyboardInterrupt:
            return "interrupt", el if via == "s" else 0.0
        except Violation:
            raise
        except Exception as e:
            raise Violation("solving with bound recording raised %s: %s" % (
                type(e).__name__, str(e)[:200]), trace=tb(e),
                spec=case["sp"])


def read(path, sp, label):
    if not os.path.exists(path):
        raise Violation("no trace file is written", spec=sp, how=label)
    with open(path) as fh:
        rows = [r for r in csv.reader(fh) if r]
    try:
        rows = [[float(v) for v in r] for r in rows]
    except ValueError:
        raise Violation("the trace file is not numeric", spec=sp, how=label)
    if any(len(r) != 3 for r in rows):
        raise Violation("a trace line does not have three entries", spec=sp,
                        how=label)
    return rows


def judge(rows, opt, el, spent, sp, label):
    """Lines are (time, -incumbent, -bound)."""
    tol = 1e-6 * max(1, abs(opt))
    t0, inc, bnd = el, np.inf, -np.inf
    for j, (t, o, b) in enumerate(rows):
        info = dict(spec=sp, how=label, line=j, rows=rows[:j + 1][-4:],
                    optimum=opt)
        if t < t0 - 1e-9:
            raise Violation("times of the trace decrease or start before the "
                            "elapsed time", elapsed=el, **info)
        if t > spent + 1e-6:
            raise Violation("a time of the trace lies in the future",
                            elapsed=el, spent=spent, **info)
        if o > inc + tol:
            raise Violation("the incumbent of the trace gets worse", **info)
        if b < bnd - tol:
            raise Violation("the bound of the trace gets worse", **info)
        if not b - tol <= -opt <= o + tol:
            raise Violation("a trace line does not bracket the optimum",
                            **info)
        t0, inc, bnd = t, o, b
