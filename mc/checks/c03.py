"""C03 — bounds bracket the optimum at every instant, and the log is true."""
import csv
import itertools
import os

import numpy as np

import answers
import env
import instances as I
from harness import Fixed, Run, call, close

ANSWERS = True
CONTRACT = 1e-4
CASE_SECONDS = 120
WHAT = ("every assignment of vUB / vLB of the real solver object is observed "
        "during full solves; iteration log lines are compared with the bounds "
        "held when they are appended and with the written file; relaxed "
        "problems answered by Gurobi, or by a stub that enumerates every "
        "optimal answer and its bound within the gap")
BOUNDS = dict(quick="N<=3 exhaustive, rotation patterns N=6,8, catalogue "
              "N<=12; environment answers: all, "
              "with two bounds within the gap, <=2 deviations; 54 binary "
              "instances with every integer problem answered in three ways "
              "within its gap",
              thorough="N<=4 exhaustive, rotation patterns N=6,7,8, catalogue "
              "N<=20, all configurations; environment <=3 deviations")
ASSUMPTIONS = ["Gurobi answers correctly on b>0 packing models"]
C = I.CONFIGS


def cases(tier, seed):
    q = tier == "quick"
    i = 0
    src = itertools.chain(
        itertools.islice(I.with_k(I.fam_n2((3,) if q else (2, 3, 4))), 0,
                         None, 2 if q else 1),
        itertools.islice(I.with_k(I.fam_rot(6, 3), ks=(1, 2, 3)), 0, None,
                         13 if q else 1),
        itertools.islice(I.with_k(I.fam_rot(8, 3), ks=(1, 2, 3)), 0, None,
                         29 if q else 2),
        I.with_k(I.catalogue([(8, 1, 3), (10, 2, 3), (12, 1, 4)] + (
            [] if q else [(20, 2, 3), (16, 1, 5)]), 6 if q else 20),
            ks=(1, 2, 3, 5)))
    for sp in src:
        for j in range(2 if q else 8):
            yield dict(kind="real", sp=sp, cfg=(i * 11 + j * 17) % 56,
                       mode=i % 4, gap=(1e-4, 1e-4, 0.05)[i % 3])
        i += 1
    for sp in I.deep(24 if q else None):
        for j in range(3 if q else 28):
            yield dict(kind="real", sp=sp, cfg=(i * 11 + j * 17) % 56,
                       mode=i % 4, gap=(1e-4, 0.05, 0.0)[i % 3])
        i += 1
    for sp in I.with_k(I.rescale(itertools.chain(
            I.catalogue([(8, 1, 3), (12, 2, 3)], 8 if q else 32, hi=9),
            itertools.islice(I.fam_rot(6, 3), 7, None, 41 if q else 5))),
            ks=(1, 2)):
        for j in range(1 if q else 8):
            yield dict(kind="real", sp=sp, cfg=(i * 11 + j * 17) % 56,
                       mode=i % 4, gap=(0.3, 1e-4, 0.1)[i // 2 % 3])
        i += 1
    for sp in itertools.islice(I.degenerate(), 0, None, 2 if q else 1):
        for j in range(1 if q else 14):
            yield dict(kind="real", sp=sp, cfg=(i * 11 + j * 17) % 56,
                       mode=i % 4, gap=1e-4)
        i += 1
    # every integer problem is answered within the gap only
    for sp in I.with_k(I.catalogue([(8, 1, 4), (10, 2, 4), (9, 1, 5)],
                                   6 if q else 24, hi=99, zero=5),
                       cont=(0,), ks=(1, 2, 3)):
        sp = env.scaled(sp, 100)
        for j in range(2 if q else 8):
            yield dict(kind="loose", sp=sp, cfg=(i * 11 + j * 17) % 56,
                       mode=i % 4)
        i += 1
    for sp in itertools.islice(env.tie_specs(q), 0, None, 11 if q else 1):
        yield dict(kind="env", sp=sp, cfg=env.CFGS[i % len(env.CFGS)],
                   dev=2 if q else 3)
        i += 1


class Log:
    """What held when each line of the log was stored, and all that ever held."""
    def __init__(self, run):
        self.run = run
        self.seen = []          # at each call of store_iteration_info
        self.history = []       # at each change of a bound or the partition
        inf = run.solver.informer
        store = getattr(inf, "store_iteration_info", None)
        if store is not None:
            def wrapped(*a, **kw):
                self.seen.append(self.now())
                return store(*a, **kw)
            inf.store_iteration_info = wrapped

    def now(self):
        s = self.run.solver
        return (float(s.vLB), float(s.vUB), len(self.run.partitions[-1]),
                self.run.iters)

    def tick(self):
        if self.run.solver is not None and self.run.partitions:
            self.history.append(self.now())


def observe(run, opt, tick):
    slack = 1e-6 * max(1, abs(opt))

    def on_bound(r, name, old, new):
        r.ctx.step()
        tick()
        new = float(new)
        if np.isnan(new):
            r.fail("%s became NaN" % name, optimum=opt)
        if name == "vUB":
            if new < opt - slack:
                r.fail("upper bound set below the optimum", optimum=opt,
                       new=new)
            if old is not None and new > float(old) + slack:
                r.fail("upper bound got worse", optimum=opt, old=float(old),
                       new=new)
        else:
            if new > opt + 10 * slack:
                r.fail("lower bound set above the optimum", optimum=opt,
                       new=new)
            if old is not None and new < float(old) - slack:
                r.fail("lower bound got worse", optimum=opt, old=float(old),
                       new=new)

    def on_check(r, x, ok):
        tick()
        check_incumbent(r, opt)
    run.on_bound, run.on_check = on_bound, on_check


def check_incumbent(r, opt):
    s = r.solver
    if not np.isfinite(s.vLB):
        return
    x = getattr(s, "xLB", None)
    if x is None:
        r.fail("a lower bound without a solution", optimum=opt)
    x = np.asarray(x, float)
    if not close(float(r.orc.c @ x), float(s.vLB), 1e-5):
        r.fail("the lower bound is not the value of the incumbent",
               optimum=opt, value=float(r.orc.c @ x))
    if not r.orc.feasible(x, r.k, 2e-6):
        r.fail("the incumbent is infeasible", optimum=opt)


def num(t):
    return float(t)


def states(ln, held):
    lb, ub, size, it = held
    return (num(ln[0]) == it and num(ln[5]) == size
            and abs(-num(ln[2]) - lb) <= 6e-4 + 1e-9 * abs(lb)
            and abs(-num(ln[3]) - ub) <= 6e-4 + 1e-9 * abs(ub)
            or (np.isinf(lb) and -num(ln[2]) == lb and num(ln[0]) == it))


def check_log(run, log, ctx):
    path = os.path.join(ctx.scratch, "iter.csv")
    call(run.solver.write_iteration_details, "write_iteration_details", path)
    with open(path, newline="") as fh:
        lines = list(csv.reader(fh))
    log.tick()
    if log.seen and len(lines) != len(log.seen):
        run.fail("log lines were dropped or replaced", file=lines[:5],
                 stored=len(log.seen))
    at = 0
    for i, ln in enumerate(lines):
        if log.seen:
            held = log.seen[i]
            if not states(ln, held):
                run.fail("a log line does not state what held", line=ln,
                         held=held)
        else:
            while at < len(log.history) and not states(ln, log.history[at]):
                at += 1
            if at == len(log.history):
                run.fail("a log line states what never held", line=ln)
            held = log.history[at]
        lb, ub = held[:2]
        if np.isfinite(lb) and abs(lb) > 1e-3:
            g = 100 * (ub - lb) / abs(lb)
            if abs(num(ln[4]) - g) > 1e-3 + 1e-6 * abs(g):
                run.fail("a log line states a wrong gap", line=ln, gap=g)
    if [num(ln[0]) for ln in lines] != sorted(num(ln[0]) for ln in lines):
        run.fail("log lines are not in order", file=lines[:9])
    if run.iters and not lines:
        run.fail("nothing was logged")
    return lines


def run_case(case, ctx):
    cfg = C[case["cfg"]]
    sp = case["sp"]

    def one(ch, stub=None):
        run = Run(sp, cfg, ctx, ch, gap=case.get("gap", 1e-4))
        opt = run.orc.opt(run.k)
        log = []
        observe(run, opt, lambda: log and log[0].tick())
        if stub:
            run.stub_cclp = stub
        try:
            run.build()
        except Exception as e:
            if type(e).__name__ in ("Violation",):
                raise
            run.fail("the solver raised %s: %s" % (type(e).__name__, e))
        log.append(Log(run))
        run.build = lambda: run
        run.go()
        check_incumbent(run, opt)
        lines = check_log(run, log[0], ctx)
        ctx.outcome("it%d lines%d" % (run.iters, len(lines)))

    if case["kind"] == "loose":
        for t in (0, 1, 2):
            turn = itertools.count(t)
            with answers.answer(
                    lambda model: model.NumIntVars > 0,
                    lambda model, pool: answers.within_gap(
                        model, pool, next(turn))):
                one(Fixed(case["mode"]))
    elif case["kind"] == "real":
        one(Fixed(case["mode"]))
    else:
        n = ctx.explore(lambda ch: one(ch, env.stub(ch, loose=(0.0, 9e-5))),
                        max_dev=case["dev"])
        ctx.count("environment_executions", n)
    ctx.sample(spec=sp, config=cfg)
