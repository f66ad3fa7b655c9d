"""C16 — running out of time is graceful at every point."""
import itertools

import numpy as np

import answers
import core
import instances as I
from answers import OutOfTime, sweep
from core import CLOCK, Violation
from harness import (PRINTED, Fixed, Run, instance, oracle_of, quiet, repo,
                     tb)

ANSWERS = True
CASE_SECONDS = 300
WHAT = ("every explored solve is repeated with the time running out at each "
        "single clock reading, and inside each solver call (no solution yet, "
        "or each of several suboptimal answers); what is left behind is "
        "compared with the brute-force optimum")
BOUNDS = dict(quick="instances with N<=16, n<=4, m<=2, 2 of 56 adaptive "
              "configurations each; all extended formulations",
              thorough="six times as many instances, all configurations")
ASSUMPTIONS = ["the code measures time through time.time / monotonic / "
               "perf_counter; the time limit counts from the construction of "
               "the solver"]
C = I.CONFIGS
MILP = [(False, "naive"), (True, "naive"), (True, "belotti"), (True, "song")]


def specs(q):
    fams = itertools.chain(
        I.with_k(itertools.islice(I.fam_n2((3, 4)), 5, None,
                                  301 if q else 41), ks=(1,)),
        itertools.islice(I.with_k(I.fam_rot(6, 3), ks=(1, 2)), 3, None,
                         197 if q else 23),
        I.with_k(I.catalogue([(8, 2, 3), (14, 2, 4), (16, 1, 4)],
                             2 if q else 12, hi=9, zero=3), ks=(2, 4)),
        itertools.islice(I.degenerate(), 0, None, 17 if q else 1),
        I.deep(4 if q else 24, small=20))
    return fams


def cases(tier, seed):
    q = tier == "quick"
    for i, sp in enumerate(specs(q)):
        for j in range(2 if q else 56):
            yield dict(kind="adaptive", sp=sp, mode=i % 4,
                       cfg=(i * 11 + j * 17 + 3) % 56 if q else j)
            yield dict(kind="given", sp=sp, mode=i % 4,
                       cfg=(i * 11 + j * 17 + 5) % 56 if q else j)
        for f in range(4):
            yield dict(kind="milp", sp=sp, form=f)
            yield dict(kind="given milp", sp=sp, form=f)


def granted(model, sp, how, end):
    """The optimizer is given the time that is left."""
    left = max(end - CLOCK.now, 0)
    limit = float(model.Params.TimeLimit)
    if abs(limit - left) > 1:
        raise Violation("the optimizer is given %s time than is left" % (
            "more" if limit > left else "less"), limit=limit, left=left,
            spec=sp, how=how)


def state_ok(s, sp, how, said):
    orc, k = oracle_of(sp), sp["k"]
    opt = orc.opt(k)
    tol = 1e-5 * max(1, abs(opt))
    lb, ub = float(s.vLB), float(s.vUB)
    x = getattr(s, "xLB", None)
    info = dict(spec=sp, how=how, vLB=lb, vUB=ub, optimum=opt,
                x=None if x is None else np.asarray(x).tolist())
    if not ub >= opt - tol:
        raise Violation("out of time: the upper bound is below the optimum",
                        **info)
    if not lb <= opt + tol:
        raise Violation("out of time: the lower bound is above the optimum",
                        **info)
    if lb > -1e29:
        if x is None:
            raise Violation("out of time: a lower bound without solution",
                            **info)
        x = np.asarray(x, float)
        if orc.violations_of(x, 2e-6).sum() > k or (x < -1e-6).any() or \
                (x > 1 + 1e-6).any():
            raise Violation("out of time: the incumbent is not feasible",
                            **info)
        if abs(float(orc.c @ x) - lb) > tol:
            raise Violation("out of time: the incumbent does not have the "
                            "reported value", value=float(orc.c @ x), **info)
    elif x is not None:
        raise Violation("out of time: an incumbent without its value", **info)
    if said and not (x is not None and abs(lb - opt) <=
                     2e-4 * max(1, abs(opt))):
        raise Violation("a solution is declared optimal that is not", **info)


def attempt(fn, sp, how):
    """'end' | 'interrupt'; anything else is a violation. Also whether the
    solver announced an optimal solution."""
    PRINTED[:] = [""]
    try:
        with quiet():
            fn()
        r = "end"
    except KeyboardInterrupt:
        r = "interrupt"
    except (Violation, core.Hang, core.ReplayDivergence, MemoryError):
        raise
    except Exception as e:
        raise Violation("running out of time raises %s: %s" % (
            type(e).__name__, str(e)[:200]), trace=tb(e), spec=sp, how=how)
    said = any("Found optimal solution" in t for t in PRINTED)
    PRINTED.clear()
    return r, said


def run_case(case, ctx):
    {"adaptive": adaptive, "milp": milp, "given": given,
     "given milp": given}[case["kind"]](case, ctx)
    ctx.sample(spec=case["sp"])
    if answers.FAILED[0]:
        ctx.count("answers_not_forced", answers.FAILED[0])
        answers.FAILED[0] = 0


def guard(part, step, begun, sp, how):
    """Nothing new is begun when the time has run out."""
    orig = getattr(part, step, None)
    if orig is None:
        return

    def begin(*a, **kw):
        if CLOCK.now - begun > 1e5:
            raise Violation("%s is begun after the time has run out" % step,
                            spec=sp, how=how.how() if isinstance(
                                how, OutOfTime) else how)
        return orig(*a, **kw)
    setattr(part, step, begin)


def adaptive(case, ctx):
    sp, orc, k = case["sp"], oracle_of(case["sp"]), case["sp"]["k"]
    cfg = C[case["cfg"]]

    def fresh():
        return Run(sp, cfg, ctx, Fixed(case["mode"]))

    def once(run, how):
        late, begun = [0], [None]

        def on_check(r, x, ok):
            if isinstance(how, OutOfTime):
                label = how.how()
            else:
                label = how
            if CLOCK.now - begun[0] > 1e5:
                late[0] += 1
                if late[0] > 1:
                    raise Violation("goes on solving relaxed problems after "
                                    "the time has run out", spec=sp,
                                    how=label)
        run.on_check = on_check
        stage = [None]

        def go():
            run.build()
            stage[0] = run.solver
            begun[0] = repo().TimeManager.get_start_time()
            for part, step in (("refiner", "refine"),
                               ("lowerbounder", "deterministic_bound")):
                guard(getattr(run.solver, part, None), step, begun[0], sp,
                      how)
            run.solve()
        r, said = attempt(go, sp, how)
        held = np.inf
        if isinstance(how, OutOfTime):
            held, how = how.ub, how.how()
        ctx.trace()
        ctx.step()
        if stage[0] is not None:
            state_ok(stage[0], sp, how, said)
            if stage[0].vUB > held + 1e-6 * max(1, abs(held)):
                raise Violation("out of time: the upper bound got worse",
                                before=held, after=float(stage[0].vUB),
                                spec=sp, how=how)
        ctx.outcome("adaptive %s" % r)
        ctx.state("A", sp["A"], case["cfg"], how)

    CLOCK.reset()
    base = fresh()
    once(base, "no expiry")
    reads = CLOCK.reads
    calls = 0
    for i in range(reads):
        CLOCK.reset(expire_at=i)
        once(fresh(), "clock reading %d of %d" % (i, reads))
    # inside the solver call
    CLOCK.reset()
    cnt = fresh()
    seen = []
    cnt.on_cclp = lambda r, part, bm, kw: seen.append(float(r.solver.vUB))
    once(cnt, "count")
    for j, ub in enumerate(seen):
        for o in sweep(j, orc.opt(k), ub, (0, 1, 2, 3)):
            CLOCK.reset()
            run = fresh()

            def on_cclp(r, part, bm, kw, o=o):
                o.inside = True

            def on_answer(r, kw, ans, o=o):
                o.inside = False
            run.on_cclp, run.on_answer = on_cclp, on_answer
            with answers.answer(o.cond, o.pick):
                once(run, o)
    ctx.count("solver_calls", len(seen))
    ctx.count("clock_readings", reads)


STEP = 7.0


def given(case, ctx):
    """Time passes in every optimizer call; a limit that leaves much, and one
    that runs out during the solve."""
    sp = case["sp"]
    CLOCK.reset()
    for limit in (1800, 100, 40):
        CLOCK.reset()
        inside, seen = [False], [0, 0]
        end = CLOCK.now + limit     # the solver is constructed now

        def cond(model):
            if inside[0]:
                seen[0] += 1
                granted(model, sp, "limit %g" % limit, end)
            CLOCK.now += STEP
            seen[1] += 1
            return False

        def born():
            CLOCK.now += STEP / 70      # building takes time too

        def on_cclp(*a):
            inside[0] = True

        def on_answer(*a):
            inside[0] = False
        with answers.answer(cond, None, born):
            if case["kind"] == "given":
                run = Run(sp, C[case["cfg"]], ctx, Fixed(case["mode"]),
                          time_limit=limit)
                run.on_cclp, run.on_answer = on_cclp, on_answer

                def go():
                    run.build()
                    run.solve()
            else:
                ci = instance(sp, ctx)

                def go():
                    use, meth = MILP[case["form"]]
                    s = repo().MilpSolver(ci, time_limit=limit, gap=1e-4)
                    orig = s.solve_cclp_model

                    def cclp(*a, **kw):
                        on_cclp()
                        r = orig(*a, **kw)
                        on_answer()
                        return r
                    s.solve_cclp_model = cclp
                    s.solve(use_big_m=use, big_m_method=meth)
            attempt(go, sp, "limit %g" % limit)
        ctx.trace()
        ctx.step(seen[1])
        ctx.count("limits_compared", seen[0])
        ctx.state(case["kind"], sp["A"], limit, seen)
    ctx.outcome("%s %d" % (case["kind"], seen[0]))


def milp(case, ctx):
    R = repo()
    sp, orc, k = case["sp"], oracle_of(case["sp"]), case["sp"]["k"]
    use, meth = MILP[case["form"]]
    ci = instance(sp, ctx)

    def once(how, out=None):
        st = [None]

        def go():
            s = R.MilpSolver(ci, time_limit=1800, gap=1e-4)
            st[0] = s
            orig = s.solve_cclp_model

            def cclp(*a, **kw):
                if out:
                    out.inside = True
                return orig(*a, **kw)
            s.solve_cclp_model = cclp
            s.solve(use_big_m=use, big_m_method=meth)
        r, said = attempt(go, sp, how)
        if out:
            how = out.how()
            if out.n < 0:
                raise Violation("the extended problem is never solved",
                                spec=sp, how=how)
            if (r == "interrupt") != (out.value is None):
                raise Violation("out of time %s a solution: the solve ends "
                                "with %s" % ("without" if out.value is None
                                             else "with", r), spec=sp, how=how)
        ctx.trace()
        ctx.step()
        if st[0] is not None:
            state_ok(st[0], sp, how, said)
            if r == "end" and not np.isfinite(st[0].vLB):
                raise Violation("returned without a solution", spec=sp,
                                how=how)
        ctx.outcome("milp %s" % r)
        ctx.state("M", sp["A"], case["form"], how)
    CLOCK.reset()
    once("no expiry")
    reads = CLOCK.reads
    for i in range(reads):
        CLOCK.reset(expire_at=i)
        once("clock reading %d of %d" % (i, reads))
    for o in sweep(0, orc.opt(k), 0.0, (0, 2)):
        CLOCK.reset()
        with answers.answer(o.cond, o.pick):
            once(o, o)
    ctx.count("clock_readings", reads)
