"""C17 — an interrupted run still writes a truthful result row."""
import itertools
import os
import shutil
import signal
import sys

import answers
import build
import core
import instances as I
import rows
from cli import ALARMS, HANDLER, run_main
from core import CLOCK, Violation, under
from harness import Fixed, instance, oracle_of, quiet, repo, tb

ANSWERS = True
CASE_SECONDS = 600
WHAT = ("a keyboard interruption is raised before each executed source line of "
        "real solves (points that agree in source line and in everything the "
        "result row and log are made of are represented by the first one); "
        "row and log are then written, read back and judged; main.py is "
        "also run with the optimizer running out of time in each relaxed "
        "problem, with each of several answers")
BOUNDS = dict(quick="8 instances x the four command-line methods",
              thorough="40 instances, adaptive methods also with the other "
              "formulations")
ASSUMPTIONS = ["interruptions are delivered between lines of the sources"]
BEGUN = [False]    # the solve has called the optimizer
SRC = os.path.join(os.path.realpath(build.REPO), "src") + os.sep


# how subsets are split, and the first partition
RULES = {3: ("random", "random"), 4: ("cost", "cost"), 5: ("random", "random"),
         6: ("cost", "cost"), 7: ("random", "cost"), 8: ("cost", "random")}


def specs(q):
    fams = itertools.chain(
        itertools.islice(I.with_k(I.fam_rot(6, 3), ks=(1, 2)), 611, None,
                         2717 if q else 197),
        I.with_k(I.catalogue([(8, 2, 3), (12, 2, 3)], 1 if q else 6, hi=9,
                             zero=3), ks=(2,)),
        itertools.islice(I.degenerate(), 37, None, 139 if q else 9),
        I.deep(1 if q else 12, small=14))
    return fams


def cases(tier, seed):
    q = tier == "quick"
    parts = 4
    for sp in I.with_k(I.catalogue(
            [(8, 2, 3), (12, 2, 3), (16, 1, 4)], 2 if q else 9, hi=9, zero=3),
            ks=(2,)):
        for meth in (1, 2, 3, 4):
            yield dict(kind="main", sp=sp, method=meth)
    for i, sp in enumerate(specs(q)):
        for meth in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
            if q and len(sp["A"]) > 8 and meth < 3 and sp["cont"]:
                continue
            for p in range(parts):
                yield dict(sp=sp, method=meth, part=p, parts=parts,
                           step=1)
        for meth in (7, 8):     # rules that the command line does not mix
            yield dict(sp=sp, method=meth, part=i, parts=32 if q else 8,
                       step=1)


def main_case(case, ctx):
    """main.py itself, interrupted in its n-th call of the optimizer."""
    sp, m = case["sp"], case["method"]
    repo()
    from src.optim.OptiModel import OptiModel
    orig = OptiModel.solve
    opt = oracle_of(sp).opt(sp["k"])
    path = I.path_of(sp, ctx.scratch)
    name = os.path.splitext(os.path.basename(path))[0]
    stop = 1
    while True:
        out = os.path.join(ctx.scratch, "m%d/" % m)
        shutil.rmtree(out, ignore_errors=True)
        n = [0]
        armed = [False]

        def solve(self, *a, **kw):
            if in_solve():
                n[0] += 1
                CLOCK.now += 2.5
                if n[0] == stop:
                    armed[0] = True
                    if m > 2:
                        ring(sp, info)
                    raise KeyboardInterrupt
            return orig(self, *a, **kw)
        OptiModel.solve = solve
        info = dict(method=m, interrupted_at="optimizer call %d" % stop)
        CLOCK.reset()
        try:
            run_main([path, sp["cont"], repr(I.eps_of(sp)), m, out])
        except (Violation, core.Hang, core.ReplayDivergence, MemoryError):
            raise
        except BaseException as e:
            raise Violation("the interrupted command line fails with %s: %s"
                            % (type(e).__name__, str(e)[:200]), trace=tb(e),
                            spec=sp, **info)
        finally:
            OptiModel.solve = orig
        res = [f for f in os.listdir(out) if not f.endswith("-iter.csv")]
        if len(res) != 1:
            raise Violation("no result row after an interruption", spec=sp,
                            files=os.listdir(out), **info)
        raw = rows.read(os.path.join(out, res[0]))
        v = rows.judge_row(raw, rows.MILP if m <= 2 else rows.ADAPT, sp, name,
                           opt, info, dict(limit=3600.0, gaptol=0.01, bigm=1))
        if abs(v["time"] - (CLOCK.now - CLOCK.T0)) > .1:
            raise Violation("the time of the row is not the time of the run",
                            row=v, time=CLOCK.now - CLOCK.T0, spec=sp, **info)
        if m > 2:
            log = os.path.join(out, res[0][:-4] + "-iter.csv")
            rows.judge_log(rows.read(log), opt, len(sp["A"]), info, sp)
        ctx.step()
        ctx.trace()
        ctx.state("main", m, sp["A"], sp["cont"], stop)
        ctx.outcome("main %s" % ("inf" if v["gap"] > 1e9 else "finite"))
        if not armed[0]:
            break
        stop += 1
    ctx.count("main_interruptions", stop - 1)
    overtime(case, ctx, opt, path, name)


def overtime(case, ctx, opt, path, name):
    """main.py, when the optimizer runs out of time in a relaxed problem."""
    sp, m = case["sp"], case["method"]
    R = repo()
    orig = R.Solver.solve_cclp_model
    j = 0
    while True:
        for o in answers.sweep(j, opt, 0.0, (0, 2) if m <= 2 else (2,)):
            def cclp(self, *a, o=o, **kw):
                o.inside = True
                try:
                    return orig(self, *a, **kw)
                finally:
                    o.inside = False
            out = os.path.join(ctx.scratch, "o%d/" % m)
            shutil.rmtree(out, ignore_errors=True)
            CLOCK.reset()
            R.Solver.solve_cclp_model = cclp
            try:
                with answers.answer(o.cond, o.pick):
                    run_main([path, sp["cont"], repr(I.eps_of(sp)), m, out])
            except (Violation, core.Hang, core.ReplayDivergence, MemoryError):
                raise
            except BaseException as e:
                raise Violation("the command line fails with %s out of time: "
                                "%s" % (type(e).__name__, str(e)[:200]),
                                trace=tb(e), spec=sp, method=m, how=o.how())
            finally:
                R.Solver.solve_cclp_model = orig
            if o.value is not None and o.n >= j:
                o.value = answers.LAST[0]
            info = dict(method=m, how=o.how())
            res = [f for f in os.listdir(out) if not f.endswith("-iter.csv")]
            if len(res) != 1:
                raise Violation("no result row after running out of time",
                                spec=sp, files=os.listdir(out), **info)
            raw = rows.read(os.path.join(out, res[0]))
            v = rows.judge_row(raw, rows.MILP if m <= 2 else rows.ADAPT, sp,
                               name, opt, info,
                               dict(limit=3600.0, gaptol=0.01, bigm=1))
            if m > 2:
                log = os.path.join(out, res[0][:-4] + "-iter.csv")
                rows.judge_log(rows.read(log), opt, len(sp["A"]), info, sp)
            elif o.value is not None and o.n >= j and \
                    not (abs(v["vLB"] - o.value) <= 6e-4 and
                         abs(v["vUB"] - o.bound) <= 6e-4):
                raise Violation("the row does not hold what the optimizer "
                                "had found", spec=sp, row=v, value=o.value,
                                bound=o.bound, **info)
            if abs(v["time"] - (CLOCK.now - CLOCK.T0)) > .1:
                raise Violation("the time of the row is not the time of the "
                                "run", time=CLOCK.now - CLOCK.T0, spec=sp,
                                row=v, **info)
            ctx.step()
            ctx.trace()
            ctx.state("overtime", m, sp["A"], sp["cont"], o.j, o.a, o.mode)
            ctx.outcome("overtime %s" % ("inf" if v["gap"] > 1e9 else
                                         ("0" if v["gap"] < .02 else "open")))
            if o.n < j:
                return
        j += 1


def ring(sp, info):
    """The alarm of the command line goes off."""
    if not ALARMS or ALARMS[-1] != 3600 or not callable(HANDLER[0]):
        raise Violation("no alarm is set for the time limit", alarms=ALARMS,
                        spec=sp, **info)
    old = signal.signal(signal.SIGINT, signal.default_int_handler)
    try:
        HANDLER[0](signal.SIGALRM, sys._getframe())
        for _ in range(100):     # let Python deliver what was raised
            pass
    finally:
        signal.signal(signal.SIGINT, old)
    raise Violation("the alarm does not interrupt the run", spec=sp, **info)


def in_solve():
    """Inside the solve() of a solution method (not its constructor)?"""
    f = sys._getframe(1)
    names = []
    while f is not None:
        if f.f_code.co_filename.startswith(SRC + "solver"):
            names.append(f.f_code.co_name)
        f = f.f_back
    return "solve" in names


def start(case, ctx):
    R = repo()
    ci = instance(case["sp"], ctx)
    m = case["method"]
    if m in (1, 2):
        s = R.MilpSolver(ci, time_limit=3600, gap=1e-4)
        path = os.path.join(ctx.scratch, "trace.csv")

        def go():
            s.solve(use_big_m=True, big_m_method=("song", "belotti")[m - 1],
                    save_bounds=True, path=path)
        return s, go
    split, init = RULES[m]
    kw = dict(initial_partition_type=init, split_method=split,
              use_acc_obj=split == "cost")
    s = R.AdaptivePartitioner(
        ci, projection_method="rescaled_max_violation", time_limit=3600,
        gap=1e-4, **kw)
    bf = R.BigMFinder(s.chance_instance_part)
    sk = {3: dict(use_merger=False, use_big_M=True, big_m_method="belotti"),
          4: dict(use_merger=True, use_big_M=True, big_m_method="belotti",
                  use_lazy=True),
          5: dict(use_merger=True, use_big_M=False),
          6: dict(use_merger=True, use_big_M=True, big_m_method="song"),
          7: dict(use_merger=False, use_big_M=True, big_m_method="naive"),
          8: dict(use_merger=True, use_big_M=True, big_m_method="belotti")}[m]
    return s, lambda: s.solve(bf, **sk)


def rowstate(s):
    d = s.__dict__
    inf = d.get("informer")
    part = d.get("chance_instance_part")
    return (d.get("iteration"), d.get("vLB"), d.get("vUB"),
            len(getattr(inf, "iteration_info", ())),
            getattr(part, "nb_subsets", None), d.get("use_big_M"),
            d.get("big_m_method"), d.get("big_m_time"))


def run_traced(case, ctx, inject=None):
    """Returns (solver, keys of all line events, outcome)."""
    from src.optim.OptiModel import OptiModel
    CLOCK.reset()
    CLOCK.step = 0.001
    n = [0]
    keys = []
    orig = OptiModel.solve

    def counted(self, *a, **kw):
        BEGUN[0] = True
        return orig(self, *a, **kw)

    with quiet(), under(Fixed(0)):
        s, go = start(case, ctx)
        BEGUN[0] = False
        OptiModel.solve = counted

        def local(frame, event, arg):
            if event == "line":
                i = n[0]
                n[0] += 1
                if inject is None:
                    keys.append((frame.f_code.co_filename, frame.f_lineno)
                                + rowstate(s))
                elif i == inject:
                    sys.settrace(None)
                    keys.append("%s:%d" % (os.path.basename(
                        frame.f_code.co_filename), frame.f_lineno))
                    raise KeyboardInterrupt
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                return local
            return None
        out = "end"
        sys.settrace(glob)
        try:
            go()
        except KeyboardInterrupt:
            out = "interrupt"
        except (Violation, core.Hang, core.ReplayDivergence, MemoryError):
            raise
        except Exception as e:
            sys.settrace(None)
            raise Violation("an interruption turns into %s: %s" % (
                type(e).__name__, str(e)[:200]), trace=tb(e), spec=case["sp"],
                method=case["method"], at=keys[-1:])
        finally:
            sys.settrace(None)
            OptiModel.solve = orig
    return s, keys, out


def written(s, case, ctx, at):
    sp, m = case["sp"], case["method"]
    R = repo()
    opt = oracle_of(sp).opt(sp["k"])
    info = dict(interrupted_at=at, method=m)
    f1, f2 = (os.path.join(ctx.scratch, f) for f in ("row.csv", "iter.csv"))
    for f in (f1, f2):
        if os.path.exists(f):
            os.unlink(f)
    try:
        with quiet():
            if at and len(str(at)) % 2:
                CLOCK.now += 5000       # interrupted late
            R.TimeManager.set_final_time()
            took = CLOCK.now - CLOCK.T0
            s.write_all_computation_details(f1)
            if m > 2:
                s.write_iteration_details(f2)
    except Exception as e:
        raise Violation("the results of an interrupted run cannot be written: "
                        "%s: %s" % (type(e).__name__, str(e)[:200]),
                        trace=tb(e), spec=sp, **info)
    name = os.path.splitext(os.path.basename(I.path_of(sp, ctx.scratch)))[0]
    exp = dict(limit=3600.0, gaptol=0.01)
    if BEGUN[0]:          # the parameters of the solve are known by now
        exp["bigm"] = int(m != 5)
        if m <= 2:
            exp["method"] = (3, 2)[m - 1]
    N = len(sp["A"])
    if m <= 2:
        v = rows.judge_row(rows.read(f1), rows.MILP, sp, name, opt, info, exp)
    else:
        split, init = (dict(random=2, cost=3)[r] for r in RULES[m])
        v = rows.judge_row(rows.read(f1), rows.ADAPT, sp, name, opt, info,
                           dict(exp, split=split, init=init, proj=5))
        lb, ub = rows.judge_log(rows.read(f2), opt, N, info, sp)
        if v["vLB"] < lb - 1e-3 or v["vUB"] > ub + 1e-3:
            raise Violation("the row has worse bounds than the log",
                            row=v, log=[lb, ub], spec=sp, **info)
        if not sp["k"] + 1 <= v["size"] <= N:
            raise Violation("wrong partition size in the row", row=v, spec=sp,
                            **info)
    if abs(v["time"] - took) > .1:
        raise Violation("the time of the row is not the time of the run",
                        row=v, time=took, spec=sp, **info)
    return v


def run_case(case, ctx):
    if case.get("kind") == "main":
        return main_case(case, ctx)
    s, keys, out = run_traced(case, ctx)
    if out != "end":
        raise Violation("the run does not end by itself", spec=case["sp"],
                        method=case["method"])
    written(s, case, ctx, "not interrupted")
    first = {}
    for i, k in enumerate(keys):
        first.setdefault(k, i)
    pts = sorted(first.values())[case["part"]::case["parts"]]
    for i in pts:
        s, at, out = run_traced(case, ctx, inject=i)
        if out == "end" and at:
            # swallowed: the run must then be complete and truthful all the same
            ctx.count("interruptions absorbed")
        v = written(s, case, ctx, at)
        ctx.step()
        ctx.trace()
        ctx.state(case["method"], case["sp"]["A"], case["sp"]["k"],
                  case["sp"]["cont"], keys[i])
        ctx.outcome("%s gap %s" % (out, "inf" if v["gap"] > 1e9 else
                                   ("0" if v["gap"] < .02 else "open")))
    ctx.count("line_events", len(keys) if case["part"] == 0 else 0)
    ctx.count("interruption_points", len(pts))
    ctx.sample(spec=case["sp"], method=case["method"], points=len(first))
