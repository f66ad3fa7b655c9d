"""C18 — each command-line run writes the row the reporting step reads."""
import itertools
import os
import shutil

import answers
import core
import instances as I
import rows
from cli import run_main
from core import CLOCK, Violation
from harness import Fixed, call, oracle_of, tb

ANSWERS = True
CASE_SECONDS = 300
TAKES = 2.5      # seconds that each call of the optimizer takes
WHAT = ("the real main.py is executed for every method, variable type and "
        "two-digit epsilon; the file is looked up with the real "
        "read_single_experiment and every entry is judged")
BOUNDS = dict(quick="4 methods x 2 variable types x epsilon 0.01..0.99 and 15 of three digits on one "
              "instance (N=10) each, plus 12 instances x 3 epsilons; existing, "
              "missing and nested output folders, absolute and relative, and "
              "one with the result of an earlier run",
              thorough="3 instances for the epsilon sweep, 60 instances")
ASSUMPTIONS = ["the alarm is replaced by a stand-in"]


def cases(tier, seed):
    q = tier == "quick"
    sweep = list(I.catalogue([(10, 1, 2), (10, 2, 3), (16, 1, 3)],
                             2 if q else 6, hi=9, zero=3))
    i = 0
    for e in range(1, 100):
        for m in (1, 2, 3, 4):
            for cont in (0, 1):
                for r in range(1 if q else 3):
                    c, A, b = sweep[(e + m + r) % len(sweep)]
                    yield dict(c=c, A=A, b=b, eps=e / 100, method=m, cont=cont,
                               out=i % 5, text=i % 2)
                    i += 1
    # tolerances of three digits
    for e in (5, 15, 75, 125, 142, 175, 225, 333, 375, 475, 555, 625, 667, 875,
              995):
        for m in (1, 2, 3, 4):
            for cont in (0, 1):
                c, A, b = sweep[(e + m) % len(sweep)]
                yield dict(c=c, A=A, b=b, eps=e / 1000, method=m, cont=cont,
                           out=i % 5, text=0)
                i += 1
    fams = itertools.chain(
        itertools.islice(I.fam_n2((4,)), 0, None, 157 if q else 31),
        itertools.islice(I.fam_rot(6, 3), 0, None, 157 if q else 31),
        I.catalogue([(12, 2, 3), (14, 1, 4)], 2 if q else 9))
    for c, A, b in fams:
        for eps in (0.1, 0.25, 0.34):
            for m in (1, 2, 3, 4):
                yield dict(c=c, A=A, b=b, eps=eps, method=m, cont=i % 2,
                           out=i % 5, text=0)
                i += 1


def run_case(case, ctx):
    from src.export.format_results import read_single_experiment
    A = case["A"]
    N = len(A)
    eps = case["eps"]
    k = int(eps * N + 1e-9)
    sp = I.spec(case["c"], A, case["b"], k, case["cont"], eps=eps)
    root = os.path.join(ctx.scratch, "cli")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    stem = ("1-4-1-multi", "inst", "a-b")[case["method"] % 3]
    inst = os.path.join(root, "%s-%d-%d.csv" % (stem, N, 3))
    shutil.copy(I.path_of(sp, ctx.scratch), inst)
    os.chdir(root)
    out = [os.path.join(root, "res") + "/", os.path.join(root, "x/y/z") + "/",
           "rel/", "rel/deep/", os.path.join(root, "have") + "/"][case["out"]]
    if case["out"] == 4:
        os.makedirs(out)
    text = repr(eps) if not case["text"] else "%.2f" % eps
    info = dict(method=case["method"], eps=text, out=out)
    try:
        if case["out"] == 4:     # an earlier run, when the data were others
            other = os.path.join(root, "other.csv")
            shutil.copy(inst, other)
            rev = I.spec(case["c"][::-1], A[::-1], [2 * v for v in case["b"]],
                         k, case["cont"], eps=eps)
            shutil.copy(I.path_of(rev, ctx.scratch), inst)
            run_main([inst, case["cont"], text, case["method"], out])
            shutil.copy(other, inst)
        CLOCK.reset()
        calls = [0]

        def cond(model):
            calls[0] += 1
            CLOCK.now += TAKES
            return False
        with answers.answer(cond, None):
            run_main([inst, case["cont"], text, case["method"], out])
    except (Violation, core.Hang, core.ReplayDivergence, MemoryError):
        raise
    except BaseException as e:
        raise Violation("the command line fails with %s: %s" % (
            type(e).__name__, str(e)[:200]), trace=tb(e), spec=sp, **info)
    row = call(read_single_experiment, "read_single_experiment", out, stem, N,
               3, eps, case["cont"], case["method"])
    if not row:
        raise Violation("the reporting step does not find the result",
                        files=sorted(os.listdir(os.path.abspath(out))),
                        spec=sp, **info)
    files = [f for f in os.listdir(os.path.abspath(out))]
    res = [f for f in files if not f.endswith("-iter.csv")]
    it = [f for f in files if f.endswith("-iter.csv")]
    if len(res) != 1 or len(it) != 1:
        raise Violation("not exactly one result and one iteration file",
                        files=sorted(files), spec=sp, **info)
    raw = rows.read(os.path.join(out, res[0]))
    opt = oracle_of(sp).opt(k)
    m = case["method"]
    name = "%s-%d-%d" % (stem, N, 3)
    exp = dict(limit=3600.0, gaptol=0.01, bigm=1)
    if m <= 2:
        v = rows.judge_row(raw, rows.MILP, sp, name, opt, info,
                           dict(exp, method=3 if m == 1 else 2))
        if abs(v["bigm_time"] - TAKES * (calls[0] - 1)) > .1:
            raise Violation("the big-M time of the row is not the time spent "
                            "before the problem is solved", row=v, spec=sp,
                            time=TAKES * (calls[0] - 1), **info)
    else:
        c = 2 if m == 3 else 3
        v = rows.judge_row(raw, rows.ADAPT, sp, name, opt, info,
                           dict(exp, split=c, init=c, proj=5))
        log = rows.read(os.path.join(out, it[0]))
        if not log:
            raise Violation("empty iteration file", spec=sp, **info)
        rows.judge_log(log, opt, N, info, sp)
        if abs(-float(log[-1][3]) - v["vUB"]) > 1e-9:
            raise Violation("the iteration file ends with another upper bound",
                            last=log[-1], row=v, spec=sp, **info)
        if float(log[-1][0]) != v["iteration"]:
            raise Violation("the row has another number of iterations than "
                            "the iteration file", last=log[-1], row=v,
                            spec=sp, **info)
        if not k + 1 <= v["size"] <= N or v["size"] != float(log[-1][5]):
            raise Violation("wrong partition size", row=v, spec=sp, **info)
        if float(log[-1][1]) > v["time"] + 1e-3:
            raise Violation("the iteration file ends later than the run",
                            last=log[-1], row=v, spec=sp, **info)
    if abs(v["time"] - TAKES * calls[0]) > .1:
        raise Violation("the time of the row is not the time of the run",
                        row=v, time=TAKES * calls[0], spec=sp, **info)
    tol = 1.2e-3 + 1.1e-4 * max(1, abs(opt))
    if abs(v["vLB"] - opt) > tol or abs(v["vUB"] - opt) > tol:
        raise Violation("the bounds of the row are not the optimum", row=v,
                        optimum=opt, spec=sp, **info)
    if [row[0]] + row[1:] != [raw[0][0]] + [float(x) for x in raw[0][1:]]:
        raise Violation("the reporting step reads another row", row=row,
                        raw=raw, spec=sp, **info)
    os.chdir(ctx.scratch)
    ctx.step()
    ctx.trace()
    ctx.state(case)
    ctx.outcome("method %d k%d" % (m, k))
    ctx.sample(spec=sp, row=raw[0])
