"""Reading back what a run wrote, and judging it against the truth."""
import csv
import math

from core import Violation


def read(path):
    with open(path, newline="") as fh:
        return [r for r in csv.reader(fh)]


def num(s):
    return float(s)


# layouts of a result row (index from the left)
MILP = ["name", "n", "m", "N", "cont", "eps", "limit", "gaptol", "bigm",
        "method", "bigm_time", "time", "vLB", "vUB", "gap"]
ADAPT = ["name", "n", "m", "N", "cont", "eps", "limit", "gaptol", "bigm",
         "split", "init", "proj", "iteration", "size", "time", "vLB", "vUB",
         "gap"]


def judge_row(rows, layout, sp, name, opt, info, expect=()):
    def fail(msg, **kw):
        raise Violation(msg, rows=rows[:3], optimum=opt, spec=sp, **info, **kw)
    if len(rows) != 1 or len(rows[0]) != len(layout):
        fail("the result file does not hold one row of %d entries"
             % len(layout))
    d = dict(zip(layout, rows[0]))
    try:
        v = {k: (x if k == "name" else num(x)) for k, x in d.items()}
    except ValueError:
        fail("an entry of the result row is not a number")
    A = sp["A"]
    eps = sp["eps"] if "eps" in sp else sp["k"] / len(A)
    want = dict(name=name, n=len(sp["c"]), m=len(A[0]), N=len(A),
                cont=sp["cont"], **dict(expect))
    for k, x in want.items():
        if v[k] != x:
            fail("the result row does not identify the run: %s" % k,
                 value=v[k], expected=x)
    if abs(v["eps"] - eps) > 6e-4:
        fail("the result row has a wrong epsilon", value=v["eps"])
    tol = 1.2e-3 + 1e-5 * max(1, abs(opt))
    if not v["vUB"] >= opt - tol:
        fail("the upper bound of the result row is below the optimum")
    if not v["vLB"] <= opt + tol:
        fail("the lower bound of the result row is above the optimum")
    gap_ok(v["vLB"], v["vUB"], v["gap"], fail)
    if v["time"] < 0:
        fail("negative time")
    if "bigm_time" in v and not 0 <= v["bigm_time"] <= v["time"] + 2e-3:
        fail("the big-M time is not part of the run time")
    return v


def gap_ok(lb, ub, gap, fail):
    if lb == -math.inf or ub == math.inf:
        if gap != math.inf:
            fail("the gap is not infinite although a bound is missing",
                 gap=gap)
    elif abs(lb) > 0.05:
        true = (ub - lb) / abs(lb) * 100
        err = 100 * 0.0012 * (1 + abs(ub / lb)) / abs(lb) + 0.0012
        if abs(gap - true) > err:
            fail("the gap of the row is not that of its bounds", gap=gap,
                 true=true)
    elif math.isnan(gap) or gap < -0.01:
        fail("the gap is not a number", gap=gap)


def judge_log(lines, opt, N, info, sp):
    """Iteration log: [iteration, time, -vLB, -vUB, gap%, subsets]."""
    last_t = last_it = 0
    lb, ub = -math.inf, math.inf
    for i, l in enumerate(lines):
        def fail(msg, **kw):
            raise Violation(msg, line=l, index=i, optimum=opt, spec=sp,
                            **info, **kw)
        if len(l) != 6:
            fail("malformed line of the iteration log")
        it, t, a, b, g, size = map(float, l)
        a, b = -a, -b
        tol = 1.2e-3 + 1e-5 * max(1, abs(opt))
        if b < opt - tol or a > opt + tol:
            fail("a line of the iteration log does not bracket the optimum")
        if a < lb - 1e-3 or b > ub + 1e-3:
            fail("a bound of the iteration log gets worse")
        if t < last_t - 1e-9 or it < last_it:
            fail("the iteration log goes back in time")
        if not 1 <= size <= N:
            fail("wrong partition size in the iteration log")
        gap_ok(a, b, g, fail)
        lb, ub, last_t, last_it = a, b, t, it
    return lb, ub
