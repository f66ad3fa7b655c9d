"""C20 — result tables report exactly what the result files say."""
import csv
import itertools
import os
import runpy
import shutil

import build
from core import Violation
from harness import call, quiet, tb

CASE_SECONDS = 300
WHAT = ("the real export script is run on result files that realise, table row "
        "by table row, every combination of the nine states of the four "
        "methods; format_method is called with every solved/unsolved pattern")
BOUNDS = dict(quick="all 9^4 row patterns (three in total time/gap order, one "
              "missing, all missing, ...); format_method: all patterns of 1..5 "
              "runs with gaps at the threshold and unbounded ones",
              thorough="the same with three assignments of runs to positions")
ASSUMPTIONS = ["rounding of the second decimal is not judged"]
INST = ["ccmknap-10-10", "ccmknap-20-10", "ccmknap-40-30"]
SCEN = [500, 1000, 3000, 5000]
EPS = [0.1, 0.2]
IDS = [1, 2, 3, 4, 5]
STATES = ["fast", "mid", "slow", "four", "four-wide", "none", "none-wide",
          "one-missing", "all-missing"]
ROWS = list(itertools.product((0, 1), INST, EPS, SCEN))      # 48


def cases(tier, seed):
    for n in range(1, 6):
        yield dict(kind="fmt", n=n)
    pats = list(itertools.product(range(9), repeat=4))
    for shift in range(1 if tier == "quick" else 3):
        for lo in range(0, len(pats), len(ROWS)):
            yield dict(kind="export", lo=lo, shift=shift)


def pattern(i):
    i %= 9 ** 4
    return [(i // 9 ** j) % 9 for j in range(4)]


def run_of(state, row, m, j, shift):
    """(time, gap, iterations, bigm_time) of run j, or None if missing."""
    q = (row * 7 + j * 3 + shift) % 5
    t = {0: 3, 1: 17, 2: 250}.get(state, 3600) + 1.25 * m * ((row % 3) - 1) \
        + 0.5 * j
    it = 2 + m + (j * row) % 7
    # most take seconds; some take longer than a run was allowed to
    bt = 0.25 * (1 + (row + m * j) % 11) * (1, 1, 1, 6000)[(row // 5 + j) % 4]
    if state <= 2:
        if (row // 3) % 5 == 0:     # solved, but late
            t += 4000
        return t, (0.0, 0.01, 0.005, 0.0, 0.01)[q], it, bt
    if state in (3, 4):
        # how many of the five are solved: four, or any of one to four
        more = () if state == 3 else (q * 2 % 5 < (row // 3) % 4,)
        if q == 2 or any(more):
            return 3600.0, (0.5 if state == 3 else 7.25) + 0.25 * m, it, bt
        return 40.0 + j, 0.01, it, bt
    if state in (5, 6):
        if state == 6 and row % 4 == 0 and (row // 4 + m + j) % 3 == 0:
            return 3600.0, float("inf"), it, bt      # stopped without a bound
        return 3600.0, (0.02 if state == 5 else 12.5) + 0.25 * m + j, it, bt
    if state == 7:
        return None if q == 1 else (5.0 + j, 0.01, it, bt)
    return None


def line(i, s, j, e, cont, m, r):
    t, g, it, bt = r
    head = ["%s-%d-%d" % (i, s, j), 11, 13, s, cont, "%.3f" % e, "3600.000",
            "0.010", 1]
    tail = ["%.3f" % t, "%.3f" % 777.125, "%.3f" % 888.25, "%.3f" % g]
    if m <= 2:
        return head + [4 - m, bt] + tail
    return head + [m - 1, m - 1, 5, it, 19] + tail


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


def far(got, want, tol):
    return got is None or not (got == want or abs(got - want) <= tol)


def expect_entry(text, runs, fail):
    """The time/gap entry of one method."""
    if any(r is None for r in runs):
        if any(ch.isdigit() for ch in text):
            fail("a number although results are missing", entry=text)
        return
    solved = sum(1 for r in runs if r[1] <= 0.01 + 1e-9)
    if solved == len(runs):
        want = sum(r[0] for r in runs) / len(runs)
        got = number(text[:-1]) if text.endswith("s") else None
        if far(got, want, 0.0051):
            fail("wrong average time", entry=text, expected=want)
    else:
        want = sum(r[1] for r in runs) / len(runs)
        tail = "\\%%(%d)" % solved
        got = number(text[:-len(tail)]) if text.endswith(tail) else None
        if far(got, want, 0.0051):
            fail("wrong average gap or number of solved runs", entry=text,
                 expected=(want, solved))


def best_methods(all_runs):
    """Set of acceptable highlighted methods, None if nothing to compare."""
    done = {m: sum(r[0] for r in rs) / 5 for m, rs in all_runs.items()
            if None not in rs and all(r[1] <= 0.01 + 1e-9 for r in rs)}
    if done:
        b = min(done.values())
        return {m for m, v in done.items() if abs(v - b) < 1e-9}
    have = {m: (-sum(1 for r in rs if r[1] <= 0.01 + 1e-9),
                round(sum(r[1] for r in rs) / 5, 9))
            for m, rs in all_runs.items() if None not in rs}
    if not have:
        return None
    b = min(have.values())
    return {m for m, v in have.items() if v == b}


def run_case(case, ctx):
    if case["kind"] == "fmt":
        return fmt(case["n"], ctx)
    root = os.path.join(ctx.scratch, "exp")
    shutil.rmtree(root, ignore_errors=True)
    tables = os.path.join(root, "results", "tables")
    os.makedirs(tables)
    script = os.path.join(root, "export_results.py")
    shutil.copy(os.path.join(build.REPO, "export_results.py"), script)
    data = {}
    for r, (cont, i, e, s) in enumerate(ROWS):
        st = pattern(case["lo"] + r)
        for m in (1, 2, 3, 4):
            runs = []
            for j in IDS:
                v = run_of(st[m - 1], r, m, j, case["shift"])
                runs.append(v)
                if v is not None:
                    f = "%s-%d-%d-%.0f-%d-%d.csv" % (i, s, j, e * 100, cont, m)
                    with open(os.path.join(tables, f), "w", newline="") as fh:
                        csv.writer(fh).writerow(line(i, s, j, e, cont, m, v))
            data[cont, i, e, s, m] = runs
    export(script, [pattern(case["lo"] + r) for r in range(48)])
    judge_tables(root, data, ctx)
    shutil.rmtree(root, ignore_errors=True)
    ctx.trace()
    ctx.outcome("export")
    ctx.sample(rows=[pattern(case["lo"] + r) for r in range(3)])


def export(script, info):
    try:
        with quiet():
            runpy.run_path(script, run_name="__main__")
    except Exception as ex:
        raise Violation("the export raised %s: %s" % (type(ex).__name__, ex),
                        trace=tb(ex), inputs=info)


def judge_tables(root, data, ctx):
    for cont in (0, 1):
        for i in INST:
            t = table(root, "%s-%d-result-table.csv" % (i, cont))
            if len(t) != len(EPS) * len(SCEN):
                raise Violation("wrong number of table rows", table=t)
            for a, e in enumerate(EPS):
                for c, s in enumerate(SCEN):
                    judge(t[a * len(SCEN) + c], cont, i, e, s, data, a, c, ctx)
    for i in INST:
        t = table(root, i + "-big-m-times.csv")
        if len(t) != len(SCEN):
            raise Violation("wrong number of rows of big-M times", table=t)
        for c, s in enumerate(SCEN):
            times(t[c], i, s, data, c)


def table(root, name):
    path = os.path.join(root, "results", name)
    if not os.path.exists(path):
        raise Violation("a table is not written", name=name)
    with open(path, newline="") as fh:
        return list(csv.reader(fh))


def judge(row, cont, i, e, s, data, a, c, ctx):
    runs = {m: data[cont, i, e, s, m] for m in (1, 2, 3, 4)}

    def fail(msg, **kw):
        raise Violation(msg, row=row, runs=runs, experiment=(cont, i, e, s),
                        **kw)
    if len(row) != 9 or row[2] != str(s):
        fail("malformed table row")
    label = "\\textsf{%s}" % i.replace("ccmknap", "mk")
    if row[0] != (label if (a, c) == (0, 0) else "") or \
            row[1] != (str(e) if c == 0 else ""):
        fail("wrong labels of a table row")
    cols = {1: 3, 2: 4, 3: 5, 4: 7}
    bold = {m for m, p in cols.items() if row[p].startswith("\\textbf{")}
    stray = [p for p in range(9) if "textbf" in row[p]
             and p not in cols.values()]
    if len(bold) != 1 or stray:
        fail("not exactly one entry is highlighted")
    best = best_methods(runs)
    if best is not None and not bold <= best:
        fail("the highlighted method is not the best one", best=sorted(best))
    for m, p in cols.items():
        text = row[p]
        if m in bold:
            text = text[len("\\textbf{"):-1]
        expect_entry(text, runs[m], fail)
        if m > 2:
            if None in runs[m]:
                if any(ch.isdigit() for ch in row[p + 1]):
                    fail("an iteration count although results are missing")
            else:
                want = sum(r[2] for r in runs[m]) / 5
                got = number(row[p + 1])
                if got is None or abs(got - want) > 0.0051:
                    fail("wrong average number of iterations", expected=want)
    ctx.step()
    ctx.state([[None if r is None else r[:2] for r in runs[m]] for m in runs])


def times(row, i, s, data, c):
    def fail(msg, **kw):
        raise Violation(msg, row=row, instance=i, scenarios=s, **kw)
    if len(row) != 5 or row[1] != str(s):
        fail("malformed row of big-M times")
    groups = [[data[cont, i, e, s, 1] for cont in (0, 1) for e in EPS],
              [data[1, i, e, s, 2] for e in EPS],
              [data[0, i, e, s, 2] for e in EPS]]
    for text, g in zip(row[2:], groups):
        rs = [r for runs in g for r in runs]
        if None in rs:
            if any(ch.isdigit() for ch in text):
                fail("a big-M time although results are missing", entry=text)
        else:
            want = sum(r[3] for r in rs) / len(rs)
            got = number(text[:-1]) if text.endswith("s") else None
            if got is None or abs(got - want) > 0.0051:
                fail("wrong average big-M time", entry=text, expected=want)


def fmt(n, ctx):
    from src.export.format_results import format_method
    ids = range(1, n + 1)
    levels = [0.0, 0.01, 0.011, 5.0, float("inf")]
    for gaps in itertools.product(range(5), repeat=n):
        for m in (1, 3):
            runs = [(3.0 + 2 * j if levels[g] <= .01 else 3600.0, levels[g],
                     2 + j, 0.5) for j, g in enumerate(gaps)]
            res = []
            for j, r in enumerate(runs):
                l = line("x", 10, j + 1, 0.1, 0, m, r)
                res.append([l[0]] + [float(v) for v in l[1:]])
            keep = [list(r) for r in res]

            def fail(msg, **kw):
                raise Violation(msg, runs=runs, method=m, **kw)
            t, k, g, row = call(format_method, "format_method", res, m, ids,
                                0.01, [1, 2], [3, 4])
            if res != keep:
                fail("the results were modified")
            solved = sum(1 for r in runs if r[1] <= .01)
            if k != solved:
                fail("wrong number of solved runs", value=k)
            mt = sum(r[0] for r in runs) / n
            mg = sum(r[1] for r in runs) / n
            inf = float("inf")
            want = (mt, inf) if solved == n else (inf, mg)
            for got, w in ((t, want[0]), (g, want[1])):
                if not (got == w or abs(got - w) < 1e-9):
                    fail("wrong time or gap of a method", value=(t, g),
                         expected=want)
            expect_entry(str(row[0]), runs, fail)
            if len(row) != (1 if m == 1 else 2) or (
                    m == 3 and abs(row[1] - sum(r[2] for r in runs) / n)
                    > 1e-9):
                fail("wrong average number of iterations", row=row)
            ctx.step()
            ctx.trace()
            ctx.state("fmt", gaps, m)
    ctx.outcome("fmt %d" % n)
