"""C26 — runs do not influence each other and are reproducible."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

import answers
import core
import instances as I
from core import CLOCK, Violation
from harness import Fixed, Run, call, instance, quiet, repo, tb

ANSWERS = True
CASE_SECONDS = 400
WHAT = ("every sequence of up to 3 jobs (adaptive runs, extended MILPs, runs "
        "that time out, other tolerances and instances), with shared and with "
        "separate instance objects, and with both solvers built before either "
        "solves; each run is compared with the same job alone in a fresh "
        "process (trajectory of partitions and bounds, solution, data)")
BOUNDS = dict(quick="13 jobs on 6 instance pairs: all pairs in every mode, all "
              "triples ending in 3 of the jobs; 3 pairs of instances of the same "
              "name: all pairs of jobs in every mode",
              thorough="13 jobs on 22 instance pairs, all triples; 15 pairs of "
              "instances of the same name")
ASSUMPTIONS = ["Gurobi is deterministic on one thread"]
C = I.CONFIGS
# what the optimizer is asked for (whatever it happens to return)
ASKED = ("MIPGap", "MIPGapAbs", "IntFeasTol", "FeasibilityTol",
         "OptimalityTol", "Cutoff", "NodeLimit", "SolutionLimit",
         "BestObjStop", "BestBdStop")


def cfgno(**kw):
    for i, c in enumerate(C):
        if all(c[a] == b for a, b in kw.items()):
            return i
    raise KeyError(kw)


JOBS = [
    dict(m="A", cfg=cfgno(split="random", init="random", bigm=None, merger=0),
         inst=0),
    dict(m="A", cfg=cfgno(split="cost", init="cost", bigm="belotti", merger=1,
                          lazy=0), inst=0),
    dict(m="A", cfg=cfgno(split="random", init="cost", bigm="song", merger=1,
                          lazy=1), inst=1),
    dict(m="A", cfg=cfgno(split="cost", init="random", bigm="naive", merger=0,
                          lazy=0), inst=1, mode=2, proj="counter"),
    dict(m="M", bigm="belotti", inst=0),
    dict(m="M", bigm="song", inst=1),
    dict(m="M", bigm=None, inst=0, gap=0.2),
    dict(m="A", cfg=cfgno(split="random", init="random", bigm=None, merger=1),
         inst=0, gap=0.3, mode=1),
    dict(m="A", cfg=cfgno(split="cost", init="cost", bigm="belotti", merger=1,
                          lazy=1), inst=0, expire=9),
    dict(m="A", cfg=cfgno(split="random", init="random", bigm="belotti",
                          merger=1, lazy=0), inst=0, eps=1),
    dict(m="A", cfg=cfgno(split="cost", init="cost", bigm="belotti", merger=1,
                          lazy=0), inst=1),
    dict(m="M", bigm="belotti", inst=1),
    dict(m="M", bigm="song", inst=0),
]
LAST = (1, 3, 10)


def pairs(q):
    L = [sp for sp in I.with_k(I.catalogue([(9, 2, 3), (12, 1, 3)],
                                           3 if q else 8, hi=9, zero=3),
                               ks=(2, 3))]
    F = [sp for sp in itertools.islice(I.with_k(I.fam_rot(8, 3), ks=(2,)), 0,
                                       None, 211 if q else 61)]
    H = [sp for sp in I.deep(small=16)]
    L = H[:3] + L
    n = 3 if q else 10
    step = max(1, len(L) // n)
    for i in range(n):
        a = L[(i * step) % len(L)]
        b = F[(i * 5 + 1) % len(F)]
        yield (a, b) if i % 2 else (b, a)
    # same dimensions and nearly the same data: requests coincide
    for i in range(3 if q else 12):
        a = H[(i + 3) % len(H)]
        if i != 1:      # epsilon times N is not an integer
            a = dict(a, eps=(a["k"] + .5) / len(a["A"]))
        b = dict(a)
        if i % 3 == 0:
            b["c"] = [v + 0.3 for v in a["c"][::-1]]
        elif i % 3 == 1:
            b["b"] = [round(v * 1.2, 1) for v in a["b"]]
        else:
            b["A"] = a["A"][::-1]
        yield a, b


def namesakes(q):
    """Instances a run could mistake for each other: the same file with the
    other kind of variables, a file replaced by another one between two runs,
    files of the same name in two folders."""
    H = [sp for sp in I.deep(small=16)]
    for i in range(1 if q else 5):
        a, b = H[(3 * i) % len(H)], H[(3 * i + 1) % len(H)]
        f = dict(a, cont=1 - a["cont"])
        yield (f, dict(a)) if i % 2 else (dict(a), f)
        b = dict(b, cont=a["cont"])
        yield dict(a, file="x/inst.csv"), dict(b, file="x/inst.csv")
        yield dict(a, file="x/inst.csv"), dict(b, file="y/inst.csv")


def cases(tier, seed):
    q = tier == "quick"
    for a, b in pairs(q):
        for j in range(len(JOBS)):
            yield dict(insts=[a, b], first=j, triples=LAST if q else
                       list(range(len(JOBS))))
    for a, b in namesakes(q):
        for j in range(len(JOBS)):
            yield dict(insts=[a, b], first=j, triples=() if q else LAST)


def spec_of(job, insts):
    sp = dict(insts[job["inst"]])
    if job.get("eps"):
        sp["k"] = 1
        if "eps" in sp:
            sp["eps"] = 1.5 / len(sp["A"])
    return sp


def data_of(ci):
    N = ci.get_nb_scenarios()
    return [np.array(ci.get_vector_c(), float).tolist(),
            [np.array(ci.get_matrix_A(s), float).tolist() for s in range(N)],
            [np.array(ci.get_vector_b(s), float).tolist() for s in range(N)],
            np.array(ci.get_proba(), float).tolist(),
            float(ci.get_epsilon()), ci.get_nb_vars(), N,
            [[float(v) if np.isfinite(v) else repr(float(v)) for v in f()]
             for f in (ci.get_var_type, ci.get_var_lb, ci.get_var_ub)],
            [int(ci.get_nb_constraints(s)) for s in range(N)]]


def num(v):
    v = float(v)
    return repr(v) if not np.isfinite(v) else round(v, 7)


class Job:
    """One run; construct() and solve() may be separated in time."""
    nb = 0

    def __init__(self, job, insts, ctx, ci=None):
        self.job, self.ctx = job, ctx
        self.sp = spec_of(job, insts)
        self.ci = ci or instance(self.sp, ctx)
        self.data = data_of(self.ci)
        self.trace = []
        self.asked = set()

    def listen(self, model):
        P = model.Params
        self.asked.add((str(model.ModelName),) + tuple(
            float(getattr(P, p)) for p in ASKED))
        return False

    def construct(self):
        with answers.answer(self.listen, None):
            return self._construct()

    def solve(self):
        with answers.answer(self.listen, None):
            return self._solve()

    def _construct(self):
        job = self.job
        CLOCK.reset(expire_at=job.get("expire"))
        if job["m"] == "M":
            with quiet():
                self.s = repo().MilpSolver(self.ci, gap=job.get("gap", 1e-4))
            return self
        cfg = dict(C[job["cfg"]])
        if job.get("proj"):
            cfg["proj"] = job["proj"]
        self.run = Run(self.sp, cfg, self.ctx, Fixed(job.get("mode", 0)),
                       gap=job.get("gap", 1e-4), ci=self.ci)
        self.run.on_check = lambda r, x, ok: self.trace.append(
            [[list(p) for p in r.partitions[-1]], num(r.solver.vUB),
             num(r.solver.vLB), np.round(np.asarray(x, float), 7).tolist(),
             bool(ok)])
        self.run.build()
        # the next run may use the same instance object
        self.check = self.ci.__dict__.pop("check_feasibility", None)
        self.s = self.run.solver
        return self

    def _solve(self):
        how = "end"
        try:
            if self.job["m"] == "M":
                b = self.job["bigm"]
                with quiet():
                    self.s.solve(use_big_m=b is not None,
                                 big_m_method=b or "naive")
            else:
                self.ci.check_feasibility = self.check
                self.run.solve()
        except KeyboardInterrupt:
            how = "interrupt"
        finally:
            self.ci.__dict__.pop("check_feasibility", None)
        s = self.s
        x = getattr(s, "xLB", None)
        rows = self.files(s)
        return dict(rows=rows, how=how, big_m=self.big_m(), trace=self.trace, vUB=num(s.vUB), vLB=num(s.vLB),
                    x=None if x is None else np.round(
                        np.asarray(x, float), 7).tolist(),
                    changed=data_of(self.ci) != self.data, asked=sorted(self.asked))


    def big_m(self):
        finder = getattr(self.s, "big_m_finder", None)
        if self.job["m"] != "M" or not hasattr(finder, "get_vector_big_M"):
            return None
        return [np.round(np.array(finder.get_vector_big_M(s), float),
                         6).tolist() for s in range(len(self.sp["A"]))]

    def files(self, s):
        """What the run writes, without name and times."""
        path = os.path.join(self.ctx.scratch, "written.csv")
        Job.nb += 1
        now = CLOCK.now
        CLOCK.now += 3 * Job.nb     # no two runs take the same time
        with quiet():
            repo().TimeManager.set_final_time()
            took = CLOCK.now - CLOCK.T0
            s.write_all_computation_details(path)
        with open(path) as fh:
            row = fh.read().strip().split(",")[1:]
        if abs(float(row[-4]) - took) > 1:
            raise Violation("a run writes another time than it took",
                            written=row[-4], took=took, job=self.job)
        CLOCK.now = now
        row[-4] = None
        if self.job["m"] == "M":
            row[-5] = None
            return [row]
        with quiet():
            s.write_iteration_details(path)
        with open(path) as fh:
            log = [ln.strip().split(",") for ln in fh]
        return [row] + [ln[:1] + ln[2:] for ln in log]


def alone(job, insts, ctx):
    """The same job in a process of its own."""
    p = subprocess.run(
        [sys.executable, os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), "fresh.py"),
         json.dumps(dict(job=job, insts=insts, path=sys.path))],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ctx.scratch)
    mark = b"\n@@RESULT@@"
    if mark not in p.stdout:
        raise Violation("a run in a fresh process fails: " +
                        p.stderr.decode()[-400:], job=job, insts=insts)
    return json.loads(p.stdout.split(mark)[1])


_ref = {}


def reference(job, insts, ctx):
    key = json.dumps([job, insts], sort_keys=True)
    if key not in _ref:
        if len(_ref) > 200:
            _ref.clear()
        _ref[key] = alone(job, insts, ctx)
        ctx.trace()
    return _ref[key]


def compare(got, ref, seq, at, mode, insts):
    got = json.loads(json.dumps(got))
    if got["changed"] or ref["changed"]:
        raise Violation("a run changes the data of its instance",
                        sequence=[JOBS[j] for j in seq], mode=mode,
                        insts=insts)
    if got == ref:
        return
    # asking less (something is remembered) is not a difference
    more = [a for a in got["asked"] if a not in ref["asked"]]
    got["asked"] = ref["asked"] + more
    if got == ref:
        return
    diff = [k for k in ref if got.get(k) != ref[k]]
    d = {}
    for k in diff[:3]:
        d[k] = got.get(k), ref[k]
        if k == "trace":
            j = next((i for i, (a, b) in enumerate(zip(got[k], ref[k]))
                      if a != b), min(len(got[k]), len(ref[k])))
            d[k] = dict(iteration=j, got=got[k][j:j + 1], alone=ref[k][j:j + 1])
    raise Violation("a run differs from the same run alone: %s" %
                    ", ".join(diff), sequence=[JOBS[j] for j in seq],
                    position=at, mode=mode, difference=d, insts=insts)


def run_case(case, ctx):
    insts, first = case["insts"], case["first"]
    n = len(JOBS)
    refs = [reference(j, insts, ctx) for j in JOBS]
    seqs = [(first,)] + [(first, b) for b in range(n)] + [
        (first, b, c) for b in range(n) for c in case["triples"]]
    for seq in seqs:
        for mode in (("shared",) if len(seq) > 2 else
                     ("shared", "separate", "built first")):
            execute(seq, mode, refs, insts, ctx)
            ctx.step(len(seq))
            ctx.trace()
            ctx.state(insts, seq, mode)
    ctx.outcome("first %d" % first)
    ctx.sample(first=JOBS[first], alone=refs[first]["trace"][:2])


def execute(seq, mode, refs, insts, ctx):
    objs = {}
    runs = []
    try:
        for at, j in enumerate(seq):
            job = JOBS[j]
            sp = spec_of(job, insts)
            key = json.dumps(sp) if mode != "separate" else at
            if key not in objs:
                objs[key] = instance(sp, ctx)
            r = Job(job, insts, ctx, objs[key]).construct()
            runs.append(r)
            if mode != "built first":
                compare(r.solve(), refs[j], seq, at, mode, insts)
        if mode == "built first" and not any(
                JOBS[j].get("expire") for j in seq):
            for at, j in enumerate(seq):
                compare(runs[at].solve(), refs[j], seq, at, mode, insts)
    except (Violation, core.Hang, core.ReplayDivergence, MemoryError):
        raise
    except Exception as e:
        raise Violation("a run after others raised %s: %s" % (
            type(e).__name__, str(e)[:200]), trace=tb(e),
            sequence=[JOBS[j] for j in seq], mode=mode, insts=insts)
