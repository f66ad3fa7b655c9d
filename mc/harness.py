"""Drives the real code of /repo through its public entry points."""
import contextlib
import io

import numpy as np

import core
import instances
from core import CLOCK, Chooser, Violation
from oracle import Oracle

TOL = 1e-6
ITER_CAP = 400

_m = {}


def repo():
    """Lazy import of everything the checks use from the working tree."""
    if not _m:
        from src.instance.ChanceKnapInstance import ChanceKnapInstance
        from src.instance.PartitionChanceKnapInstance import \
            PartitionChanceKnapInstance
        from src.solver.AdaptivePartitioner import AdaptivePartitioner
        from src.solver.MilpSolver import MilpSolver
        from src.solver.Solver import Solver
        from src.BigMFinder import BigMFinder
        from src.TimeManager import TimeManager
        _m.update(locals())
        _m["Mon"] = _monitored(AdaptivePartitioner)
    return _Names(_m)


class _Names:
    def __init__(self, d):
        self.__dict__.update(d)


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def leq(a, b, tol=TOL):
    return a <= b + tol * max(1.0, abs(a), abs(b))


_orc = {}


def oracle_of(sp):
    key = (repr(sp["c"]), repr(sp["A"]), repr(sp["b"]), sp["cont"])
    if key not in _orc:
        if len(_orc) > 64:
            _orc.clear()
        _orc[key] = Oracle(*instances.as_arrays(sp), bool(sp["cont"]))
    return _orc[key]


def instance(sp, ctx, cont=None):
    return repo().ChanceKnapInstance(
        instances.path_of(sp, ctx.scratch),
        bool(sp["cont"]) if cont is None else cont, instances.eps_of(sp))


PRINTED = []        # what the code printed, if someone asks for it


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            yield
    finally:
        if PRINTED:
            PRINTED.append(out.getvalue())


class Fixed(Chooser):
    """Not explored: answers every random choice by a fixed rule."""
    def __init__(self, mode=0):
        super().__init__()
        self.mode = mode

    def choose(self, n, kind=""):
        n = int(n)
        i = len(self.points)
        c = {0: 0, 1: n - 1, 2: (i % n), 3: (n // 2)}[self.mode]
        self.points.append(n)
        self.choices.append(c)
        return c


def _monitored(cls):
    """The solver class itself; every assignment of its two public bounds is
    reported to `observer(name, old, new)`."""
    class Mon(cls):
        observer = None

        def _set(self, name, v):
            old = self.__dict__.get("mon_" + name)
            self.__dict__["mon_" + name] = v
            if self.observer is not None:
                self.observer(name, old, v)

        vUB = property(lambda s: s.__dict__["mon_vUB"],
                       lambda s, v: s._set("vUB", v))
        vLB = property(lambda s: s.__dict__["mon_vLB"],
                       lambda s, v: s._set("vLB", v))
    Mon.__name__ = Mon.__qualname__ = cls.__name__
    return Mon


class Run:
    """One adaptive solve, observed through public seams."""
    def __init__(self, sp, cfg, ctx, chooser=None, time_limit=1800, gap=1e-4,
                 cap=ITER_CAP, ci=None):
        self.sp, self.cfg, self.ctx = sp, cfg, ctx
        self.chooser = chooser or Fixed(0)
        self.time_limit, self.gap, self.cap = time_limit, gap, cap
        self.orc = oracle_of(sp)
        self.k = sp["k"]
        self.N = len(sp["A"])
        self.ci = ci or instance(sp, ctx)
        self.solver = None
        self.iters = 0
        self.partitions = []
        self.on_bound = None        # (run, name, old, new)
        self.on_load = None         # (run, nb, partition)
        self.on_check = None        # (run, x, verdict)
        self.on_cclp = None         # (run, args...) before the model is solved
        self.on_answer = None       # (run, kw, answer) after it is solved
        self.stub_cclp = None       # replaces the model (environment)
        self.exc = None
        self.last_x = None

    def build(self):
        R = repo()
        cfg = self.cfg
        run = self
        with quiet(), core.under(self.chooser):
            self._patch_load(R)
            try:
                s = R.Mon(self.ci, split_method=cfg["split"],
                          initial_partition_type=cfg["init"],
                          projection_method=cfg.get(
                              "proj", "rescaled_max_violation"),
                          use_acc_obj=(cfg["split"] == "cost"),
                          time_limit=self.time_limit, gap=self.gap)
            finally:
                self._unpatch_load(R)
        self.solver = s
        # instance-level wrappers of public methods
        cpart = s.chance_instance_part
        orig_load = cpart.load_partition

        def load(nb, partition):
            run._loaded(nb, partition)
            return orig_load(nb, partition)
        cpart.load_partition = load
        orig_check = self.ci.check_feasibility

        def check(x):
            run.iters += 1
            ctx = run.ctx
            ctx.step()
            if run.iters > run.cap:
                raise Violation("no termination: more than %d relaxed problems "
                                "solved" % run.cap, **run.info())
            ok = orig_check(x)
            run.last_x = np.array(x, float)
            ctx.state("it", run.partitions[-1] if run.partitions else None,
                      round(float(s.vUB), 5), round(float(s.vLB), 5))
            if run.on_check:
                run.on_check(run, x, ok)
            return ok
        self.ci.check_feasibility = check
        if self.on_cclp or self.stub_cclp or self.on_answer:
            orig_cclp = s.solve_cclp_model

            def cclp(part, bigMFinder, *a, **kw):
                if run.on_cclp:
                    run.on_cclp(run, part, bigMFinder, kw)
                if run.stub_cclp:
                    ans = run.stub_cclp(run, part, kw)
                else:
                    ans = orig_cclp(part, bigMFinder, *a, **kw)
                if run.on_answer:
                    run.on_answer(run, kw, ans)
                return ans
            s.solve_cclp_model = cclp
        if self.on_bound:
            s.observer = lambda name, old, new: run.on_bound(
                run, name, old, new)
            for name in ("vLB", "vUB"):
                run.on_bound(run, name, None, getattr(s, name))
        return self

    def _loaded(self, nb, partition):
        key = tuple(tuple(sorted(int(v) for v in p)) for p in partition)
        self.partitions.append(key)
        if self.on_load:
            self.on_load(self, nb, partition)

    def _patch_load(self, R):
        run = self
        P = R.PartitionChanceKnapInstance
        self._orig = P.__dict__.get("load_partition")
        orig = P.load_partition

        def load(self, nb, partition):
            run._loaded(nb, partition)
            return orig(self, nb, partition)
        P.load_partition = load

    def _unpatch_load(self, R):
        P = R.PartitionChanceKnapInstance
        if self._orig is not None:
            P.load_partition = self._orig
        else:
            del P.load_partition

    def solve(self):
        R = repo()
        cfg = self.cfg
        s = self.solver
        with quiet(), core.under(self.chooser):
            finder = R.BigMFinder(s.chance_instance_part)
            s.solve(finder, use_big_M=cfg["bigm"] is not None,
                    big_m_method=cfg["bigm"] or "naive",
                    use_merger=bool(cfg["merger"]), use_lazy=bool(cfg["lazy"]))
        return self

    def go(self):
        """build + solve; an exception out of either is a violation."""
        try:
            self.build()
            self.solve()
        except (Violation, core.Hang, core.ReplayDivergence, MemoryError):
            raise
        except Exception as e:
            raise Violation("the solver raised %s: %s" % (
                type(e).__name__, str(e)[:200]), trace=tb(e), **self.info())
        self.ctx.trace()
        return self

    def info(self):
        s = self.solver
        d = dict(spec=self.sp, config=self.cfg, iterations=self.iters,
                 partitions=self.partitions[-4:])
        if s is not None:
            for a in ("vUB", "vLB", "xUB", "xLB"):
                v = s.__dict__.get("mon_" + a, s.__dict__.get(a))
                d[a] = v.tolist() if isinstance(v, np.ndarray) else (
                    None if v is None else float(v))
        return d

    def fail(self, msg, **kw):
        d = self.info()
        d.update(kw)
        raise Violation(msg, **d)


def tb(e):
    import traceback
    return traceback.format_exc()[-1500:]


def call(fn, what, *a, **kw):
    """Calls repo code; an exception is a violation."""
    try:
        with quiet():
            return fn(*a, **kw)
    except (Violation, core.Hang, core.ReplayDivergence, MemoryError):
        raise
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__,
                                             str(e)[:200]), trace=tb(e))


def check_answer(run, opt=None):
    """Final answer of a run that ended by itself."""
    s, orc, k = run.solver, run.orc, run.k
    opt = orc.opt(k) if opt is None else opt
    x = getattr(s, "xLB", None)
    if x is None:
        run.fail("no solution is reported", optimum=opt)
    x = np.asarray(x, float)
    if not np.all(np.isfinite(x)) or (x < -TOL).any() or (x > 1 + TOL).any():
        run.fail("the reported solution is outside the box", optimum=opt)
    if not run.sp["cont"] and (np.abs(x - np.round(x)) > 1e-5).any():
        run.fail("the reported solution is not binary", optimum=opt)
    if not orc.feasible(x, k, 2e-6):
        run.fail("the reported solution violates more scenarios than allowed",
                 optimum=opt, violated=orc.violations_of(x).tolist())
    if not close(float(orc.c @ x), s.vLB, 1e-5):
        run.fail("the reported value is not the value of the reported solution",
                 optimum=opt, value=float(orc.c @ x))
    g = max(run.gap, 0) * abs(s.vLB) + 1e-6 * max(1, abs(opt))
    if s.vUB < opt - 1e-6 * max(1, abs(opt)):
        run.fail("the upper bound is below the optimum", optimum=opt)
    if s.vLB > opt + 1e-5 * max(1, abs(opt)):
        run.fail("the lower bound is above the optimum", optimum=opt)
    if s.vUB - s.vLB > g:
        run.fail("stopped with a gap larger than requested", optimum=opt)
    run.ctx.outcome("it%d opt%.4f" % (run.iters, opt))
