"""The optimizer as an environment.

Asked for a relative gap, the solver may return any solution within that gap and
any bound that is valid and within it; out of time, it may return any feasible
solution with any valid bound, or none. `install()` puts a hook under the code
(gurobipy.Model) that lets a check enumerate those answers at the level of the
solver itself, so that everything the code does with an answer is exercised:

    with answer(cond, pick): ...

At the n-th optimize() call for which cond(model) holds, pick(model, pool)
chooses: None (the solver's own answer), "nothing" (no solution in time), or
(objective value from the pool, bound, "gap" | "time").
"""
import contextlib

from core import CLOCK

GRB_OPTIMAL, GRB_TIME = 2, 9
_state = dict(cond=None, pick=None, born=None)
_on = []
FAILED = [0]
LAST = [None]       # objective value of the last forced answer


def install():
    import gurobipy as gp
    if _on:
        return
    _on.append(1)
    base = gp.Model

    class Model(base):
        def optimize(self, *a, **kw):
            self.__dict__["_said"] = None
            if _state["cond"] is None:
                return base.optimize(self, *a, **kw)
            self.update()
            if not _state["cond"](self):
                return base.optimize(self, *a, **kw)
            choice = _state["pick"](self, lambda **k: pool(self, **k))
            if choice is None:
                return base.optimize(self, *a, **kw)
            if choice == "nothing":
                keep = {p: getattr(self.Params, p)
                        for p in ("Cutoff", "TimeLimit")}
                self.Params.Cutoff = 1e30 if self.ModelSense < 0 else -1e30
                self.Params.TimeLimit = float("inf")
                base.optimize(self, *a, **kw)
                if base.getAttr(self, "SolCount"):
                    FAILED[0] += 1
                    return
                self.__dict__["_said"] = dict(status=GRB_TIME)
                for p, v in keep.items():
                    self.setParam(p, v)
                return
            sol, bound, how = choice
            ints = [v for v in self.getVars() if v.VType != "C"]
            lim = [(v.LB, v.UB) for v in ints]
            keep = {p: getattr(self.Params, p)
                    for p in ("TimeLimit", "MIPGap")}
            self.Params.TimeLimit = float("inf")
            self.Params.MIPGap = 0
            for v, x in zip(ints, sol[1]):
                v.LB = v.UB = x
            base.optimize(self, *a, **kw)
            if base.getAttr(self, "Status") != GRB_OPTIMAL:
                # not an answer of this model after all: let it answer itself
                for v, (lo, up) in zip(ints, lim):
                    v.LB, v.UB = lo, up
                for p, v in keep.items():
                    self.setParam(p, v)
                FAILED[0] += 1
                return base.optimize(self, *a, **kw)
            # takes effect at the next update or optimize: the answer stays
            for v, (lo, up) in zip(ints, lim):
                v.LB, v.UB = lo, up
            obj = LAST[0] = base.getAttr(self, "ObjVal")
            self.__dict__["_said"] = dict(
                status=GRB_OPTIMAL if how == "gap" else GRB_TIME,
                objbound=bound, objboundc=bound,
                mipgap=abs(bound - obj) / max(abs(obj), 1e-10))
            for p, v in keep.items():
                self.setParam(p, v)

        def getAttr(self, name, *a):
            said = self.__dict__.get("_said")
            if said and not a and isinstance(name, str) and \
                    name.lower() in said:
                return said[name.lower()]
            return base.getAttr(self, name, *a)

        def __getattr__(self, name):
            said = self.__dict__.get("_said")
            if said and name.lower() in said:
                return said[name.lower()]
            return base.__getattr__(self, name)

    def building(name):
        orig = getattr(base, name)

        def add(self, *a, **kw):
            if _state["born"] is not None:
                _state["born"]()
            return orig(self, *a, **kw)
        return add
    for name in ("addVar", "addVars", "addMVar", "addConstr", "addConstrs",
                 "addGenConstrIndicator"):
        setattr(Model, name, building(name))
    Model.__name__ = Model.__qualname__ = "Model"
    gp.Model = Model
    _on.append(base)


def pool(model, levels=(1.0, .999, .8, .5, 0.0), values=()):
    """Feasible answers, best first, one per objective value:
    [(objective, integer values)]; the best at or below each level (relative to
    the optimum) and each of the values."""
    m = model.copy()
    m.Params.OutputFlag = 0
    m.Params.Threads = 1
    m.Params.TimeLimit = float("inf")
    m.Params.MIPGap = 0
    obj, ints = m.getObjective(), [v for v in m.getVars() if v.VType != "C"]
    sense = m.ModelSense
    out, best, row = {}, None, None
    for t in [None] + [("r", f) for f in levels if f < 1] + \
            [("v", v) for v in values]:
        if t is not None:
            if best is None:
                break
            at = t[1] * best if t[0] == "r" else t[1]
            if row is not None:
                m.remove(row)
            row = m.addConstr(obj <= at + 1e-7 if sense < 0 else
                              obj >= at - 1e-7)
        _on[1].optimize(m)
        if m.SolCount == 0:
            continue
        if best is None:
            best = m.ObjVal
        out.setdefault(round(m.ObjVal, 6),
                       (m.ObjVal, [round(v.X) for v in ints]))
    m.dispose()
    return sorted(out.values(), key=lambda t: t[0] * sense)


@contextlib.contextmanager
def answer(cond, pick, born=None):
    """born() is called whenever something is added to a model."""
    _state.update(cond=cond, pick=pick, born=born)
    try:
        yield
    finally:
        _state.update(cond=None, pick=None, born=None)


def within_gap(model, pool, turn):
    """One of the answers within the gap that was asked for."""
    g = model.Params.MIPGap
    P = pool(levels=(1, .99999, .9999))
    if not P:
        return None
    best = P[0][0]
    P = [p for p in P if best - p[0] <= g * abs(p[0])]
    p = P[-(turn % 2)]
    return p, max(best, p[0] + 0.95 * g * abs(p[0]) if turn // 2 % 2
                  else best), "gap"


def within(solver):
    """Marks the time spent in solver.solve_cclp_model; returns the test."""
    depth = [0]
    orig = solver.solve_cclp_model

    def cclp(*a, **kw):
        depth[0] += 1
        try:
            return orig(*a, **kw)
        finally:
            depth[0] -= 1
    solver.solve_cclp_model = cclp
    return lambda model: depth[0] > 0


class OutOfTime:
    """The j-th relaxed problem is where the time runs out: the optimizer
    returns nothing, or the a-th of its feasible solutions with some bound."""
    def __init__(self, j, a, mode, opt, ub, known=None):
        self.j, self.a, self.mode, self.opt, self.ub = j, a, mode, opt, ub
        self.known = known if known is not None else []
        self.n = -1
        self.inside = False
        self.size = 0
        self.value = self.bound = None

    def cond(self, model):
        if not self.inside:
            return False
        self.n += 1
        return self.n == self.j

    def pick(self, model, pool):
        CLOCK.now += 1e6
        if self.a is None:
            return "nothing"
        if not self.known:      # the same for every answer: one prefix
            self.known.extend(pool(levels=(.999, .6, 0.0),
                                   values=[self.opt]))
        P = self.known
        self.size = len(P)
        if self.a >= len(P):
            return "nothing"
        best = P[0][0]
        self.value = P[self.a][0]
        up = max(best, self.ub)
        # 3: no better than what is known, by less than the solver's gap
        self.bound = (best, up, 1.5 * best + 1,
                      up * (1 + 4e-5) if up < 1e29 else up)[self.mode]
        return P[self.a], self.bound, "time"

    def how(self):
        return "relaxed problem %d ends with %s" % (
            self.j, "nothing" if self.value is None else
            "value %g, bound %g" % (self.value, self.bound))


def sweep(j, opt, ub, modes):
    """All answers at the j-th relaxed problem, told by `more(size)`."""
    yield OutOfTime(j, None, 0, opt, ub)
    a, known = 0, []
    while True:
        for m in modes:
            o = OutOfTime(j, a, m, opt, ub, known)
            yield o
        a += 1
        if a >= o.size:
            return
