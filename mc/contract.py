"""What the code may rely on when it calls the solver.

The solver is part of the environment: asked for a relative gap g, it may return
any solution within g of the optimum and any valid bound, whatever it happens to
return for the small models of a check. A module that declares `CONTRACT = g`
therefore also fails if the code under test, at any call of the optimizer in an
explored execution, allowed the solver to be further from the optimum than g, to
violate a row by more than the feasibility tolerance of the property (1e-6), or to
stop for a reason other than having solved the model.
"""
FEAS = 1e-6         # Gurobi's default, and the tolerance of the verdict
INT = 1e-5          # Gurobi's default
TRICKLE = 2e-5      # violation a switched-off indicator may hide (relative)
EARLY = ("SolutionLimit", "NodeLimit", "IterationLimit", "BestObjStop",
         "BestBdStop", "Cutoff", "WorkLimit", "BarIterLimit")

SEEN = []           # offences of the current case
_on = [None]
CALLS = [0]


def install():
    import gurobipy as gp
    base = gp.Model
    default = {}

    class Model(base):
        def optimize(self, *a, **kw):
            r = base.optimize(self, *a, **kw)
            CALLS[0] += 1
            if _on[0] is not None:
                try:
                    look(self)
                except gp.GurobiError:
                    pass
            return r

    def look(mo):
        P = mo.Params
        if not default:
            for p in EARLY:
                default[p] = mo.getParamInfo(p)[5]
        bad = []
        if mo.IsMIP and P.MIPGap > _on[0] * (1 + 1e-9):
            bad.append("relative gap %g" % P.MIPGap)
        if mo.IsMIP and P.MIPGapAbs > 1e-6:
            bad.append("absolute gap %g" % P.MIPGapAbs)
        if mo.IsMIP and P.IntFeasTol > INT * (1 + 1e-9):
            bad.append("integrality tolerance %g" % P.IntFeasTol)
        if P.FeasibilityTol > FEAS * (1 + 1e-9):
            bad.append("feasibility tolerance %g" % P.FeasibilityTol)
        if mo.IsMIP and P.IntFeasTol > 1e-9 * (1 + 1e-9):
            v = P.IntFeasTol * bigm(mo)
            if v > TRICKLE:
                bad.append("indicators so far from integer that a row may be "
                           "violated by %g of its capacity" % v)
        for p in EARLY:
            if getattr(P, p) != default[p]:
                bad.append("%s %s" % (p, getattr(P, p)))
        if bad:
            SEEN.append((str(mo.ModelName), tuple(bad)))

    def bigm(mo):
        """Largest coefficient of an indicator (a variable of a covering row,
        without a share in the objective)
        relative to the capacity of its row."""
        isint = [t != "C" for t in mo.getAttr("VType", mo.getVars())]
        obj = mo.getAttr("Obj", mo.getVars())
        Z, rows = set(), []
        for con in mo.getConstrs():
            e = mo.getRow(con)
            r = {}
            for i in range(e.size()):
                j = e.getVar(i).index
                r[j] = r.get(j, 0.0) + e.getCoeff(i)
            rows.append((r, con.RHS))
            if con.Sense == ">" and r and con.RHS > 0 and \
                    min(r.values()) > 0 and all(
                        isint[j] and obj[j] == 0 for j in r):
                Z.update(r)
        out = 0.0
        for r, rhs in rows if Z else ():
            if not Z.issuperset(r):
                for j, a in r.items():
                    if j in Z:
                        out = max(out, abs(a) / max(1.0, abs(rhs - a)))
        return out

    Model.__name__ = Model.__qualname__ = "Model"
    gp.Model = Model


def begin(limit):
    SEEN.clear()
    _on[0] = limit


def end():
    _on[0] = None
    out = sorted(set(SEEN))
    SEEN.clear()
    return out
