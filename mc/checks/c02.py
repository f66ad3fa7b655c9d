"""C02 — the extended MILP is exact in every formulation."""
import itertools
import os

import numpy as np

import answers
import harness
import instances as I
from core import Violation
from harness import call, close, instance, leq, oracle_of, repo

CONTRACT = 1e-4
ANSWERS = True
CASE_SECONDS = 120
WHAT = ("real MilpSolver.solve (indicator, naive, belotti, song; with and "
        "without bound recording) and Solver.solve_cclp_model with lazy "
        "constraints, on every listed instance, against brute force")
BOUNDS = dict(
    quick="n<=2,m<=2,N<=3 exhaustive row multisets, every k, half-way "
          "epsilons; rotation patterns N=6; catalogue N<=12",
    thorough="n<=2,N<=4 exhaustive, rotation patterns N=6,8, catalogue N<=20, "
             "every formulation on each")
ASSUMPTIONS = ["Gurobi answers correctly on b>0 packing models",
               "data A>=0, c>=0, b>0 with one decimal"]
FORMS = [(None, 0, 0), ("naive", 0, 0), ("belotti", 0, 0), ("song", 0, 0),
         ("song", 0, 1), ("belotti", 0, 1), (None, 0, 1),
         ("naive", 1, 0), ("belotti", 1, 0), ("song", 1, 0)]


def cases(tier, seed):
    q = tier == "quick"
    i = 0
    fams = [I.with_k(I.fam_n1((1, 2, 3) if q else (1, 2, 3, 4))),
            I.with_k(I.fam_n2((2, 3) if q else (2, 3, 4)), half=True),
            I.with_k(I.fam_n2m2((2, 3)))]
    for f in fams:
        for sp in f:
            yield dict(sp=sp, forms=[(i * 3 + j) % 10 for j in range(
                3 if q else 10)])
            i += 1
    for sp in itertools.islice(I.with_k(I.fam_rot(6, 3), ks=(1, 2, 3)),
                               0, None, 7 if q else 1):
        yield dict(sp=sp, forms=[(i * 4 + j) % 10 for j in range(
            4 if q else 10)])
        i += 1
    shapes = [(8, 2, 3), (10, 1, 4), (12, 3, 3), (7, 4, 5)] + (
        [] if q else [(20, 2, 5), (16, 3, 3)])
    for sp in I.with_k(I.catalogue(shapes, 6 if q else 30),
                       ks=(0, 1, 2, 3, 5, 6, 7)):
        if sp["cont"] and len(sp["c"]) > 3:
            continue
        yield dict(sp=sp, forms=[(i * 4 + j) % 10 for j in range(
            4 if q else 10)], gap=(1e-4, 1e-9)[i % 2])
        i += 1
    for sp in I.degenerate():
        yield dict(sp=sp, forms=[(i * 4 + j) % 10 for j in range(
            2 if q else 10)])
        i += 1
    # ---- whatever the solver returns within the gap it was asked for
    for sp in I.with_k(I.catalogue([(6, 1, 3), (8, 2, 4), (9, 1, 5)],
                                   3 if q else 12, hi=9), ks=(1, 2, 3)):
        yield dict(sp=sp, forms=[j for j in (i % 10, (i + 5) % 10) if
                                 q] or list(range(10)),
                   gap=(.3, 1.0, .12)[i % 3], kind="gap")
        i += 1
    for N in (60, 144) if q else (60, 144, 270, 500):
        for k, eps in I.large_eps(N)[i % 2::4 if q else 1]:
            yield dict(kind="large", N=N, k=k, eps=eps,
                       forms=[(i * 4 + j) % 10 for j in range(
                           1 if q else 5)])
            i += 1


def large(case, ctx):
    """n = 1, many scenarios: the optimum is known in closed form."""
    R = repo()
    sp, opt = I.large_n1(case["N"], case["k"], case["eps"])
    ci = instance(sp, ctx)
    for f in case["forms"]:
        method, lazy, save = FORMS[f]
        what = "%s%s" % (method or "indicator", "+lazy" * lazy)
        s = R.MilpSolver(ci, gap=1e-4)
        if lazy:
            finder = R.BigMFinder(ci)
            if method == "belotti":
                call(finder.run_belotti_et_al_big_M, what, opt)
            elif method == "song":
                call(finder.run_song_et_al_big_m, what, ci)
            x, z, v_obj, v_bnd = call(
                s.solve_cclp_model, what, ci, finder, use_big_M=True,
                use_lazy=True, gap=1e-4)
        else:
            call(s.solve, what, use_big_m=method is not None,
                 big_m_method=method or "naive")
            x, z, v_obj, v_bnd = s.xLB, s.zLB, s.vLB, s.vUB
        ctx.trace()
        ctx.step()
        ctx.state("large", f, case["N"], case["k"], round(float(v_obj), 6))
        info = dict(N=case["N"], k=case["k"], epsilon=case["eps"],
                    formulation=what, v_obj=float(v_obj), v_bnd=float(v_bnd),
                    optimum=opt, x=float(x[0]))
        if not close(1000 * float(x[0]), v_obj, 1e-5):
            raise Violation("value is not that of the solution", **info)
        if not opt * (1 - 1e-4) - 1e-5 <= v_obj <= opt * (1 + 1e-5):
            raise Violation("value is not the optimum", **info)
        if not opt * (1 - 1e-6) <= v_bnd <= opt * (1 + 1.2e-4):
            raise Violation("bound is not within the gap of the optimum",
                            **info)
        if int((np.asarray(z) < .5).sum()) > case["k"]:
            raise Violation("more indicators at zero than tolerated", **info)
        ctx.outcome("large %s" % what)


COND = [None]


def loose(case, ctx):
    """The solver stops at the gap: each answer, with each extreme bound."""
    g = case["gap"]
    for f in case["forms"]:
        known = []
        a = size = 0
        while a <= size:
            for hi in (0, 1):
                n = []

                def pick(model, pool):
                    n.append(1)
                    if not known:
                        known.extend(pool(levels=(
                            1 / (1 + g), .95, .85, .6), values=[]))
                        best = known[0][0]
                        known[:] = [p for p in known
                                    if p[0] * (1 + g) >= best]
                    best = known[0][0]
                    v = known[a][0]
                    return known[a], v * (1 + g) if hi else best, "gap"
                with answers.answer(lambda m: COND[0](m), pick):
                    exact(dict(case, forms=[f]), ctx)
                if len(n) != 1:
                    raise Violation("the extended problem is solved %d times"
                                    % len(n), spec=case["sp"])
                size = len(known) - 1
                ctx.outcome("answer %d of %d" % (a + 1, size + 1))
            a += 1


def run_case(case, ctx):
    {"large": large, "gap": loose}.get(case.get("kind"), exact)(case, ctx)


def exact(case, ctx):
    R = repo()
    sp = case["sp"]
    orc = oracle_of(sp)
    k = sp["k"]
    opt = orc.opt(k)
    gap = case.get("gap", 1e-4)
    for f in case["forms"]:
        method, lazy, save = FORMS[f]
        ci = instance(sp, ctx)
        s = R.MilpSolver(ci, gap=gap)
        if case.get("kind") == "gap":
            COND[0] = answers.within(s)
        what = "%s%s%s" % (method or "indicator", "+lazy" * lazy,
                           "+record" * save)
        path = os.path.join(ctx.scratch, "trace.csv")
        if lazy:
            finder = R.BigMFinder(ci)
            if method == "belotti":
                call(finder.run_belotti_et_al_big_M, what, opt)
            elif method == "song":
                call(finder.run_song_et_al_big_m, what, ci)
            x, z, v_obj, v_bnd = call(
                s.solve_cclp_model, what, ci, finder, use_big_M=True,
                use_lazy=True, gap=gap)
        else:
            call(s.solve, what, use_big_m=method is not None,
                 big_m_method=method or "naive", save_bounds=bool(save),
                 path=path if save else None)
            x, z, v_obj, v_bnd = s.xLB, s.zLB, s.vLB, s.vUB
        ctx.trace()
        ctx.step()
        x, z = np.asarray(x, float), np.asarray(z, float)
        info = dict(spec=sp, formulation=what, x=x.tolist(), z=z.tolist(),
                    v_obj=float(v_obj), v_bnd=float(v_bnd), optimum=opt)

        def bad(msg):
            raise Violation(what + ": " + msg, **info)
        slack = 1e-6 * max(1, abs(opt))
        if len(z) != orc.N:
            bad("wrong number of indicators")
        if (x < -1e-6).any() or (x > 1 + 1e-6).any():
            bad("solution outside the box")
        if not sp["cont"] and (np.abs(x - np.round(x)) > 1e-5).any():
            bad("solution not binary")
        if not close(float(orc.c @ x), v_obj, 1e-5):
            bad("value is not that of the solution")
        if not orc.feasible(x, k, 2e-6):
            bad("solution violates too many scenarios")
        if v_obj > opt + slack * 10:
            bad("value above the optimum")
        if v_obj < opt - gap * abs(opt) - slack:
            bad("value below the optimum by more than the gap")
        if v_bnd < opt - slack:
            bad("bound below the optimum")
        if v_bnd > v_obj + gap * abs(v_obj) + slack * 10:
            bad("bound not within the gap")
        if (np.abs(z - np.round(z)) > 1e-5).any():
            bad("indicator not binary")
        if int((z < 0.5).sum()) > k:
            bad("more indicators at zero than tolerated")
        viol = orc.violations_of(x, 1e-5)
        if viol[z > 0.5].any():
            bad("a scenario with indicator one is violated")
        ctx.state(f, tuple(np.round(x, 6)), tuple(np.round(z)), sp["b"], k)
        ctx.outcome("%s opt=%.3f" % (what, opt))
    ctx.sample(spec=sp, optimum=opt)
    if answers.FAILED[0]:
        ctx.count("answers_not_forced", answers.FAILED[0])
        answers.FAILED[0] = 0
