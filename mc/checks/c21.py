"""C21 — warm starts and pruning never change the relaxed optimum."""
import itertools

import numpy as np

import env
import instances as I
from core import Violation
from diag import diag_spec
from harness import Fixed, Run, call, close, instance, leq, repo

CASE_SECONDS = 120
WHAT = ("every relaxed problem of full solves (Gurobi, and all optimal "
        "environment answers) : hints compared with the subsets selected by "
        "the previous relaxed solution, excluded subsets with the brute-force "
        "optimum over them, answer with the brute-force relaxed optimum; "
        "Warmstarter on all indicator vectors and deletion lists; hints as "
        "they arrive in the solver model")
BOUNDS = dict(quick="vectors of length <=6 with all deletion lists; tie "
              "families with <=2 deviations; rotation and catalogue solves",
              thorough="vectors of length <=8; <=3 deviations; all families")
ASSUMPTIONS = ["Gurobi answers correctly on b>0 packing models"]
C = I.CONFIGS


def cases(tier, seed):
    q = tier == "quick"
    for n in range(1, 7 if q else 9):
        yield dict(kind="direct", n=n)
    for N in range(2, 5 if q else 6):
        for P in I.bell(N):
            if len(P) > 1:
                yield dict(kind="model", N=N, P=P)
    i = 0
    for sp in itertools.islice(env.tie_specs(q), 0, None, 6 if q else 1):
        yield dict(kind="env", sp=sp, cfg=env.CFGS[(i * 3 + 1) %
                                                   len(env.CFGS)],
                   dev=2 if q else 3)
        if i % 2:       # values that err within the solver's tolerances
            yield dict(kind="env", sp=env.scaled(sp, 40), noise=1,
                       cfg=env.CFGS[(i * 3 + 2) % len(env.CFGS)],
                       dev=2 if q else 3)
        i += 1
    for sp in itertools.chain(
            itertools.islice(I.with_k(I.fam_rot(8, 3), ks=(1, 2, 3)), 0, None,
                             23 if q else 2),
            I.with_k(I.catalogue([(12, 1, 3), (14, 2, 3), (9, 3, 4)],
                                 8 if q else 24), ks=(1, 2, 4)),
            itertools.islice(I.degenerate(), 0, None, 2 if q else 1),
            I.deep(24 if q else None)):
        for j in range(2 if q else 8):
            yield dict(kind="solve", sp=sp, cfg=(i * 5 + j * 19) % 56,
                       mode=i % 4)
        i += 1
    for sp, cfg, mode in I.big_merges(16 if q else None):
        yield dict(kind="solve", sp=sp, cfg=cfg, mode=mode)


def run_case(case, ctx):
    if case["kind"] == "direct":
        return direct(case["n"], ctx)
    if case["kind"] == "model":
        return model(case, ctx)
    sp = case["sp"]

    def one(ch, stub=None):
        run = Run(sp, C[case["cfg"]], ctx, ch)
        run.stub_cclp = stub
        st = dict(sel=None, prev=None, z=None)

        def on_check(r, x, ok):
            # partition that produced x, and the indicators if known
            st["prev"] = r.partitions[-1]
            st["zprev"], st["z"] = st["z"], None

        def on_cclp(r, part, bm, kw):
            P = [set(p) for p in r.partitions[-1]]
            if st["prev"] is not None:
                z = st.get("zprev")
                if z is None:
                    z = getattr(r.solver, "zUB", None)
                if z is not None:
                    hints(r, [set(p) for p in st["prev"]], np.array(z, float),
                          P, kw.get("z_start"))
            pruned = [int(i) for i in kw.get("prune_indices", [])]
            for i in pruned:
                if not 0 <= i < len(P):
                    r.fail("a subset that does not exist is excluded", index=i)
                v = r.orc.subset(P[i])
                if v >= float(r.solver.vLB) - 1e-7:
                    r.fail("a subset is excluded whose own optimum is not "
                           "below the lower bound", subset=sorted(P[i]),
                           value=v)
            if pruned:
                ctx.count("problems_with_exclusions")

        def on_answer(r, kw, ans):
            st["z"] = np.array(ans[1], float)
            rel = r.orc.partition(r.partitions[-1], r.k)
            lb = float(r.solver.vLB)
            if rel >= lb - 1e-7 and not (close(float(ans[2]), rel, 1e-5) and
                                         leq(rel, float(ans[3]), 1e-6)):
                r.fail("the relaxed optimum differs from that of the "
                       "unrestricted relaxation", got=float(ans[2]),
                       bound=float(ans[3]), unrestricted=rel)
            ctx.step()
            ctx.state(sp["A"], r.partitions[-1], round(lb, 6))
        run.on_check, run.on_cclp, run.on_answer = on_check, on_cclp, on_answer
        run.go()
        ctx.outcome("it%d" % run.iters)
    if case["kind"] == "solve":
        one(Fixed(case["mode"]))
    else:
        ctx.count("environment_executions",
                  ctx.explore(lambda ch: one(
                      ch, env.stub(ch, noise=bool(case.get("noise")))),
                              max_dev=case["dev"]))
    ctx.sample(spec=sp, config=C[case["cfg"]])


def hints(r, old, z, P, start):
    if len(z) != len(old):
        r.fail("the indicators do not belong to the partition",
               indicators=z.tolist(), subsets=[sorted(p) for p in old])
    start = {} if start is None else {int(a): float(b)
                                      for a, b in dict(start).items()}
    chosen = [p for p, v in zip(old, z) if v > 0.5]
    info = dict(before=[sorted(p) for p in old], now=[sorted(p) for p in P],
                selected=[sorted(p) for p in chosen],
                hints=start)
    for i, v in start.items():
        if not 0 <= i < len(P):
            r.fail("a hint for a subset that does not exist", **info)
        if v != 0 and not any(P[i] & c for c in chosen):
            r.fail("a hint for a subset that was not selected", **info)
    for p, v in zip(old, z):
        if v == 1 and p in P and start.get(P.index(p)) != 1:
            r.fail("a selected subset that survived is not hinted",
                   subset=sorted(p), **info)
    if len(P) < len(old) + 1:
        r.ctx.count("hints_after_merge")
    r.ctx.count("hints", len(start))


def direct(n, ctx):
    from src.Warmstarter import Warmstarter
    w = Warmstarter()
    for z in itertools.product((0.0, 1.0), repeat=n):
        for r in range(n):
            for D in itertools.combinations(range(n), r):
                for order in {D, D[::-1]}:
                    got = call(w.get_z_start, "get_z_start", np.array(z),
                               list(order))
                    keep = [i for i in range(n) if i not in D]
                    want = {j: 1 for j, i in enumerate(keep) if z[i] == 1}
                    if {a: b for a, b in dict(got).items() if b} != want:
                        raise Violation("hints do not follow the selected "
                                        "subsets", z=z, deleted=list(order),
                                        got=str(got), expected=want)
                    ctx.step()
                    ctx.trace()
                ctx.state(z, D)
    ctx.outcome("direct n%d" % n)


def model(case, ctx):
    """The hints and exclusions as they reach the model."""
    from gurobipy import GRB
    from src.optim.CCLPModel import CCLPModel
    R = repo()
    N, P = case["N"], case["P"]
    for k in range(min(2, len(P))):
        ci = instance(diag_spec(N, k, extra=True), ctx)
        part = R.PartitionChanceKnapInstance(ci)
        call(part.load_partition, "load_partition", len(P),
             [list(p) for p in P])
        best = {}
        for r in range(len(P) + 1):
            for H in itertools.combinations(range(len(P)), r):
                for big in (False, True):
                    def make():
                        m = CCLPModel(part, R.BigMFinder(part))
                        m.build(use_big_M=big, verbose=False,
                                z_start={i: 1 for i in H})
                        m.grb_model.update()
                        start = [m.var_z[i].Start for i in range(len(P))]
                        m.solve()
                        return start, float(m.get_obj_val())
                    got, v = call(make, "the relaxed problem with hints")
                    if best.setdefault(big, v) is not v and \
                            not close(v, best[big], 1e-6):
                        raise Violation("hints change the relaxed optimum",
                                        partition=P, k=k, hints=list(H),
                                        value=v, without=best[big])
                    for i, v in enumerate(got):
                        if (v == 1) != (i in H) or (
                                i not in H and v != GRB.UNDEFINED):
                            raise Violation("the hints do not reach the "
                                            "model", hints=list(H), start=got)
                    ctx.step()
                    ctx.trace()
        ctx.state("model", P, k)
    ctx.outcome("model N%d" % N)
