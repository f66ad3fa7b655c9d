"""C08 — stored subset values always belong to the current subsets."""
import itertools

import numpy as np

import env
import instances as I
from harness import Fixed, Run, close

CONTRACT = 1e-4
CASE_SECONDS = 120
WHAT = ("at every relaxed problem of full solves (Gurobi, and all optimal "
        "environment answers) the stored value/solution of each subset is "
        "compared with the brute-force optimum over that subset")
BOUNDS = dict(quick="tie families N<=8 with <=2 deviations; rotation patterns "
              "N=6,8; catalogue N<=14; all configurations in turn; "
              "solves with large merges, N<=20",
              thorough="all of these families completely, <=3 deviations")
ASSUMPTIONS = ["Gurobi answers correctly on b>0 packing models"]
C = I.CONFIGS
GAPS = (1e-4, 0.02, 1e-4, 0.1, 1e-4, 0.3)


def cases(tier, seed):
    q = tier == "quick"
    i = 0
    for sp in itertools.islice(env.tie_specs(q), 0, None, 9 if q else 1):
        yield dict(kind="env", sp=sp, cfg=env.CFGS[(i * 3) % len(env.CFGS)],
                   dev=2 if q else 3)
        i += 1
    for sp in itertools.chain(
            itertools.islice(I.with_k(I.fam_rot(8, 3), ks=(1, 2, 3)), 0, None,
                             37 if q else 2),
            itertools.islice(I.with_k(I.fam_rot(6, 3), ks=(1, 2, 3)), 0, None,
                             23 if q else 2),
            I.with_k(I.catalogue([(12, 1, 3), (14, 2, 3), (9, 3, 4)],
                                 4 if q else 24), ks=(1, 2, 4, 6)),
            itertools.islice(I.degenerate(), 0, None, 2 if q else 1),
            I.deep(24 if q else None)):
        for j in range(3 if q else 8):
            yield dict(kind="solve", sp=sp, cfg=(i * 5 + j * 19) % 56,
                       mode=i % 4, gap=GAPS[(i + j) % 6])
        i += 1
    for sp, cfg, mode in I.big_merges(16 if q else None):
        for z in (0, 1):
            yield dict(kind="solve", sp=sp, cfg=cfg ^ z, mode=mode)


def aligned(run, when):
    s, orc = run.solver, run.orc
    P = run.partitions[-1]
    costs, sols = list(s.subset_costs), list(s.subset_sols)
    if len(costs) != len(P) or len(sols) != len(P):
        run.fail("%d subsets but %d stored values and %d solutions %s" % (
            len(P), len(costs), len(sols), when))
    for c, p in enumerate(P):
        true = orc.subset(p)
        if not close(float(costs[c]), true, 2e-4):
            run.fail("stored value of a subset is not its optimum " + when,
                     subset=list(p), stored=float(costs[c]), true=true)
        x = np.asarray(sols[c], float)
        if orc.violations_of(x, 1e-5)[list(p)].any():
            run.fail("stored solution violates a scenario of its subset "
                     + when, subset=list(p), x=x.tolist())
        if not close(float(orc.c @ x), true, 2e-4):
            run.fail("stored solution does not attain the subset's optimum "
                     + when, subset=list(p), x=x.tolist(), true=true)
    run.ctx.step(len(P))


def run_case(case, ctx):
    sp = case["sp"]

    def one(ch, stub=None):
        run = Run(sp, C[case["cfg"]], ctx, ch,
                  gap=case.get("gap", 1e-4))
        run.stub_cclp = stub
        run.on_cclp = lambda r, part, bm, kw: aligned(
            r, "when the relaxed problem is solved")
        run.on_check = lambda r, x, ok: aligned(r, "after it")
        run.go()
        aligned(run, "at the end")
        ctx.outcome("it%d size%d" % (run.iters, len(run.partitions[-1])))
    if case["kind"] == "solve":
        one(Fixed(case["mode"]))
    else:
        ctx.count("environment_executions",
                  ctx.explore(lambda ch: one(ch, env.stub(ch)),
                              max_dev=case["dev"]))
    ctx.sample(spec=sp, config=C[case["cfg"]])
