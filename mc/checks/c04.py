"""C04 — every adaptive solve terminates."""
import itertools

import env
import instances as I
from harness import Fixed, Run

CASE_SECONDS = 60
WHAT = ("full solves under all random choices and all optimal answers of the "
        "environment (deviation-bounded), counting relaxed problems; without "
        "merging the count must be <= N-k, with merging <= a fixed cap far "
        "above any terminating run of that size")
BOUNDS = dict(quick="tie families N<=8, <=2 deviations; real solver on "
              "rotation patterns and catalogue N<=14",
              thorough="same with <=3 deviations, all patterns, N<=20")
ASSUMPTIONS = ["Gurobi answers correctly on b>0 packing models"]
C = I.CONFIGS
CAP = 120


def cases(tier, seed):
    q = tier == "quick"
    i = 0
    merging = [j for j in env.CFGS if C[j]["merger"]]
    for sp in env.tie_specs(q):
        if q and i % 4 == 0 or not q:
            yield dict(kind="env", sp=sp, cfg=merging[(i // 4) % len(merging)],
                       dev=2 if q else 3)
        elif i % 2:
            yield dict(kind="env", sp=sp, cfg=merging[i % len(merging)], dev=1)
        if i % 4 == 0:
            yield dict(kind="env", sp=sp, cfg=env.CFGS[i % len(env.CFGS)],
                       dev=1)
        i += 1
    src = itertools.chain(
        itertools.islice(I.with_k(I.fam_rot(8, 3, costs=((1, 1, 1), (2, 0, 2),
                                                         (1, 2, 3))),
                                  ks=(1, 2, 3)), 0, None, 23 if q else 2),
        I.with_k(I.catalogue([(10, 1, 3), (14, 2, 3), (12, 1, 4)] + (
            [] if q else [(20, 1, 3)]), 6 if q else 24, hi=4, zero=3),
            ks=(1, 2, 3, 5)))
    for sp in I.deep(24 if q else None):
        for j in range(3 if q else 14):
            yield dict(kind="real", sp=sp, cfg=(i * 7 + j * 19) % 56,
                       mode=i % 4)
        i += 1
    for sp in I.degenerate():
        for j in range(1 if q else 14):
            yield dict(kind="real", sp=sp, cfg=(i * 7 + j * 19) % 56,
                       mode=i % 4)
        i += 1
    for sp in src:
        for j in range(2 if q else 6):
            yield dict(kind="real", sp=sp, cfg=(i * 7 + j * 19) % 56,
                       mode=i % 4)
        i += 1
    for N in (60,) if q else (60, 120, 144):
        for k, eps in I.large_eps(N)[::5 if q else 1]:
            if k:
                for j in range(1 if q else 4):
                    yield dict(kind="real", sp=I.large_n1(N, k, eps)[0],
                               cfg=(i * 7 + j * 19) % 56, mode=i % 4)
                i += 1


def run_case(case, ctx):
    cfg = C[case["cfg"]]
    sp = case["sp"]
    N, k = len(sp["A"]), sp["k"]

    def one(ch, stub=None):
        run = Run(sp, cfg, ctx, ch, cap=CAP if cfg["merger"] else max(N - k, 1),
                  gap=0.0)
        run.stub_cclp = stub
        sizes = []

        def on_load(r, nb, partition):
            if not cfg["merger"] and sizes and len(partition) <= sizes[-1]:
                r.fail("a refinement did not make the partition larger",
                       sizes=sizes + [len(partition)])
            sizes.append(len(partition))
        run.on_load = on_load
        run.go()
        ctx.outcome("relaxed problems %d" % run.iters)

    if case["kind"] == "real":
        one(Fixed(case["mode"]))
    else:
        ctx.count("environment_executions",
                  ctx.explore(lambda ch: one(ch, env.stub(ch)),
                              max_dev=case["dev"]))
    ctx.sample(spec=sp, config=cfg)
