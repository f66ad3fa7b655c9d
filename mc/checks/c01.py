"""C01 — every terminating adaptive solve returns the exact optimum."""
import itertools

import env
import instances as I
from harness import Fixed, Run, check_answer

CONTRACT = 1e-4
CASE_SECONDS = 120
WHAT = ("real AdaptivePartitioner.solve on every listed instance; all 56 "
        "method configurations are cycled over the instances (every instance "
        "meets several, every family meets all); random choices enumerated on "
        "the `tree` family, driven by fixed scripts elsewhere; compared with "
        "brute-force enumeration of binary points / LP vertices")
BOUNDS = dict(
    quick="n<=2,m<=2,N<=4 exhaustive row multisets x every k x binary/"
          "continuous; n=3 N=6 rotation patterns; catalogue N<=15; choice "
          "trees with <=1 deviation",
    thorough="as quick with N<=5, every configuration, choice trees with <=2 "
             "deviations, rotation patterns N<=8, catalogue N<=20")
ASSUMPTIONS = ["Gurobi answers correctly on b>0 packing models",
               "data A>=0, c>=0, b>0 with one decimal"]
C = I.CONFIGS


def pick(i, per):
    """per configurations for instance i, so that all come up in turn."""
    return [(i * per + j * 13 + i // 56) % len(C) for j in range(per)]


def cases(tier, seed):
    q = tier == "quick"
    # ---- exhaustive tiny families
    fams = [I.with_k(I.fam_n1((1, 2, 3, 4) if q else (1, 2, 3, 4, 5))),
            I.with_k(I.fam_n2((2, 3) if q else (2, 3, 4)), half=not q),
            I.with_k(I.fam_n2m2((2, 3)))]
    per = 3 if q else 12
    i = 0
    for f in fams:
        for sp in f:
            yield dict(kind="runs", sp=sp, cfgs=pick(i, per), mode=i % 3)
            i += 1
    # ---- rotation patterns: several refinement rounds
    for N, n, step in ((6, 3, 9), (8, 3, 17)) if q else (
            (6, 3, 1), (8, 3, 2), (7, 3, 3)):
        for sp in itertools.islice(I.with_k(I.fam_rot(N, n), ks=(1, 2, 3)),
                                   0, None, step):
            yield dict(kind="runs", sp=sp, cfgs=pick(i, 3 if q else 8),
                       mode=i % 3)
            i += 1
    # ---- catalogue
    shapes = [(8, 1, 3), (10, 2, 4), (12, 1, 5), (15, 3, 3), (9, 2, 2)]
    if not q:
        shapes += [(20, 2, 5), (16, 4, 4), (18, 1, 6)]
    for sp in I.with_k(I.catalogue(shapes, 6 if q else 24), ks=(0, 1, 2, 4, 6)):
        if sp["cont"] and len(sp["c"]) > 3:
            continue
        yield dict(kind="runs", sp=sp, cfgs=pick(i, 4 if q else 16),
                   mode=i % 4, gap=(1e-4, 1e-2, 0.0, 0.3)[i % 4])
        i += 1
    # ---- four to ten refinement rounds
    for sp in I.deep(32 if q else None):
        yield dict(kind="runs", sp=sp, cfgs=pick(i, 4 if q else 56),
                   mode=i % 4, gap=(1e-4, 0.0)[i % 2])
        for g in (0.005, 0.02, 0.05):
            yield dict(kind="runs", sp=sp, cfgs=pick(i + int(g * 1000),
                                                     2 if q else 14),
                       mode=i % 4, gap=g)
        i += 1
    # ---- corner cases
    for sp in I.degenerate():
        yield dict(kind="runs", sp=sp, cfgs=pick(i, 2 if q else 28),
                   mode=i % 4)
        i += 1
    # ---- other units: costs of 0.1, data in the thousands, ...
    for sp in I.with_k(I.rescale(itertools.chain(
            I.catalogue([(8, 1, 3), (12, 2, 3), (9, 3, 2)], 8 if q else 32,
                        hi=9),
            itertools.islice(I.fam_rot(6, 3), 3, None, 37 if q else 5))),
            ks=(0, 1, 2, 3)):
        yield dict(kind="runs", sp=sp, cfgs=pick(i, 2 if q else 12),
                   mode=i % 4, gap=(1e-4, 0.1, 1e-4, 0.0)[i // 3 % 4])
        i += 1
    # ---- solver answers within its tolerances, any optimal point
    for t, sp in enumerate(itertools.islice(env.tie_specs(q), 0, None,
                                            9 if q else 1)):
        yield dict(kind="env", sp=env.scaled(sp, 100.0),
                   cfgs=[env.CFGS[(t * 3 + 2) % len(env.CFGS)]],
                   dev=2 if q else 3)
    # ---- nearly equal scenarios, searched to the end
    for N in (3, 4, 5):
        for R in itertools.combinations(range(6), N):
            for A, c in (([[[20000 + v / 10]] for v in R], [1000]),
                         ([[[20000 + v / 10, 9000 - v / 5]] for v in R],
                          [1000, 501])):
                for k in range(1, N - 1):
                    yield dict(kind="runs", sp=I.spec(c, A, [10000], k, 1),
                               cfgs=pick(i, 2 if q else 12), mode=i % 4,
                               gap=1e-9)
                    i += 1
    # ---- many scenarios (epsilon and the number of indicators at scale)
    for N in (60, 120, 270) if q else (60, 120, 144, 270):
        for k, eps in I.large_eps(N)[i % 3::2 if q else 1]:
            if k:
                yield dict(kind="runs", sp=I.large_n1(N, k, eps)[0],
                           cfgs=pick(i, 2 if q else 4), mode=i % 4)
                i += 1
    # ---- choice trees
    rnd = [j for j, c in enumerate(C) if "random" in (c["init"], c["split"])]
    src = I.with_k(I.fam_rot(5, 2, b=(3,), vals=(0, 2, 3, 4),
                             costs=((1, 2), (2, 1))), ks=(1, 2, 3))
    for t, sp in enumerate(itertools.islice(src, 0, None, 11 if q else 1)):
        yield dict(kind="tree", sp=sp, cfgs=[rnd[(t * 5) % len(rnd)]],
                   dev=1 if q else 2)


def run_case(case, ctx):
    gap = case.get("gap", 1e-4)
    for ci in case["cfgs"]:
        cfg = C[ci]
        if case["kind"] == "runs":
            r = Run(case["sp"], cfg, ctx, Fixed(case["mode"]), gap=gap).go()
            check_answer(r)
            ctx.sample(spec=case["sp"], config=cfg, vUB=float(r.solver.vUB))
        elif case["kind"] == "env":
            def answers(ch):
                r = Run(case["sp"], cfg, ctx, ch)
                r.stub_cclp = env.stub(ch, noise=True)
                check_answer(r.go())
            ctx.count("environment_executions",
                      ctx.explore(answers, max_dev=case["dev"]))
        else:
            def one(ch):
                check_answer(Run(case["sp"], cfg, ctx, ch).go())
            n = ctx.explore(one, max_dev=case["dev"])
            ctx.count("choice_tree_executions", n)
