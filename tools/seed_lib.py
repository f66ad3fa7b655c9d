"""Helpers for the demonstrations of the planted bugs (copied beside each)."""
import contextlib
import csv
import io
import itertools
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402
import gurobipy as gp  # noqa: E402

_TMP = tempfile.mkdtemp(prefix="seed-demo-")
import atexit  # noqa: E402
atexit.register(shutil.rmtree, _TMP, True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        fd = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try:
            yield
        finally:
            os.dup2(fd, 1)
            os.close(fd)
            os.close(null)


def write(c, A, b, name="ccmknap-2-1-3-1.csv", folder=None):
    path = os.path.join(folder or tempfile.mkdtemp(dir=_TMP), name)
    with open(path, "w", newline="\n") as f:
        w = csv.writer(f)
        w.writerow([len(c), len(b), len(A)])
        w.writerow(c)
        for s in A:
            w.writerows(s)
        w.writerow(b)
    return path


def inst(c, A, b, eps, cont, name="ccmknap-2-1-3-1.csv"):
    from src.instance.ChanceKnapInstance import ChanceKnapInstance
    return ChanceKnapInstance(write(c, A, b, name), cont, eps)


def rand(rng, n=4, m=2, N=6, zero=0.2, top=30):
    A = [[[0.0 if rng.random() < zero else float(rng.randint(1, top))
           for _ in range(n)] for _ in range(m)] for _ in range(N)]
    c = [float(rng.randint(1, top)) for _ in range(n)]
    b = [float(rng.randint(top // 2, top * n // 2)) for _ in range(m)]
    return c, A, b


_ENV = None


def det(ci, scen, c=None):
    """optimum when all of scen must hold (own model)."""
    global _ENV
    if _ENV is None:
        with quiet():
            _ENV = gp.Env(params={"OutputFlag": 0})
    n = ci.nb_vars
    m = gp.Model(env=_ENV)
    x = m.addVars(n, ub=1.0, vtype="C" if ci.continuous_var else "B")
    m.setObjective(gp.quicksum(float(ci.vector_c[j]) * x[j]
                               for j in range(n)), gp.GRB.MAXIMIZE)
    for s in scen:
        for i in range(ci.matrices_A.shape[1]):
            m.addConstr(gp.quicksum(float(ci.matrices_A[s, i, j]) * x[j]
                                    for j in range(n))
                        <= float(ci.vectors_b[s, i]))
    m.Params.MIPGap = 0
    m.optimize()
    return m.ObjVal


def kk(ci):
    return int(np.floor(ci.epsilon * ci.nb_scenarios + 1e-6))


def opt(ci):
    N = ci.nb_scenarios
    return max(det(ci, keep)
               for keep in itertools.combinations(range(N), N - kk(ci)))


def viol(ci, x):
    """number of violated scenarios of x."""
    return sum(bool(np.any(ci.matrices_A[s] @ x > ci.vectors_b[s] + 1e-5))
               for s in range(ci.nb_scenarios))


def adaptive(ci, split="cost", init="cost", proj="rescaled_max_violation",
             use_big_M=True, big="belotti", merge=True, lazy=False, seed=1,
             gap=1e-4, run=True):
    from src.solver.AdaptivePartitioner import AdaptivePartitioner
    from src.BigMFinder import BigMFinder
    random.seed(seed)
    with quiet():
        m = AdaptivePartitioner(ci, split_method=split,
                                initial_partition_type=init,
                                projection_method=proj,
                                use_acc_obj=(split == "cost"), gap=gap,
                                time_limit=100)
        f = BigMFinder(m.chance_instance_part)
        if run:
            m.solve(f, use_big_M=use_big_M, big_m_method=big,
                    use_merger=merge, use_lazy=lazy)
    return m


def close(a, b, tol=1e-4):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def check(cond, *msg):
    if not cond:
        print("FAILED:", *msg)
        sys.exit(1)
