"""C27 — the experiment scripts, the solver script and the tables fit together."""
import inspect
import itertools
import os
import shutil
import subprocess

import build
import core
from checks import c20
from cli import run_main
from core import CLOCK, Violation
from harness import repo, tb

CASE_SECONDS = 600
WHAT = ("the two shipped shell scripts are run with a recording interpreter: "
        "every instance the experiments ask for must be one the generation "
        "step makes, and every experiment is asked for once; the real main.py "
        "is then run on every recorded command line (solve() replaced, result "
        "rows really written) and the real export after every chosen prefix of "
        "the runs, as if the machine had stopped there")
BOUNDS = dict(quick="all 960 experiments; the export after each multiple of 96 "
              "runs and at the last 8 prefixes",
              thorough="all 960 experiments; the export after every 4th run")
ASSUMPTIONS = ["generated files are named as C24 checks",
               "an interpreter called python or python3 is used"]
GEN = "data/cc-instances/knapsack"
METHODS = (1, 2, 3, 4)


def cases(tier, seed):
    blocks = 8 if tier == "quick" else 24
    for i in range(blocks):
        yield dict(block=i, blocks=blocks,
                   every=96 if tier == "quick" else 4)


def record(script, cwd, ctx):
    """Command lines of the python programs that a shell script starts."""
    stubs = os.path.join(ctx.scratch, "stubs")
    shutil.rmtree(stubs, ignore_errors=True)
    os.makedirs(stubs)
    log = os.path.join(stubs, "log")
    for name in ("python", "python3", "sleep"):
        p = os.path.join(stubs, name)
        with open(p, "w") as fh:
            fh.write("#!/bin/sh\n" + (
                "exit 0\n" if name == "sleep" else
                'for a in "$@"; do printf "%%s\\037" "$a"; done >> %s\n'
                'printf "\\n" >> %s\n' % (log, log)))
        os.chmod(p, 0o755)
    env = dict(os.environ, PATH=stubs + ":" + os.environ["PATH"])
    p = subprocess.run(["bash", script], cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=300)
    if p.returncode:
        raise Violation("%s fails" % script,
                        output=p.stdout.decode("latin1")[-500:])
    if not os.path.exists(log):
        raise Violation("%s starts nothing" % script)
    with open(log) as fh:
        return [ln.split("\037")[:-1] for ln in fh.read().splitlines()]


def prepare(ctx):
    """A copy of the scripts with tiny stand-ins for the generated files."""
    root = os.path.join(ctx.scratch, "pipe")
    shutil.rmtree(root, ignore_errors=True)
    d = os.path.join(root, GEN)
    os.makedirs(d)
    shutil.copytree(os.path.join(build.REPO, "data/orlib"),
                    os.path.join(root, "data/orlib"))
    for f in os.listdir(os.path.join(build.REPO, GEN)):
        if f.endswith((".sh", ".py")):
            shutil.copy(os.path.join(build.REPO, GEN, f), d)
    for f in ("run_all_experiments.sh", "main.py", "export_results.py"):
        shutil.copy(os.path.join(build.REPO, f), root)
    made = set()
    for a in record("generate-all-instances.sh", d, ctx):
        if len(a) != 4 or not os.path.exists(os.path.join(d, a[0])) or \
                not os.path.exists(os.path.join(d, a[1])):
            raise Violation("the generation script starts the generator "
                            "wrongly", command=a)
        with open(os.path.join(d, a[1])) as fh:
            n, m = fh.readline().split()[:2]
        for j in range(1, int(a[3]) + 1):
            made.add("ccmknap-%s-%s-%d-%d.csv" % (n, m, int(a[2]), j))
    for f in made:
        with open(os.path.join(d, f), "w") as fh:
            fh.write("1,1,3\n1\n1\n1\n1\n2\n")
    return root, made


def key_of(args, root, made):
    """(cont, instance, eps, scenarios, id, method) of a command line."""
    if len(args) != 6:
        raise Violation("an experiment has %d arguments" % (len(args) - 1),
                        command=args)
    prog, path, cont, eps, method, out = args
    if os.path.realpath(os.path.join(root, prog)) != os.path.realpath(
            os.path.join(root, "main.py")):
        raise Violation("an experiment starts another program", command=args)
    name = os.path.basename(path)
    if name not in made or not os.path.exists(os.path.join(root, path)):
        raise Violation("an experiment needs an instance that is not "
                        "generated", command=args)
    if os.path.realpath(os.path.join(root, out)) != os.path.realpath(
            os.path.join(root, "results/tables")) or not out.endswith("/"):
        raise Violation("an experiment writes elsewhere than where the tables "
                        "are made from", command=args)
    stem, s, j = name[:-4].rsplit("-", 2)
    return (int(cont), stem, float(eps), int(s), int(j), int(method))


ALL = [(co, i, e, s, j, m) for co, i, e, s in c20.ROWS for j in c20.IDS
       for m in METHODS]


def cost(key):
    """(time, big-M time, iterations) that a run is made to take."""
    n = ALL.index(key)
    return 2.0 + 3 * n + 0.25 * (n % 7), 1.0 + 0.5 * n, 1 + (n * 5) % 23


def stubs():
    R = repo()
    now = {}

    def identify(ci, m):
        stem, s, j = ci.get_file_name().rsplit("-", 2)
        cont = int(all(bool(t) for t in ci.get_var_type()))
        k = (cont, stem, float(ci.get_epsilon()), int(s), int(j), m)
        if k not in ALL:
            raise Violation("a run that is no experiment", key=k)
        now["key"] = k
        return cost(k)

    init = R.AdaptivePartitioner.__init__

    def milp(self, use_big_m=True, big_m_method="naive", **kw):
        m = {"song": 1, "belotti": 2}.get(big_m_method if use_big_m else None)
        t, self.big_m_time, _ = identify(self.chance_instance, m)
        CLOCK.now += t
        self.vLB = self.vUB = 5.0

    def construct(self, *a, **kw):
        b = inspect.signature(init).bind(self, *a, **kw)
        b.apply_defaults()
        now["split"] = b.arguments["split_method"]
        init(self, *a, **kw)

    def adaptive(self, *a, **kw):
        m = {"random": 3, "cost": 4}.get(now["split"])
        t, _, self.iteration = identify(self.chance_instance, m)
        self.use_big_M = True
        CLOCK.now += t
        self.vLB = self.vUB = 5.0
    return now, [(R.MilpSolver, "solve", milp),
                 (R.AdaptivePartitioner, "__init__", construct),
                 (R.AdaptivePartitioner, "solve", adaptive)]


def tables(root, done, ctx, at):
    tab = os.path.join(root, "results", "tables")
    os.makedirs(tab, exist_ok=True)
    c20.export(os.path.join(root, "export_results.py"), at)
    data = {}
    for cont, i, e, s in c20.ROWS:
        for m in METHODS:
            data[cont, i, e, s, m] = [
                run(k) if k in done else None
                for k in ((cont, i, e, s, j, m) for j in c20.IDS)]
    c20.judge_tables(root, data, ctx)
    ctx.step()
    ctx.state("tables", at)


def run(k):
    t, b, it = cost(k)
    return t, 0.0, it, b


def run_case(case, ctx):
    root, made = prepare(ctx)
    lines = record("run_all_experiments.sh", root, ctx)
    keys = [key_of(a, root, made) for a in lines]
    for k in keys:
        if k not in ALL:
            raise Violation("an experiment that no table shows", key=k)
    for k in ALL:
        if keys.count(k) != 1:
            raise Violation("an experiment of the tables is run %d times"
                            % keys.count(k), key=k)
    # this case looks at the states after lo..hi runs; it makes the rows of
    # the runs before them as well, but only through main.py for its own part
    size = -(-len(keys) // case["blocks"])
    lo, hi = case["block"] * size, min((case["block"] + 1) * size, len(keys))
    now, patches = stubs()
    old = [(cls, n, cls.__dict__[n]) for cls, n, _ in patches]
    cwd = os.getcwd()
    os.chdir(root)
    done = set()
    try:
        for cls, n, f in patches:
            setattr(cls, n, f)
        for at, (a, k) in enumerate(zip(lines, keys)):
            if at >= hi:
                break
            if at < lo and at % case["blocks"]:
                # covered by the case of that block: written directly
                write_row(root, k)
            else:
                CLOCK.reset()
                now.clear()
                try:
                    run_main(a[1:])
                except (Violation, core.Hang, MemoryError):
                    raise
                except BaseException as e:
                    raise Violation("an experiment fails: %s: %s" % (
                        type(e).__name__, str(e)[:200]), trace=tb(e),
                        command=a)
                if now.get("key") != k:
                    raise Violation("an experiment runs another method or "
                                    "instance than asked for", command=a,
                                    ran=now.get("key"))
                ctx.trace()
                ctx.step()
                ctx.state(k)
            done.add(k)
            if at >= lo and ((at + 1) % case["every"] == 0
                             or len(keys) - at <= 8):
                os.chdir(cwd)
                tables(root, done, ctx, at + 1)
                os.chdir(root)
    finally:
        os.chdir(cwd)
        for cls, n, f in old:
            setattr(cls, n, f)
    ctx.outcome("prefixes %d" % case["block"])
    ctx.sample(first=lines[lo])
    shutil.rmtree(root, ignore_errors=True)


def write_row(root, k):
    cont, i, e, s, j, m = k
    d = os.path.join(root, "results", "tables")
    os.makedirs(d, exist_ok=True)
    f = "%s-%d-%d-%.0f-%d-%d.csv" % (i, s, j, e * 100, cont, m)
    r = c20.line(i, s, j, e, cont, m, run(k))
    with open(os.path.join(d, f), "w") as fh:
        fh.write(",".join(str(v) for v in r) + "\n")
