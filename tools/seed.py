#!/usr/bin/env python3
"""Create and validate planted bugs.

    seed.py SPEC.py [id ...]      spec: BUGS = {id: dict(...)}
    seed.py --recheck [id ...]    re-run what is in /verif/seeded

dict(prop=, file=, subs=[(old, new), ...] or files={file: subs}, demo=source,
needs=, breaks=, checks=[more checks]).  In a scratch copy of /repo: patch,
build, run the tests, the demo on both trees, then the property's check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = ('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
      'export PYTHONDONTWRITEBYTECODE=1\n'
      'exec /opt/venv/bin/python "$here/demo.py"\n')


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                           capture_output=True, text=True, timeout=timeout,
                           env=e)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def passed(copy):
    out = os.path.join(copy, "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed",
        "--timeout=60", "--continue-on-collection-errors",
        "-o", "junit_family=xunit2", "--junitxml=" + out], copy,
       PYTHONPATH="/opt/vp/plugins")
    sys.path.insert(0, "/opt/vp")
    import results
    ok = {n for n, good in results.junit(out) if good}
    os.remove(out)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(base - ok)


def build(copy):
    return sh("rm -rf build violations.*.so && %s setup_violations.py "
              "build_ext --inplace --force" % PY, copy)[0]


def one(bid, spec, checks):
    d = os.path.join(V, "seeded", bid)
    tmp = tempfile.mkdtemp(prefix="seed-")
    copy = os.path.join(tmp, "repo")
    res = {"id": bid}
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        if spec:
            os.makedirs(d, exist_ok=True)
            files = spec.get("files") or {spec["file"]: spec["subs"]}
            for f, subs in files.items():
                t = open(os.path.join(copy, f)).read()
                for old, new in subs:
                    if t.count(old) != 1:
                        res["error"] = "%d matches: %r" % (t.count(old), old)
                        return res
                    t = t.replace(old, new)
                open(os.path.join(copy, f), "w").write(t)
            diff = sh(["git", "diff"], copy)[1]
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            shutil.copy(os.path.join(V, "tools", "seed_lib.py"),
                        os.path.join(d, "lib.py"))
            open(os.path.join(d, "demo.py"), "w").write(
                spec["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": spec["prop"], "needs": spec["needs"],
                       "what_it_breaks": spec["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            sh("git checkout -q -- .", copy)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, f))
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], copy, 300)
        res["clean"] = rc
        if rc:
            res["clean_out"] = out[-1500:]
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if rc:
            res["error"] = out
            return res
        if "violations." in open(os.path.join(d, "patch.diff")).read():
            res["build"] = build(copy)
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], copy, 300)
        res["patched"] = rc
        res["patched_out"] = out.strip()[-300:]
        res["tests_lost"] = passed(copy) if not os.environ.get("NOTEST") \
            else []
        res["checks"] = {}
        for c in [prop] + list(checks or (spec or {}).get("checks", [])):
            rc, out = sh(["python3", os.path.join(V, "mc", "run.py"), c],
                         V, 900, VERIF_REPO=copy,
                         VERIF_OUT=os.path.join(tmp, "out"))
            line = [x for x in out.splitlines() if "VIOLATION" in x]
            res["checks"][c] = (rc, line[0][:200] if line else out[-300:]
                                if rc else "quiet")
    finally:
        shutil.rmtree(tmp, True)
    return res


def main():
    args = sys.argv[1:]
    if args[0] == "--recheck":
        ids = args[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
        todo = [(i, None) for i in ids]
    else:
        ns = {}
        exec(open(args[0]).read(), ns)
        todo = [(i, s) for i, s in ns["BUGS"].items()
                if not args[1:] or i in args[1:]]
    checks = os.environ.get("CHECKS", "").split()
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for r in ex.map(lambda t: one(t[0], t[1], checks), todo):
            good = (r.get("clean") == 0 and r.get("patched") not in (0, None)
                    and not r.get("tests_lost"))
            caught = [c for c, v in r.get("checks", {}).items() if v[0] == 1]
            print("%-28s %s caught=%s %s" % (
                r["id"], "VALID" if good else "INVALID", ",".join(caught)
                or "-", "" if good and caught else json.dumps(r)[:1500]),
                flush=True)


if __name__ == "__main__":
    main()
