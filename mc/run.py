#!/usr/bin/env python3
"""Driver:  run.py C01 [--tier quick|thorough]      decide one property
            run.py --replay FILE                    re-execute one counterexample

Exit 0: the property held on everything explored (known findings are printed).
Exit 1: VIOLATION property=<id> replay=<path>.   Anything else: harness error.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.environ.get("VERIF_OUT", ROOT)
sys.path.insert(0, HERE)
import build  # noqa: E402

PY = build.PY
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
BUDGET = {"quick": 420.0, "thorough": 3600.0}


def env():
    e = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONWARNINGS="ignore")
    return e


def known_findings(pid):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                sig = line.split("sig=", 1)[1].split(" ", 1)
                out[sig[0]] = sig[1] if len(sig) > 1 else ""
    return out


def spawn(job, tmp, i):
    job = dict(job, shard=i, out=os.path.join(tmp, "out%d.json" % i),
               progress=os.path.join(tmp, "case%d.json" % i),
               stop=os.path.join(tmp, "stop"),
               counter=os.path.join(tmp, "counter"),
               scratch=os.path.join(tmp, "scratch%d" % i))
    os.makedirs(job["scratch"])
    err = open(os.path.join(tmp, "err%d" % i), "wb")
    p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"),
                          json.dumps(job)], cwd=job["scratch"], env=env(),
                         stdout=subprocess.DEVNULL, stderr=err)
    p.job = job
    p.err = err.name
    return p


def collect(procs):
    """Waits for all; yields (job, result | None, stderr tail)."""
    out = []
    for p in procs:
        p.wait()
        res = None
        if os.path.exists(p.job["out"]):
            with open(p.job["out"]) as fh:
                res = json.load(fh)
        with open(p.err, "rb") as fh:
            tail = fh.read()[-3000:].decode("utf8", "replace")
        out.append((p, res, tail))
    return out


def workdir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="verif-", dir=base)


def replay_file(path):
    with open(path) as fh:
        rec = json.load(fh)
    tmp = workdir()
    try:
        job = dict(pid=rec["property"], tier=rec.get("tier", "quick"),
                   seed=rec.get("seed", 1), nshards=1, ext=build.ensure_ext(),
                   repo=build.REPO, replay=path, known=[], budget=900)
        (p, res, tail), = collect([spawn(job, tmp, 0)])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if res is None:
        return True, "the process died (rc %s) %s" % (p.returncode, tail)
    if res.get("error"):
        return None, res["error"]
    if res["violation"]:
        return True, res["violation"]["message"]
    return False, "the property held"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=WORKERS)
    a = ap.parse_args()
    if a.replay:
        bad, msg = replay_file(a.replay)
        print(("REPRODUCED: " if bad else "not reproduced: ") + msg)
        return 2 if bad is None else int(bad)
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ext = build.ensure_ext()
    known = known_findings(pid)
    tmp = workdir()
    try:
        job = dict(pid=pid, tier=tier, seed=seed, nshards=a.workers, ext=ext,
                   repo=build.REPO, replay=None, known=sorted(known),
                   budget=float(os.environ.get("VERIF_BUDGET", BUDGET[tier])))
        res = collect([spawn(job, tmp, i) for i in range(a.workers)])
        deaths = []
        for p, r, tail in res:
            if r is None:
                case = None
                if os.path.exists(p.job["progress"]):
                    with open(p.job["progress"]) as fh:
                        case = json.load(fh)
                deaths.append((p.returncode, case, tail))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    errors = [r["error"] for _, r, _ in res if r and r.get("error")]
    viol = [r["violation"] for _, r, _ in res if r and r["violation"]]
    for rc, case, tail in deaths:
        if rc < 0 and rc != -9 and case is not None:
            viol.append(dict(message="the process was killed by signal %d "
                             "while running this case" % -rc, case=case,
                             choices=None, detail={}, size=0, sig=""))
        else:
            errors.append("worker died rc=%s %s" % (rc, tail))
    good = [r for _, r, _ in res if r]
    tot = dict(transitions=0, traces=0)
    states, outcomes, caps, counters, hits = set(), {}, {}, {}, {}
    samples, cases = [], 0
    for r in good:
        tot["transitions"] += r["transitions"]
        tot["traces"] += r["traces"]
        cases += r["cases"]
        states.update(r["states"])
        for src, dst in ((r["outcomes"], outcomes), (r["caps"], caps),
                         (r["counters"], counters), (r["known"], hits)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        samples += r["samples"]
    meta = good[0]["meta"] if good else {}
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=len(states), transitions=tot["transitions"],
            traces_validated_against_impl=tot["traces"],
            cases=cases, distinct_outcomes=len(outcomes),
            outcomes=dict(sorted(outcomes.items(), key=lambda t: -t[1])[:25]),
            counters=counters, caps_hit=caps,
            exhaustive=not caps, bounds=meta.get("bounds", ""),
            what=meta.get("what", ""), samples=samples[:4] or ["none"]),
        assumptions=meta.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    for sig, n in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s (sig %s, met %d times)"
              % (pid, known.get(sig, ""), sig, n))
    if viol:
        v = min(viol, key=lambda v: (v["size"], len(v["message"])))
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % pid)
        with open(path, "w") as fh:
            json.dump(dict(property=pid, tier=tier, seed=seed, **v), fh,
                      indent=1)
        bad, msg = replay_file(path)
        print("%s: %s" % (pid, v["message"]))
        print("  case:    %s" % json.dumps(v["case"])[:1500])
        print("  choices: %s" % v["choices"])
        print("  detail:  %s" % json.dumps(v["detail"])[:3000])
        print("  replayed in a fresh process: %s" % msg[:500])
        print("  again with: python3 /verif/mc/run.py --replay " + path)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors or len(good) < a.workers:
        for e in errors:
            sys.stderr.write(e + "\n")
        return 3
    print("%s ok: %d states, %d transitions, %d executions of the real code, "
          "%d cases, %d distinct outcomes%s, %.1f s" % (
              pid, len(states), tot["transitions"], tot["traces"], cases,
              len(outcomes), ", CAPS HIT %s" % caps if caps else "",
              time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
