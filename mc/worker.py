"""One shard of one check. Started by run.py with a JSON job."""
import fcntl
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))


def claim(path):
    """Atomically takes the next case index."""
    fd = os.open(path, os.O_RDWR | os.O_CREAT)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX)
        i = int(os.read(fd, 32) or b"0")
        os.lseek(fd, 0, 0)
        os.write(fd, b"%d" % (i + 1))
        return i
    finally:
        os.close(fd)


def raised_in(e, repo):
    """Is the innermost of our or the repository's frames the latter's?"""
    top, tb = None, e.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(HERE + os.sep):
            top = False
        elif f.startswith(os.path.realpath(repo) + os.sep):
            top = True
        tb = tb.tb_next
    return bool(top)


def main():
    job = json.loads(sys.argv[1])
    sys.path.insert(0, job["repo"])
    if job["ext"] != job["repo"]:
        sys.path.insert(0, job["ext"])
    sys.path.insert(0, HERE)
    import warnings
    warnings.simplefilter("ignore")
    import core
    core.silence()
    core.own_random()
    core.own_clock()
    mod = importlib.import_module("checks.%s" % job["pid"].lower())
    rec = None
    if job["replay"]:
        with open(job["replay"]) as fh:
            rec = json.load(fh)
    ctx = core.Ctx(job["tier"], job["seed"],
                   forced=rec["choices"] if rec else None, known=job["known"])
    ctx.scratch = job["scratch"]
    t_end = core.REAL_MONOTONIC() + job["budget"]
    res = dict(violation=None, error=None, cases=0)
    limit = getattr(mod, "CASE_SECONDS", 90)
    gap = getattr(mod, "CONTRACT", None)
    if gap is not None:
        import contract
        contract.install()
    if getattr(mod, "ANSWERS", False):
        import answers
        answers.install()

    def one(case):
        ctx.case = case
        core.CLOCK.reset()
        try:
            with core.watchdog(limit):
                if gap is None:
                    mod.run_case(case, ctx)
                else:
                    contract.begin(max(gap, (case.get("gap") or 0)
                                       if isinstance(case, dict) else 0))
                    mod.run_case(case, ctx)
                    loose = contract.end()
                    if loose:
                        raise core.Violation(
                            "the solver is allowed to return an answer that "
                            "breaks the property", models=loose[:6])
        except core.Violation as v:
            return dict(message=v.message, detail=v.detail, choices=v.choices,
                        case=case, sig=v.detail.get("sig", ""))
        except core.Hang as h:
            return dict(message="execution does not terminate: %s" % h,
                        detail=dict(trace=traceback.format_exc()[-1500:]),
                        choices=None, case=case, sig="")
        except Exception as e:
            trace = traceback.format_exc()[-1500:]
            if "Violation() got multiple values" in str(e):
                # a violation whose details use one name twice
                msg = "violation"
            elif raised_in(e, job["repo"]):
                msg = "the code raises %s: %s" % (type(e).__name__,
                                                  str(e)[:200])
            else:
                raise
            return dict(message=msg, choices=None, case=case, sig="",
                        detail=dict(trace=trace))
        return None

    try:
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        if rec:
            v = one(rec["case"])
            if v:
                res["violation"] = v
        else:
            mine = claim(job["counter"])
            for i, case in enumerate(mod.cases(job["tier"], job["seed"])):
                if i != mine:
                    continue
                if core.REAL_MONOTONIC() > t_end:
                    ctx.cap("time budget (cases left unexplored)")
                    break
                if res["cases"] % 16 == 0 and os.path.exists(job["stop"]):
                    ctx.cap("stopped after a violation elsewhere")
                    break
                with open(job["progress"], "w") as fh:
                    fh.write(core.dumps(case))
                res["cases"] += 1
                v = one(case)
                mine = claim(job["counter"])
                if v is None:
                    continue
                if v["sig"] and v["sig"] in ctx.known:
                    ctx.known_hits[v["sig"]] = \
                        ctx.known_hits.get(v["sig"], 0) + 1
                    continue
                v["size"] = i
                res["violation"] = v
                open(job["stop"], "w").close()
                break
    except BaseException:
        res["error"] = "shard %d, case %s\n%s" % (
            job["shard"], core.dumps(ctx.case), traceback.format_exc())
    res.update(transitions=ctx.transitions, traces=ctx.traces,
               states=list(ctx.states), outcomes=ctx.outcomes, caps=ctx.caps,
               counters=ctx.counters, known=ctx.known_hits,
               samples=ctx.samples,
               meta=dict(bounds=getattr(mod, "BOUNDS", {}).get(job["tier"], "")
                         if isinstance(getattr(mod, "BOUNDS", ""), dict)
                         else getattr(mod, "BOUNDS", ""),
                         what=getattr(mod, "WHAT", ""),
                         assumptions=getattr(mod, "ASSUMPTIONS", [])))
    tmp = job["out"] + ".tmp"
    with open(tmp, "w") as fh:
        fh.write(core.dumps(res))
    os.rename(tmp, job["out"])
    os._exit(0)


main()
