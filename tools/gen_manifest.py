"""Writes MANIFEST.json from the check modules and the table below."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EX = "exhaustive bounded exploration of the real code"
TECH = {
    "C01": EX + ": all instances x configurations x random/solver-answer choices within bounds, stateless",
    "C02": EX + ": all small instances x formulations",
    "C03": EX + ": monitor on every bound assignment of every explored execution",
    "C04": EX + ": all random and solver-answer choices, liveness as a bounded-iteration and no-repeated-state check",
    "C05": EX + ": invariant on every reached partition, all random splits and initialisations",
    "C06": EX + ": all partitions x violation patterns x random choices of one refinement step",
    "C07": EX + ": all partitions x candidate orders of one merge step, and merges in all explored solves",
    "C08": EX + ": invariant on every reached solver state",
    "C09": EX + ": all partitions x subsets x methods of small instances",
    "C10": EX + ": all argument tuples of the compiled kernel up to the bound",
    "C11": EX + ": all call histories of the projection step up to a depth",
    "C12": EX + ": all cost vectors and tolerances up to the bound",
    "C13": EX + ": all points x tolerances x call histories",
    "C14": EX + ": all reuse histories of the splitting model",
    "C15": EX + ": all set partitions x load histories",
    "C16": "exhaustive fault enumeration on the real code: clock expiry at every reading, every kind of solver answer at every call",
    "C17": "exhaustive fault enumeration on the real code: interruption at every external call of a run",
    "C18": EX + ": all command lines of main.py in the documented ranges",
    "C19": EX + ": all dimensions x formats of instance files",
    "C20": EX + ": all solved/unsolved/missing patterns of result files",
    "C21": EX + ": monitor on every relaxed problem of every explored execution; all hint histories",
    "C22": EX + ": all candidate lists x bounds",
    "C23": "exhaustive fault enumeration on the real code: interruption and time-out at every solver callback",
    "C24": EX + ": all failure patterns with scripted draws",
    "C25": EX + ": all add/remove sequences and all partitions",
    "C26": EX + ": all run histories up to three runs, against fresh processes",
    "C27": EX + ": all command lines the scripts start, and the tables after every chosen prefix of the runs",
}


def consts(pid):
    src = open(os.path.join(ROOT, "mc/checks/%s.py" % pid.lower())).read()
    out = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0],
                                                       ast.Name):
            n = node.targets[0].id
            if n in ("WHAT", "BOUNDS", "ASSUMPTIONS"):
                try:
                    out[n] = ast.literal_eval(node.value)
                except ValueError:
                    out[n] = eval(compile(ast.Expression(node.value), "", "eval"),
                                  {"dict": dict})
    return out


def main():
    checks = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        pid = json.loads(line)["id"]
        c = consts(pid)
        note = "Holds on every execution within: %s." % c["BOUNDS"]["quick"]
        if c["BOUNDS"].get("thorough"):
            note += " Thorough: %s." % c["BOUNDS"]["thorough"]
        if c.get("ASSUMPTIONS"):
            note += " Assumes: %s." % "; ".join(c["ASSUMPTIONS"])
        checks.append(dict(
            property=pid,
            quick_cmd="python3 mc/run.py %s --tier quick" % pid,
            thorough_cmd="python3 mc/run.py %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid,
            technique=TECH[pid], level="model_checking", level_note=note))
    out = dict(version=1, setup_cmd="python3 mc/build.py", checks=checks,
               not_applicable=[],
               notes="No hooks in /repo: nondeterminism is controlled from "
                     "outside (see DESIGN.md). Repairs are listed in "
                     "known_findings.txt.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
