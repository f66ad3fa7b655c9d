"""DESIGN.md = head + one section per property (from the checks) + seeded."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from gen_manifest import TECH, consts  # noqa: E402


def main():
    out = [open(os.path.join(ROOT, "tools/design_head.md")).read(),
           "\n## Properties\n"]
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        c = consts(p["id"])
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("%s\n" % p["statement"])
        out.append("* Method: %s." % TECH[p["id"]])
        out.append("* Explored: %s." % c["WHAT"])
        out.append("* Bounds (quick): %s." % c["BOUNDS"]["quick"])
        out.append("* Bounds (thorough): %s." % c["BOUNDS"]["thorough"])
        if c.get("ASSUMPTIONS"):
            out.append("* Assumes: %s." % "; ".join(c["ASSUMPTIONS"]))
        out.append("* Beyond tests: %s" % p["why_tests_cant"])
        out.append("* Anchors: %s.\n" % ", ".join(p["anchors"]["files"]))
    tail = os.path.join(ROOT, "tools/design_tail.md")
    if os.path.exists(tail):
        rows = ["| planted bug | caught by | breaks |", "| --- | --- | --- |"]
        sd = os.path.join(ROOT, "seeded")
        for i in sorted(os.listdir(sd)):
            m = json.load(open(os.path.join(sd, i, "meta.json")))
            rows.append("| %s | %s | %s |" % (
                i, m["property"], " ".join(m["what_it_breaks"].split())))
        out.append(open(tail).read().replace("@SEEDED@", "\n".join(rows)))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as fh:
        fh.write("\n".join(out).rstrip() + "\n")


main()
