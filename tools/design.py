"""Regenerate the generated sections of DESIGN.md.

Uses properties.jsonl, the evidence of the last quick runs, seeded/ and
known_findings.txt. Run it by hand after a complete quick run.
"""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*parts):
    with open(os.path.join(HERE, *parts)) as f:
        return f.read()


def properties():
    out = []
    tech = json.loads(read("tools", "techniques.json"))
    for line in read("properties.jsonl").splitlines():
        p = json.loads(line)
        e = json.loads(read("evidence", p["id"] + ".json"))
        cov = e["coverage"]
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("* Method: %s." % tech[p["id"]]["technique"].split(
            ": ", 1)[1])
        for k, v in cov["bounds"].items():
            out.append("* Enumerated (%s): %s." % (k, v))
        out.append("* Oracle: %s." % cov["oracle"])
        for a in e["assumptions"]:
            out.append("* Assumption: %s." % a)
        out.append("* Cost (quick): %d states, %d transitions, %d validated "
                   "traces, about %d s." % (
                       cov["states"], cov["transitions"],
                       cov["traces_validated_against_impl"],
                       max(1, round(e["wall_s"]))))
        out.append("* Beyond tests: %s\n" % p["why_tests_cant"])
    return "\n".join(out)


def bugs():
    out = ["| planted bug | needs | breaks | caught by |",
           "|---|---|---|---|"]
    extra = {}
    path = os.path.join(HERE, "tools", "detections.json")
    if os.path.exists(path):
        with open(path) as f:
            extra = json.load(f)
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        with open(os.path.join(d, "meta.json")) as f:
            m = json.load(f)
        name = os.path.basename(d)
        out.append("| %s | %s | %s | %s |" % (
            name, m["needs"], m["what_it_breaks"],
            ", ".join(extra.get(name, [m["property"]]))))
    return "\n".join(out)


def findings(kind):
    out = []
    for line in read("known_findings.txt").splitlines():
        m = re.match(kind + r": property=(\S+) (\S+) (.*)", line)
        if m:
            out.append("* %s (%s): %s." % m.groups())
    return "\n".join(out)


def main():
    text = read("DESIGN.md")
    for name, body in (("properties", properties()), ("bugs", bugs()),
                       ("known", findings("known")),
                       ("fixed", findings("fixed"))):
        text, n = re.subn(
            r"(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (name, name),
            lambda m: m.group(1) + "\n" + body + "\n\n" + m.group(2), text,
            flags=re.S)
        assert n == 1, name
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
