#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts of tools/design_*.md around one section per property.

The bounds, oracle and assumptions of a section are read from the harness itself (mc/cNN.py), so that the
document says what the check does.
"""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(pid):
    out = {}
    for n in ast.parse(open(os.path.join(V, "mc", pid.lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def section(p, how):
    c = constants(p["id"])
    s = ["### %s  %s" % (p["id"], p["title"]), "", p["statement"], ""]
    s += ["*How it is decided.* " + how.get(p["id"], c["TECHNIQUE"] + "."), ""]
    s += ["*Oracle.* " + c["ORACLE"] + ".", ""]
    s += ["*Bounds, quick.* " + c["BOUNDS"]["quick"] + ".", "", "*Bounds, thorough.* " + c["BOUNDS"]["thorough"] + ".", ""]
    if c.get("ASSUMPTIONS"):
        s += ["*Assumptions.* " + "; ".join(c["ASSUMPTIONS"]) + ".", ""]
    s += ["*Why tests cannot settle it.* " + p["why_tests_cant"], ""]
    s += ["*Anchors.* " + ", ".join(p["anchors"]["files"]) + ".", ""]
    return "\n".join(s)


def defects():
    rows = ["| property | commit | what failed |", "|---|---|---|"]
    for line in open(os.path.join(V, "known_findings.txt")):
        if line.startswith("fixed: "):
            pid, commit, what = line[len("fixed: property="):].rstrip("\n").split(" ", 2)
            rows.append("| %s | %s | %s |" % (pid, commit, what))
    return "\n".join(rows)


def seeded():
    rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
    d = os.path.join(V, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], m.get("caught_by", m["property"])))
    return "\n".join(rows)


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    how = {}
    cur = None
    for line in open(os.path.join(V, "tools", "design_how.md")):
        if line.startswith("# "):
            cur = line[2:].strip()
            how[cur] = ""
        elif cur:
            how[cur] += line
    how = {k: " ".join(v.split()) for k, v in how.items()}
    parts = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## The properties, one by one", ""]
    parts += [section(p, how) for p in props]
    tail = open(os.path.join(V, "tools", "design_tail.md")).read().rstrip()
    tail = tail.replace("@@DEFECTS@@", defects()).replace("@@SEEDED@@", seeded())
    parts += [tail, ""]
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("\n".join(parts))


main()
