#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md between its markers.

Run by hand after editing props.py or oracles.py, once the evidence of all
properties is that of a quick run. No check runs it.
"""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.dirname(HERE)
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, note,
         technique=None, observe=None, level="model_checking"):
    PROPS.append((id, title, why, note, files))


exec(open(os.path.join(HERE, "props.py")).read())
exec(open(os.path.join(HERE, "oracles.py")).read())


def human(n):
    for unit in ["", " k", " M", " G"]:
        if n < 10000 or unit == " G":
            return "%d%s" % (n, unit)
        n = round(n / 1000)


def section():
    out = []
    for id, title, why, note, files in PROPS:
        e = json.load(open(os.path.join(BASE, "evidence", id + ".json")))
        c = e["coverage"]
        assert e["tier"] == "quick", id
        out.append("### %s %s\n\n" % (id, title))
        out.append("- Anchors: %s\n" % ", ".join("`%s`" % f for f in files))
        out.append("- Explored: %s.\n" % note)
        out.append("- Oracle: %s\n" % ORACLES[id])
        out.append("- Cost (quick): %.1f s; %s states, %s transitions, %s traces.\n" % (
            e["wall_s"], human(c["states"]), human(c["transitions"]), human(c["traces_validated_against_impl"])))
        out.append("- Beyond tests: %s\n\n" % why)
    return "".join(out)


def seeds():
    out = ["| Planted bug | Needs | Caught by |\n|---|---|---|\n"]
    for p in sorted(glob.glob(os.path.join(BASE, "seeded", "*", "meta.json"))):
        m = json.load(open(p))
        id = os.path.basename(os.path.dirname(p))
        by = m["property"]
        if id in MISSED:
            by += " (" + MISSED[id] + ")"
        out.append("| %s | %s | %s |\n" % (id, m["needs"], by))
    return "".join(out)


def main():
    path = os.path.join(BASE, "DESIGN.md")
    text = open(path).read()
    for name, body in [("properties", section()), ("seeds", seeds())]:
        a, b = "<!-- begin %s -->\n" % name, "<!-- end %s -->" % name
        head, rest = text.split(a)
        text = head + a + "\n" + body + b + rest.split(b)[1]
    open(path, "w").write(text)


main()
