#!/usr/bin/env python3
"""Writes DESIGN.md from design/, meta/, the rules of the checks, known-findings.txt and seeded/."""
import json, glob, os, sys, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here + "/lib", here + "/checks"]
why = json.load(open(here + "/design/why.json"))
out = [open(here + "/design/intro.md").read().rstrip(), "", "## Properties", ""]
na = []
for p in sorted(glob.glob(here + "/meta/*.json")):
    d = json.load(open(p))
    if "na" in d:
        na.append(d)
        continue
    m = importlib.import_module(d["id"])
    ev = None
    try:
        ev = json.load(open(here + "/evidence/%s.json" % d["id"]))
    except OSError:
        pass
    out += ["### %s: %s" % (d["id"], d["title"]), "", "Decided by: " + d["technique"] + ".", ""]
    if d["id"] in why:
        out += [why[d["id"]], ""]
    out += ["Rules (each instance is one obligation):", ""]
    out += ["- `%s`: %s" % (k, v) for k, v in m.RULES.items()]
    out += ["", "Bounds: " + d["level_note"], ""]
    if getattr(m, "ASSUME", None):
        out += ["Assumes: " + "; ".join(m.ASSUME) + ".", ""]
    out += ["Why tests cannot settle it: " + d["why"], ""]
    if ev:
        n = ev["coverage"]["obligations_total"]
        out += ["Cost: about %d s, %s obligations; configurations quick %s, thorough %s." % (max(1, round(ev["wall_s"])), n if n < 100 else "about %d" % round(n, -1), ", ".join(m.CONFIGS), ", ".join(m.CONFIGS_THOROUGH)), ""]
out += ["## Not applicable to static analysis", ""]
out += ["- %s (%s): %s." % (d["id"], d["title"], d["na"]) for d in na]
out += ["", open(here + "/design/tail.md").read().rstrip(), "", "| change | property, caught by | what breaks | needs |", "|---|---|---|---|"]
by = json.load(open(here + "/design/caught.json"))
for s in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(s)); n = s.split("/")[-2]
    out.append("| %s | %s | %s | %s |" % (n, by.get(n, d["property"]), d["what_it_breaks"], d["needs"]))
out.append("")
open(here + "/DESIGN.md", "w").write("\n".join(out))
