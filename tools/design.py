#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in, known_findings.json and seeded/*/meta.json"""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(here, "tools/DESIGN.in")).read()
k = json.load(open(os.path.join(here, "known_findings.json")))
k = k.get("findings", k) if isinstance(k, dict) else k
fixes = "\n".join("* %s: %s" % (x["id"], x["what"]) for x in k)
rows = ["| bug | property (check that reports it) | needs |", "|---|---|---|"]
for m in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/")))
sweep = open(os.path.join(here, "tools/SWEEP.in")).read() if os.path.exists(os.path.join(here, "tools/SWEEP.in")) else ""
open(os.path.join(here, "DESIGN.md"), "w").write(t.replace("\nFIXES\n", "\n" + fixes + "\n").replace("\nSEEDS\n", "\n" + "\n".join(rows) + "\n").replace("\nSWEEP\n", "\n" + sweep))
