#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (run by hand): tools/DESIGN.in -> DESIGN.md"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/tools/DESIGN.in.md").read()
det = {}
if os.path.exists(V + "/tools/detected.txt"):
    for l in open(V + "/tools/detected.txt"):
        a = l.rstrip("\n").split("\t")
        if len(a) > 1: det[a[0]] = a[1]
rows = []
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    rows.append("### %s %s\n" % (p["id"], p["title"]))
    if p["id"] in na:
        rows.append("Not applicable: %s\n" % na[p["id"]]); continue
    fs = sorted(glob.glob(V + "/harness/%s*.cpp" % p["id"]))
    hs, bounds, ev = [], [], None
    for f in fs:
        t = open(f).read()
        for m in re.finditer(r"^//@ (H_\w+)(.*)$", t, re.M):
            mode = re.search(r"mode=(\w+)", m.group(2))
            hs.append(m.group(1) + " (" + (mode.group(1) if mode else "real") + ")")
        bounds += [m.group(1).strip() for m in re.finditer(r"^//% (.*)$", t, re.M)]
    e = V + "/evidence/%s.json" % p["id"]
    rows.append("*Decided by* the harnesses " + ", ".join(hs) + ", against an oracle written in the harness from the statement (shadow state or closed formula).\n")
    rows.append("*Bounds:* " + "; ".join(bounds) + ".\n")
    rows.append("*Why tests cannot:* " + p["why_tests_cant"] + ".\n")
s = s.replace("PROPERTIES_TABLE", "\n".join(rows))
k = json.load(open(V + "/known_findings.json"))
s = s.replace("FIXES_TABLE", "\n".join("* " + x for x in k["fixed"]) + ("\n\nKnown findings (not repaired):\n\n" + "\n".join("* property=%s %s: %s" % (x["property"], x.get("harness", ""), x["what"]) for x in k["findings"]) if k["findings"] else ""))
t = ["| planted bug | property | needs | detected by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    t.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], det.get(n, "-")))
s = s.replace("SEEDS_TABLE", "\n".join(t))
open(V + "/DESIGN.md", "w").write(s)
