#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between <!-- X --> and <!-- /X --> marks) from suites.py, seeded/ and known_findings.txt."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H, os.path.join(H, "lib")]
import suites
props = {p["id"]: p for p in map(json.loads, open(os.path.join(H, "properties.jsonl")))}
def bounds():
    t = []
    for k in sorted(suites.PROPERTIES):
        s = suites.PROPERTIES[k]; t.append("### %s %s\n" % (k, props[k]["title"])); t.append("*Deciding method:* %s.\n" % s["technique"])
        if s["suites"]: t.append("*Suites (variant):* %s.\n" % ", ".join("%s/%s (%s)" % (x["sources"][0].split("/")[-1], x["suite"], x["variant"]) for x in s["suites"]))
        t.append("*Bounds:* %s.\n" % s["bounds"])
        if s.get("rule"): t.append("*One execution:* %s.\n" % s["rule"])
        t.append("*Assumptions:* %s\n" % " ".join(s["assumptions"]))
    return "\n".join(t)
def seeds():
    t = ["| planted change | property (caught by its check) | needs |", "|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(H, "seeded"))):
        m = json.load(open(os.path.join(H, "seeded", d, "meta.json"))); t.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
    return "\n".join(t)
def fixes():
    return "\n".join("* " + l.strip() for l in open(os.path.join(H, "known_findings.txt")) if l.startswith("fixed:"))
def known():
    return "\n".join("* %s: %s" % (l.split()[1].split("=")[1] + " " + l.split()[2].split("=")[1], l.strip().split(" ", 3)[3]) for l in open(os.path.join(H, "known_findings.txt")) if l.startswith("KNOWN"))
p = os.path.join(H, "DESIGN.md"); s = open(p).read()
for n, f in (("BOUNDS", bounds), ("SEEDS", seeds), ("FIXES", fixes), ("KNOWN", known)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (n, n), lambda m: m.group(1) + f() + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
