#!/usr/bin/env python3
"""DESIGN.md from tools/design.md.in, the properties, the techniques, the drivers' rules and the planted bugs."""
import json, os, re, glob
V = "/verif"
TECH = {}
exec(open(f"{V}/tools/techniques.py").read())
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
results = {}
for l in open(f"{V}/tools/seeding/results.txt"):
    l = l.strip()
    if l and not l.startswith("#"):
        a = l.split("\t")
        results[a[0]] = (a[1], a[2] if len(a) > 2 else "")
def unq(s):
    return "".join(json.loads('"' + x + '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s))
table = []
for p in props:
    src = open(f"{V}/src/props/{p['id']}.cpp").read()
    m = re.search(r'p\.rule = ((?:"(?:[^"\\]|\\.)*"\s*)+);', src)
    q = re.search(r"p\.quickCases = (\d+)", src)
    th = re.search(r"p\.thoroughCases = (\d+)", src)
    tech = TECH[p["id"]]
    table.append(f"### {p['id']}: {p['title']}\n\n* Decided by {tech[0]}.\n* Generated: {unq(m.group(1))}\n* Scope: {tech[1]}\n* Bounds: {q.group(1)} cases (quick), {th.group(1)} (thorough), plus fixed cases and probes.\n")
rows = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
missed = []
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = results.get(i, ("not measured", ""))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {r[0]} |")
    if r[1]:
        missed.append(f"* `{i}`: {r[1]}")
t = open(f"{V}/tools/design.md.in").read()
fixed = sum(1 for l in open(f"{V}/known_findings.txt") if l.startswith("fixed:"))
t = t.replace("@@TABLE@@", "\n".join(table)).replace("@@SEEDED@@", "\n".join(rows)).replace("@@FIXED@@", str(fixed))
t = t.replace("@@MISSED@@", "Checks that missed a bug at first, and how they were strengthened:\n\n" + "\n".join(missed))
open(f"{V}/DESIGN.md", "w").write(t)
