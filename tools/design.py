#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, the table of properties, the contracts and the seeds."""
import json, os, re, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
P = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
M = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
notes = {c["property"]: c for c in M["checks"]}
na = {c["property"]: c["reason"] for c in M["not_applicable"]}
shared = {}
for l in open(os.path.join(ROOT, "contracts/shared.txt")):
    f = l.split()
    if f: shared[f[0]] = f[1:]
con = {}
for f in sorted(glob.glob(os.path.join(ROOT, "contracts/*/**/*.go"), recursive=True) + glob.glob(os.path.join(ROOT, "contracts/*/*.go"))):
    s = open(f).read()
    for m in re.finditer(r"((?:^//[^\n]*\n)*)^func (verif_(C\d+)_\w+)\(.*?\n(.*?)^}", s, re.M | re.S):
        doc = " ".join(l[2:].strip() for l in m.group(1).splitlines() if not l.startswith("//gv:"))
        body = m.group(4)
        labels = re.findall(r'gv\.Ensures\("((?:[^"\\]|\\.)*)"', body)
        kind = "bounded" if "if !gv.Native()" in body else ("proved" if "nonative_" + m.group(2)[6:] in s else "proved, replayed")
        con.setdefault(m.group(3), {})[m.group(2)] = (os.path.relpath(f, ROOT), kind, doc, labels)
out = []
for p in P:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i in na:
        out.append(f"Not applicable: {na[i]}\n"); continue
    out.append(f"What is decided how: {notes[i]['level_note']}\n")
    out.append("| contract | in | kind | decides |\n|---|---|---|---|")
    for n, (f, k, d, ls) in sorted(con.get(i, {}).items()):
        d = d or "; ".join(ls[:3])
        out.append(f"| {n[6:]} | {f.split('contracts/')[1]} | {k} | {d.replace('|', '/')} |")
    if i in shared:
        out.append("\nAlso run for this property: " + ", ".join(shared[i]) + ".")
    out.append("")
res = {}
rf = os.path.join(HERE, "seed_results.txt")
if os.path.exists(rf):
    for l in open(rf):
        m = re.match(r"(\S+) prop=\S+ .*check=(\d+) ?(.*)", l)
        if m: res[m.group(1)] = (m.group(2), m.group(3).strip())
seeds = ["| seed | property | change | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); r = res.get(i, ("?", ""))
    by = ", ".join(re.findall(r"verif_(\w+)\.txt", r[1])) + (" (proof only)" if "no-failing" in r[1] else "") if r[0] == "1" else ("not caught" if r[0] == "0" else "?")
    seeds.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {by} |")
t = open(os.path.join(HERE, "design.md")).read()
t = t.replace("{{PROPERTIES}}", "\n".join(out)).replace("{{SEEDS}}", "\n".join(seeds)).replace("{{FINDINGS}}", "\n".join("- " + l.strip() for l in open(os.path.join(ROOT, "known-findings.txt")) if l.strip() and not l.startswith("#")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
