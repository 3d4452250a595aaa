#!/usr/bin/env python3
"""Rewrites the table of bounds and the table of planted bugs in DESIGN.md (between markers)."""
import re, json, os, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
os.chdir(root)
rows = {}
for f in glob.glob("harness/*.c"):
    s = open(f).read()
    if 'McPropInfo Props' not in s: continue
    t = s[s.index('McPropInfo Props'):]
    o = re.search(r'#define ORACLE "(.*)"', s)
    for m in re.finditer(r'\{ "(C\d\d)", "model_checking",\s*(RULE|"[^"]*"),\s*"([^"]*)",\s*(ORACLE|"[^"]*")', t):
        rows[m[1]] = (m[3], o[1] if m[4] == 'ORACLE' else m[4].strip('"'))
times = dict(l.split() for l in open("tools/times.txt"))
T = ["| id | enumerated (quick; thorough in parentheses) | oracle | quick |", "|---|---|---|---|"]
T += [f"| {k} | {rows[k][0]} | {rows[k][1]} | {times.get(k, '?')} s |" for k in sorted(rows)]
missed = {}
if os.path.exists("tools/missed.txt"):
    for l in open("tools/missed.txt"):
        a, _, b = l.strip().partition(" ")
        missed[a] = b
S = ["| planted bug | property | what it breaks | caught |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); n = d.split("/")[1]
    S.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {'yes, after: ' + missed[n] if n in missed and not missed[n].startswith('!') else missed[n][1:] if n in missed else 'yes'} |")
d = open("DESIGN.md").read()
for name, rows_ in (("bounds", T), ("seeded", S)):
    a, b = f"<!-- {name} -->\n", f"<!-- /{name} -->\n"
    i, j = d.index(a) + len(a), d.index(b)
    d = d[:i] + "\n".join(rows_) + "\n" + d[j:]
open("DESIGN.md", "w").write(d)
