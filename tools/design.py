#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then per property its method and rules, then tools/design_tail.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, f)).read()
rules = {}
for k, t in re.findall(r'"(C\d\d)/([^"]*"\s*:\s*"[^"]*)"', rd("analyzer/ruletext.go")):
    r, x = re.match(r'([^"]*)"\s*:\s*"(.*)', t).groups()
    rules.setdefault(k, []).append((r, x))
m = json.loads(rd("MANIFEST.json"))
ps = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
chk = {c["property"]: c for c in m["checks"]}
na = {c["property"]: c["reason"] for c in m["not_applicable"]}
sel = dict(re.findall(r'"(C\d\d)": +\{sel: \[\]string\{([^}]*)\}', rd("analyzer/props.go")))
why = {p["id"]: p["why_tests_cant"] for p in ps}
o = [rd("tools/design_head.md")]
o.append("## 5. The properties\n")
for p in ps:
    i = p["id"]
    o.append("### %s %s\n" % (i, p["title"]))
    if i in na:
        o.append("Not applicable: " + na[i] + "\n")
        continue
    n = chk[i]["level_note"].split(" Decided from the source")[0]
    o.append("Quantified over %s. %s\n" % (p["quantifier"]["text"], n))
    o.append("Why tests cannot settle it: %s\n" % why[i])
    if i in rules:
        o.append("Rules: " + "; ".join("`%s` %s" % rx for rx in rules[i]) + ".\n")
    ext = [s.strip().strip('"') for s in sel.get(i, "").split(",") if not s.strip().strip('"').startswith(i)]
    if ext:
        o.append("Also reports the closely related rules " + ", ".join("`%s`" % e for e in ext) + ".\n")
o.append(rd("tools/design_tail.md"))
t = os.path.join(V, "tools", "seedtab.txt")
rows = ["| planted bug | property | reported by |", "|---|---|---|"]
for l in open(t):
    a = l.split()
    rows.append("| %s | %s | %s |" % (a[0], a[1], " ".join(x.split(":")[0] for x in a[3:]) or "(none)"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o).replace("@@SEEDTAB@@", "\n".join(rows)))
