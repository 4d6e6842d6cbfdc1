#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the properties, the findings file and the planted changes."""
import json, os, re, sys
V = "/verif/"
sys.path.insert(0, V + "lib")
props = [json.loads(l) for l in open(V + "properties.jsonl")]
man = json.load(open(V + "MANIFEST.json"))
chk = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
seeds = {}
for d in sorted(os.listdir(V + "seeded")):
    m = json.load(open(V + "seeded/%s/meta.json" % d)); seeds.setdefault(m["property"], []).append((d, m))
fx, kn = {}, {}
for l in open(V + "known_findings.txt"):
    m = re.match(r"(fixed|known): property=(\w+) (.*)", l)
    if m: (fx if m[1] == "fixed" else kn).setdefault(m[2], []).append(m[3])
reg = open(V + "lib/registry.py").read()
out = [open(V + "tools/design_head.md").read().rstrip(), "", "## 2. The properties", ""]
for p in props:
    if p["id"] not in chk: continue
    m = re.search(r'"%s": (\w+)\((.*)' % p["id"], reg)
    what = m[2][:200] if m else ""
    kind = m[1] if m else ""
    how = {"isa_check": "Instruction by instruction against `%s`.", "drv_check": "Client functions of `%s`.",
           "length_check": "`inst_length` and `is_call` of every simulator interpreted for every opcode, against the lengths and kinds of `%s`."}.get(kind, "%s")
    mods = ", ".join(sorted(set(re.findall(r'"(isa_\w+|d_\w+)"', what))))
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "*Quantified over:* %s." % p["quantifier"]["text"].rstrip("."),
            "*Decided by:* %s %s" % (how % (mods or "lib/length.py") , chk[p["id"]]["level_note"] if kind == "drv_check" else ""),
            "*Anchors:* %s." % ", ".join("`%s`" % f for f in p["anchors"]["files"]),
            "*Planted changes (all caught):* %s. *Defects found:* %d repaired, %d recorded." % (", ".join(x for x, _ in seeds.get(p["id"], [])) or "none", len(fx.get(p["id"], [])), len(kn.get(p["id"], []))), ""]
out += ["## 3. Not applicable", ""]
for p in props:
    if p["id"] in na: out += ["* **%s %s** - %s." % (p["id"], p["title"], na[p["id"]].rstrip("."))]
out += ["", open(V + "tools/design_tail.md").read().rstrip(), "", "## 6. Defects found in ucsim", "",
        "Each was confirmed with the real binary and repaired by one `fix:` commit (list in `known_findings.txt`).", ""]
for k in sorted(fx): out += ["**%s**" % k, ""] + ["* %s" % re.sub(r" \(was not so\)$", "", x) for x in fx[k]] + [""]
if kn:
    out += ["Recorded, not repaired:", ""]
    for k in sorted(kn): out += ["* %s: %s" % (k, x) for x in kn[k]]
    out += [""]
out += ["## 7. Planted changes", "", "| id | property | what it breaks | needs |", "|---|---|---|---|"]
for k in sorted(seeds):
    for d, m in seeds[k]: out.append("| %s | %s | %s | %s |" % (d, k, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
out += ["", "Every one of them is caught by the check of its property (quick command)."]
open(V + "DESIGN.md", "w").write("\n".join(out) + "\n")
