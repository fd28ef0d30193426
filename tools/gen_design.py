#!/usr/bin/env python3
"""the generated sections of DESIGN.md (from plan.py, properties.jsonl, contracts/baseline, seeded/, KNOWN_FINDINGS.txt)"""
import json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plan
MARK = "<!-- generated by tools/gen_design.py from here on -->"
head = open(V + "/DESIGN.md").read().split("@@PROPS@@")[0].split(MARK)[0].rstrip() + "\n\n"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
def base(u):
    import re
    f = V + "/contracts/%s.vs" % u
    if not os.path.exists(f): return []
    out = []
    for l in open(f):
        m = re.match(r"@fn \w+ = (\S.*?)\s*$", l) or re.match(r"@like \w+ = (.*?) from ", l)
        if m: out.append(m.group(1).replace("tinytorch::", ""))
    return out
o = [MARK, "", "## 3. Property by property", ""]
for p in props:
    i = p["id"]
    if i not in plan.PROPS: continue
    P = plan.PROPS[i]
    o.append("### %s — %s (level: %s)" % (i, p["title"], P["level"])); o.append("")
    if P["units"]:
        o.append("Proved: %s. %s" % (P["note"], (P["explain"][:1].upper() + P["explain"][1:] + ".") if P["explain"] else "")); o.append("")
        for u in P["units"]:
            names = base(u)
            o.append("- `contracts/%s.vs`%s" % (u, (": " + ", ".join("`%s`" % n for n in names)) if names else ""))
        if P["bounded"]:
            o.append("- bounded (harness/%s.cpp, labelled in the evidence, not counted as proved): %s" % (i, "; ".join(P["bounded"])))
    else:
        o.append("Bounded only: %s. harness/%s.cpp runs the real code against an independent oracle; nothing is counted as proved for it. %s" % ("; ".join(P["bounded"]), i, P["explain"]))
    o.append("")
o += open(HERE + "/design_tail.md").read().split("@@SEEDED@@")[0].rstrip().split("\n")
o += ["", "| change | property | breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    o.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
o += open(HERE + "/design_tail.md").read().split("@@SEEDED@@")[1].rstrip().split("\n")
o += ["", "## 6. Not applicable", ""]
for k in sorted(plan.NA): o.append("- %s: %s." % (k, plan.NA[k]))
o += ["", "## 7. Defects found", "", "Every line below failed on the real code with a concrete input (found by the harness or by a contract that could", "not be discharged). `fixed` ones are repaired by the named commit; `known` ones are recorded in KNOWN_FINDINGS.txt.", ""]
for l in open(V + "/KNOWN_FINDINGS.txt"):
    l = l.strip()
    if l and not l.startswith("#"): o.append("- " + l)
open(V + "/DESIGN.md", "w").write(head + "\n".join(o) + "\n")
