#!/usr/bin/env python3
"""fills the tables of DESIGN.md (defects from known_findings.txt, planted bugs from seeded/ and tools/seed_notes.json)"""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(os.path.join(H, "DESIGN.md")).read()
rows = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(os.path.join(H, "known_findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: rows.append("| %s | %s | %s |" % tuple(x.replace("|", "\\|") for x in m.groups()))
notes = json.load(open(os.path.join(H, "tools", "seed_notes.json")))
kept = sorted({x.split("/")[1] for x in subprocess.run(["git", "-C", H, "ls-files", "seeded"], stdout=subprocess.PIPE, text=True).stdout.split()})
s = ["| planted bug | needs | caught by | first |", "|---|---|---|---|"]
for k in kept:
    m = json.load(open(os.path.join(H, "seeded", k, "meta.json"))); n = notes.get(k, {})
    s.append("| %s | %s | %s | %s |" % (k, m["needs"].replace("|", "\\|"), n.get("by", m["property"]), n.get("first", "caught")))
import sys
sys.path.insert(0, H)
from checks import CHECKS
def count(m):
    a, *b = re.findall(r"C(\d\d)", m.group(1))
    ids = ["C%02d" % i for i in range(int(a), int(b[0]) + 1)] if "–" in m.group(1) else ["C" + x for x in [a] + b]
    n = [(sum(j.tier != "thorough" for j in CHECKS[i]), sum(j.tier != "quick" for j in CHECKS[i])) for i in ids]
    return "| %s (%s) |" % (m.group(1), ", ".join("%d/%d" % x for x in n))
d = re.sub(r"\| (C\d\d(?:(?:–|, )C\d\d)*) \([\d/, –]*\) \|", count, d)
def put(name, lines, d):
    block = "<!-- %s -->\n%s\n<!-- /%s -->" % (name, "\n".join(lines), name)
    if "@@%s@@" % name.upper() in d: return d.replace("@@%s@@" % name.upper(), "\n" + block)
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda _: block, d, flags=re.S)
open(os.path.join(H, "DESIGN.md"), "w").write(put("seeds", s, put("defects", rows, d)))
print(len(rows) - 2, "defects,", len(kept), "planted bugs")
