#!/usr/bin/env python3
"""Development tool: DESIGN.md from tools/DESIGN.head.md, proptab.py, properties.jsonl, the evidence files of the last clean runs and seeded/*/meta.json"""
import json, os, re, sys, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import proptab
ev = sys.argv[1] if len(sys.argv) > 1 else here + "/evidence"
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
out, tot = [], [0, 0]
for p in props:
    i = p["id"]
    e = json.load(open("%s/%s.json" % (ev, i)))
    c = e["coverage"]
    assert not e["violations"] and not c["failed_obligations"], i
    fns = {}
    for f in c["functions_under_contract"]:
        m = re.match(r"(\S+?):(.*?) \((\S+)\) (\d+)/(\d+)", f)
        if not m:
            m = re.match(r"(\S+?):(\S+)()", f)
        fns.setdefault(m.group(1), []).append(m.group(2))
    note = proptab.PROPS[i]["note"].replace(proptab.GEN, "")
    out.append("### %s %s" % (i, p["title"]))
    out.append("%s\n" % note)
    out.append("*Under contract* (%d, %d obligations): %s" % (len(c["functions_under_contract"]), c["obligations"], "; ".join("%s: %s" % (u, ", ".join(sorted(set(v)))) for u, v in sorted(fns.items()))
                                                             if len(c["functions_under_contract"]) < 60 else "; ".join("%s: %d contracts" % (u, len(v)) for u, v in sorted(fns.items()))) + ".")
    if c.get("bounded_only"):
        out.append("*Bounded only*: " + ", ".join(map(str, c["bounded_only"])))
    libs = [t.replace("assumed contract of ", "") for t in c["trusted_base"] if t.startswith("assumed contract of ")]
    if libs:
        out.append("*Assumed contracts*: " + ", ".join(libs) + ".")
    out.append("")
    tot[0] += c["obligations"]
table = "\n".join(out)
seeds = ["| seed | what it breaks | needs |", "|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    cell = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "/")
    seeds.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), cell(m["what_it_breaks"]), cell(m["needs"])))
head = open(here + "/tools/DESIGN.head.md").read()
open(here + "/DESIGN.md", "w").write(head.replace("@@TABLE@@", table).replace("@@SEEDS@@", "\n".join(seeds)))
print(len(props), tot)
