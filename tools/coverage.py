#!/usr/bin/env python3
"""Which functions each property's proof covers, and whether every contract assumed in one run is discharged in another.
usage: coverage.py GOVC   (uses govc -gen: generates obligations, solves nothing)"""
import json, os, subprocess, sys, tempfile
govc = sys.argv[1]
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
ver, ass, tru = {}, {}, set()
with tempfile.TemporaryDirectory() as t:
    for p in props:
        j = os.path.join(t, p + ".json")
        subprocess.run([govc, "-repo", "/repo", "-contracts", "/verif/contracts", "-props", p, "-gen", "-json", j, "-work", t], stdout=subprocess.DEVNULL)
        d = json.load(open(j))
        ver[p] = [f["name"] for f in d["functions"] or []]
        for a in d["assumed"] or []: ass.setdefault(a, []).append(p)
        tru |= {x.split(":")[0] for x in d["trusted"] or []}
        print(p, "functions", len(ver[p]), "lemmas", len(d["lemmas"] or []), "obligations", d["obligations"])
allv = {f for v in ver.values() for f in v}
bad = [a for a in ass if a not in allv and a not in tru]
print("functions under a discharged contract:", len(allv), "trusted:", len(tru))
print("assumed but discharged nowhere:", bad)
json.dump(ver, open("/tmp/cover.json", "w"), indent=1)
