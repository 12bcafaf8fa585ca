#!/usr/bin/env python3
"""Developer tool: record function hashes and number literals of the current /repo in contracts/baseline.json"""
import json, os, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
d = tempfile.mkdtemp()
g, m = d + "/gen.rs", d + "/map.json"
rc, o, e = check.extract(g, m, [])
assert rc == 0, o + e
h = check.fn_hashes(open(g).read())
for f in json.load(open(m))["functions"]:
    h.setdefault(f["key"], "-")
i, f = check.literals()
json.dump(dict(fns=h, ints=sorted(i), floats=sorted(f)), open(V + "/contracts/baseline.json", "w"), indent=0, sort_keys=True)
print(len(h), "functions", len(i), "ints", len(f), "floats")
import shutil
shutil.rmtree(d)
