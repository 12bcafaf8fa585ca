#!/usr/bin/env python3
"""Developer tool: derive contracts/deps.json (function -> functions it calls) from Verus' own call graph.
usage: mkdeps.py gen.rs map.json callgraph.dot out.json      (verus gen.rs --log call-graph --log-dir D)"""
import re, sys, json, collections
gen, mp, dot, out = sys.argv[1:5]
src = open(gen).read()
# impl numbering: order of impl blocks per module; indices of derived impls are skipped by matching function names
depth, cur, blocks = 0, [], collections.defaultdict(list)
for line in src.split('\n'):
    m = re.match(r'\s*(?:pub(?:\([^)]*\))? )?mod (\w+) \{', line)
    if m: cur.append((m[1], depth))
    mod = '::'.join(c for c, _ in cur)
    if re.match(r'\s*impl\b', line):
        t = re.sub(r'^\s*impl\b\s*(<[^>]*>)?\s*', '', line).split('{')[0]
        if ' for ' in t: t = t.split(' for ')[1]
        t = re.sub(r'<.*', '', t).strip()
        blocks[mod].append((t, set()))
    for m in re.finditer(r'\bfn (\w+)', re.sub(r'//.*', '', line)):
        if blocks[mod]: blocks[mod][-1][1].add(m[1])
    s = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|//.*', '', line)
    depth += s.count('{') - s.count('}')
    while cur and depth <= cur[-1][1]: cur.pop()
d = open(dot).read()
have = collections.defaultdict(set)
for m in re.finditer(r'label="Fun\\ngen::([\w:]+)::impl&%(\d+)::(\w+)"', d): have[(m[1], int(m[2]))].add(m[3])
impls = {}
for mod, bl in blocks.items():
    i = 0
    for idx in sorted(k[1] for k in have if k[0] == mod and have[k] != {'clone'}):
        for j in range(i, len(bl)):
            if have[(mod, idx)] <= bl[j][1]:
                impls[(mod, idx)] = bl[j][0]
                i = j + 1
                break
keys = {f['key'].replace('~inherent', '') : f['key'] for f in json.load(open(mp))['functions']}
d = open(dot).read()
names = {}
for m in re.finditer(r'(node_\d+) \[margin=0.1, label="(.*?)"', d):
    k, v = (m[2].split('\\n') + [''])[:2]
    names[m[1]] = (k, v)
edges = collections.defaultdict(set)
for m in re.finditer(r'(node_\d+) -> (node_\d+)', d): edges[m[1]].add(m[2])
def norm(v):
    v = re.sub(r'^gen::', '', v)
    m = re.match(r'(.*)::impl&%(\d+)::(\w+)$', v)
    if m:
        t = impls.get((m[1], int(m[2])))
        return f'{m[1]}::{t}::{m[3]}' if t else None
    return v
deps = {}
for n, (k, v) in names.items():
    if k != 'Fun': continue
    a = norm(v)
    if a not in keys: continue
    seen, todo, res = {n}, list(edges[n]), set()
    while todo:                       # pass through non-function nodes
        e = todo.pop()
        if e in seen or e not in names: continue
        seen.add(e)
        kk, vv = names[e]
        if kk == 'Fun':
            b = norm(vv)
            if b in keys and b != a: res.add(keys[b])
        elif kk.startswith('FnDef') or kk.startswith('ReqEns'): todo += list(edges[e])
    deps.setdefault(keys[a], set()).update(res)
json.dump({k: sorted(v) for k, v in sorted(deps.items())}, open(out, 'w'), indent=0)
print(len(deps), 'of', len(keys))
