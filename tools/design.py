#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from properties.jsonl, the check headers, the last evidence and the text below."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
def head(i):
    h = {}
    for l in open(f'{V}/checks/{i}.cpp'):
        m = re.match(r'//@ (\w+):? ?(.*)', l)
        if m: h.setdefault(m[1], []).append(m[2].strip())
    return h
costs = json.load(open(V + '/tools/costs.json'))
seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); d['id'] = os.path.basename(os.path.dirname(m)); seeds.setdefault(d['property'], []).append(d)
res = json.load(open(V + '/tools/seeded_results.json'))
out = [HEAD]
for p in props:
    i = p['id']; h = head(i); c = costs.get(i, {})
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Specified*: {p['statement']}\n")
    out.append(f"*Decided by*: {h['technique'][0]}. {h['note'][0]}\n")
    out.append(f"*Bounds*: {h['bounds'][0]}.\n")
    if 'assume' in h: out.append(f"*Assumed*: {h['assume'][0]}.\n")
    if len(h.get('config', [])) > 1: out.append('*Builds*: ' + '; '.join(x for x in h['config']) + '.\n')
    out.append(f"*Why tests cannot*: {p['why_tests_cant']}\n")
    if c: out.append(f"*Cost*: {c['text']}\n")
    s = seeds.get(i, [])
    if s: out.append('*Planted*: ' + '; '.join(f"`{d['id']}` ({d['needs']}): {res.get(d['id'], '?')}" for d in s) + '.\n')
out.append(TAIL)
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
