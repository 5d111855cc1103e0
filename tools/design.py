#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, seeded/, selftest/mutants.py, known-findings.json and MANIFEST.json"""
import json, os, glob, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/selftest')
from mutants import M
from collections import Counter
t = open(V + '/tools/DESIGN.in.md').read()
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    cell = lambda s: re.sub(r'\s+', ' ', s).replace('|', '/')
    rows.append(f'| {f.split("/")[-2]}: {cell(d["what_it_breaks"])} | {cell(d["needs"])} | {d["property"]} |')
k = json.load(open(V + '/known-findings.json'))
man = json.load(open(V + '/MANIFEST.json'))
tit = {json.loads(l)['id']: json.loads(l)['title'] for l in open(V + '/properties.jsonl')}
t = t.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@NM@@', str(len(M)))
t = t.replace('@@MUT@@', ', '.join(f'{a} {b}' for a, b in sorted(Counter(m[0] for m in M).items())))
t = t.replace('@@FIXES@@', '\n'.join('* ' + x.replace('fixed: property=', '') for x in k['fixed']))
t = t.replace('@@NA@@', '\n'.join(f'* **{n["property"]} {tit[n["property"]]}** — {n["reason"]}' for n in man['not_applicable']))
t = t.replace('@@MORE@@', '')
open(V + '/DESIGN.md', 'w').write(t)
