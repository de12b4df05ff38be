#!/usr/bin/env python3
"""Rewrite the generated parts of DESIGN.md (per property, planted bugs) from the checks, properties.jsonl and seeded/."""
import ast
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (root / 'properties.jsonl').read_text().splitlines() if x.strip()]
manifest = json.loads((root / 'MANIFEST.json').read_text())
na = {x['property']: x['reason'] for x in manifest['not_applicable']}
out = []
for p in props:
    pid = p['id']
    out.append(f'### {pid} {p["title"]}\n')
    if pid in na:
        out.append(f'Not applicable: {na[pid]}\n')
        continue
    src = (root / 'checks' / f'{pid.lower()}.py').read_text()
    meta = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'RULE', 'LEVEL_NOTE'):
            meta[n.targets[0].id] = ast.literal_eval(n.value)
    reqs = re.findall(r"c\.require\('([^']+)', (\w+)\)", src)
    ev = root / 'evidence' / f'{pid}.json'
    cost = ''
    if ev.exists():
        e = json.loads(ev.read_text())
        s = e.get('wall_s')
        cost = f' About {round(s)} s for the quick run.' if s else ''
    out.append(f'* Monitor and oracle: {meta["TECHNIQUE"].removeprefix("runtime monitor: ")}.')
    out.append(f'* Cases counted: {meta["RULE"]}.')
    out.append(f'* Bounds: {meta["LEVEL_NOTE"]}{cost}')
    out.append(f'* Beyond the tests because: {p["why_tests_cant"]} Quantified over: {p["quantifier"]["text"]}')
    if reqs:
        out.append('* Inconclusive (no verdict) unless observed: ' + ', '.join(f'{n}+ {k}' for k, n in reqs) + '.')
    out.append('')
bugs = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted((root / 'seeded').iterdir()):
    m = d / 'meta.json'
    if m.exists():
        m = json.loads(m.read_text())
        bugs.append(f'| {d.name} | {m["property"]} | {m["needs"]} | {m.get("caught_by", m["property"].lower())} |')
text = (root / 'DESIGN.md').read_text()
for mark, body in (('properties', '\n'.join(out)), ('bugs', '\n'.join(bugs) + '\n')):
    a, b = f'<!-- begin {mark} -->\n', f'<!-- end {mark} -->'
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + body + text[j:]
(root / 'DESIGN.md').write_text(text)
