#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import ast, json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / 'properties.jsonl').read_text().splitlines() if l.strip()]
NA = {
    'C35': 'Needs a running PostgreSQL server to execute against; none is installed and none can be fetched, so no execution can be observed.',
}
checks, na = [], []
for p in props:
    pid = p['id']
    path = root / 'checks' / f'{pid.lower()}.py'
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]}); continue
    if not path.exists():
        na.append({'property': pid, 'reason': 'check not built yet'}); continue
    meta = {}
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ('TECHNIQUE', 'LEVEL', 'LEVEL_NOTE'):
            meta[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({'property': pid,
                   'quick_cmd': f'./run {pid.lower()}',
                   'thorough_cmd': f'VERIF_TIER=thorough ./run {pid.lower()}',
                   'technique': meta['TECHNIQUE'], 'level': meta['LEVEL'], 'level_note': meta['LEVEL_NOTE']})
(root / 'MANIFEST.json').write_text(json.dumps({
    'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo: instrumentation is installed from outside (see DESIGN.md).'}, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'n/a')
