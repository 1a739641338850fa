"""Writes properties.jsonl and MANIFEST.json from checks/*.py META"""
import importlib
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
from planned import PLANNED  # noqa

props, checks, na = {}, [], []
for f in sorted(os.listdir(os.path.join(V, 'checks'))):
    if not (f.startswith('c') and f.endswith('.py')):
        continue
    m = importlib.import_module('checks.' + f[:-3])
    pid = m.META['id']
    props[pid] = m.META
    checks.append(dict(
        property=pid, quick_cmd='./run %s --tier quick' % pid,
        thorough_cmd='./run %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.LEVEL_NOTE))
for p in PLANNED:
    if p['id'] not in props:
        props[p['id']] = p
        na.append(dict(property=p['id'], reason=p.get(
            'na', 'planned: its monitor is not built yet')))
for p in props.values():
    assert len(p['title']) <= 80, p['id']
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid in sorted(props):
        f.write(json.dumps(props[pid], sort_keys=True) + '\n')
man = dict(
    version=1, setup_cmd='./setup.sh',
    hooks=dict(guard='none', enable='no hooks: the monitors attach from '
               'outside (public API, sys.monitoring, DB-API and socket '
               'proxies); nothing in /repo is guarded', source_commits=[]),
    checks=checks, not_applicable=na,
    notes='Runtime monitoring. See DESIGN.md.  KNOWN_FINDINGS.txt lists '
    'known findings and fixed defects.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props.values():
        jsonschema.validate(p, s)
except ImportError:
    print("no jsonschema")
print(len(checks), 'checks,', len(na), 'not claimed')
