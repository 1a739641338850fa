#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md that follows the marker from the checks,
tools/limits.txt, KNOWN_FINDINGS.txt and seeded/."""
import ast, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
MARK = '## Properties\n'
limits = dict(re.match(r'(C\d\d): (.*)', l).groups() for l in open(os.path.join(V, 'tools/limits.txt')) if l.strip())
fixed = {}
known = {}
for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
    m = re.match(r'(fixed|known): property=(C\d\d) (.*)', l)
    if m:
        (fixed if m.group(1) == 'fixed' else known).setdefault(m.group(2), []).append(m.group(3))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = [MARK, '\nGenerated by tools/gen_design.py from the checks, tools/limits.txt, KNOWN_FINDINGS.txt and seeded/.  Every claimed property is decided by runtime\n'
       'monitoring: an oracle observes executions of the real code; what each run observed (cases, distinct cases, evaluations of each monitor, lines of\n'
       'the watched modules reached) is in the evidence file.  None is proved: a check that passes means no violation in the executions observed.\n']
for p in props:
    cid = p['id']
    path = os.path.join(V, 'checks', cid.lower() + '.py')
    out.append('\n### %s %s\n\n' % (cid, p['title']))
    if not os.path.exists(path):
        out.append('Not claimed: no check was built (see MANIFEST.json).\n')
        continue
    tree = ast.parse(open(path).read())
    doc = ast.get_docstring(tree).split('\n', 1)
    body = ' '.join((doc[1] if len(doc) > 1 else doc[0]).split())
    g = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('REQUIRE', 'TECHNIQUE', 'RULE', 'MODULES'):
            try:
                g[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    loads = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Workload':
            kw = dict((k.arg, ast.literal_eval(k.value)) for k in n.keywords if isinstance(k.value, ast.Constant))
            for i, k in ((2, 'quick'), (3, 'thorough')):
                if len(n.args) > i and isinstance(n.args[i], ast.Constant):
                    kw[k] = n.args[i].value
            loads.append('%s (%s/%s)' % (n.args[0].value if isinstance(n.args[0], ast.Constant) else '…', kw.get('quick', '?'), kw.get('thorough', '?')))
    out.append('%s\n\n' % body)
    out.append('* Technique: %s.\n' % g.get('TECHNIQUE', 'runtime monitoring with generated histories').rstrip('.'))
    out.append('* Reach beyond the tests: %s.\n' % p['why_tests_cant'].rstrip('.'))
    if loads:
        out.append('* Workloads (cases quick/thorough): %s.\n' % ', '.join(loads))
    if g.get('REQUIRE'):
        out.append('* Inconclusive unless observed at least: %s.\n' % ', '.join('%s %s' % (v, k) for k, v in sorted(g['REQUIRE'].items())))
    if cid in limits:
        out.append('* Limits and corrections: %s\n' % limits[cid])
    if cid in fixed:
        out.append('* Defects found here and repaired: %i (KNOWN_FINDINGS.txt).\n' % len(fixed[cid]))
    for k in known.get(cid, ()):
        out.append('* Known finding, not repaired: %s\n' % k)
out.append('\n## Planted bugs\n\nEach passes the stable tests, and its demo.sh fails only with the change.  "Caught" means the quick check of the property exits 1 with its VIOLATION line.\n\n'
           '| bug | property | needs | caught by |\n|---|---|---|---|\n')
results = json.load(open(os.path.join(V, 'tools/caught.json')))
for d in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json')) + glob.glob(os.path.join(V, 'seeded-more/*/meta.json'))):
    m = json.load(open(d))
    name = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |\n' % (name, m['property'], m['needs'], results.get(name, m['property'] + ' quick')))
out.append('\n' + open(os.path.join(V, 'tools/design_tail.md')).read())
s = open(os.path.join(V, 'DESIGN.md')).read()
s = s[:s.index(MARK)] + ''.join(out)
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
