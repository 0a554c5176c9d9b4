"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py (one list PROPS per area)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(V, 'tools/props/*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    for p in ns['PROPS']:
        tech, note, reason = p.pop('technique', None), p.pop('note', None), p.pop('na', None)
        assert len(p['title']) <= 80, p['title']
        q = p['quantifier']
        p['quantifier'] = dict(over=q[0], text=q[1])
        a = p['anchors']
        p['anchors'] = dict(files=a[0], mechanism=[dict(name=n, where=w) for n, w in a[1]],
                            observe_at=a[2] if len(a) > 2 else [], hook_needed=None)
        for fn in p['anchors']['files']:
            assert os.path.exists(os.path.join('/repo', fn)), fn
        props.append(p)
        if os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
            cmd = '%s checks/%s.py' % (PY, p['id'])
            checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd=cmd, evidence_file='evidence/%s.json' % p['id'],
                               technique=tech, level='exploration', level_note=note))
        else:
            na.append(dict(property=p['id'], reason=reason or 'no check has been built for this property yet'))
ids = [p['id'] for p in props]
assert len(set(ids)) == len(ids)
for f in os.listdir(os.path.join(V, 'checks')):
    if f.endswith('.py') and f[0].isupper():
        assert f[:-3] in ids, f
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd=PY + ' lib/vbuild.py', checks=checks, not_applicable=na,
         notes='Every check builds aipy from /repo (lib/vbuild.py), runs generated workloads against it in worker processes '
               '(optimised and AddressSanitizer+UBSan builds) and lets monitors decide (lib/vf.py). Exit 2 means inconclusive. '
               'No hooks in /repo are needed. KNOWN_FINDINGS.txt lists repaired and recorded defects.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
