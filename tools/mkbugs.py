"""Writes the table of planted bugs into DESIGN.md (below section 6)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
LATE = {'m06-rewind-decimate': 'passes with selections', 'm05-dupvis': 'bounds equal to values', 'm07-obstype': 'obstype judged', 'm01-baseline0': 'uvw changing by little',
        'm11-times': 'short integrations', 's01-leakread': 'reads at the end repeated', 'p04-same-date': 'moved longitude', 'f02-list1': 'long lists',
        'f03-wildcard': 'wildcard and name together', 'h06-fits-dtype': 'empty maps', 'r02-interp': 'filters of any scale'}
try:
    LATE.update(json.load(open(R + '/tools/late.json')))
except OSError:
    pass
rows = ['| bug | property (caught by its check) | needs | first missed; then added |', '| --- | --- | --- | --- |']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), LATE.get(d, '')))
s = open(R + '/DESIGN.md').read()
i = s.index('\n', s.index('"strengthened"') if '"strengthened"' in s else s.index('## 6')) if False else s.index('## 6')
j = s.index('\n\n', s.index('\n\n', i) + 2)
k = s.find('\n## 7', j)
open(R + '/DESIGN.md', 'w').write(s[:j] + '\n\n' + '\n'.join(rows) + '\n' + (s[k:] if k >= 0 else ''))
