#!/opt/venv/bin/python
"""Fills the generated parts of DESIGN.md: per-property decisions (props/meta.py, properties.jsonl), defects
(known_findings.json), planted bugs (seeded/*/meta.json and tools/planted.json, written by tools/trybug.py --record)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = {}
exec(open(H + '/props/meta.py').read(), meta)
META = meta['META']
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
man = json.load(open(H + '/MANIFEST.json'))
na = {x['property'] if 'property' in x else x['id']: x.get('reason', '') for x in man.get('not_applicable', [])}
out = {}
s = []
for p in props:
    i = p['id']
    s.append('**%s %s.**' % (i, p['title']))
    if i in META:
        m = META[i]
        s.append('Generated: %s Oracle: %s%s' % (m['rule'], m['what'], ' ' + m['why'] if 'why' in m else ''))
    else:
        s.append('Not applicable: %s' % na.get(i, ''))
    s.append('')
out['properties'] = '\n'.join(s)
kf = json.load(open(H + '/known_findings.json'))
s = []
for f in kf['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    s.append('* %s, commit %s: %s.' % m.groups())
s.append('')
s.append('Open findings: ' + ('none.' if not kf['findings'] else ''))
for f in kf['findings']: s.append('* %s: %s' % (f['property'], f['what']))
out['defects'] = '\n'.join(s)
res = {}
try: res = json.load(open(H + '/tools/planted.json'))
except OSError: pass
s = ['| change | needs | check | reported |', '|---|---|---|---|']
for b in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % b))
    r = res.get(b, {})
    s.append('| %s | %s | %s | %s |' % (b, m['needs'], m['property'], 'not tried' if not r else ('after %.0f s' % r['s'] if r['rc'] == 1 else 'MISSED')))
out['planted'] = '\n'.join(s)
d = open(H + '/DESIGN.md').read()
for k, v in out.items():
    d = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % k, lambda m: m.group(1) + v + '\n' + m.group(2), d, flags=re.S)
open(H + '/DESIGN.md', 'w').write(d)
