"""Fills the generated parts of DESIGN.md."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
rows = ['| id | driver | quick cases | thorough cases |', '|----|--------|-------------|----------------|']
for k in sorted(CHECKS):
    c = CHECKS[k]
    rows.append('| %s | %s | %d%s | %d |' % (k, c['driver'], c['quick'],
                ' (+ %d under memcheck)' % c['memcheck']['quick'] if 'memcheck' in c else '', c['thorough']))
seeds = ['| change | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m.get('caught_by', m['property'])))
p = V + '/DESIGN.md'
s = open(p).read()
for tag, r in (('table', rows), ('seeds', seeds)):
    s = re.sub(r'(<!--%s-->).*(<!--/%s-->)' % (tag, tag), lambda m: m.group(1) + '\n' + '\n'.join(r) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
