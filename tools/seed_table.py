"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
t = ('<!-- table -->\n| planted bug | caught by | needs | what it breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- end -->\n')
p = V + '/DESIGN.md'
s = open(p).read()
if '@@SEEDS@@' in s: s = s.replace('@@SEEDS@@', t)
else: s = re.sub(r'<!-- table -->.*?<!-- end -->\n', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
