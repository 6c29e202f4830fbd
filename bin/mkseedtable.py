"""rewrites the table of planted bugs at the end of DESIGN.md"""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append((m['property'], os.path.basename(d), m['needs'].replace('|', '/')))
head = '| property = catching check | planted bug | needs |\n|---|---|---|\n'
p = root + '/DESIGN.md'
s = open(p).read()
i = s.index('| property = catching check |')
open(p, 'w').write(s[:i] + head + '\n'.join('| %s | %s | %s |' % r for r in sorted(rows)) + '\n')
