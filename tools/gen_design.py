"""fills the table of planted bugs of DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s: %s | %s |' % (os.path.basename(os.path.dirname(m)), d['what_it_breaks'], d['property']))
t = open(H + '/DESIGN.md').read()
a = t.index('| planted bug | caught by |\n|---|---|\n') + len('| planted bug | caught by |\n|---|---|\n')
b = t.index('\nMisses that led')
open(H + '/DESIGN.md', 'w').write(t[:a] + '\n'.join(rows) + '\n' + t[b:])
