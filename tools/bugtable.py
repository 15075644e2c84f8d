"""python3 tools/bugtable.py SWEEP_LOG: rewrites the planted-bug table at the end of DESIGN.md from the output of sweep_bugs.sh."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in open(sys.argv[1]):
    w = line.split()
    if len(w) > 2:
        res.setdefault(w[0], {})[w[1]] = 'caught' if w[2].startswith('caught') else 'missed'
rows = ['| change | property | needs | quick check |', '|---|---|---|---|']
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    p = m['property']
    rows.append(f"| {b} | {p} | {m['needs'].replace('|', '/')} | {res.get(b, {}).get(p, 'not run')} |")
f = root + '/DESIGN.md'
s = open(f).read()
mark = '<!-- bug table -->\n'
s = s.replace('BUGTABLE', mark).split(mark)[0] + mark + '\n' + '\n'.join(rows) + '\n'
open(f, 'w').write(s)
