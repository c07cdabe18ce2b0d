#!/usr/bin/env python3
"""Refresh the generated tables of DESIGN.md from evidence/ and seeded/."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
t = open('DESIGN.md').read()
rows = ["| seed | property | needs | caught |", "|----|----|----|----|"]
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs'].replace('|', '/')} | {m.get('caught', 'replayed')} |")
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->',
           lambda m: '<!-- seeds -->\n' + "\n".join(rows) + '\n<!-- /seeds -->', t, flags=re.S)
out = []
for line in t.split('\n'):
    m = re.match(r'\| (C\d\d) \|', line)
    f = f'evidence/{m.group(1)}.json' if m else ''
    if m and os.path.exists(f):
        n = json.load(open(f))['coverage'].get('obligations')
        cells = line.split(' | ')
        if len(cells) >= 5 and n is not None:
            cells[-2] = str(n)
            line = ' | '.join(cells)
    out.append(line)
open('DESIGN.md', 'w').write('\n'.join(out))
