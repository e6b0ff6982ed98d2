"""Write DESIGN.md from design_body.md, meta.py and the planted bugs."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load(n):
    s = importlib.util.spec_from_file_location(n, f'{HERE}/{n}.py')
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


P, D = load('meta').P, load('details').D
out = []
for i, p in P.items():
    out.append(f"\n### {i} {p['title']}\n\n{D[i].strip()}\n")
props = ''.join(out)

rows = ['| bug | property | needs | caught by | remark |',
        '|---|---|---|---|---|']
res = json.load(open(f'{HERE}/caught.json'))
for b in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{b}/meta.json'))
    c = res.get(b, ['?', ''])
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {c[0]} | {c[1]} |")
s = open(f'{HERE}/design_body.md').read()
s = s.replace('@@PROPS@@', props).replace('@@SEEDS@@', '\n'.join(rows))
open(ROOT + '/DESIGN.md', 'w').write(s)
