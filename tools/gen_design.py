"""writes DESIGN.md: tools/design_head.md, one section per property (bounds from the harness, planted bugs from seeded/),
tools/design_tail.md"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TEXT = json.load(open(os.path.join(HERE, 'tools', 'design_text.json')))
CAUGHT = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
FIXED = [l for l in open(os.path.join(HERE, 'known_findings.txt')) if l.startswith('fixed: ')]


def rd(n):
    return open(os.path.join(HERE, 'tools', n)).read()


bugs = {}
sd = os.path.join(HERE, 'seeded')
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, 'meta.json')))
    bugs.setdefault(m['property'], []).append((b, m))

out = [rd('design_head.md'), '## Per property\n']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    m = importlib.import_module('harness.' + i)
    out.append(f'### {i} {p["title"]}\n')
    out.append(f'{p["statement"]}\n')
    out.append(f'*Encoding and oracle.* {TEXT[i]}\n')
    for tier in ('quick', 'thorough'):
        if tier in m.BOUNDS:
            out.append(f'*Bounds ({tier}).* {m.BOUNDS[tier]}.\n')
    if getattr(m, 'OUTSIDE', ''):
        out.append(f'*Outside.* {m.OUTSIDE}.\n')
    if getattr(m, 'TRUSTS', ''):
        out.append(f'*Trusts* (besides z3 and the models of built-ins). {m.TRUSTS}.\n')
    fx = [l.split(' ', 3)[2:] for l in FIXED if l.split()[1] == f'property={i}']
    if fx:
        out.append('*Genuine defects found and repaired.* ' + '; '.join(f'{t.strip()} ({c})' for c, t in fx) + '.\n')
    if i in bugs:
        out.append('*Planted bugs.*\n')
        for b, bm in bugs[i]:
            c = CAUGHT.get(b, [])
            out.append(f'- `{b}`: {bm["what_it_breaks"]}; needs {bm["needs"]}. '
                       + (f'Caught by {", ".join(c)}.' if c else '**Not caught.**'))
        out.append('')
out.append(rd('design_tail.md'))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
