"""writes MANIFEST.json: every property with a harness is claimed"""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if not os.path.exists(os.path.join(HERE, 'harness', p + '.py')):
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet')))
        continue
    m = importlib.import_module('harness.' + p)
    note = ('Exhaustive within the stated bounds: the functions of the current source are executed symbolically (z3) over all '
            f'inputs of: {m.BOUNDS["quick"]}. Counterexamples and path models are re-run on the unmodified code. '
            + (f'Outside: {m.OUTSIDE}. ' if getattr(m, 'OUTSIDE', '') else '')
            + 'Trusts: z3, the models of Python built-ins and library calls in symx/ (cross-checked by the replays)'
            + (f'; {m.TRUSTS}' if getattr(m, 'TRUSTS', '') else '') + '.')
    checks.append(dict(property=p, quick_cmd=f'python3 check.py {p} --tier quick',
                       thorough_cmd=f'python3 check.py {p} --tier thorough', evidence_file=f'evidence/{p}.json',
                       technique='symbolic execution of the real Python source with an SMT solver (z3), exhaustive over all '
                                 'feasible paths within bounds; counterexamples replayed on the real code',
                       level='model_checking', level_note=note))
man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
           hooks=dict(guard='none', enable='no hooks: the checks instrument the source at import time', source_commits=[]),
           notes='check.py decides one property; see DESIGN.md')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print(len(checks), 'claimed', len(na), 'not')
