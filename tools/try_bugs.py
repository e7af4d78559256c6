"""run a property's check against each planted bug: try_bugs.py [id...] (applies each to /repo and undoes it)"""
import json, subprocess, sys, time
from pathlib import Path
top = Path(__file__).resolve().parent.parent
ids = [a for a in sys.argv[1:] if not a.startswith('+')]
also = [a[1:] for a in sys.argv[1:] if a.startswith('+')]
assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout.strip()
for d in sorted((top / 'seeded').iterdir()):
    if ids and not any(d.name.startswith(i) for i in ids):
        continue
    prop = json.loads((d / 'meta.json').read_text())['property']
    for p in also or [prop]:
        try:
            subprocess.run(['git', '-C', '/repo', 'apply', str(d / 'patch.diff')], check=True)
            st = time.time()
            r = subprocess.run(['timeout', '880', 'python3', 'check.py', p, '--tier', 'quick'], cwd=top, capture_output=True, text=True)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
        out = (r.stdout + r.stderr).strip().splitlines()
        viol = [l for l in out if l.startswith('VIOLATION')]
        why = [l for l in out if 'VIOLATION' not in l and l.strip()][-2:]
        print(d.name, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'NO ANSWER') if r.returncode != 1 or viol else 'NO LINE', f'{time.time() - st:.0f}s', (viol or why)[0][:150] if (viol or why) else '', flush=True)
        if r.returncode not in (0, 1):
            print('\n'.join(l[:300] for l in out[-6:]), flush=True)
