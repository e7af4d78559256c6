"""authoring aid for planted bugs (not part of any check): turns specs into seeded/<id>/ after confirming each one
usage: plant.py SPECS.py [id...]     (works on a scratch copy of /repo under /tmp, removed afterwards)"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from pathlib import Path

BASE = '20f39d2'
SEEDED = Path(__file__).resolve().parent.parent / 'seeded'
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py" 2>&1
'''


def sh(cmd, cwd, timeout=300):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def plant(spec, work, tests=True):
    sh('git checkout -q -- . && git clean -fdq', work)
    rels = set()
    for rel, old, new in spec['edits']:
        p = work / rel
        s = p.read_text()
        if s.count(old) != 1:
            return f'{rel}: {s.count(old)} matches of {old!r}'
        p.write_text(s.replace(old, new))
        rels.add(rel)
    diff = sh('git diff', work)[1]
    removed = 0
    for rel in rels:
        base = {l.strip() for l in sh(f'git show {BASE}:{rel}', work)[1].splitlines()}
        for l in sh(f'git diff -U0 {rel}', work)[1].splitlines():
            if l.startswith('-') and not l.startswith('---'):
                if l[1:].strip() in base:
                    removed += 1
                elif l[1:].strip():
                    return f'changes a line of a fix: {l}'
    if not removed:
        return 'changes no original line'
    out = SEEDED / spec['id']
    tmp = work.parent / 'out'
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir()
    (tmp / 'patch.diff').write_text(diff)
    (tmp / 'demo.sh').write_text(DEMO_SH)
    (tmp / 'demo.sh').chmod(0o755)
    (tmp / 'demo.py').write_text(spec['demo'].lstrip('\n'))
    (tmp / 'meta.json').write_text(json.dumps(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']), indent=1) + '\n')
    rc, o = sh(f'bash {tmp}/demo.sh', work)
    if rc == 0:
        return 'demo passes with the bug\n' + o[-800:]
    bad = o
    if tests:
        rc, o = sh('export PYTHONPATH=$PWD LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 SPARK_LOCAL_IP=127.0.0.1 SPARK_LOCAL_HOSTNAME=localhost PYSPARK_PYTHON=/opt/venv/bin/python PYSPARK_DRIVER_PYTHON=/opt/venv/bin/python; /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 4 tests 2>&1 | tail -5', work)
        if '16 passed' not in o:
            return 'tests fail\n' + o[-1500:]
    sh('git checkout -q -- .', work)
    rc, o = sh(f'bash {tmp}/demo.sh', work)
    if rc:
        return 'demo fails without the bug\n' + o[-1500:]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    return 'ok: ' + bad.strip().splitlines()[-1][:160]


def main():
    specs = runpy.run_path(sys.argv[1])['SPECS']
    ids = sys.argv[2:]
    top = Path(tempfile.mkdtemp(prefix='plant'))
    try:
        work = top / 'repo'
        subprocess.run(['cp', '-a', '/repo', str(work)], check=True)
        for s in specs:
            if not ids or s['id'] in ids or (ids == ['new'] and not (SEEDED / s['id']).exists()):
                print(s['id'], plant(s, work), flush=True)
    finally:
        shutil.rmtree(top)


main()
