#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property for the code in /repo.

Exit 0: the property holds for every value within the stated bounds.  Exit 1: a counterexample, found by the solver and
reproduced by running the real code on it.  Exit 2: no answer (exploration not exhaustive, or model and code disagree)."""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY_SYM = os.environ.get('VERIF_PY_SYM', 'python3-vt')
PY_REAL = os.environ.get('VERIF_PY_REAL', '/opt/venv/bin/python')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


CHILDREN = set()


def sub(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, cwd=HERE, env=env)
    CHILDREN.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return -9, 'timeout'
    finally:
        CHILDREN.discard(p)


def ended(signum, _frame):
    for p in list(CHILDREN):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    os._exit(128 + signum)


def run_job(job, tier, seed, tmp, limit):
    key = hashlib.sha1((job['harness'] + job['name']).encode()).hexdigest()[:12]
    spec, res = os.path.join(tmp, key + '.json'), os.path.join(tmp, key + '.out')
    job.setdefault('time_limit', limit)
    with open(spec, 'w') as f:
        json.dump(dict(job=job, repo=REPO, tier=tier, seed=seed), f)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    rc, out = sub([PY_SYM, '-m', 'symx.worker', spec, res], job['time_limit'] + 60, env)
    if rc != 0 or not os.path.exists(res):
        return dict(name=job['name'], harness=job['harness'], fn=job['fn'], params=job['params'], done=False,
                    error=f'worker ended with {rc}: {out[-2000:]}', wall_s=0)
    return json.load(open(res))


def replay(job, runs, tmp, tag):
    key = hashlib.sha1((job['harness'] + job['name'] + tag).encode()).hexdigest()[:12]
    spec, res = os.path.join(tmp, 'r' + key + '.json'), os.path.join(tmp, 'r' + key + '.out')
    with open(spec, 'w') as f:
        json.dump(dict(harness=job['harness'], fn=job['fn'], params=job['params'], runs=runs, repo=REPO), f)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', NLCODEC_THREADS='3')
    rc, out = sub([PY_REAL, '-m', 'symx.replay', spec, res], 60 + 20 * len(runs), env)
    if not os.path.exists(res):
        return None, f'replay ended with {rc}: {out[-1500:]}'
    return json.load(open(res)), ''


def known_findings(prop):
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            line = line.rstrip('\n')
            if line.startswith(f'finding: property={prop} '):
                rest = line.split(' ', 2)[2]
                match, _, what = rest.partition(' | ')
                res.append((match.strip(), what.strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', help='only jobs whose name contains this')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for sig in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(sig, ended)
    t0 = time.time()
    prop = a.property
    mod = importlib.import_module('harness.' + prop)
    jobs = []
    for j in mod.jobs(a.tier):
        j = dict(j)
        j.setdefault('harness', prop)
        j.setdefault('params', {})
        j.setdefault('fn', j['name'])
        if a.jobs and a.jobs not in j['name']:
            continue
        jobs.append(j)
    limit = 400 if a.tier == 'quick' else 6 * 3600
    deadline = t0 + (800 if a.tier == 'quick' else 10 ** 9)
    results = []
    with tempfile.TemporaryDirectory(prefix='symx-check-') as tmp:
        os.chmod(tmp, 0o700)

        def both(job):
            left = deadline - time.time() - 70
            if left < 5:
                return job, dict(name=job['name'], harness=job['harness'], fn=job['fn'], params=job['params'], done=False,
                                 error='no time left', wall_s=0, replays=[], replay_err='')
            job['time_limit'] = min(job.get('time_limit', limit), left)
            r = run_job(job, a.tier, seed, tmp, limit)
            runs = []
            for c in r.get('ces', []):
                runs.append(dict(inputs=c['inputs']))
            for s in r.get('samples', []):
                runs.append(s)
            r['replays'], r['replay_err'] = [], ''
            if runs:
                out, err = replay(job, runs, tmp, '')
                if out is None:
                    r['replay_err'] = err
                else:
                    r['replays'] = out
            if a.v:
                st = r.get('stats', {})
                print(f"  [{time.time() - t0:6.1f}s] {r['name']}: done={r['done']} {r['wall_s']:.1f}s paths={st.get('paths')} "
                      f"queries={st.get('queries')} asserts={st.get('asserts')} solver={st.get('solver_s', 0):.1f}s "
                      f"conc={st.get('concretised')} ces={len(r.get('ces', []))} samples={len(r.get('samples', []))}"
                      f" inc={r.get('incomplete')}", flush=True)
            return job, r
        workers = int(os.environ.get('VERIF_WORKERS', '8'))
        with cf.ThreadPoolExecutor(workers) as ex:
            for job, r in ex.map(both, jobs):
                results.append((job, r))

    code = 0
    problems = []
    violations = []
    validated = 0
    samples = []
    reached = set()
    kf = known_findings(prop)
    kf_seen = set()
    for job, r in results:
        reached.update(r.get('reached', []))
        if r.get('error'):
            problems.append(f"{r['name']}: {r['error']}")
            continue
        ces = r.get('ces', [])
        reps = r['replays']
        if r['replay_err']:
            problems.append(f"{r['name']}: {r['replay_err']}")
        for c, rep in zip(ces, reps):
            if rep['status'] == 'fail':
                violations.append((job, c, rep))
            else:
                problems.append(f"{r['name']}: counterexample does not reproduce on the real code ({rep['status']} "
                                f"{rep.get('msg', '')}): {c['msg']} {json.dumps(c['inputs'])[:600]}"
                                + (('\n' + r['tb']) if a.v and r.get('tb') else ''))
        for s, rep in zip(r.get('samples', []), reps[len(ces):]):
            if rep['status'] == 'ok':
                validated += 1
                if len(samples) < 12 and len(s['inputs']):
                    samples.append(dict(job=r['name'], inputs=s['inputs'], observed=s['observed'][:6]))
            elif rep['status'] == 'fail':
                # the real code violates the property where the model did not: still a genuine failing run
                violations.append((job, dict(msg='(found on replay of a path model)', inputs=s['inputs']), rep))
            else:
                problems.append(f"{r['name']}: model and code disagree ({rep['status']} {rep.get('msg', '')}) "
                                f"on {json.dumps(s['inputs'])[:500]}")
        if not r['done'] and not ces:
            problems.append(f"{r['name']}: not exhaustive: {r.get('incomplete')}")
        want = set(job.get('must_reach', ()))
        if not ces and r['done'] and not want <= set(r['reached']):
            problems.append(f"{r['name']}: vacuous, never reached {sorted(want - set(r['reached']))}")

    real = []
    for job, c, rep in violations:
        for m, what in kf:
            if m and m in f"{job['name']} {c['msg']} {rep.get('msg', '')}":
                kf_seen.add(what)
                break
        else:
            real.append((job, c, rep))
    for what in sorted(kf_seen):
        print(f'KNOWN-FINDING: property={prop} {what}')
    if real:
        os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
        seen = set()
        for job, c, rep in real:
            if job['name'] in seen:
                continue
            seen.add(job['name'])
            path = os.path.join(HERE, 'evidence', 'replays', re.sub(r'[^A-Za-z0-9_.-]', '_', f"{prop}-{job['name']}") + '.json')
            with open(path, 'w') as f:
                json.dump(dict(harness=job['harness'], fn=job['fn'], params=job['params'],
                               runs=[dict(inputs=c['inputs'])], repo=REPO, message=c['msg'], real=rep), f, indent=1)
            if len(seen) <= 3:
                print(f"{job['name']}: {c['msg']}\n  real code: {rep.get('msg')}\n  inputs: {json.dumps(c['inputs'])[:800]}")
                print(f"  replay with: {PY_REAL} -m symx.replay {path}   (in {HERE})")
            print(f'VIOLATION property={prop} replay={path}', flush=True)
        code = 1
    elif problems:
        code = 2
    for p in problems[:12]:
        print('PROBLEM', p)

    tot = {}
    for _, r in results:
        for k, v in r.get('stats', {}).items():
            tot[k] = tot.get(k, 0) + v
    functions = sorted({f for _, r in results for f in r.get('functions', [])})
    wall = time.time() - t0
    ev = dict(property=prop, tier=a.tier, seed=seed, level='model_checking', wall_s=round(wall, 2), coverage=dict(
        states=tot.get('complete', 0), transitions=tot.get('branches', 0), traces_validated_against_impl=validated,
        samples=samples or [dict(note='no path completed')],
        explanation='states: complete symbolic paths (path classes) explored to exhaustion; transitions: symbolic branch '
                    'decisions; traces_validated: path models re-run on the unmodified code with equal observations',
        exhaustive=all(r['done'] for _, r in results), forks=tot.get('forks', 0), queries=tot.get('queries', 0),
        assertions=tot.get('asserts', 0), solver_s=round(tot.get('solver_s', 0), 2), enumerations=tot.get('concretised', 0),
        solver='z3 ' + z3_version(), bounds=getattr(mod, 'BOUNDS', {}).get(a.tier, getattr(mod, 'BOUNDS', {}).get('quick', '')),
        outside=getattr(mod, 'OUTSIDE', ''), functions_encoded=functions,
        jobs=[dict(name=r['name'], params=r['params'], done=r['done'], wall_s=round(r['wall_s'], 1),
                   paths=r.get('stats', {}).get('complete'), asserts=r.get('stats', {}).get('asserts'),
                   reached=r.get('reached')) for _, r in results]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} {a.tier}: {"VIOLATED" if code == 1 else "no answer" if code else "holds within bounds"}; jobs={len(jobs)} '
          f'paths={tot.get("complete", 0)} queries={tot.get("queries", 0)} asserts={tot.get("asserts", 0)} '
          f'solver={tot.get("solver_s", 0):.1f}s validated={validated} wall={wall:.1f}s')
    sys.exit(code)


def z3_version():
    try:
        out = subprocess.run([PY_SYM, '-c', 'import z3; print(z3.get_version_string())'], capture_output=True, timeout=60)
        return out.stdout.decode().strip()
    except Exception:
        return '?'


if __name__ == '__main__':
    main()
