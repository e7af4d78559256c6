"""Runs one job (one harness function with fixed parameters) to exhaustion; executed in a process of its own."""
import importlib
import json
import os
import resource
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup(repo):
    """instrumented import of the code under test from its current source"""
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    os.environ.setdefault('NLCODEC_THREADS', '3')
    import logging
    logging.disable(logging.CRITICAL)
    from symx import instr, rt, shims, files  # noqa
    sys.path.insert(0, os.path.join(HERE, 'symx', 'stubs'))
    exp = os.path.join(repo, 'experimental')
    roots = {'nlcodec': repo, 'harness': HERE}
    for f in os.listdir(exp) if os.path.isdir(exp) else ():
        if f.endswith('.py'):
            roots[f[:-3]] = exp
    import argparse   # the option parser of the programs is executed symbolically, too
    roots['argparse'] = os.path.dirname(argparse.__file__)
    del sys.modules['argparse']
    instr.install(roots)


def run(job, repo, tier, seed):
    from symx import core, env, crashfs, rt, wire
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='symx-')
    out = dict(name=job['name'], harness=job['harness'], fn=job['fn'], params=job['params'])
    try:
        mod = importlib.import_module('harness.' + job['harness'])
        crashfs.install(scratch)
        E = core.Engine(query_ms=job.get('query_ms', 60000), time_limit=job.get('time_limit', 500),
                        max_ce=job.get('max_ce', 2))
        E.cap = job.get('cap', 300)
        rt.FUNCTIONS.clear()
        done = env.run_job(E, getattr(mod, job['fn']), job['params'], os.path.realpath(scratch),
                           max_samples=job.get('samples', 16), max_paths=job.get('max_paths'), seed=seed)
        out.update(done=bool(done), stats=E.stats.as_dict(), incomplete=E.incomplete[:5],
                   n_incomplete=len(E.incomplete), reached=sorted(E.reached),
                   functions=sorted(f for f in rt.FUNCTIONS if not f.startswith('harness')),
                   ces=[dict(msg=c['msg'], inputs={k: wire.enc(v) for k, v in c['inputs'].items()}) for c in E.ces],
                   samples=[dict(inputs={k: wire.enc(v) for k, v in s['inputs'].items()},
                                 observed=[[n, wire.enc(v)] for n, v in s['observed']]) for s in E.samples],
                   tb=getattr(E, 'last_tb', None))
    except BaseException as e:
        out.update(done=False, error=''.join(traceback.format_exception(e))[-3000:])
    finally:
        crashfs.State.scratch = None
        crashfs.State.armed = None
        shutil.rmtree(scratch, ignore_errors=True)
    out['wall_s'] = time.time() - t0
    return out


def main():
    spec = json.load(open(sys.argv[1]))
    resource.setrlimit(resource.RLIMIT_AS, (spec.get('mem', 8 << 30),) * 2)
    sys.path.insert(0, HERE)
    setup(spec['repo'])
    res = run(spec['job'], spec['repo'], spec['tier'], spec['seed'])
    with open(sys.argv[2], 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
