"""Runs a harness function on the unmodified code with concrete inputs.  usage: replay.py spec.json [result.json]
spec: {harness, fn, params, runs: [{inputs, observed}], repo}"""
import builtins
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import wire, crashfs, stubs_common  # noqa: E402


class CheckFailed(Exception):
    pass


class Skip(BaseException):
    pass


class Env:
    symbolic = False
    SimCrash = crashfs.SimCrash

    def __init__(self, inputs, scratch):
        self.inputs = inputs
        self.scratch = scratch
        self.n = {}
        self.observed = []

    def and_(self, *xs): return all(xs)
    def or_(self, *xs): return any(xs)
    def not_(self, x): return not x
    def implies(self, a, b): return (not a) or bool(b)
    def ite(self, c, a, b): return a if c else b
    def all(self, it): return all(list(it))
    def any(self, it): return any(list(it))
    def sum_if(self, pairs): return sum(v for c, v in pairs if c)

    def eq(self, a, b):
        if hasattr(a, 'tolist'):
            a = a.tolist()
        if hasattr(b, 'tolist'):
            b = b.tolist()
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if type(a).__name__ in ('dict_keys', 'dict_items'):
            a = list(a)
        if type(b).__name__ in ('dict_keys', 'dict_items'):
            b = list(b)
        if isinstance(a, float) or isinstance(b, float):
            try:
                return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
            except TypeError:
                return False
        return bool(a == b)

    def _name(self, name):
        k = self.n.get(name, 0)
        self.n[name] = k + 1
        return f'{name}#{k}'

    def _get(self, name, default):
        return self.inputs.get(self._name(name), default)

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        return v

    def bool(self, name): return bool(self._get(name, False))

    def real(self, name, lo, hi, lo_open=False, hi_open=False):
        v = self._get(name, None)
        if v is None:
            return (lo + hi) / 2
        f = float(v)
        import fractions
        if hi_open and f >= hi and fractions.Fraction(v) < hi:
            import math
            f = math.nextafter(float(hi), float(lo))
        return f

    def pick(self, name, lo, hi):
        v = self._get(name, lo)
        return min(max(v, lo), hi)

    def flag(self, name): return bool(self.pick(name, 0, 1))

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, 0, len(options) - 1)]

    def char(self, name='c', alphabet=None, surrogates=False, exclude=''):
        d = 'a'
        if isinstance(alphabet, str):
            d = alphabet[0]
        return self._get(name, d)

    def string(self, name, lo, hi=None, **kw):
        n = lo if hi is None or hi == lo else self.pick(name + '_len', lo, hi)
        return ''.join(self.char(name, **kw) for _ in range(n))

    def assume(self, cond):
        if not cond:
            raise Skip('assumption')

    def check(self, cond, msg=''):
        if not cond:
            raise CheckFailed(msg)

    def fail(self, msg): raise CheckFailed(msg)
    def observe(self, name, value): self.observed.append((name, value))
    def reach(self, tag): pass

    def raises(self, excs, fn, *a, **k):
        try:
            return False, fn(*a, **k)
        except excs as e:
            return True, e

    def tmp(self):
        from pathlib import Path
        p = os.path.join(self.scratch, 'w')
        crashfs.State.armed = None
        if os.path.isdir(p):
            shutil.rmtree(p)
        os.makedirs(p)
        return Path(p)

    def null(self, mode='r'):
        return open(os.devnull, mode)

    def as_main(self, name):
        import runpy
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_module(name, run_name='__main__')

    def program_ended(self):
        # what the interpreter does with files left open at the end of a program
        import gc
        import io
        for o in gc.get_objects():
            if isinstance(o, io.TextIOWrapper) and not o.closed and str(getattr(o, 'name', '')).startswith(self.scratch):
                o.close()
        gc.collect()

    def crash_arm(self, max_events=60, lines=False):
        st = crashfs.State
        st.dead = False
        st.log = []
        point = self.int('crash_at', 0, max_events)
        count = [0]

        def armed(desc):
            i = count[0]
            count[0] += 1
            return i == point

        def prefix(n, path, data=b''):
            i = count[0]
            count[0] += 1
            if i != point:
                return None
            k = self.pick('torn', 0, 4 if lines else 3)
            return [0, min(1, n - 1), n // 2, n - 1, data.rfind(b'\n', 0, n - 1) + 1][k]
        st.armed, st.prefix = armed, prefix

    def crash_disarm(self):
        st = crashfs.State
        st.armed = st.prefix = None
        st.dead = False

    def dir_order(self, on=True):
        stubs_common.DIR_ORDER[0] = on

    def across(self, fn): return across(self, fn)

    def orders(self):
        """runs the loop body many times, with different memory layouts of the objects hashed by identity"""
        import random
        import nlcodec.dstruct as ds
        rnd = random.Random.__new__(random.Random)
        real = id
        for k in range(60):
            rnd.seed(k)
            seen = {}
            keep = []

            def fake(o):
                i = real(o)
                if i not in seen:
                    keep.append(o)
                    seen[i] = rnd._randbelow(1 << 20)
                return seen[i]
            ds.id = fake
            try:
                yield k
            finally:
                del ds.id


def across(env, fn):
    import subprocess
    r = fn()
    if os.environ.get('SYMX_CHILD'):
        sys.__stdout__.write('RESULT ' + json.dumps(wire.enc(r)) + '\n')
        sys.__stdout__.flush()
        os._exit(0)
    res = [wire.enc(r)]
    for k in range(1, 4 if env.sampling else 25):
        spec = dict(SPEC, runs=[env.run])
        e = dict(os.environ, PYTHONHASHSEED=str(k), SYMX_CHILD='1')
        path = os.path.join(env.scratch, 'child.json')
        with open(path, 'w') as f:
            json.dump(spec, f)
        p = subprocess.run([sys.executable, '-m', 'symx.replay', path], env=e, cwd=HERE, capture_output=True, text=True, timeout=60)
        line = [l for l in p.stdout.splitlines() if l.startswith('RESULT ')]
        if not line:
            raise RuntimeError('run with another hash seed failed: ' + (p.stdout + p.stderr)[-500:])
        res.append(json.loads(line[0][7:]))
    return res


SPEC = {}


def patch_library():
    """the environment stand-ins of the symbolic runs, installed for the real code"""
    import random
    import multiprocessing as mp
    rng = stubs_common.Rng()
    for n in ('random', 'uniform', 'randint', 'randrange', 'choice', 'shuffle', 'sample', 'seed', 'getrandbits'):
        setattr(random, n, getattr(rng, n))
    mp.Pool = stubs_common.PoolStub
    mp.get_context = stubs_common.CtxStub
    import numpy as np
    nr = stubs_common.NpRng()
    for n in ('shuffle', 'permutation', 'random', 'rand', 'randint', 'choice', 'seed'):
        setattr(np.random, n, getattr(nr, n))
    np.random.default_rng = stubs_common.NpRng
    np.random.RandomState = stubs_common.NpRng


def main():
    spec = json.load(open(sys.argv[1]))
    SPEC.update(spec)
    import logging
    logging.disable(logging.CRITICAL)
    os.environ['TQDM_DISABLE'] = '1'
    repo = spec.get('repo', '/repo')
    sys.path.insert(0, repo)
    sys.path.insert(0, os.path.join(repo, 'experimental'))
    patch_library()
    scratch = tempfile.mkdtemp(prefix='symx-replay-')
    import importlib
    mod = importlib.import_module('harness.' + spec['harness'])
    import nlcodec
    assert os.path.realpath(nlcodec.__file__).startswith(os.path.realpath(repo) + os.sep), nlcodec.__file__
    if hasattr(mod, 'warmup'):
        mod.warmup()
    crashfs.install(scratch)
    fn = getattr(mod, spec['fn'])
    out = []
    devnull = open(os.devnull, 'w')
    for r in spec['runs']:
        inputs = {k: wire.dec(v) for k, v in r['inputs'].items()}
        env = Env(inputs, scratch)
        env.run, env.sampling = dict(inputs=r['inputs']), 'observed' in r
        stubs_common.CUR[0] = env
        stubs_common.DIR_ORDER[0] = False
        res = {}
        stdout, sys.stdout = sys.stdout, devnull
        signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError('replay took too long')))
        signal.alarm(spec.get('run_seconds', 60))
        try:
            fn(env, **spec['params'])
            res['status'] = 'ok'
        except Skip:
            res['status'] = 'skip'
        except (Exception, crashfs.SimCrash) as e:
            res['status'] = 'fail'
            res['msg'] = f'{type(e).__name__}: {e}'[:400]
            if not isinstance(e, CheckFailed):
                tb = traceback.extract_tb(e.__traceback__)
                res['msg'] += ' at ' + ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb))[:200]
        finally:
            signal.alarm(0)
            sys.stdout = stdout
            env.crash_disarm()
        if res['status'] == 'ok' and 'observed' in r:
            want = {}
            got = [[n, wire.enc(v)] for n, v in env.observed]
            if not wire.same(got, r['observed']):
                res['status'] = 'mismatch'
                for g, w in zip(got, r['observed']):
                    if not wire.same(g, w):
                        res['msg'] = f'observed {g} predicted {w}'[:600]
                        break
                else:
                    res['msg'] = f'observed {len(got)} values, predicted {len(r["observed"])}'
        out.append(res)
    crashfs.State.scratch = None
    shutil.rmtree(scratch, ignore_errors=True)
    text = json.dumps(out)
    if len(sys.argv) > 2:
        with open(sys.argv[2], 'w') as f:
            f.write(text)
    else:
        for r, o in zip(spec['runs'], out):
            print(o['status'], o.get('msg', ''), {k: wire.dec(v) for k, v in r['inputs'].items()})
        print('REPRODUCED' if any(o['status'] == 'fail' for o in out) else 'not reproduced')
        sys.exit(1 if any(o['status'] == 'fail' for o in out) else 0)


if __name__ == '__main__':
    main()
