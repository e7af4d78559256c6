"""The environment handed to harness functions in symbolic runs."""
import fractions
import os
import shutil
import traceback
import z3
from . import core, rt, strs, stubs_common, files, crashfs, cont
from .core import (SymInt, SymBool, SymReal, PathEnd, Incomplete, and_, or_, not_, implies, ite, mkint, mkbool)
from .strs import SymStr, mkstr

SUR = (0xD800, 0xDFFF)


MAIN_CODE = {}


class Env:
    symbolic = True
    SimCrash = crashfs.SimCrash

    def __init__(self, engine, scratch):
        self.E = engine
        self.scratch = scratch
        self.n = {}
        self.observed = []
        self.vars = {}
        self.cache = engine.__dict__.setdefault('_zvars', {})
        self.checks = 0

    # -- operators usable in both modes
    and_ = staticmethod(and_)
    or_ = staticmethod(or_)
    not_ = staticmethod(not_)
    implies = staticmethod(implies)
    ite = staticmethod(ite)
    eq = staticmethod(rt.eq)

    def all(self, it):
        return and_(*list(it))

    def any(self, it):
        return or_(*list(it))

    def sum_if(self, pairs):
        """sum of v over the pairs (condition, v) whose condition holds"""
        r = 0
        for c, v in pairs:
            r = r + ite(c, v, 0) if isinstance(c, SymBool) else (r + v if c else r)
        return r

    # -- inputs
    def _name(self, name):
        k = self.n.get(name, 0)
        self.n[name] = k + 1
        return f'{name}#{k}'

    def _var(self, name, mk):
        v = self.cache.get(name)
        if v is None:
            v = self.cache[name] = mk(name)
        return v

    def int(self, name, lo, hi):
        nm = self._name(name)
        if lo > hi:
            raise PathEnd('empty range')
        if not isinstance(lo, SymInt) and not isinstance(hi, SymInt) and lo == hi:
            self.E.inputs[nm] = lo
            return lo
        v = self._var(nm, z3.Int)
        self.E.inputs[nm] = SymInt(v)
        self.E.assume(z3.And(v >= core.toint_z3(lo), v <= core.toint_z3(hi)))
        return SymInt(v)

    def bool(self, name):
        nm = self._name(name)
        v = self._var(nm, z3.Bool)
        self.E.inputs[nm] = SymBool(v)
        return SymBool(v)

    def real(self, name, lo, hi, lo_open=False, hi_open=False):
        nm = self._name(name)
        v = self._var(nm, z3.Real)
        self.E.inputs[nm] = SymReal(v)
        l, h = core.toreal_z3(lo), core.toreal_z3(hi)
        self.E.assume(z3.And(v > l if lo_open else v >= l, v < h if hi_open else v <= h))
        return SymReal(v)

    def pick(self, name, lo, hi):
        """concrete value: every one is explored"""
        v = self.int(name, lo, hi)
        if isinstance(v, SymInt):
            v = self.E.concretise(v.e, (), name)
        return v

    def flag(self, name):
        return bool(self.pick(name, 0, 1))

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, 0, len(options) - 1)]

    def char(self, name='c', alphabet=None, surrogates=False, exclude=''):
        """one symbolic character; alphabet: string, or list of (lo, hi) code point ranges"""
        nm = self._name(name)
        v = self._var(nm, z3.Int)
        self.E.inputs[nm] = SymStr([v])
        if alphabet is None:
            alphabet = [(0, strs.MAXCP)]
        if isinstance(alphabet, str):
            alphabet = [(ord(c), ord(c)) for c in alphabet]
        cond = z3.Or([v == a if a == b else z3.And(v >= a, v <= b) for a, b in alphabet])
        if not surrogates:
            cond = z3.And(cond, z3.Or(v < SUR[0], v > SUR[1]))
        for c in exclude:
            cond = z3.And(cond, v != ord(c))
        self.E.assume(cond)
        return mkstr([v])

    def string(self, name, lo, hi=None, **kw):
        """symbolic string; every length in lo..hi is explored"""
        n = lo if hi is None or hi == lo else self.pick(name + '_len', lo, hi)
        return rt.call_strmethod('', 'join', ([self.char(name, **kw) for _ in range(n)],), {}) if n else ''

    # -- obligations
    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.E.assume(cond.e)
        elif not cond:
            raise PathEnd('assume')

    def check(self, cond, msg=''):
        self.checks += 1
        self.E.stats.asserts += 1
        if isinstance(cond, SymInt):
            cond = cond != 0
        if not isinstance(cond, SymBool):
            if cond:
                return
            self.violate(msg)
        E = self.E
        m = E.model
        if m is not None and z3.is_false(m.eval(cond.e, model_completion=True)):
            self.violate(msg)
        ok = E.valid(cond.e)
        if not ok:
            E.solver.push()
            E.solver.add(z3.Not(cond.e))
            try:
                assert E.check()
                E.model = E.last_model
                self.violate(msg, end=False)
            finally:
                E.solver.pop()
            E.model = None
            raise PathEnd('violated')

    def violate(self, msg, end=True):
        E = self.E
        E.cur_model()
        E.ces.append(dict(inputs={k: rt.deep_model(v) for k, v in E.inputs.items()}, msg=str(msg)))
        if end:
            raise PathEnd('violated')

    def fail(self, msg):
        self.check(False, msg)

    def observe(self, name, value):
        self.observed.append((name, value))

    def reach(self, tag):
        self.E.reached.add(tag)

    def raises(self, excs, fn, *a, **k):
        """(True, exception) if fn raises one of excs, else (False, result)"""
        try:
            return False, fn(*a, **k)
        except excs as e:
            return True, e

    # -- scratch files
    def tmp(self):
        p = os.path.join(self.scratch, 'w')
        crashfs.State.armed = None
        if os.path.isdir(p):
            shutil.rmtree(p)
        os.makedirs(p)
        from pathlib import Path
        return Path(p)

    def null(self, mode='r'):
        return open(os.devnull, mode)

    def as_main(self, name):
        """executes a module of the code under test as a program"""
        import importlib.util
        from . import instr
        code = MAIN_CODE.get(name)
        if code is None:
            path = importlib.util.find_spec(name).origin
            with open(path, encoding='utf8') as f:
                code = MAIN_CODE[name] = instr.instrument(f.read(), path, name)
        exec(code, {instr.NAME: instr.S, '__name__': '__main__', '__file__': code.co_filename})

    def program_ended(self):
        files.program_ended()

    def crash_arm(self, max_events=60, lines=False):
        """from here on the process may stop at any change to the file system: the point is a symbolic input"""
        st = crashfs.State
        st.dead = False
        st.log = []
        point = self.int('crash_at', 0, max_events)
        count = [0]

        def armed(desc):
            i = count[0]
            count[0] += 1
            if i > max_events:
                raise Incomplete('more file events than the bound')
            return bool(point == i)

        def prefix(n, path, data=b''):
            i = count[0]
            count[0] += 1
            if i > max_events:
                raise Incomplete('more file events than the bound')
            if not bool(point == i):
                return None
            k = self.pick('torn', 0, 4 if lines else 3)
            return [0, min(1, n - 1), n // 2, n - 1, data.rfind(b'\n', 0, n - 1) + 1][k]
        st.armed, st.prefix = armed, prefix

    def crash_disarm(self):
        st = crashfs.State
        st.armed = st.prefix = None
        st.dead = False

    def dir_order(self, on=True):
        """directory listings come in any order"""
        stubs_common.DIR_ORDER[0] = on

    def orders(self):
        """runs the loop body once, with every iteration order of sets hashed by identity"""
        self.set_order()
        yield 0
        self.set_order(False)

    def across(self, fn):
        """results of fn in processes with different hash seeds; here: once with a fixed and once with an arbitrary order of every
        set of strings (the same order whenever a set has the same strings)"""
        a = fn()
        self.set_order(strings=True)
        b = fn()
        self.set_order(False)
        return [a, b]

    def set_order(self, on=True, strings=False):
        """iteration order of sets of objects hashed by identity (and of strings) is arbitrary"""
        if not on:
            cont.SET_ORDER_HOOK[0] = None
            return
        memo = {}

        def seeded(x):
            return isinstance(x, (str, bytes, strs.SymStr)) or isinstance(x, tuple) and any(seeded(y) for y in x)

        def hashed(x):
            if not strings or not (type(x) is str or isinstance(x, tuple) and seeded(x)):
                return None
            if ('h', x) not in memo:
                memo['h', x] = self.int('hash', -2 ** 63, 2 ** 63 - 1)
            return memo['h', x]

        def hook(el):
            el = list(el)
            if strings and len(el) > 1 and any(seeded(x) for x in el):
                plain = all(type(x) is str for x in el)
                key = frozenset(el) if plain else None
                if key not in memo or not plain:
                    left, res = list(el), []
                    while left:
                        res.append(left.pop(self.pick('order', 0, len(left) - 1)))
                    memo[key] = res
                return list(memo[key])
            if len(el) < 2 or not any(type(x).__hash__ is not object.__hash__ and type(x).__module__.startswith('nlcodec')
                                      for x in el):
                return list(set(el)) if el and all(type(x) is int for x in el) else el
            res = []
            while el:
                res.append(el.pop(self.pick('order', 0, len(el) - 1)))
            return res
        hook.hashed = hashed
        cont.SET_ORDER_HOOK[0] = hook


def run_job(engine, fn, params, scratch, max_samples=24, max_paths=None, seed=1):
    """explores fn completely; returns whether the exploration was exhaustive"""
    import random as _r
    rnd = _r.Random(seed)
    state = {}

    def run():
        files.reset()
        cont.SET_ORDER_HOOK[0] = None
        stubs_common.DIR_ORDER[0] = False
        crashfs.State.armed = crashfs.State.prefix = None
        crashfs.State.dead = False
        env = Env(engine, scratch)
        state['env'] = env
        stubs_common.CUR[0] = env
        try:
            fn(env, **params)
        except (Exception, crashfs.SimCrash) as e:
            crashfs.State.armed = crashfs.State.prefix = None
            crashfs.State.dead = False
            if isinstance(e, RecursionError):
                raise Incomplete('recursion limit')
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb)
                                if '/symx/' not in f.filename)[:200]
            try:
                text = str(e)
            except Exception:
                text = '?'
            engine.last_tb = ''.join(traceback.format_exception(e))
            env.violate(f'unexpected {type(e).__name__}: {text[:200]} at {where}')

    def on_path():
        env = state['env']
        n = engine.stats.complete
        k = len(engine.samples)
        take = k < max_samples
        if not take:
            j = rnd.randrange(n)
            if j < max_samples:
                take, k = True, j
        if take:
            s = dict(inputs={a: rt.deep_model(v) for a, v in engine.inputs.items()},
                     observed=[(a, rt.deep_model(v)) for a, v in env.observed])
            if k < len(engine.samples):
                engine.samples[k] = s
            else:
                engine.samples.append(s)
    return engine.explore(run, on_path, max_paths)
