"""Nondeterministic stand-ins for the environment, used identically in symbolic runs and in replays:
random number generators, worker pools.  CUR[0] is the current env (symbolic or replaying)."""
import itertools

CUR = [None]


def env():
    return CUR[0]


class Rng:
    """any outcome a random generator may produce"""

    def __init__(self, *a, **k):
        pass

    def seed(self, *a, **k):
        return None

    def random(self, *a, **k):
        return env().real('rand', 0, 1, hi_open=True)

    def uniform(self, a=0, b=1):
        return a + (b - a) * self.random()

    def pick(self, lo, hi):
        return env().pick('draw', lo, hi)

    def randint(self, a, b):
        return self.pick(a, b)

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        r = range(a, b, step)
        return r[self.pick(0, len(r) - 1)]

    def choice(self, seq):
        return seq[self.pick(0, len(seq) - 1)]

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self.pick(0, i)
            x[i], x[j] = x[j], x[i]

    def sample(self, pop, k=None):
        pop = list(pop)
        res = []
        for _ in range(k):
            res.append(pop.pop(self.pick(0, len(pop) - 1)))
        return res

    def getrandbits(self, n):
        return self.pick(0, 2 ** n - 1)


class NpRng:
    """numpy flavour; np is the module (real or shimmed functions given by the subclass)"""
    copyrow = staticmethod(lambda r: r.copy() if hasattr(r, 'copy') else r)

    def __init__(self, *a, **k):
        pass

    def seed(self, *a, **k):
        return None

    def shuffle(self, x, axis=0):
        for i in range(len(x) - 1, 0, -1):
            j = env().pick('draw', 0, i)
            if i != j:
                t = self.copyrow(x[i])
                x[i] = self.copyrow(x[j])
                x[j] = t

    def _perm(self, n):
        p = list(range(n))
        for i in range(n - 1, 0, -1):
            j = env().pick('draw', 0, i)
            p[i], p[j] = p[j], p[i]
        return p

    def permutation(self, x):
        import numpy as np
        if isinstance(x, int):
            return np.array(self._perm(x))
        return x[np.array(self._perm(len(x)), dtype=int)] if hasattr(x, 'dtype') else \
            np.array([x[i] for i in self._perm(len(x))])

    def random(self, *a, **k):
        if a or k:
            raise NotImplementedError('array of random reals')
        return env().real('rand', 0, 1, hi_open=True)

    rand = random

    def randint(self, lo, hi=None, size=None):
        if hi is None:
            lo, hi = 0, lo
        if size is not None:
            raise NotImplementedError
        return env().pick('draw', lo, hi - 1)

    integers = randint

    def choice(self, a, size=None, replace=True):
        seq = list(range(a)) if isinstance(a, int) else a
        if size is None:
            return seq[env().pick('draw', 0, len(seq) - 1)]
        raise NotImplementedError


class PoolStub:
    """contract of multiprocessing.Pool: map/imap deliver in order, imap_unordered in any order; the iterable is consumed
    eagerly by imap, and an exception it raises is delivered when the results reach that point"""
    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if initializer is not None:
            initializer(*initargs)

    def __enter__(self): return self
    def __exit__(self, *a): return None
    def close(self): pass
    def terminate(self): pass
    def join(self): pass

    @staticmethod
    def _pull(it):
        res = []
        try:
            for x in it:
                res.append((True, x))
        except Exception as e:
            res.append((False, e))
        return res

    def imap(self, f, it, chunksize=1):
        items = self._pull(it)

        def gen():
            for ok, x in items:
                if not ok:
                    raise x
                yield f(x)
        return gen()

    def imap_unordered(self, f, it, chunksize=1):
        items = self._pull(it)
        order = list(items)
        fails = [x for x in order if not x[0]]
        order = [x for x in order if x[0]]
        if chunksize == 1 or len(order) <= chunksize:
            Rng().shuffle(order)
        else:
            chunks = [order[i:i + chunksize] for i in range(0, len(order), chunksize)]
            Rng().shuffle(chunks)
            order = [x for c in chunks for x in c]

        def gen():
            for ok, x in order + fails:
                if not ok:
                    raise x
                yield f(x)
        return gen()

    def map(self, f, it, chunksize=None):
        return [f(x) for x in it]

    def starmap(self, f, it, chunksize=None):
        return [f(*x) for x in it]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def map_async(self, f, it, chunksize=None, callback=None):
        return Result([f(x) for x in it])

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        r = f(*args, **kwds)
        if callback:
            callback(r)
        return Result(r)


class Result:
    def __init__(self, v): self.v = v
    def get(self, timeout=None): return self.v
    def wait(self, timeout=None): pass
    def ready(self): return True


class CtxStub:
    def __init__(self, *a): pass
    Pool = PoolStub
    def cpu_count(self): return 4


# directory listings come in any order when an environment asks for it
DIR_ORDER = [False]


def _any_order(items):
    items = sorted(items, key=str)
    if not DIR_ORDER[0] or env() is None:
        return items
    res = []
    while items:
        res.append(items.pop(env().pick('entry', 0, len(items) - 1)))
    return res


def _patch_dirs():
    import os
    import pathlib
    import glob as _glob

    def wrap(owner, name):
        orig = getattr(owner, name)

        def f(*a, **k):
            r = orig(*a, **k)
            return r if not DIR_ORDER[0] else (_any_order(r) if isinstance(r, list) else iter(_any_order(r)))
        f.__name__ = name
        f.__wrapped__ = orig
        setattr(owner, name, f)
    wrap(pathlib.Path, 'glob')
    wrap(pathlib.Path, 'rglob')
    wrap(pathlib.Path, 'iterdir')
    wrap(os, 'listdir')
    wrap(_glob, 'glob')


_patch_dirs()
