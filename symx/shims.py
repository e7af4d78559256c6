"""Replacements of library functions when called from instrumented code: random, multiprocessing, numpy."""
import math
import multiprocessing as mp
import multiprocessing.pool
import random
import numpy as np
import z3
from . import core, rt
from .core import Sym, SymInt, SymBool, SymReal, Incomplete, mkint, and_, or_, ite
from .stubs_common import Rng, NpRng, PoolStub, CtxStub
from .rt import HANDLERS, handles, has_sym, deep_concrete

rng = Rng()
for _n in ('random', 'uniform', 'randint', 'randrange', 'choice', 'shuffle', 'sample', 'seed', 'getrandbits'):
    HANDLERS[getattr(random, _n)] = getattr(rng, _n)
HANDLERS[random.Random] = Rng
HANDLERS[random.SystemRandom] = Rng

HANDLERS[mp.Pool] = PoolStub
HANDLERS[multiprocessing.pool.ThreadPool] = PoolStub
HANDLERS[multiprocessing.pool.Pool] = PoolStub
HANDLERS[mp.get_context] = CtxStub
HANDLERS[mp.cpu_count] = lambda: 4


# -- numpy --------------------------------------------------------------------------------------------------------------
class SymNp(SymInt):
    """element of a symbolic array: an integer with a storage type"""
    __slots__ = ('dtype',)

    def __init__(self, e, dtype):
        self.e = e
        self.dtype = dtype

    def _sym_type(self):
        return self.dtype.type

    shape = ()
    ndim = 0

    def _seq(self, o, f):
        """an operation with a list is one with an array of its elements"""
        a = SymArray.make(o)
        return a._bin(self, f)

    def _np(self, o, f):
        """fixed-width arithmetic as numpy 2 does it: Python integers adapt to the type of the other side"""
        if isinstance(o, (list, tuple)):
            return self._seq(o, lambda a, b: f(b, a))
        if is_arr(o):
            return NotImplemented
        a = SymInt(self.e)
        if isinstance(o, (SymNp, np.integer)):
            dt = np.result_type(self.dtype, o.dtype)
            b = plain(o)
        elif isinstance(o, (int, SymInt, SymBool)):
            dt = self.dtype
            b = cast(o, dt, False)
        else:
            return f(a, o)
        if dt.kind == 'f':
            return f(to_float(a, dt), to_float(b, dt) if isinstance(b, SymInt) else float(b))
        r = f(a, b)
        if not isinstance(r, (int, SymInt)):
            return r
        r = cast(r, dt, True)
        return SymNp(r.e, dt) if isinstance(r, SymInt) else dt.type(r)

    def __add__(self, o): return self._np(o, lambda a, b: a + b)
    def __radd__(self, o): return self._np(o, lambda a, b: b + a)
    def __sub__(self, o): return self._np(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._np(o, lambda a, b: b - a)
    def __mul__(self, o): return self._np(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._np(o, lambda a, b: b * a)
    def __floordiv__(self, o): return self._np(o, lambda a, b: a // b)
    def __rfloordiv__(self, o): return self._np(o, lambda a, b: b // a)
    def __mod__(self, o): return self._np(o, lambda a, b: a % b)
    def __rmod__(self, o): return self._np(o, lambda a, b: b % a)
    def __neg__(self): return SymNp(cast(-SymInt(self.e), self.dtype, True).e, self.dtype)
    def __abs__(self): return SymNp(cast(abs(SymInt(self.e)), self.dtype, True).e, self.dtype)
    def __truediv__(self, o): return self._seq(o, lambda a, b: b / a) if isinstance(o, (list, tuple)) else SymInt.__truediv__(self, o)
    def __rtruediv__(self, o): return self._seq(o, lambda a, b: a / b) if isinstance(o, (list, tuple)) else SymInt.__rtruediv__(self, o)

    def item(self):
        return SymInt(self.e)

    def tolist(self):
        return SymInt(self.e)

    def astype(self, dt):
        return SymArray.make([self], dt, wrap=True)[0]


def is_arr(x):
    return isinstance(x, SymArray)


def int_range(dt):
    if dt.kind in 'iu':
        i = np.iinfo(dt)
        return int(i.min), int(i.max)
    return None


def plain(x):
    """python-level value of an element"""
    if isinstance(x, SymNp):
        return SymInt(x.e)
    if isinstance(x, np.generic):
        return x.item()
    return x


class SymArray(Sym):
    """array: numpy object array of python/symbolic values plus a declared dtype"""

    def __init__(self, obj, dtype):
        self.obj = obj
        self.dtype = np.dtype(dtype)

    def _sym_type(self):
        return np.ndarray

    @classmethod
    def make(cls, nested, dtype=None, wrap=False):
        if isinstance(nested, SymArray):
            a = nested.obj.copy()
            src = nested.dtype
        else:
            a = to_obj(nested)
            src = None
        if dtype is None:
            dtype = src or infer_dtype(a)
        dtype = np.dtype(dtype)
        if src is not None and src != dtype:
            wrap = True
        return cls(cast_all(a, dtype, wrap), dtype)

    # basic attributes
    shape = property(lambda s: s.obj.shape)
    ndim = property(lambda s: s.obj.ndim)
    size = property(lambda s: s.obj.size)
    T = property(lambda s: SymArray(s.obj.T, s.dtype))
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.obj.size * s.dtype.itemsize)
    flat = property(lambda s: iter([s._el(x) for x in s.obj.flat]))

    def concrete(self):
        v = deep_concrete(self.obj.tolist())
        return np.array(v, dtype=self.dtype).reshape(self.obj.shape)

    def model(self, ev):
        return ev(self.obj.tolist())

    def _el(self, x):
        if isinstance(x, np.ndarray):
            return SymArray(x, self.dtype)
        if isinstance(x, SymInt):
            return SymNp(x.e, self.dtype) if self.dtype.kind in 'iu' else x
        if isinstance(x, Sym):
            return x
        return self.dtype.type(x)

    def _idx(self, i):
        if isinstance(i, tuple):
            return tuple(self._idx(x) for x in i)
        if isinstance(i, SymArray):
            if i.dtype.kind == 'b':
                return np.array([bool(x) for x in i.obj.flat], dtype=bool).reshape(i.obj.shape)
            return i.concrete()
        if isinstance(i, slice):
            return rt.slice_index(i, len(self.obj))
        if isinstance(i, SymInt):
            return i.__index__()
        return i

    def __getitem__(self, i):
        if type(i) is slice:
            r = lazy_slice(self, i)
            if r is not None:
                return r
        if isinstance(i, SymInt) and self.obj.ndim == 1:
            return self._el(rt.seq_getitem(list(self.obj), SymInt(i.e)))
        r = self.obj[self._idx(i)]
        return SymArray(r, self.dtype) if isinstance(r, np.ndarray) else self._el(r)

    def __setitem__(self, i, v):
        if isinstance(v, SymArray):
            vv = cast_all(v.obj, self.dtype, v.dtype != self.dtype)
        elif isinstance(v, (list, tuple, np.ndarray)):
            vv = cast_all(to_obj(v), self.dtype, isinstance(v, np.ndarray))
        else:
            vv = cast(v, self.dtype, False)
        if isinstance(vv, np.ndarray):
            tgt = self.obj[self._idx(i)]
            tgt_shape = tgt.shape if isinstance(tgt, np.ndarray) else ()
            if tgt_shape != vv.shape:
                np.broadcast_to(np.zeros(vv.shape), tgt_shape)  # raises ValueError as numpy does
        self.obj[self._idx(i)] = vv

    def __len__(self):
        return len(self.obj)

    def __iter__(self):
        return iter([self[i] for i in range(len(self.obj))])

    def __bool__(self):
        if self.obj.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(self.obj.flat[0])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __contains__(self, x):
        return any(bool(y == x) for y in self.obj.flat)

    def tolist(self):
        return self.obj.tolist()

    def item(self, *a):
        return self.obj.item(*a) if not a else self.obj[a]

    def copy(self):
        return SymArray(self.obj.copy(), self.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, **k):
        return SymArray(cast_all(self.obj, np.dtype(dt), True), dt)

    def reshape(self, *s):
        return SymArray(self.obj.reshape(*s), self.dtype)

    def ravel(self): return SymArray(self.obj.ravel(), self.dtype)
    def flatten(self): return SymArray(self.obj.flatten(), self.dtype)
    def transpose(self, *a): return SymArray(self.obj.transpose(*a), self.dtype)
    def squeeze(self, *a): return SymArray(self.obj.squeeze(*a), self.dtype)

    def fill(self, v):
        self.obj[...] = cast(v, self.dtype, False)

    def sum(self, axis=None, dtype=None, **k):
        _only(k, 'sum')
        r = reduce_(self, axis, lambda vs: sum(vs[1:], vs[0]) if vs else 0, wide=True)
        return r if dtype is None else h_array(r, dtype=dtype) if is_arr(r) else HANDLERS.get(dtype, dtype)(r)

    def max(self, axis=None, initial=None, **k):
        _only(k, 'max')
        first = [] if initial is None else [initial]
        return reduce_(self, axis, lambda vs: rt.h_max(first + vs) if first + vs else _raise_empty('maximum'))

    def min(self, axis=None, initial=None, **k):
        _only(k, 'min')
        first = [] if initial is None else [initial]
        return reduce_(self, axis, lambda vs: rt.h_min(first + vs) if first + vs else _raise_empty('minimum'))

    def prod(self, axis=None, **k):
        _only(k, 'prod')

        def f(vs):
            r = 1
            for v in vs:
                r = r * v
            return r
        return reduce_(self, axis, f, wide=True)

    def ptp(self, axis=None): return self.max(axis) - self.min(axis)

    def cumsum(self, axis=None, dtype=None, **k):
        _only(k, 'cumsum')
        a = self.obj.ravel() if axis is None else self.obj
        if a.ndim != 1:
            raise Incomplete('running sums of a matrix')
        dt = self.dtype if dtype is None else np.dtype(dtype)
        if dtype is None and dt.kind in 'iub':
            dt = np.dtype(np.uint64 if dt.kind == 'u' else np.int64)
        res, tot = np.empty(a.shape, dtype=object), 0
        for i, x in enumerate(a):
            tot = tot + plain(x)
            res[i] = tot
        return SymArray(cast_all(res, dt, True), dt)

    def argmax(self, axis=None, **k): return self._arg(lambda a, b: a > b, axis)
    def argmin(self, axis=None, **k): return self._arg(lambda a, b: a < b, axis)

    def _arg(self, better, axis):
        if axis is not None and self.obj.ndim > 1:
            raise Incomplete('position of an extreme value in a matrix')
        v = [plain(x) for x in self.obj.flat]
        if not v:
            raise ValueError('attempt to get argmax of an empty sequence')
        k = 0
        for i in range(1, len(v)):
            if better(v[i], v[k]):
                k = i
        return np.int64(k)

    def nonzero(self):
        m = np.array([bool(x != 0) if self.dtype.kind != 'b' else bool(x) for x in self.obj.flat], dtype=bool).reshape(self.obj.shape)
        return m.nonzero()

    def take(self, idx, axis=None): return self[idx] if axis in (None, 0) else self[(slice(None),) * axis + (idx,)]
    def repeat(self, n, axis=None): return SymArray(np.repeat(self.obj, deep_concrete(n), axis=axis), self.dtype)
    def swapaxes(self, a, b): return SymArray(self.obj.swapaxes(a, b), self.dtype)

    def clip(self, lo=None, hi=None, **k):
        r = self.obj.copy()
        for i in np.ndindex(r.shape):
            if lo is not None and r[i] < lo:
                r[i] = lo
            elif hi is not None and r[i] > hi:
                r[i] = hi
        return SymArray(cast_all(r, self.dtype, False), self.dtype)

    def mean(self, axis=None, **k):
        return reduce_(self, axis, lambda vs: sum(vs[1:], vs[0]) / len(vs), flt=True)

    def any(self, axis=None, **k):
        _only(k, 'any')
        return self._log(or_, axis)

    def all(self, axis=None, **k):
        _only(k, 'all')
        return self._log(and_, axis)

    def _log(self, f, axis):
        def one(vs):
            return f(*[x if isinstance(x, SymBool) else x != 0 if isinstance(x, Sym) else bool(x) for x in vs])
        if axis is None:
            return one(self.obj.flat)
        a = np.moveaxis(self.obj, axis, -1)
        res = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(res.shape):
            res[i] = one(a[i])
        return SymArray(res, bool)

    def argsort(self, axis=-1, kind=None, **k):
        if self.obj.ndim != 1:
            raise Incomplete('argsort of a matrix')
        v = list(self.obj)
        return np.array(sorted(range(len(v)), key=lambda i: v[i]), dtype=np.int64)

    def sort(self, axis=-1, **k):
        if self.obj.ndim != 1:
            raise Incomplete('sort of a matrix')
        self.obj[:] = sorted(self.obj)

    def _bin(self, o, f, cmp=False, rev=False):
        b = o.obj if isinstance(o, SymArray) else o
        if isinstance(b, (list, tuple)):
            b = to_obj(b)
        a = self.obj
        if isinstance(b, np.ndarray):
            a, b = np.broadcast_arrays(a, b)
            res = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                x, y = plain(a[i]), plain(b[i])
                res[i] = f(y, x) if rev else f(x, y)
        else:
            b = plain(b)
            res = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                res[i] = f(b, plain(a[i])) if rev else f(plain(a[i]), b)
        if cmp:
            return SymArray(res, bool)
        odt = o.dtype if hasattr(o, 'dtype') else None
        dt = self.dtype if odt is None else np.result_type(self.dtype, odt)
        if any(isinstance(x, (SymReal, float)) for x in res.flat):
            return SymArray(res, np.float64)
        return SymArray(cast_all(res, dt, True), dt)

    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, True)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, True)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, True)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, True)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, True)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, True)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, rev=True)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: a / b, rev=True)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: a // b, rev=True)
    def __rmod__(self, o): return self._bin(o, lambda a, b: a % b, rev=True)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)

    def _inplace(self, r):
        if not np.can_cast(r.dtype, self.dtype, 'same_kind'):
            raise TypeError(f'Cannot cast ufunc output from {r.dtype} to {self.dtype}')
        self.obj[...] = cast_all(r.obj, self.dtype, True)
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __ifloordiv__(self, o): return self._inplace(self // o)
    def __abs__(self): return SymArray(np.frompyfunc(abs, 1, 1)(self.obj), self.dtype)
    def __neg__(self): return SymArray(cast_all(np.frompyfunc(lambda x: -x, 1, 1)(self.obj), self.dtype, True), self.dtype)
    def __invert__(self): return SymArray(np.frompyfunc(rt.not_op, 1, 1)(self.obj), bool)
    def __and__(self, o): return SymArray(np.frompyfunc(lambda a, b: and_(a, b), 2, 1)(self.obj, getattr(o, 'obj', o)), bool)
    def __or__(self, o): return SymArray(np.frompyfunc(lambda a, b: or_(a, b), 2, 1)(self.obj, getattr(o, 'obj', o)), bool)
    def __repr__(self): return f'SymArray({self.obj.tolist()}, {self.dtype})'

    def __reduce__(self):
        return (_mk_arr, (self.obj.tolist(), self.obj.shape, self.dtype.str))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


class LazySeg(SymArray):
    """slice of an array between symbolic bounds; its length stays symbolic until an element is needed"""

    def __init__(self, base, start, stop):
        self._base, self._start, self._stop = base, start, stop
        self._obj = None
        self.dtype = base.dtype

    @property
    def obj(self):
        if self._obj is None:
            a = self._base.obj if isinstance(self._base, SymArray) else to_obj(self._base)
            i, j = (x.__index__() if isinstance(x, SymInt) else x for x in (self._start, self._stop))
            self._obj = a[i:j]
        return self._obj

    def sym_len(self):
        return self._stop - self._start if self._obj is None else len(self._obj)

    @property
    def size(self):
        return self.sym_len()

    def __bool__(self):
        raise Incomplete('truth of a slice of unknown length')


def lazy_slice(o, i):
    if i.step is not None or o.ndim != 1 or not (isinstance(i.start, SymInt) or isinstance(i.stop, SymInt)):
        return None
    a = 0 if i.start is None else i.start
    b = len(o) if i.stop is None else i.stop
    a = SymInt(a.e) if isinstance(a, SymInt) else a
    b = SymInt(b.e) if isinstance(b, SymInt) else b
    c = and_(a >= 0, a <= b, b <= len(o))
    if c is True or (isinstance(c, SymBool) and core.ENG.valid(c.e)):
        return LazySeg(o, a, b)
    return None


rt.LAZY_SLICE[0] = lambda o, i: lazy_slice(o, i) if isinstance(o, np.ndarray) and o.dtype.kind in 'iu' else None


def _mk_arr(lst, shape, dt):
    return SymArray(to_obj(lst).reshape(shape), dt)


def _only(k, what):
    bad = [n for n, v in k.items() if n in ('where', 'out') and v is not None or n == 'keepdims' and v]
    if bad:
        raise Incomplete(f'{what} with {bad}')


def _raise_empty(n):
    raise ValueError(f'zero-size array to reduction operation {n} which has no identity')


def reduce_(arr, axis, f, wide=False, flt=False):
    dt = arr.dtype
    if wide and dt.kind in 'iub':
        dt = np.dtype(np.uint64 if dt.kind == 'u' else np.int64)
    if axis is None:
        r = f([plain(x) for x in arr.obj.flat])
        return SymNp(r.e, dt) if isinstance(r, SymInt) else r if isinstance(r, Sym) or flt else dt.type(r)
    a = np.moveaxis(arr.obj, axis, -1)
    res = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(res.shape):
        res[i] = f([plain(x) for x in a[i]])
    return SymArray(res, np.float64 if flt else dt)


def to_obj(nested):
    """numpy object array from nested sequences"""
    if isinstance(nested, SymArray):
        return nested.obj
    if isinstance(nested, np.ndarray):
        r = np.empty(nested.shape, dtype=object)
        for i in np.ndindex(nested.shape):
            r[i] = nested[i].item() if hasattr(nested[i], 'item') else nested[i]
        return r
    if isinstance(nested, (list, tuple)):
        kids = [to_obj(x) for x in nested]
        shapes = {k.shape if isinstance(k, np.ndarray) else () for k in kids}
        if not kids:
            return np.empty((0,), dtype=object)
        if len(shapes) > 1:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        sh = shapes.pop()
        r = np.empty((len(kids),) + sh, dtype=object)
        for i, k in enumerate(kids):
            r[i] = k
        return r
    return plain(nested)


def infer_dtype(a):
    if a is None or not isinstance(a, np.ndarray):
        a = np.array([a], dtype=object)
    vals = list(a.flat)
    if any(isinstance(v, (float, SymReal)) for v in vals) or not vals:
        return np.float64
    if all(isinstance(v, (bool, SymBool)) for v in vals):
        return np.bool_
    if not all(isinstance(v, (int, SymInt, SymBool)) for v in vals):
        return object
    lo, hi = -2 ** 63, 2 ** 63
    if and_(*[and_(v >= lo, v < hi) for v in vals]):
        return np.int64
    if and_(*[and_(v >= 0, v < 2 ** 64) for v in vals]):
        return np.uint64
    if and_(*[and_(v >= lo, v < 2 ** 64) for v in vals]):
        return np.float64
    return object


def cast(v, dt, wrap):
    v = plain(v)
    r = int_range(dt)
    if r is not None:
        if isinstance(v, (float, SymReal)):
            if isinstance(v, float):
                return int(v)
            t = v.__trunc__()
            return t
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, SymBool):
            v = v._i()
        lo, hi = r
        if isinstance(v, SymInt):
            ok = z3.And(v.e >= lo, v.e <= hi)
            if core.ENG.valid(ok):
                return v
            if wrap:
                n = hi - lo + 1
                return SymInt((v.e - lo) % n + lo)
            if not core.ENG.branch(ok):
                raise OverflowError(f'Python integer out of bounds for {dt}')
            return v
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            if wrap:
                return (v - lo) % (hi - lo + 1) + lo
            raise OverflowError(f'Python integer {v} out of bounds for {dt}')
        if isinstance(v, np.ndarray):
            raise ValueError('setting an array element with a sequence.')
        return int(v)
    if dt.kind == 'f':
        if isinstance(v, SymInt):
            return to_float(v, dt)
        if isinstance(v, SymBool):
            return SymReal(core.toreal_z3(v))
        if isinstance(v, SymReal):
            return v
        return float(v)
    if dt.kind == 'b':
        if isinstance(v, SymInt):
            return core.mkbool(v.e != 0)
        return v if isinstance(v, SymBool) else bool(v)
    return v


def to_float(v, dt):
    lim = 2 ** 53 if dt.itemsize == 8 else 2 ** 24 if dt.itemsize == 4 else 2 ** 11
    if core.ENG.branch(z3.And(v.e >= -lim, v.e <= lim)):
        return SymReal(z3.ToReal(v.e))
    # rounding to nearest even for the next binade, otherwise one concrete value per path
    if core.ENG.branch(z3.And(v.e > lim, v.e < 2 * lim)):
        q = v.e / 2
        r = v.e % 2
        return SymReal(z3.ToReal(z3.If(r == 0, v.e, z3.If(q % 2 == 0, q * 2, q * 2 + 2))))
    raise Incomplete('rounding of a large symbolic integer to floating point')


def cast_all(a, dt, wrap):
    if not isinstance(a, np.ndarray):
        r = np.empty((), dtype=object)
        r[()] = cast(a, dt, wrap)
        return r
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        r[i] = cast(a[i], dt, wrap)
    return r


def arr_sym(x):
    return has_sym(x) or is_arr(x)


@handles(np.array, np.asarray)
def h_array(x, dtype=None, copy=True, **k):
    if not arr_sym(x):
        return np.array(x, dtype=dtype, **k)
    return SymArray.make(x, dtype)


def _filled(v):
    def f(shape, dtype=float, **k):
        shape = deep_concrete(shape)
        a = np.empty(shape, dtype=object)
        dt = np.dtype(dtype)
        a[...] = cast(v, dt, False)
        return SymArray(a, dt)
    return f


HANDLERS[np.zeros] = _filled(0)
HANDLERS[np.ones] = _filled(1)
HANDLERS[np.empty] = _filled(0)


@handles(np.full)
def h_full(shape, fill_value, dtype=None, **k):
    shape = deep_concrete(shape)
    if dtype is None:
        dtype = infer_dtype(to_obj([fill_value]))
    dt = np.dtype(dtype)
    a = np.empty(shape, dtype=object)
    a[...] = cast(fill_value, dt, False)
    return SymArray(a, dt)


def dt_of(x):
    return x.dtype if hasattr(x, 'dtype') else np.dtype(infer_dtype(to_obj(x) if isinstance(x, (list, tuple)) else to_obj([x])))


@handles(np.concatenate)
def h_concat(arrs, axis=0, dtype=None, **k):
    arrs = list(arrs)
    if not any(arr_sym(a) for a in arrs):
        return np.concatenate(arrs, axis=axis, dtype=dtype, **k)
    dt = np.dtype(dtype) if dtype is not None else np.result_type(*[dt_of(a) for a in arrs])
    objs = [cast_all(to_obj(a), dt, True) for a in arrs]
    return SymArray(np.concatenate(objs, axis=axis), dt)


@handles(np.append)
def h_append(arr, values, axis=None):
    if not arr_sym(arr) and not arr_sym(values):
        return np.append(arr, values, axis=axis)
    if axis is None:
        def flat(x):
            if isinstance(x, SymArray):
                return x.ravel()
            if isinstance(x, SymNp):
                return SymArray(cast_all(to_obj([x]), x.dtype, False), x.dtype)
            if isinstance(x, SymInt):
                return SymArray.make([x])
            if isinstance(x, (list, tuple)) and has_sym(x):
                return SymArray.make(x).ravel()
            return np.ravel(x)
        return h_concat([flat(arr), flat(values)])
    return h_concat([arr, values], axis=axis)


@handles(np.insert)
def h_insert(arr, obj, values, axis=None):
    if not arr_sym(arr) and not arr_sym(values):
        return np.insert(arr, obj, values, axis=axis)
    a = arr if is_arr(arr) else SymArray.make(arr)
    o = to_obj(values) if isinstance(values, (list, tuple, np.ndarray, SymArray)) else values
    if isinstance(o, np.ndarray):
        o = cast_all(o, a.dtype, True)
    else:
        o = cast(o, a.dtype, True)
    return SymArray(np.insert(a.obj, deep_concrete(obj), o, axis=axis), a.dtype)


def _stack(f):
    def h(arrs, *a, **k):
        arrs = list(arrs)
        if not any(arr_sym(x) for x in arrs):
            return f(arrs, *a, **k)
        dt = np.result_type(*[dt_of(x) for x in arrs])
        return SymArray(f([cast_all(to_obj(x), dt, True) for x in arrs], *a, **k), dt)
    return h


for _f in (np.stack, np.vstack, np.hstack, np.column_stack):
    HANDLERS[_f] = _stack(_f)


@handles(np.sum)
def h_npsum(x, axis=None, **k):
    return (x if is_arr(x) else SymArray.make(x)).sum(axis) if arr_sym(x) else np.sum(x, axis=axis, **k)


@handles(np.max, np.amax)
def h_npmax(x, axis=None, **k):
    return (x if is_arr(x) else SymArray.make(x)).max(axis) if arr_sym(x) else np.max(x, axis=axis, **k)


@handles(np.min, np.amin)
def h_npmin(x, axis=None, **k):
    return (x if is_arr(x) else SymArray.make(x)).min(axis) if arr_sym(x) else np.min(x, axis=axis, **k)


@handles(np.mean, np.average)
def h_npmean(x, axis=None, **k):
    return (x if is_arr(x) else SymArray.make(x)).mean(axis) if arr_sym(x) else np.mean(x, axis=axis, **k)


@handles(np.transpose)
def h_transpose(x, axes=None):
    return x.transpose() if is_arr(x) else np.transpose(x, axes)


@handles(np.argsort)
def h_argsort(x, *a, **k):
    return SymArray.make(x).argsort(*a, **k) if arr_sym(x) else np.argsort(x, *a, **k)


@handles(np.abs, np.absolute)
def h_npabs(x):
    return abs(x) if isinstance(x, Sym) else np.abs(x)


@handles(np.isscalar)
def h_isscalar(x):
    return isinstance(x, SymInt) or np.isscalar(x)


@handles(np.array_equal)
def h_aeq(a, b, **k):
    if not arr_sym(a) and not arr_sym(b):
        return np.array_equal(a, b, **k)
    x, y = to_obj(a), to_obj(b)
    return x.shape == y.shape and and_(*[rt.eq(p, q) for p, q in zip(x.flat, y.flat)])


@handles(np.where)
def h_where(c, *xy):
    if not any(arr_sym(z) for z in (c,) + xy):
        return np.where(c, *xy)
    if not xy:
        return np.where(c.concrete() if is_arr(c) else c)
    c, x, y = np.broadcast_arrays(to_obj(c), to_obj(xy[0]), to_obj(xy[1]))
    r = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        r[i] = ite(c[i], x[i], y[i])
    return SymArray.make(r.tolist())


def _method(f, name):
    """numpy function that is the method of the same array"""
    def h(x, *a, **k):
        if not arr_sym(x) and not arr_sym(a) and not arr_sym(k):
            return f(x, *a, **k)
        return getattr(x if is_arr(x) else SymArray.make(x), name)(*a, **k)
    HANDLERS[f] = h


for _n in ('cumsum', 'prod', 'ptp', 'argmax', 'argmin', 'nonzero', 'take', 'repeat', 'swapaxes', 'clip', 'ravel', 'reshape', 'squeeze', 'copy', 'any', 'all'):
    _method(getattr(np, _n), _n)


@handles(np.sum)
def h_npsum2(x, axis=None, **k):
    return (x if is_arr(x) else SymArray.make(x)).sum(axis, **k) if arr_sym(x) else np.sum(x, axis=axis, **k)


@handles(np.max, np.amax)
def h_npmax2(x, axis=None, **k):
    return (x if is_arr(x) else SymArray.make(x)).max(axis, **k) if arr_sym(x) or arr_sym(k) else np.max(x, axis=axis, **k)


@handles(np.min, np.amin)
def h_npmin2(x, axis=None, **k):
    return (x if is_arr(x) else SymArray.make(x)).min(axis, **k) if arr_sym(x) or arr_sym(k) else np.min(x, axis=axis, **k)


@handles(np.sort)
def h_npsort(x, *a, **k):
    if not arr_sym(x):
        return np.sort(x, *a, **k)
    r = SymArray.make(x)
    r.sort(*a, **k)
    return r


@handles(np.count_nonzero)
def h_count_nonzero(x, axis=None, **k):
    if not arr_sym(x):
        return np.count_nonzero(x, axis=axis, **k)
    return ((x if is_arr(x) else SymArray.make(x)) != 0).sum(axis)


@handles(np.lexsort)
def h_lexsort(keys, axis=-1):
    if not arr_sym(keys):
        return np.lexsort(keys, axis=axis)
    cols = [list(k.obj) if is_arr(k) else list(k) for k in keys]
    return np.array(sorted(range(len(cols[0])), key=lambda i: tuple(c[i] for c in reversed(cols))), dtype=np.int64)


@handles(np.flip)
def h_flip(x, axis=None):
    return SymArray(np.flip(x.obj, axis), x.dtype) if is_arr(x) else np.flip(x, axis)


@handles(np.diff)
def h_diff(x, *a, **k):
    if not arr_sym(x) or a or k:
        return np_fallback(np.diff)(x, *a, **k)
    x = x if is_arr(x) else SymArray.make(x)
    return x[1:] - x[:-1]


@handles(np.fromiter)
def h_fromiter(it, dtype, count=-1, **k):
    items = list(it)
    if count >= 0:
        items = items[:count]
    return SymArray.make(items, dtype) if has_sym(items) else np.fromiter(items, dtype)


def _like(v):
    def f(x, dtype=None, shape=None, **k):
        return _filled(v)(x.shape if shape is None else shape, dtype or dt_of(x))
    return f


HANDLERS[np.zeros_like], HANDLERS[np.ones_like], HANDLERS[np.empty_like] = _like(0), _like(1), _like(0)


@handles(np.full_like)
def h_full_like(x, fill_value, dtype=None, shape=None, **k):
    return h_full(x.shape if shape is None else shape, fill_value, dtype or dt_of(x))


@handles(np.pad)
def h_pad(x, pad_width, mode='constant', constant_values=0, **k):
    if not arr_sym(x) and not arr_sym(constant_values) and not arr_sym(pad_width):
        return np.pad(x, pad_width, mode, **(dict(constant_values=constant_values) if mode == 'constant' else {}), **k)
    if mode != 'constant':
        raise Incomplete(f'pad mode {mode}')
    x = x if is_arr(x) else SymArray.make(x)
    return SymArray(cast_all(np.pad(x.obj, deep_concrete(pad_width), 'constant', constant_values=constant_values), x.dtype, True), x.dtype)


def _ufunc2(f, op):
    def h(a, b, out=None, **k):
        if not arr_sym(a) and not arr_sym(b):
            return f(a, b, **k) if out is None else f(a, b, out=out, **k)
        if out is not None or k:
            raise Incomplete(f'{f} with options')
        if not is_arr(a) and not is_arr(b) and not isinstance(a, (list, tuple, np.ndarray)) and not isinstance(b, (list, tuple, np.ndarray)):
            return op(a, b)
        a = a if is_arr(a) else SymArray.make(a if isinstance(a, (list, tuple, np.ndarray)) else [a])
        return op(a, b)
    HANDLERS[f] = h


for _f, _op in ((np.add, lambda a, b: a + b), (np.subtract, lambda a, b: a - b), (np.multiply, lambda a, b: a * b), (np.true_divide, lambda a, b: a / b),
                (np.floor_divide, lambda a, b: a // b), (np.mod, lambda a, b: a % b), (np.equal, lambda a, b: rt.eq(a, b) if not is_arr(a) else a == b),
                (np.not_equal, lambda a, b: a != b), (np.less, lambda a, b: a < b), (np.less_equal, lambda a, b: a <= b), (np.greater, lambda a, b: a > b),
                (np.greater_equal, lambda a, b: a >= b),
                (np.maximum, lambda a, b: a._bin(b, lambda x, y: x if x >= y else y) if is_arr(a) else rt.h_max(a, b)),
                (np.minimum, lambda a, b: a._bin(b, lambda x, y: x if x <= y else y) if is_arr(a) else rt.h_min(a, b))):
    _ufunc2(_f, _op)


@handles(np.atleast_1d)
def h_atleast_1d(x):
    return np.atleast_1d(x) if not arr_sym(x) else (lambda a: a if a.obj.ndim else a.reshape(1))(x if is_arr(x) else SymArray.make(x if isinstance(x, (list, tuple)) else [x]))


@handles(np.unique)
def h_unique(x, **k):
    if not arr_sym(x):
        return np.unique(x, **k)
    if set(n for n, v in k.items() if v) - {'return_counts'}:
        raise Incomplete('unique with options')
    x = x if is_arr(x) else SymArray.make(x)
    vals, counts = [], []
    for v in sorted(plain(e) for e in x.obj.flat):
        if vals and v == vals[-1]:
            counts[-1] += 1
        else:
            vals.append(v)
            counts.append(1)
    r = SymArray(cast_all(to_obj(vals), x.dtype, True), x.dtype)
    return (r, np.array(counts)) if k.get('return_counts') else r


def _npint(t):
    dt = np.dtype(t)

    def f(x=0):
        if is_arr(x):
            return x.astype(dt)
        if isinstance(x, SymReal):
            x = x.__trunc__()
        if isinstance(x, (SymInt, SymBool)):
            r = cast(x, dt, isinstance(x, SymNp))
            return SymNp(core.toint_z3(r), dt) if isinstance(r, SymInt) else dt.type(r)
        return t(x)
    return f


for _t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
    HANDLERS[_t] = _npint(_t)


class _NpRng(NpRng):
    @staticmethod
    def copyrow(r):
        return r.copy() if hasattr(r, 'copy') and not isinstance(r, SymNp) else r


_nr = _NpRng()
for _n in ('shuffle', 'permutation', 'random', 'rand', 'randint', 'choice', 'seed'):
    HANDLERS[getattr(np.random, _n)] = getattr(_nr, _n)
HANDLERS[np.random.default_rng] = _NpRng
HANDLERS[np.random.RandomState] = _NpRng


def np_fallback(f):
    """any other numpy function: element-wise over python values if it can, else one concrete array per path"""
    def h(*a, **k):
        if not arr_sym(a) and not arr_sym(k) and not any(is_arr(x) for x in a):
            return f(*a, **k)
        conc = [x.concrete() if is_arr(x) else deep_concrete(x) for x in a]
        return f(*conc, **{n: (x.concrete() if is_arr(x) else deep_concrete(x)) for n, x in k.items()})
    return h


for _n in dir(np):
    _f = getattr(np, _n)
    try:
        if callable(_f) and not isinstance(_f, type) and _f not in HANDLERS:
            HANDLERS[_f] = np_fallback(_f)
    except TypeError:
        pass
