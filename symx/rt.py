"""Runtime of instrumented code: calls, subscripts, containers and formatting with symbolic operands."""
import builtins
import collections as coll
import dataclasses
import fractions
import io
import itertools
import math
import os
import string
import sys
import types
import z3
from . import core
from .core import Sym, SymBool, SymInt, SymReal, Incomplete, mkint, mkbool, and_, or_, not_, ite
from . import strs
from .strs import SymStr, SymBytes, Fmt, mkstr, mkbytes, str_join, is_strlike
from . import cont
from .cont import (SymUnion, SymDict, SymDefaultDict, SymCounter, SymSet, SymFrozenSet, mkunion, sym_key, dict_get,
                   dict_has, MISSING, DView)

FUNCTIONS = set()      # instrumented functions entered during the run
HANDLERS = {}          # callable -> replacement
METHODS = {}           # underlying function of a bound python method -> replacement(self, *a, **k)
EXTRA_SYM = []         # further symbolic classes (arrays)


def enter(name):
    FUNCTIONS.add(name)


def handles(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[f] = h
        return h
    return deco


# -- inspection -------------------------------------------------------------------------------------------------------
def has_sym(x, depth=6):
    if isinstance(x, Sym):
        return True
    if depth == 0:
        return False
    if isinstance(x, (str, int, float, bytes, type(None), type, types.FunctionType)):
        return False
    if isinstance(x, (list, tuple, coll.deque)):
        return any(has_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        if isinstance(x, SymDict) and x._nbox:
            return True
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, (SymSet,)):
        return x._d._nbox > 0
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return any(has_sym(getattr(x, f.name, None), depth - 1) for f in dataclasses.fields(x))
    return False


def deep_concrete(x):
    """forks until x contains no symbolic values"""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return x.__index__()
    if isinstance(x, SymReal):
        return float(core.ENG.concretise_real(x.e))
    if isinstance(x, (SymStr, SymBytes)):
        return x.concrete()
    if isinstance(x, SymUnion):
        return deep_concrete(x.pick())
    if isinstance(x, Sym):
        return x.concrete()
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return type(x)(*[deep_concrete(y) for y in x])
    if type(x) in (list, tuple):
        return type(x)(deep_concrete(y) for y in x)
    if isinstance(x, dict) and has_sym(x):
        return {deep_concrete(k): deep_concrete(v) for k, v in x.items()}
    if isinstance(x, SymSet):
        return set(deep_concrete(y) for y in x)
    if isinstance(x, DView):
        return [deep_concrete(y) for y in x]
    return x


def deep_model(x, m=None):
    """the value of x under the engine's current model"""
    E = core.ENG

    def ev(e):
        return E.meval(e)

    if isinstance(x, SymBool):
        return z3.is_true(ev(x.e))
    if isinstance(x, SymInt):
        return ev(x.e).as_long()
    if isinstance(x, SymReal):
        v = ev(x.e)
        return fractions.Fraction(v.numerator_as_long(), v.denominator_as_long()) if z3.is_rational_value(v) else \
            fractions.Fraction(v.approx(20).numerator_as_long(), v.approx(20).denominator_as_long())
    if isinstance(x, SymStr):
        res = []
        for c in x.cells:
            if isinstance(c, Fmt):
                v = deep_model(c.value)
                v = {'r': repr, 's': str, 'a': ascii}.get(c.conv, lambda y: y)(v)
                if isinstance(v, fractions.Fraction):
                    v = float(v)
                res.append(format(v, c.spec))
            else:
                res.append(chr(c if isinstance(c, int) else ev(c).as_long()))
        return ''.join(res)
    if isinstance(x, SymBytes):
        return bytes(c if isinstance(c, int) else ev(c).as_long() for c in x.cells)
    if isinstance(x, SymUnion):
        return deep_model(x.table[ev(x.sel).as_long()])
    if isinstance(x, Sym):
        return x.model(deep_model)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return tuple(deep_model(y) for y in x)
    if isinstance(x, (list, tuple)):
        return type(x)(deep_model(y) for y in x)
    if isinstance(x, dict):
        return {deep_model(k): deep_model(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return {deep_model(y) for y in x}
    return x


def eq(a, b):
    """deep equality as SymBool/bool without forking where possible"""
    if a is b:
        return True
    if isinstance(a, DView) or type(a).__name__ in ('dict_keys', 'dict_items'):
        a = list(a)
    if isinstance(b, DView) or type(b).__name__ in ('dict_keys', 'dict_items'):
        b = list(b)
    if isinstance(a, (SymStr, SymUnion)):
        return a.eq(b)
    if isinstance(b, (SymStr, SymUnion)):
        return b.eq(a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        res = []
        for x, y in zip(a, b):
            r = eq(x, y)
            if r is False:
                return False
            res.append(r)
        return and_(*res)
    if isinstance(a, dict) and isinstance(b, dict):
        if not isinstance(a, SymDict):
            a = SymDict(a)
        return a.eq(b)
    if isinstance(a, SymSet) or isinstance(b, SymSet):
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return a == b if isinstance(a, SymSet) else b == a
        return False
    r = a == b
    if isinstance(r, SymBool):
        return r
    if r is NotImplemented:
        return False
    if hasattr(r, 'all'):
        return bool(r.all())
    return bool(r)


# -- operators --------------------------------------------------------------------------------------------------------
def contains(c, x):
    if isinstance(c, SymDict):
        return dict_has(c, x)
    if isinstance(c, SymSet):
        return c.has(x)
    if isinstance(c, DView):
        return dict_has(c.d, x) if c.is_keys else or_(*[eq(y, x) for y in c])
    if sym_key(x):
        if isinstance(c, dict):
            return dict_has(c, x)
        if isinstance(c, (set, frozenset, type({}.keys()))):
            return set_has(c, x)
        if isinstance(c, (list, tuple)):
            return or_(*[eq(y, x) for y in c])
        if isinstance(c, range) and isinstance(x, SymInt) and c.step == 1:
            return and_(x >= c.start, x < c.stop)
        if isinstance(c, str):
            return str_contains(c, x)
    elif isinstance(c, (list, tuple)) and has_sym(c, 2):
        return or_(*[eq(y, x) for y in c])
    return x in c


def set_has(c, x):
    if isinstance(x, (SymInt, SymUnion)) and len(c) > 8:
        if isinstance(x, SymInt) and all(type(y) is int for y in c):
            return SymBool(cont.in_ranges(x.e, list(c)))
        if isinstance(x, SymUnion):
            return mkunion(x.sel, {k: v in c for k, v in x.table.items()})
    return or_(*[cont.key_eq(y, x) for y in c])


def str_contains(c, x):
    if isinstance(x, SymStr) and len(x.cells) == 1 and not isinstance(x.cells[0], Fmt):
        return or_(*[SymBool(x.cells[0] == ord(ch)) for ch in c])
    return SymStr([ord(ch) for ch in c]).find(x) >= 0


LAZY_SLICE = [None]


def getitem(o, i):
    if isinstance(i, Sym) and not isinstance(o, Sym):
        if isinstance(o, (list, tuple)):
            return seq_getitem(o, i)
        if isinstance(o, str) and isinstance(i, SymInt):
            c = seq_getitem([ord(ch) for ch in o], i)
            return mkstr([c.e if isinstance(c, SymInt) else c])
        if isinstance(o, bytes) and isinstance(i, SymInt):
            return seq_getitem(list(o), i)
    if isinstance(o, dict) and not isinstance(o, SymDict) and sym_key(i):
        v = dict_get(o, i)
        if v is MISSING:
            if hasattr(type(o), '__missing__'):
                return o[deep_concrete(i)]
            raise KeyError(i)
        return v
    if type(i) is slice and (isinstance(i.start, Sym) or isinstance(i.stop, Sym) or isinstance(i.step, Sym)) \
            and not isinstance(o, Sym):
        r = LAZY_SLICE[0](o, i) if LAZY_SLICE[0] is not None else None
        if r is not None:
            return r
        return o[slice_index(i, len(o))]
    return o[i]


def slice_index(s, n):
    """concrete slice with the same effect on a sequence of length n; out-of-range values are one case each"""
    def one(x):
        if not isinstance(x, SymInt):
            return x if x is None else x.__index__()
        if x >= n:
            return n
        if x < -n:
            return -n - 1 if s.step is not None and int(s.step) < 0 else -n
        return x.__index__()
    return slice(one(s.start), one(s.stop), None if s.step is None else s.step.__index__())


def seq_getitem(o, i):
    n = len(o)
    if isinstance(i, (SymBool, SymUnion)):
        i = mkint(core.toint_z3(i)) if isinstance(i, SymBool) else i.__index__()
    if not isinstance(i, SymInt):
        return o[i]
    e = i.e
    B = core.ENG.branch
    if B(e < 0):
        if not B(e >= -n):
            raise IndexError('list index out of range')
        e = e + n
    elif not B(e < n):
        raise IndexError('list index out of range')
    if n == 1:
        return o[0]
    vals = list(o)
    imm = all(isinstance(v, (str, int, float, bytes, type(None), SymInt, SymBool)) for v in vals)
    if imm and all(isinstance(v, (int, SymInt)) and not isinstance(v, bool) for v in vals) and n <= 600:
        if all(isinstance(v, int) for v in vals):
            return mkunion(e, dict(enumerate(vals)))
        r = vals[-1]
        for k in range(n - 2, -1, -1):
            r = ite(SymBool(e == k), vals[k], r)
        return r
    if imm and not any(isinstance(v, Sym) for v in vals):
        return mkunion(e, dict(enumerate(vals)))
    if n > 16 and not any(isinstance(v, Sym) for v in vals):
        return mkunion(e, dict(enumerate(vals)))
    return o[core.ENG.concretise(e, (), 'of an index')]


OPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
       'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b, 'BitAnd': lambda a, b: a & b,
       'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b, 'LShift': lambda a, b: a << b,
       'RShift': lambda a, b: a >> b, 'Pow': lambda a, b: a ** b, 'MatMult': lambda a, b: a @ b}


def _iop(op, a, b):
    if op == 'Add':
        a += b
    elif op == 'Sub':
        a -= b
    elif op == 'Mult':
        a *= b
    elif op == 'Div':
        a /= b
    elif op == 'BitOr':
        a |= b
    elif op == 'BitAnd':
        a &= b
    elif op == 'BitXor':
        a ^= b
    else:
        a = OPS[op](a, b)
    return a


def aug(o, i, op, val):
    if isinstance(o, SymDict) and sym_key(i):
        default = MISSING
        if isinstance(o, SymCounter):
            default = 0
        elif isinstance(o, SymDefaultDict) and o.default_factory is int:
            default = 0
        o.update_item(i, lambda v: _iop(op, v, val), default)
        return
    if type(o) is list and isinstance(i, SymInt) and all(isinstance(v, (int, SymInt)) for v in o) and len(o) <= 600:
        n = len(o)
        e = i.e
        B = core.ENG.branch
        if B(e < 0):
            if not B(e >= -n):
                raise IndexError('list index out of range')
            e = e + n
        elif not B(e < n):
            raise IndexError('list index out of range')
        for k in range(n):
            o[k] = ite(SymBool(e == k), _iop(op, o[k], val), o[k])
        return
    o[i] = _iop(op, getitem(o, i), val)


def not_op(x):
    return not_(x) if isinstance(x, SymBool) else not x


def mkdict(pairs):
    d = SymDict()
    for k, v in pairs:
        if k is STAR:
            d.update(v)
        else:
            d[k] = v
    return d


STAR = object()


def mkset(items):
    return SymSet(items)


# -- text ---------------------------------------------------------------------------------------------------------------
def fmt_value(v, conv=None, spec=''):
    """cells of one formatted value"""
    if isinstance(spec, Sym):
        spec = deep_concrete(spec)
    if conv in (None, 's') and spec in ('', 's'):
        if isinstance(v, str):
            return strs.raw_cells(v)
        if isinstance(v, SymStr):
            return list(v.cells)
    if isinstance(v, SymUnion):
        def one(x):
            y = {'r': repr, 's': str, 'a': ascii}.get(conv, lambda t: t)(x)
            return format(y, spec)
        u = v.map(one)
        return UnionText(u)
    if isinstance(v, SymInt) and conv is None and spec and spec[-1] in 'xXbo':
        E = core.ENG
        if E.valid(z3.And(v.e >= 0, v.e < 256)):
            return UnionText(mkunion(v.e, {k: format(k, spec) for k in range(256)}))
    if isinstance(v, Sym):
        return [Fmt(v, conv, spec)]
    if isinstance(v, (str, int, float, bytes)) or v is None:
        r = {'r': repr, 's': str, 'a': ascii}.get(conv, lambda t: t)(v)
        return strs.raw_cells(format(r, spec))
    if has_sym(v):
        return [Fmt(v, conv, spec)]
    r = {'r': repr, 's': str, 'a': ascii}.get(conv, lambda t: t)(v)
    if isinstance(r, Sym):
        return strs.raw_cells(r)
    return strs.raw_cells(format(r, spec))


class UnionText:
    def __init__(self, u):
        self.u = u


def _join_cells(parts):
    """parts: strings, cell lists or UnionText"""
    if len(parts) == 1 and isinstance(parts[0], UnionText):
        return parts[0].u
    cells = []
    if sum(isinstance(p, UnionText) for p in parts) == 1 and \
            all(isinstance(p, UnionText) or all(isinstance(c, int) for c in p) for p in parts):
        # constant text around one union: stay a union
        u = next(p.u for p in parts if isinstance(p, UnionText))
        if isinstance(u, SymUnion):
            k = next(i for i, p in enumerate(parts) if isinstance(p, UnionText))
            pre = ''.join(chr(c) for p in parts[:k] for c in p)
            post = ''.join(chr(c) for p in parts[k + 1:] for c in p)
            return u.map(lambda v: pre + v + post)
    for p in parts:
        if isinstance(p, UnionText):
            cells.extend(strs.raw_cells(p.u))
        else:
            cells.extend(p)
    return mkstr(cells)


def fstr(*parts):
    """parts: constant strings or (value, conversion, spec)"""
    return _join_cells([[ord(c) for c in p] if isinstance(p, str) else fmt_value(*p) for p in parts])


def str_format(fmt, *a, **k):
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append([ord(c) for c in lit])
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        first, rest = __import__('_string').formatter_field_name_split(field)
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, nm in rest:
            v = getattr(v, nm) if is_attr else v[nm]
        if spec and '{' in spec:
            spec = deep_concrete(str_format(spec, *a, **k))
        parts.append(fmt_value(v, conv, spec or ''))
    return _join_cells(parts or [[]])


def pct_format(fmt, arg):
    args = arg if isinstance(arg, tuple) else (arg,)
    i = 0
    parts = []
    n = 0
    import re
    for m in re.finditer(r'%(%|[-#0 +]*\d*(?:\.\d+)?[sdrifgxXc])', fmt):
        parts.append([ord(c) for c in fmt[i:m.start()]])
        i = m.end()
        t = m.group(1)
        if t == '%':
            parts.append([37])
            continue
        v = args[n]
        n += 1
        if t in ('s', 'd', 'r', 'i') and isinstance(v, Sym):
            if t in 'di' and isinstance(v, SymReal):
                v = v.__trunc__()
            parts.append(fmt_value(v, 'r' if t == 'r' else 's' if isinstance(v, (SymStr,)) else None, ''))
        elif t == 'c' and isinstance(v, (SymInt, SymStr)):
            parts.append(fmt_value(h_chr(v) if isinstance(v, SymInt) else v, 's', ''))
        elif isinstance(v, (SymInt, SymReal)) and re.fullmatch(r'[-0 +]*\d*(\.\d+)?[dixXfg]', t) and not ('.' in t and t[-1] in 'dixX'):
            flags, width, prec = re.match(r'([-0 +]*)(\d*)(\.\d+)?', t).groups()
            if t[-1] in 'dixX' and isinstance(v, SymReal):
                v = v.__trunc__()
            spec = ('<' if '-' in flags else '' if '0' in flags else '>' if width else '') + ('+' if '+' in flags else ' ' if ' ' in flags else '')
            spec += ('0' if '0' in flags and '-' not in flags else '') + width + (prec or '') + ('d' if t[-1] == 'i' else t[-1])
            parts.append(fmt_value(v, None, spec))
        elif has_sym(v):
            parts.append([ord(c) for c in ('%' + t) % (deep_concrete(v),)])
        else:
            parts.append([ord(c) for c in ('%' + t) % (v,)])
    parts.append([ord(c) for c in fmt[i:]])
    return _join_cells(parts)


def binmod(a, b):
    if isinstance(a, str) and has_sym(b):
        return pct_format(a, b)
    return a % b


# -- calls ---------------------------------------------------------------------------------------------------------------
BUILTIN = types.BuiltinFunctionType
MDESC = type(str.encode)
import logging as _logging


def call(f, *a, **k):
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is types.MethodType:
        self = f.__self__
        if isinstance(self, _logging.Logger):
            return True if f.__name__ == 'isEnabledFor' else None
        h = METHODS.get(f.__func__)
        if h is not None:
            return h(self, *a, **k)
        return f(*a, **k)
    if t is BUILTIN:
        self = f.__self__
        if type(self) is str:
            r = call_strmethod(self, f.__name__, a, k)
            if r is not MISSING:
                return r
        elif type(self) in (dict, set, frozenset, coll.Counter, coll.defaultdict) and a and sym_key(a[0]):
            return native_container_method(self, f, a, k)
        elif type(self) is type and issubclass(self, str) or self is str:
            pass
        else:
            h = BUILTIN_METHODS.get((type(self) if not isinstance(self, type) else self, f.__name__))
            if h is not None:
                return h(self, *a, **k)
    elif t is MDESC and a and isinstance(a[0], Sym):
        return call(getattr(a[0], f.__name__), *a[1:], **k)
    elif t is MDESC and f.__objclass__ is str and a and isinstance(a[0], str):
        return call(getattr(a[0], f.__name__), *a[1:], **k)
    elif t is types.FunctionType:
        return f(*a, **k)
    try:
        return f(*a, **k)
    except TypeError as e:
        if t in (BUILTIN, type, MDESC) or t.__module__ in ('builtins', 'functools', 'numpy'):
            if is_user_class(f) or not (has_sym(a) or has_sym(k)):
                raise
            return f(*deep_concrete(a), **deep_concrete(k))
        raise


BUILTIN_METHODS = {}


def is_user_class(f):
    return isinstance(f, type) and getattr(f, '__module__', '').startswith(('nlcodec', 'harness', 'experimental', 'uxdx'))


def call_strmethod(s, name, a, k):
    if name == 'join' and len(a) == 1:
        parts = list(a[0])
        if not any(isinstance(p, Sym) for p in parts):
            return s.join(parts)
        if len(parts) == 1:
            p = parts[0]
            if not is_strlike(p):
                raise TypeError('sequence item 0: expected str instance')
            return p
        return str_join(s, parts)
    if name == 'format':
        return str_format(s, *a, **k) if has_sym(a) or has_sym(k) else s.format(*a, **k)
    if a and has_sym(a, 2):
        return getattr(SymStr([ord(c) for c in s]), name)(*a, **k)
    return MISSING


def native_container_method(self, f, a, k):
    name = f.__name__
    if isinstance(self, dict):
        if name == 'get':
            return dict_get(self, a[0], a[1] if len(a) > 1 else k.get('default'))
        if name in ('pop', 'setdefault', '__getitem__', '__contains__'):
            s = cont.find_stored(self, a[0])
            if s is MISSING:
                return f(deep_concrete(a[0]), *a[1:])
            return f(s, *a[1:])
    elif name in ('add', 'discard', 'remove'):
        for s in list(self):
            if cont.key_eq(s, a[0]):
                return f(s)
        return f(deep_concrete(a[0]))
    return f(*deep_concrete(a), **k)


# -- builtins -----------------------------------------------------------------------------------------------------------
PYTYPE = [(SymBool, bool), (SymInt, int), (SymReal, float), (SymStr, str), (strs.SymByteArray, bytearray), (SymBytes, bytes), (SymCounter, coll.Counter),
          (SymDefaultDict, coll.defaultdict), (SymDict, dict), (SymFrozenSet, frozenset), (SymSet, set)]


@handles(type)
def h_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymUnion):
            ts = {type(v) for v in x.table.values()}
            return ts.pop() if len(ts) == 1 else type(x.pick())
        if hasattr(x, '_sym_type'):
            return x._sym_type()
        for s, p in PYTYPE:
            if type(x) is s:
                return p
    return type(*a)


@handles(isinstance)
def h_isinstance(x, t):
    if isinstance(x, SymUnion):
        return x.all_instance(t)
    if hasattr(type(x), '_sym_type'):
        return issubclass(x._sym_type(), t)
    for s, p in PYTYPE:
        if type(x) is s:
            return issubclass(p, t) or isinstance(x, t)
    return isinstance(x, t)


@handles(len)
def h_len(x):
    if isinstance(x, SymUnion):
        return x.map(len)
    if hasattr(type(x), 'sym_len'):
        return x.sym_len()
    return len(x)


@handles(str)
def h_str(*a, **k):
    if not a or k or len(a) > 1:
        if a and isinstance(a[0], SymBytes):
            enc = a[1] if len(a) > 1 else k.get('encoding', 'utf-8')
            err = a[2] if len(a) > 2 else k.get('errors', 'strict')
            return a[0].decode(enc, err)
        return str(*a, **k)
    x = a[0]
    if isinstance(x, SymStr):
        return x
    if isinstance(x, (Sym, list, tuple, dict, set)) or has_sym(x, 2):
        return fstr((x, 's', '')) if not isinstance(x, SymInt) else fstr((x, None, ''))
    r = type(x).__str__(x)
    return r


@handles(repr)
def h_repr(x):
    return fstr((x, 'r', '')) if has_sym(x) else repr(x)


@handles(format)
def h_format(x, spec=''):
    return fstr((x, None, spec))


@handles(int)
def h_int(x=0, base=None):
    if isinstance(x, (SymStr, SymUnion)) and is_strlike(x):
        return strs.int_of_str(x, 10 if base is None else base)
    if isinstance(x, SymUnion):
        return x.map(int)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymReal):
        return x.__trunc__()
    if isinstance(x, Sym) and hasattr(x, 'item'):
        return h_int(x.item())
    return int(x) if base is None else int(x, base)


@handles(float)
def h_float(x=0.0):
    if isinstance(x, SymInt):
        return float_of_int(x)
    if isinstance(x, SymBool):
        return SymReal(core.toreal_z3(x))
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymStr):
        t = x.strip()
        if isinstance(t, SymStr) and len(t.cells) == 1 and isinstance(t.cells[0], strs.Fmt) and t.cells[0].is_dec:
            return h_float(t.cells[0].value)
        return float(x.concrete())
    return float(x)


def float_of_int(x):
    """the nearest float: exact up to 2**53, above that rounded to multiples of a power of two, ties to even"""
    B = core.ENG.branch
    e = x.e
    if core.ENG.valid(z3.And(e >= -2 ** 53, e <= 2 ** 53)) or B(z3.And(e >= -2 ** 53, e <= 2 ** 53)):
        return SymReal(z3.ToReal(e))
    a = z3.If(e < 0, -e, e)
    for k in range(1, 20):
        if B(a < 2 ** (53 + k)):
            step = 2 ** k
            q, r = a / step, a % step
            q = z3.If(z3.Or(2 * r > step, z3.And(2 * r == step, q % 2 == 1)), q + 1, q)
            return SymReal(z3.ToReal(z3.If(e < 0, -q, q) * step))
    raise Incomplete('float of an integer of more than 72 bits')


@handles(ord)
def h_ord(x):
    if isinstance(x, SymStr):
        c = x.chars()
        if len(c) != 1:
            raise TypeError(f'ord() expected a character, but string of length {len(c)} found')
        return c[0] if isinstance(c[0], int) else SymInt(c[0])
    if isinstance(x, SymUnion):
        return x.map(ord)
    return ord(x)


@handles(chr)
def h_chr(x):
    if isinstance(x, SymInt):
        if not core.ENG.branch(z3.And(x.e >= 0, x.e <= strs.MAXCP)):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr([x.e])
    return chr(x)


@handles(hex)
def h_hex(x):
    return fstr('0x', (x, None, 'x')) if isinstance(x, SymInt) else hex(x)


def _minmax(name, native, a, k):
    items = list(a[0]) if len(a) == 1 else list(a)
    key = k.get('key')
    if not items:
        if 'default' in k:
            return k['default']
        raise ValueError(f'{name}() iterable argument is empty')
    num = (int, float, SymInt, SymBool, SymReal)
    if not any(isinstance(x, Sym) for x in items) and key is None:
        return native(items)
    if key is None and all(isinstance(x, num) or (hasattr(x, 'dtype') and getattr(x, 'shape', None) == ())
                           for x in items):
        dts = {getattr(x, 'dtype', None) for x in items}
        if len(dts) > 1 and any(d is not None and d.itemsize < 8 for d in dts):
            return native(items)         # which element wins decides the type of the result
        items = [x if isinstance(x, Sym) else x.item() if hasattr(x, 'dtype') else x for x in items]
        if any(isinstance(x, float) and (math.isinf(x) or math.isnan(x)) for x in items):
            return native(items)
        r = items[0]
        for x in items[1:]:
            c = (x < r) if name == 'min' else (x > r)
            r = ite(c, x, r)
        dt = dts.pop() if len(dts) == 1 else None
        if dt is not None and dt.kind in 'iu':
            from .shims import SymNp
            r = SymNp(r.e, dt) if isinstance(r, SymInt) else dt.type(r)
        return r
    return native(items, key=key) if key is not None else native(items)


@handles(min)
def h_min(*a, **k):
    return _minmax('min', min, a, k)


@handles(max)
def h_max(*a, **k):
    return _minmax('max', max, a, k)


@handles(dict)
def h_dict(*a, **k):
    return SymDict(*a, **k)


@handles(coll.OrderedDict)
def h_odict(*a, **k):
    return SymDict(*a, **k)


@handles(set)
def h_set(*a):
    return SymSet(*a)


@handles(frozenset)
def h_frozenset(*a):
    return SymFrozenSet(*a)


@handles(coll.Counter)
def h_counter(*a, **k):
    c = SymCounter()
    if a or k:
        c.update(*a, **k)
    return c


@handles(coll.defaultdict)
def h_defaultdict(factory=None, *a, **k):
    f = factory
    if factory in (set, dict, coll.Counter, frozenset):
        h = HANDLERS[factory]
        f = lambda: h()
    return SymDefaultDict(f, *a, **k)


@handles(dict.fromkeys)
def h_fromkeys(it, v=None):
    return SymDict.fromkeys(it, v)


def wrapf(f):
    """a function handed to native code"""
    try:
        special = f in HANDLERS or type(f) in (BUILTIN, MDESC)
    except TypeError:
        special = False
    if special or type(f) is types.MethodType and f.__func__ in METHODS:
        return lambda *a, **k: call(f, *a, **k)
    return f


@handles(map)
def h_map(f, *its):
    return map(wrapf(f), *its)


@handles(filter)
def h_filter(f, it):
    return filter(None if f is None else wrapf(f), it)


@handles(hash)
def h_hash(x):
    if cont.SET_ORDER_HOOK[0] is not None:
        h = cont.SET_ORDER_HOOK[0].hashed(x)
        if h is not None:
            return h
    return hash(x)


@handles(sorted)
def h_sorted(it, key=None, reverse=False):
    if key is None and type(it) is cont.SymSet:
        it = it._elems()  # the order of the set does not matter
    return sorted(it, key=None if key is None else wrapf(key), reverse=reverse)


@handles(bytes)
def h_bytes(*a, **k):
    if a and isinstance(a[0], SymBytes):
        return mkbytes(a[0].cells)
    if a and isinstance(a[0], (SymStr, SymUnion)):
        return strs.utf8_encode(a[0].as_symstr() if isinstance(a[0], SymUnion) else a[0], *a[1:], **k)
    if a and not isinstance(a[0], (bytes, bytearray, str, int, SymInt)):
        cells = []
        for x in a[0]:
            if isinstance(x, (SymInt, SymBool)):
                e = core.toint_z3(x)
                if not core.ENG.branch(z3.And(e >= 0, e < 256)):
                    raise ValueError('bytes must be in range(0, 256)')
                cells.append(e)
            else:
                b = x.__index__()
                if not 0 <= b < 256:
                    raise ValueError('bytes must be in range(0, 256)')
                cells.append(b)
        return mkbytes(cells)
    return bytes(*a, **k)


@handles(bytearray)
def h_bytearray(*a, **k):
    b = h_bytes(*a, **k)
    return strs.SymByteArray(strs.byte_cells(b))


@handles(bytes.fromhex)
def h_fromhex(s):
    return strs.bytes_fromhex(s)


BUILTIN_METHODS[(bytes, 'fromhex')] = lambda self, s: strs.bytes_fromhex(s)


@handles(print)
def h_print(*a, sep=' ', end='\n', file=None, flush=False):
    if file is None:
        file = sys.stdout
        if file is None or isinstance(file, io.TextIOWrapper):
            return
    sep = ' ' if sep is None else sep
    end = '\n' if end is None else end
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(strs.raw_cells(sep))
        parts.append(fmt_value(x, 's' if not isinstance(x, SymInt) else None, ''))
    parts.append(strs.raw_cells(end))
    file.write(_join_cells(parts))


@handles(math.ceil)
def h_ceil(x):
    return x.__ceil__() if isinstance(x, Sym) else math.ceil(x)


@handles(math.floor)
def h_floor(x):
    return x.__floor__() if isinstance(x, Sym) else math.floor(x)


def _nolog(*a, **k):
    return None


for _n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'basicConfig'):
    if hasattr(_logging, _n):
        HANDLERS[getattr(_logging, _n)] = _nolog

import time as _time
for _n in ('time', 'perf_counter', 'monotonic', 'process_time'):
    HANDLERS[getattr(_time, _n)] = lambda: 1.0e9
HANDLERS[_time.sleep] = _nolog
import datetime as _dt
for _n in ('now', 'utcnow', 'today'):
    BUILTIN_METHODS[(_dt.datetime, _n)] = lambda self, *a, **k: _dt.datetime(2020, 1, 1)
import resource as _res
_ru = _res.getrusage(_res.RUSAGE_SELF)
HANDLERS[_res.getrusage] = lambda who: _ru


# -- characters ----------------------------------------------------------------------------------------------------------
import unicodedata as _ud


@handles(_ud.normalize)
def h_normalize(form, s):
    return s.normalize(form) if isinstance(s, SymStr) else _ud.normalize(form, mkconcrete(s))


def _ucat(name):
    from . import uni
    f = getattr(_ud, name)

    def g(ch):
        if isinstance(ch, SymStr) and len(ch) == 1:
            return uni.category(ch, name)
        return f(mkconcrete(ch))
    return g


from .strs import mkconcrete
for _n in ('category', 'bidirectional', 'east_asian_width'):
    HANDLERS[getattr(_ud, _n)] = _ucat(_n)
