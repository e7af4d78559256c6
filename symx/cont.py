"""Guarded unions, dictionaries and sets with symbolic keys."""
import collections as coll
import z3
from . import core
from .core import Sym, SymInt, SymBool, SymReal, Incomplete, mkint, mkbool, and_, or_, not_
from .strs import SymStr, SymBytes, mkstr, is_strlike, _z, Fmt

SCALAR = (int, bool)
PURE = (str, int, float, bytes, tuple, bool, type(None))


def ranges_of(ks):
    ks = sorted(ks)
    res = []
    for k in ks:
        if res and res[-1][1] == k - 1:
            res[-1][1] = k
        else:
            res.append([k, k])
    return res


def in_ranges(sel, ks):
    return z3.Or([sel == a if a == b else z3.And(sel >= a, sel <= b) for a, b in ranges_of(ks)]) if ks \
        else z3.BoolVal(False)


def mkunion(sel, table):
    """value table[sel]; collapses to a plain symbolic scalar or constant where it can"""
    vals = list(table.values())
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(isinstance(v, bool) for v in vals):
        if all(v == v0 for v in vals):
            return v0
        t = [k for k, v in table.items() if v]
        f = [k for k, v in table.items() if not v]
        return SymBool(in_ranges(sel, t)) if len(ranges_of(t)) <= len(ranges_of(f)) else SymBool(z3.Not(in_ranges(sel, f)))
    if all(isinstance(v, int) and not isinstance(v, bool) for v in vals):
        if all(v == v0 for v in vals):
            return v0
        k0 = next(iter(table))
        if all(v - k == v0 - k0 for k, v in table.items()):
            return mkint(sel + (v0 - k0) if v0 != k0 else sel)
        groups = coll.OrderedDict()
        for k, v in table.items():
            groups.setdefault(v, []).append(k)
        items = sorted(groups.items(), key=lambda g: len(ranges_of(g[1])))
        e = z3.IntVal(items[-1][0])
        for v, ks in items[:-1]:
            e = z3.If(in_ranges(sel, ks), z3.IntVal(v), e)
        return SymInt(e)
    if all(type(v) in (str, bytes, float) for v in vals) and all(type(v) is type(v0) and v == v0 for v in vals):
        return v0
    if any(isinstance(v, (SymInt, SymBool, SymReal)) for v in vals) and \
            all(isinstance(v, (SymInt, SymBool, int)) for v in vals) and len(vals) <= 40:
        res = vals[-1]
        for k, v in list(table.items())[:-1]:
            res = core.ite(SymBool(sel == k), v, res)
        return res
    if any(isinstance(v, Sym) for v in vals):
        k = pick_key(sel, table)
        return table[k]
    return SymUnion(sel, table)


def pick_key(sel, table):
    """fork over the keys, grouping nothing"""
    return core.ENG.concretise(sel, (), 'of a table index')


class SymUnion(Sym):
    """one of finitely many concrete values, selected by an integer term whose value is always a key of the table"""
    __slots__ = ('sel', 'table')

    def __init__(self, sel, table):
        object.__setattr__(self, 'sel', sel)
        object.__setattr__(self, 'table', table)

    @property
    def is_str_union(self):
        return all(isinstance(v, str) for v in self.table.values())

    def all_instance(self, types):
        r = {k: isinstance(v, types) for k, v in self.table.items()}
        return mkunion(self.sel, r)

    def map(self, f):
        res, exc = {}, {}
        cache = {}
        for k, v in self.table.items():
            try:
                if id(v) in cache:
                    res[k] = cache[id(v)]
                else:
                    res[k] = cache[id(v)] = f(v)
            except Exception as e:
                exc[k] = e
        if exc:
            if not res:
                raise next(iter(exc.values()))
            if core.ENG.branch(in_ranges(self.sel, list(exc))):
                k = core.ENG.concretise(self.sel)
                raise exc[k]
            if len(res) == 1:
                return next(iter(res.values()))
        return mkunion(self.sel, res)

    def pick(self):
        """fork: one concrete value; equal immutable values are one case"""
        groups = []
        idx = {}
        for k, v in self.table.items():
            key = (type(v), v) if isinstance(v, (str, int, bytes, type(None))) else id(v)
            if key in idx:
                groups[idx[key]][1].append(k)
            else:
                idx[key] = len(groups)
                groups.append((v, [k]))
        for v, ks in groups[:-1]:
            if core.ENG.branch(in_ranges(self.sel, ks)):
                return v
        return groups[-1][0]

    def as_symstr(self):
        """string union -> string with symbolic cells; forks on the length only"""
        groups = {}
        for k, v in self.table.items():
            if not isinstance(v, str):
                raise TypeError('not a string')
            groups.setdefault(len(v), {})[k] = v
        lens = sorted(groups)
        pick = lens[-1]
        for n in lens[:-1]:
            if core.ENG.branch(in_ranges(self.sel, list(groups[n]))):
                pick = n
                break
        g = groups[pick]
        cells = []
        for i in range(pick):
            c = mkunion(self.sel, {k: ord(v[i]) for k, v in g.items()})
            cells.append(c.e if isinstance(c, SymInt) else c)
        return mkstr(cells)

    def eq(self, o):
        if isinstance(o, SymUnion):
            if o.sel.eq(self.sel) and set(o.table) == set(self.table):
                return mkunion(self.sel, {k: _plain_eq(v, o.table[k]) for k, v in self.table.items()})
            if len(self.table) * len(o.table) > 4096 or not all(isinstance(v, PURE) for v in self.table.values()):
                return o.eq(self.pick())
            inv = {}
            for k, v in o.table.items():
                inv.setdefault(v, []).append(k)
            return or_(*[SymBool(z3.And(self.sel == k, in_ranges(o.sel, inv[v])))
                         for k, v in self.table.items() if v in inv])
        if isinstance(o, SymStr):
            return o.eq(self.as_symstr()) if self.is_str_union else o.eq(self.pick())
        return mkunion(self.sel, {k: _plain_eq(v, o) for k, v in self.table.items()})

    def __eq__(self, o): return self.eq(o)
    def __ne__(self, o): return not_(self.eq(o))
    def __hash__(self): return hash(self.pick())

    def __bool__(self):
        return bool(self.map(bool))

    def __len__(self):
        n = self.map(len)
        return n.__index__()

    def __iter__(self):
        if self.is_str_union:
            return iter(self.as_symstr())
        return iter(self.pick())

    def __getitem__(self, i):
        if isinstance(i, Sym):
            return self.pick()[i]
        return self.map(lambda v: v[i])

    def __contains__(self, x):
        return x in (self.as_symstr() if self.is_str_union else self.pick())

    def _bin(self, o, f):
        if isinstance(o, Sym):
            return f(self.as_symstr() if self.is_str_union else self.pick(), o)
        return self.map(lambda v: f(v, o))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self.map(lambda v: o + v)

    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __str__(self): return str(self.pick())
    def __format__(self, spec): return format(self.pick(), spec)
    def __repr__(self): return f'SymUnion({len(self.table)})'
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __index__(self): return self.pick().__index__()
    def __call__(self, *a, **k): return self.pick()(*a, **k)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        vals = list(self.table.values())
        if all(isinstance(v, (str, bytes, int)) for v in vals):
            def meth(*a, **k):
                from . import rt
                if rt.has_sym(a) or rt.has_sym(k):
                    s = self.as_symstr() if self.is_str_union else self.pick()
                    return rt.call(getattr(s, name), *a, **k)
                return self.map(lambda v: getattr(v, name)(*a, **k))
            return meth
        probe = {}
        for k, v in self.table.items():
            probe[k] = getattr(v, name)
        if any(callable(p) for p in probe.values()):
            return getattr(self.pick(), name)
        return mkunion(self.sel, probe)

    def __setattr__(self, name, value):
        setattr(self.pick(), name, value)


def _plain_eq(a, b):
    r = a == b
    return bool(r) if not isinstance(r, (bool, SymBool)) else r


# ---------------------------------------------------------------------------------------------------------------------
def sym_key(k):
    if isinstance(k, Sym):
        return True
    if type(k) is tuple or isinstance(k, tuple):
        return any(sym_key(x) for x in k)
    return False


def key_eq(a, b):
    """equality without forking (SymBool or bool)"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        rs = []
        for x, y in zip(a, b):
            r = key_eq(x, y)
            if r is False:
                return False
            rs.append(r)
        return and_(*rs)
    if isinstance(a, (SymStr, SymUnion)):
        return a.eq(b)
    if isinstance(b, (SymStr, SymUnion)):
        return b.eq(a)
    if isinstance(a, Sym) or isinstance(b, Sym):
        x, y = (a, b) if isinstance(a, Sym) else (b, a)
        if isinstance(x, (SymInt, SymBool, SymReal)) and (is_strlike(y) or y is None or isinstance(y, (tuple, bytes))):
            return False
        r = x == y
        return False if r is NotImplemented else r
    r = a == b
    return bool(r)


class KeyBox:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key


def unbox(k):
    return k.key if type(k) is KeyBox else k


MISSING = object()
dget = dict.__getitem__
dset = dict.__setitem__
ddel = dict.__delitem__
dhas = dict.__contains__
diter = dict.__iter__
dlen = dict.__len__


def mergeable(v):
    return isinstance(v, (int, SymInt, SymBool)) and not isinstance(v, bool) or type(v) is SymInt


def lookup_candidates(d, k):
    """[(stored key, condition)] for the entries that may equal k; a True condition ends the list.
    Conditions are mutually exclusive because the stored keys are pairwise distinct."""
    res = []
    for s in diter(d) if isinstance(d, dict) else list(d):
        c = key_eq(unbox(s), k)
        if c is False:
            continue
        res.append((s, c))
        if c is True:
            return [(s, True)]
    return res


def find_stored(d, k):
    """the stored key equal to k on this path, or MISSING (forks)"""
    if not sym_key(k):
        if dhas(d, k):
            return k
        if not getattr(d, '_nbox', 0):
            return MISSING
        for s in list(diter(d)):
            if type(s) is KeyBox and key_eq(s.key, k):
                return s
        return MISSING
    cands = lookup_candidates(d, k)
    for s, c in cands:
        if c:
            return s
    return MISSING


def dict_get(d, k, default=MISSING):
    """d[k] for a possibly symbolic key; integer values are merged instead of forking"""
    if isinstance(k, SymUnion) and not getattr(d, '_nbox', 0):
        return union_lookup(d, k, default)
    if not sym_key(k):
        s = find_stored(d, k)
        return default if s is MISSING else dget(d, s)
    cands = lookup_candidates(d, k)
    if not cands:
        return default
    if cands[0][1] is True:
        return dget(d, cands[0][0])
    vals = [dget(d, s) for s, _ in cands]
    if all(mergeable(v) for v in vals):
        if default is MISSING:
            if not or_(*[c for _, c in cands]):
                return MISSING
            res, rest = vals[-1], list(zip(cands, vals))[:-1]
        elif mergeable(default):
            res, rest = default, list(zip(cands, vals))
        else:
            res = None
        if res is not None:
            for (s, c), v in reversed(rest):
                res = core.ite(c, v, res)
            return res
    for s, c in cands:
        if c:
            return dget(d, s)
    return default


def union_lookup(d, u, default):
    hit = {k: v for k, v in u.table.items() if dhas(d, v)}
    miss = [k for k in u.table if k not in hit]
    if not hit:
        return default
    if not miss:
        return mkunion(u.sel, {k: dget(d, v) for k, v in hit.items()})
    if default is not MISSING and mergeable(default) and all(mergeable(dget(d, v)) for v in hit.values()):
        t = {k: default for k in miss}
        t.update({k: dget(d, v) for k, v in hit.items()})
        return mkunion(u.sel, t)
    if core.ENG.branch(in_ranges(u.sel, miss)):
        return default
    return mkunion(u.sel, {k: dget(d, v) for k, v in hit.items()})


def dict_has(d, k):
    """SymBool or bool"""
    if isinstance(k, SymUnion) and not getattr(d, '_nbox', 0):
        return mkunion(k.sel, {i: dhas(d, v) for i, v in k.table.items()})
    if not sym_key(k):
        if dhas(d, k):
            return True
        if not getattr(d, '_nbox', 0):
            return False
        return or_(*[key_eq(s.key, k) for s in diter(d) if type(s) is KeyBox])
    return or_(*[c for _, c in lookup_candidates(d, k)])


class SymDict(dict):
    """dict whose keys may be symbolic: symbolic keys are stored boxed; all stored keys are distinct on the path"""

    def __init__(self, *a, **kw):
        self._nbox = 0
        dict.__init__(self)
        if a or kw:
            self.update(*a, **kw)

    def __missing__(self, k):
        raise KeyError(k)

    def __getitem__(self, k):
        v = dict_get(self, k)
        if v is MISSING:
            return self.__missing__(k)
        return v

    def get(self, k, default=None):
        return dict_get(self, k, default)

    def __contains__(self, k):
        return bool(dict_has(self, k))

    def __setitem__(self, k, v):
        if isinstance(k, SymUnion) and k.is_str_union:
            k = k.as_symstr()
        if not sym_key(k) and not self._nbox:
            dset(self, k, v)
            return
        s = find_stored(self, k)
        if s is MISSING:
            if sym_key(k):
                s = KeyBox(k)
                self._nbox += 1
            else:
                s = k
        dset(self, s, v)

    def update_item(self, k, f, default=MISSING):
        """self[k] = f(self.get(k, default)) with merging over the possible keys when all values are integers"""
        if sym_key(k) and not isinstance(k, SymUnion):
            cands = lookup_candidates(self, k)
            if cands and cands[0][1] is not True and all(mergeable(dget(self, s)) for s, _ in cands):
                if or_(*[c for _, c in cands]):
                    for s, c in cands:
                        old = dget(self, s)
                        dset(self, s, core.ite(c, f(old), old))
                    return
        v = dict_get(self, k)
        if v is MISSING:
            v = default if default is not MISSING else self.__missing__(k)
        self[k] = f(v)

    def __delitem__(self, k):
        s = find_stored(self, k)
        if s is MISSING:
            raise KeyError(k)
        if type(s) is KeyBox:
            self._nbox -= 1
        ddel(self, s)

    def pop(self, k, default=MISSING):
        s = find_stored(self, k)
        if s is MISSING:
            if default is MISSING:
                raise KeyError(k)
            return default
        v = dget(self, s)
        if type(s) is KeyBox:
            self._nbox -= 1
        ddel(self, s)
        return v

    def popitem(self):
        k, v = dict.popitem(self)
        if type(k) is KeyBox:
            self._nbox -= 1
            k = k.key
        return k, v

    def setdefault(self, k, default=None):
        v = dict_get(self, k)
        if v is MISSING:
            self[k] = default
            return default
        return v

    def clear(self):
        self._nbox = 0
        dict.clear(self)

    def __iter__(self):
        if not self._nbox:
            return diter(self)
        return (unbox(k) for k in diter(self))

    def __reversed__(self):
        return iter([unbox(k) for k in diter(self)][::-1])

    def keys(self):
        return dict.keys(self) if not self._nbox else DView(self, lambda d: (unbox(k) for k in diter(d)), True)

    def items(self):
        return dict.items(self) if not self._nbox else DView(self, lambda d: ((unbox(k), dget(d, k)) for k in diter(d)))

    def copy(self):
        r = self._new()
        for k in diter(self):
            dset(r, k, dget(self, k))
        r._nbox = self._nbox
        return r

    __copy__ = copy

    def _new(self):
        return type(self)()

    def __deepcopy__(self, memo):
        import copy
        r = self._new()
        memo[id(self)] = r
        for k in diter(self):
            dset(r, copy.deepcopy(k, memo) if type(k) is not KeyBox else KeyBox(copy.deepcopy(k.key, memo)),
                 copy.deepcopy(dget(self, k), memo))
        r._nbox = self._nbox
        return r

    def update(self, *a, **kw):
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k] if not isinstance(src, SymDict) else dict_get(src, k)
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def eq(self, o):
        if not isinstance(o, dict) or dlen(self) != dlen(o):
            return False
        from . import rt
        res = []
        for k, v in o.items():
            w = dict_get(self, k)
            if w is MISSING:
                return False
            res.append(rt.eq(w, v))
        return and_(*res)

    def __eq__(self, o):
        return bool(self.eq(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join(f'{unbox(k)!r}: {dget(self, k)!r}' for k in diter(self)) + '}'

    def __reduce__(self):
        return (_mk_dict, (type(self), [(unbox(k), dget(self, k)) for k in diter(self)]) + self._reduce_extra())

    def _reduce_extra(self):
        return ()

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d


def _mk_dict(cls, items, *extra):
    d = cls(*extra)
    for k, v in items:
        d[k] = v
    return d


class DView:
    def __init__(self, d, f, is_keys=False):
        self.d, self.f, self.is_keys = d, f, is_keys

    def __iter__(self): return self.f(self.d)
    def __len__(self): return dlen(self.d)
    def __contains__(self, x): return x in (self.d if self.is_keys else list(self))
    def __repr__(self): return repr(list(self))
    def __reversed__(self): return iter(list(self)[::-1])

    def _set(self):
        return SymSet(self)

    def __eq__(self, o): return self._set() == (o._set() if isinstance(o, DView) else o)
    def __and__(self, o): return self._set() & o
    def __or__(self, o): return self._set() | o
    def __sub__(self, o): return self._set() - o
    def __rsub__(self, o): return SymSet(o) - self._set()
    __hash__ = None


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *a, **kw):
        self.default_factory = default_factory
        super().__init__(*a, **kw)

    def _new(self):
        return SymDefaultDict(self.default_factory)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def _reduce_extra(self):
        return (self.default_factory,)


class SymCounter(SymDict):
    def __missing__(self, k):
        return 0

    def update(self, *a, **kw):
        if a and a[0] is not None:
            src = a[0]
            if isinstance(src, dict):
                for k in src.keys():
                    v = dict_get(src, k) if isinstance(src, SymDict) else src[k]
                    self.update_item(k, lambda o: o + v, 0)
            else:
                for k in src:
                    self.update_item(k, lambda o: o + 1, 0)
        for k, v in kw.items():
            self.update_item(k, lambda o: o + v, 0)

    def subtract(self, *a, **kw):
        if a:
            src = a[0]
            if isinstance(src, dict):
                for k in src.keys():
                    v = src[k]
                    self.update_item(k, lambda o: o - v, 0)
            else:
                for k in src:
                    self.update_item(k, lambda o: o - 1, 0)
        for k, v in kw.items():
            self.update_item(k, lambda o: o - v, 0)

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())

    def most_common(self, n=None):
        its = sorted(self.items(), key=lambda x: x[1], reverse=True)
        return its if n is None else its[:n]

    def __add__(self, o):
        r = SymCounter()
        for k, v in self.items():
            n = v + o[k]
            if n > 0:
                r[k] = n
        for k, v in o.items():
            if k not in self and v > 0:
                r[k] = v
        return r

    def __sub__(self, o):
        r = SymCounter()
        for k, v in self.items():
            n = v - o[k]
            if n > 0:
                r[k] = n
        for k, v in o.items():
            if k not in self and v < 0:
                r[k] = -v
        return r

    def __iadd__(self, o):
        for k, v in o.items():
            self.update_item(k, lambda x: x + v, 0)
        for k in list(self):
            if not self[k] > 0:
                del self[k]
        return self

    def _keep(self, r):
        for k in list(r.keys()):
            if not r[k] > 0:
                del r[k]
        return r

    def __or__(self, o):
        if not isinstance(o, SymCounter):
            return NotImplemented
        r = SymCounter()
        for k, v in self.items():
            w = o[k]
            n = v if v >= w else w
            if n > 0:
                r[k] = n
        for k, v in o.items():
            if k not in self and v > 0:
                r[k] = v
        return r

    def __and__(self, o):
        if not isinstance(o, SymCounter):
            return NotImplemented
        r = SymCounter()
        for k, v in self.items():
            w = o[k]
            n = v if v <= w else w
            if n > 0:
                r[k] = n
        return r

    def _become(self, r):
        for k in [k for k in self.keys() if k not in r]:
            del self[k]
        for k, v in r.items():
            self[k] = v
        return self

    def __ior__(self, o):
        for k, v in o.items():
            if v > self[k]:
                self[k] = v
        return self._keep(self)

    def __iand__(self, o):
        return self._become(self & o)

    def __isub__(self, o):
        for k, v in list(o.items()):
            self.update_item(k, lambda x: x - v, 0)
        return self._keep(self)

    def __pos__(self):
        return self + SymCounter()

    def __neg__(self):
        return SymCounter() - self

    def __delitem__(self, k):
        if k in self:
            super().__delitem__(k)

    def eq(self, o):
        if isinstance(o, SymCounter):
            return and_(*[core.tobool(self.get(k, 0) == o.get(k, 0)) is not None and (self.get(k, 0) == o.get(k, 0))
                          for k in list(self) + list(o)])
        return super().eq(o)


SET_ORDER_HOOK = [None]  # function(list of elements) -> list, for properties about set iteration order


class SymSet(set):
    """set with possibly symbolic elements; the base class storage is unused"""

    def __init__(self, it=()):
        set.__init__(self)
        self._d = SymDict()
        for x in it:
            self._d[x] = None

    def __reduce__(self):
        return (type(self), (list(self),))

    def _elems(self):
        return [unbox(k) for k in diter(self._d)]

    def __iter__(self):
        el = self._elems()
        if SET_ORDER_HOOK[0] is not None:
            el = SET_ORDER_HOOK[0](el)
        elif el and all(type(x) is int for x in el):
            el = list(set(el))
        return _guarded_iter(self, el)

    def __len__(self): return dlen(self._d)
    def __bool__(self): return dlen(self._d) > 0
    def __contains__(self, x): return x in self._d
    def has(self, x): return dict_has(self._d, x)
    def add(self, x): self._d.setdefault(x, None)

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        self._d.pop(x)

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self): self._d.clear()

    def copy(self): return type(self)(self._elems())
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return type(self)([copy.deepcopy(x, memo) for x in self._elems()])

    def update(self, *others):
        for o in others:
            for x in o:
                self.add(x)

    def union(self, *others):
        r = self.copy()
        r.update(*others)
        return r

    def __or__(self, o): return self.union(o)
    def __ror__(self, o): return SymSet(o).union(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *others):
        r = self
        for o in others:
            o = o if isinstance(o, (set, dict, frozenset)) else SymSet(o)
            r = SymSet([x for x in r._elems() if x in o])
        return r

    def __and__(self, o): return self.intersection(o)
    __rand__ = __and__

    def difference(self, *others):
        r = self
        for o in others:
            o = o if isinstance(o, (set, dict, frozenset, DView)) else SymSet(o)
            r = SymSet([x for x in r._elems() if x not in o])
        return r

    def __sub__(self, o): return self.difference(o)
    def __rsub__(self, o): return SymSet(o).difference(self)

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def difference_update(self, *others):
        for o in others:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *others):
        keep = self.intersection(*others)
        self._d = keep._d

    def symmetric_difference(self, o):
        o = SymSet(o)
        return SymSet([x for x in self._elems() if x not in o] + [x for x in o._elems() if x not in self])

    __xor__ = symmetric_difference

    def issubset(self, o):
        o = o if isinstance(o, (set, dict)) else SymSet(o)
        return all(x in o for x in self._elems())

    def issuperset(self, o): return all(x in self for x in o)
    def isdisjoint(self, o): return not any(x in self for x in o)
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o): return not self == o
    __hash__ = None
    def __repr__(self): return 'set(' + repr(self._elems()) + ')'


def _guarded_iter(s, el):
    n = len(el)
    for x in el:
        yield x
        if dlen(s._d) != n:
            raise RuntimeError('Set changed size during iteration')


class SymFrozenSet(SymSet):
    def __hash__(self):
        return hash(frozenset(self._elems()))
