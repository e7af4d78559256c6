"""Symbolic strings and bytes: sequences of concrete length whose cells are code points, z3 integers or lazy text forms."""
import re
import z3
from . import core, uni
from .core import Sym, SymInt, SymBool, SymReal, Incomplete, mkint, mkbool, and_, or_, not_

INTERESTING = tuple(ord(c) for c in 'a \t\nb▁0\r1<é\x85') + (0x1f600,)
MAXCP = 0x10FFFF


class Fmt:
    """lazy text form of a value: expanded only when somebody looks at the characters"""
    __slots__ = ('value', 'conv', 'spec')

    def __init__(self, value, conv=None, spec=''):
        self.value, self.conv, self.spec = value, conv, spec

    @property
    def is_dec(self):
        return isinstance(self.value, SymInt) and self.conv in (None, 's', 'r') and self.spec in ('', 'd')

    def same(self, o):
        if self is o:
            return True
        return self.is_dec and isinstance(o, Fmt) and o.is_dec and self.value.e.eq(o.value.e)

    def expand(self):
        v = self.value
        if isinstance(v, SymBool):
            v = bool(v)
        if self.is_dec:
            return _dec_cells(v)
        if isinstance(v, SymInt) and self.conv in (None, 's', 'r'):
            cells = int_cells(v, self.spec)
            if cells is not None:
                return cells
        from . import rt
        v = rt.deep_concrete(v)
        if self.conv == 'r':
            v = repr(v)
        elif self.conv == 's':
            v = str(v)
        elif self.conv == 'a':
            v = ascii(v)
        return [ord(c) for c in format(v, self.spec)]

    def __repr__(self):
        return f'Fmt({self.value!r})'


INT_SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([dnxXobgf]?)\Z', re.S)


def int_cells(v, spec):
    """format(v, spec) of a symbolic integer; None: not covered"""
    m = INT_SPEC.match(spec)
    if not m:
        return None
    fill, align, sign, alt, zero, width, group, prec, kind = m.groups()
    e = v.e
    if prec and kind != 'f' or alt or kind in ('g', 'f') and not core.ENG.branch(z3.And(e < 2 ** 53, e > -2 ** 53)):
        return None
    neg = core.ENG.branch(e < 0)
    if neg:
        e = -e
    base = {'x': 16, 'X': 16, 'o': 8, 'b': 2}.get(kind, 10)
    if kind == 'g' and not core.ENG.branch(e < 10 ** 6):
        cells = general_cells(e)
    else:
        cells = digit_cells(e, base, kind == 'X')
    if group:
        step = 3 if base == 10 else 4
        if step == 4 and group == ',':
            return None
        k = len(cells) % step or step
        parts = [cells[:k]] + [cells[i:i + step] for i in range(k, len(cells), step)]
        cells = parts[0] + [c for p in parts[1:] for c in [ord(group)] + p]
        if zero and width:
            return None
    if kind == 'f':
        p = 6 if prec is None else int(prec)
        cells = cells + ([46] + [48] * p if p else [])
    lead = [45] if neg else [ord(sign)] if sign in ('+', ' ') and sign else []
    if zero and not align:
        fill, align = '0', '='
    n = int(width or 0) - len(lead) - len(cells)
    if n > 0:
        f = [ord(fill or ' ')]
        align = align or '>'
        if align == '=':
            return lead + f * n + cells
        if align == '^':
            return f * (n // 2) + lead + cells + f * (n - n // 2)
        return f * n + lead + cells if align == '>' else lead + cells + f * n
    return lead + cells


def digit_cells(e, base, upper=False):
    n = 1
    while not core.ENG.branch(e < base ** n):
        n += 1
        if n > 80:
            raise Incomplete('number with more than 80 digits')
    cells = []
    for k in range(n - 1, -1, -1):
        d = e if k == 0 else e / (base ** k)
        d = d % base if k != n - 1 else d
        cells.append(48 + d if base <= 10 else z3.If(d < 10, 48 + d, (55 if upper else 87) + d))
    return cells


def general_cells(e):
    """'%g' of an integer from 10**6 to 2**53"""
    B = core.ENG.branch
    n = 7
    while not B(e < 10 ** n):
        n += 1
    u = 10 ** (n - 6)
    q, r = e / u, e % u
    q = z3.If(z3.Or(2 * r > u, z3.And(2 * r == u, q % 2 == 1)), q + 1, q)
    exp = n - 1
    if B(q >= 10 ** 6):
        q, exp = z3.IntVal(10 ** 5), n
    keep = 6
    while keep > 1 and B(q % 10 ** (7 - keep) == 0):
        keep -= 1
    ds = [48 + (q / 10 ** (5 - k)) % 10 for k in range(keep)]
    return ds[:1] + ([46] + ds[1:] if keep > 1 else []) + [ord(c) for c in 'e+%02d' % exp]


def _dec_cells(v):
    """decimal digits of a symbolic int: forks on sign and number of digits"""
    e = v.e
    cells = []
    if core.ENG.branch(e < 0):
        cells.append(45)
        e = -e
    n = 1
    while not core.ENG.branch(e < 10 ** n):
        n += 1
        if n > 40:
            raise Incomplete('number with more than 40 digits')
    for k in range(n - 1, -1, -1):
        d = e if k == 0 else e / (10 ** k)
        cells.append(48 + (d % 10) if k != n - 1 else 48 + d)
    return cells


def is_space_e(c):
    return z3.Or(z3.And(c >= 9, c <= 13), z3.And(c >= 28, c <= 32), c == 0x85, c == 0xa0, c == 0x1680,
                 z3.And(c >= 0x2000, c <= 0x200a), c == 0x2028, c == 0x2029, c == 0x202f, c == 0x205f, c == 0x3000)


def is_linebreak_e(c):
    return z3.Or(z3.And(c >= 10, c <= 13), z3.And(c >= 28, c <= 30), c == 0x85, c == 0x2028, c == 0x2029)


def cached(c, what, mk):
    e = c.__dict__.get(what)
    if e is None:
        e = c.__dict__[what] = mk(c)
    return e


def cell_val(c):
    """the code point of the cell if this path has fixed it, else None"""
    return core.ENG.vals.get(core.idof(c))


def cell_space(c):
    if not isinstance(c, int):
        v = cell_val(c)
        if v is None:
            return core.ENG.branch(cached(c, '_sp', is_space_e))
        c = v
    return chr(c).isspace()


def cell_linebreak(c):
    if isinstance(c, int):
        return len(('a' + chr(c)).splitlines()) == 1 and c in (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)
    return core.ENG.branch(cached(c, '_lb', is_linebreak_e))


def cell_is(c, k):
    """is the cell the concrete code point k? (forks)"""
    if isinstance(c, int):
        return c == k
    return core.ENG.branch(core.eqk(c, k))


def cell_eq_e(a, b):
    if a is b:
        return True
    if not isinstance(a, int):
        v = cell_val(a)
        if v is not None:
            a = v
    if not isinstance(b, int):
        v = cell_val(b)
        if v is not None:
            b = v
    if isinstance(a, int):
        return a == b if isinstance(b, int) else core.mkbool2(core.eqk(b, a))
    if isinstance(b, int):
        return core.mkbool2(core.eqk(a, b))
    if a.eq(b):
        return True
    return mkbool(a == b)


def mkstr(cells):
    for c in cells:
        if not isinstance(c, int):
            return SymStr(cells)
    return ''.join(map(chr, cells))


def norm_cell(c):
    if isinstance(c, int) or isinstance(c, Fmt):
        return c
    d = c.__dict__
    if '_nv' in d:
        return c
    if z3.is_int_value(c):
        return c.as_long()
    d['_nv'] = True
    return c


def cells_of(s):
    """list of cells without lazy ones"""
    if isinstance(s, str):
        return [ord(c) for c in s]
    if isinstance(s, SymStr):
        return s.chars()
    if hasattr(s, 'as_symstr'):
        return cells_of(s.as_symstr())
    raise TypeError(f'expected string, {type(s).__name__} found')


def raw_cells(s):
    if isinstance(s, str):
        return [ord(c) for c in s]
    if isinstance(s, SymStr):
        return list(s.cells)
    if hasattr(s, 'as_symstr'):
        return raw_cells(s.as_symstr())
    raise TypeError(f'expected string, {type(s).__name__} found')


def is_strlike(s):
    if isinstance(s, (str, SymStr)):
        return True
    return getattr(s, 'is_str_union', False)


class SymStr(Sym):
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = tuple(norm_cell(c) for c in cells)

    def chars(self):
        if any(isinstance(c, Fmt) for c in self.cells):
            res = []
            for c in self.cells:
                if isinstance(c, Fmt):
                    res.extend(c.expand())
                else:
                    res.append(c)
            self.cells = tuple(res)
        return list(self.cells)

    # -- basic protocol
    def __len__(self):
        return len(self.chars())

    def __bool__(self):
        for c in self.cells:
            if isinstance(c, Fmt) and not c.is_dec:
                return len(self.chars()) > 0
        return len(self.cells) > 0

    def __iter__(self):
        for c in self.chars():
            yield mkstr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            if i.start in (None, 0) and i.stop is None and i.step in (None, 1):
                return self
            if i.step in (None, 1) and any(isinstance(c, Fmt) for c in self.cells):
                a, b = i.start or 0, i.stop
                cs = self.cells
                lead = next(k for k, c in enumerate(cs) if isinstance(c, Fmt))
                trail = next(k for k, c in enumerate(reversed(cs)) if isinstance(c, Fmt))
                if 0 <= a <= lead and (b is None or 0 > b >= -trail or 0 <= b <= lead):
                    return mkstr(cs[a:b])
            return mkstr(self.chars()[i])
        k = i.__index__()
        if k >= 0 and len(self.cells) > k and not any(isinstance(c, Fmt) for c in self.cells[:k + 1]):
            return mkstr([self.cells[k]])
        if k < 0 and len(self.cells) >= -k and not any(isinstance(c, Fmt) for c in self.cells[k:]):
            return mkstr([self.cells[k]])
        n = len(self)
        if not -n <= k < n:
            raise IndexError('string index out of range')
        return mkstr([self.chars()[k]])

    def eq(self, o):
        """SymBool or bool, without forking where possible"""
        if not is_strlike(o):
            return False
        if hasattr(o, 'as_symstr'):
            return o.eq(self)
        a, b = list(self.cells), raw_cells(o)
        if any(isinstance(c, Fmt) for c in a) or any(isinstance(c, Fmt) for c in b):
            while a and b and _same(a[0], b[0]):
                a.pop(0), b.pop(0)
            while a and b and _same(a[-1], b[-1]):
                a.pop(), b.pop()
            if len(a) == len(b) == 1 and isinstance(a[0], Fmt) and isinstance(b[0], Fmt) and a[0].is_dec and b[0].is_dec:
                return mkbool(a[0].value.e == b[0].value.e)
            for x, y in ((a, b), (b, a)):
                if len(x) == 1 and isinstance(x[0], Fmt) and x[0].is_dec and all(isinstance(c, int) for c in y):
                    t = ''.join(map(chr, y))
                    try:
                        v = int(t)
                    except ValueError:
                        return False
                    return mkbool(x[0].value.e == v) if str(v) == t else False
            a, b = SymStr(a).chars(), SymStr(b).chars()
        if len(a) != len(b):
            return False
        res = []
        for x, y in zip(a, b):
            r = cell_eq_e(x, y)
            if r is False:
                return False
            if r is not True:
                res.append(r)
        return and_(*res)

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return not_(self.eq(o))

    def __hash__(self):
        return hash(self.concrete())

    def _lt(self, o, strict):
        a, b = self.chars(), cells_of(o)
        for x, y in zip(a, b):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return x < y
                continue
            r = cell_eq_e(x, y)
            if r is True or r is not False and core.ENG.branch(r.e):
                continue
            return core.ENG.branch(x < y)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o): return self._lt(o, True) if is_strlike(o) else NotImplemented
    def __le__(self, o): return self._lt(o, False) if is_strlike(o) else NotImplemented
    def __gt__(self, o): return not self._lt(o, False) if is_strlike(o) else NotImplemented
    def __ge__(self, o): return not self._lt(o, True) if is_strlike(o) else NotImplemented

    def __add__(self, o):
        return mkstr(list(self.cells) + raw_cells(o)) if is_strlike(o) else NotImplemented

    def __radd__(self, o):
        return mkstr(raw_cells(o) + list(self.cells)) if is_strlike(o) else NotImplemented

    def __mul__(self, n):
        return mkstr(list(self.cells) * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        return self.concrete() % args

    def __rmod__(self, fmt):
        from . import rt
        return rt.pct_format(fmt, self)

    def __contains__(self, x):
        if self._lazy(x):
            return self._lazy_find(x) >= 0
        return self.find(x) >= 0

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return 'SymStr(' + repr(list(self.cells)) + ')'

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def concrete(self):
        """forks over all values"""
        res = []
        for c in self.chars():
            if not isinstance(c, int):
                c = core.ENG.concretise(c, INTERESTING, 'of a character')
            res.append(chr(c))
        return ''.join(res)

    # -- search helpers: positions are decided by forking
    def _match_at(self, cells, pat, i):
        if i + len(pat) > len(cells):
            return False
        c = and_(*[cell_eq_e(cells[i + k], pat[k]) for k in range(len(pat))])
        return bool(c)

    def _lazy(self, sub):
        """the string has numbers kept unexpanded and no match of sub can touch them"""
        return any(isinstance(c, Fmt) for c in self.cells) and isinstance(sub, str) and len(sub) == 1 and self._lazy_ok(sub)

    def _lazy_find(self, sub):
        for i, c in enumerate(self.cells):
            if not isinstance(c, Fmt) and self._match_at(self.cells, [ord(sub)], i):
                return i
        return -1

    def find(self, sub, start=0, end=None):
        if start == 0 and end is None and self._lazy(sub):
            i = self._lazy_find(sub)
            if not any(isinstance(c, Fmt) for c in self.cells[:max(i, 0)]):
                return i
        cells, pat = self.chars(), cells_of(sub)
        n = len(cells)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(pat) + 1):
            if self._match_at(cells, pat, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        cells, pat = self.chars(), cells_of(sub)
        start, end, _ = slice(start, end).indices(len(cells))
        for i in range(end - len(pat), start - 1, -1):
            if self._match_at(cells, pat, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, *a):
        if not a and self._lazy(sub):
            return sum(1 for i, c in enumerate(self.cells)
                       if not isinstance(c, Fmt) and self._match_at(self.cells, [ord(sub)], i))
        cells, pat = self.chars(), cells_of(sub)
        if not pat:
            return len(cells) + 1
        n = i = 0
        while i + len(pat) <= len(cells):
            if self._match_at(cells, pat, i):
                n += 1
                i += len(pat)
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        if start == 0 and end is None:
            pat = cells_of(p)
            head = self.cells[:len(pat)]
            if len(head) == len(pat) and not any(isinstance(c, Fmt) for c in head):
                return and_(*[cell_eq_e(x, y) for x, y in zip(head, pat)])
            if head and isinstance(head[0], Fmt) and self._lazy(p):
                return False
        cells, pat = self.chars()[start:end], cells_of(p)
        if len(pat) > len(cells):
            return False
        return and_(*[cell_eq_e(x, y) for x, y in zip(cells, pat)])

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        cells, pat = self.chars()[start:end], cells_of(p)
        if len(pat) > len(cells):
            return False
        if not pat:
            return True
        return and_(*[cell_eq_e(x, y) for x, y in zip(cells[-len(pat):], pat)])

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    # -- stripping and splitting.  Lazy numbers contain no whitespace, and no separator other than sign/digits
    def _strip_pred(self, chars):
        if chars is None:
            return lambda c: False if isinstance(c, Fmt) else cell_space(c)
        cs = cells_of(chars)
        return lambda c: any(bool(cell_eq_e(c, k)) for k in cs)

    def _lazy_ok(self, sep, strip=False):
        """may lazy cells be kept unexpanded when looking for sep?"""
        if not any(isinstance(c, Fmt) for c in self.cells):
            return True
        if any(isinstance(c, Fmt) and not c.is_dec for c in self.cells):
            return False
        if sep is None:
            return True
        return isinstance(sep, str) and not any(ch.isdigit() or ch == '-' for ch in sep) and (strip or len(sep) == 1)

    def strip(self, chars=None):
        return _r(self.lstrip(chars)).rstrip(chars)

    def lstrip(self, chars=None):
        cells = list(self.cells) if self._lazy_ok(chars, True) else self.chars()
        p = self._strip_pred(chars)
        i = 0
        while i < len(cells) and not isinstance(cells[i], Fmt) and p(cells[i]):
            i += 1
        return mkstr(cells[i:])

    def rstrip(self, chars=None):
        cells = list(self.cells) if self._lazy_ok(chars, True) else self.chars()
        p = self._strip_pred(chars)
        i = len(cells)
        while i > 0 and not isinstance(cells[i - 1], Fmt) and p(cells[i - 1]):
            i -= 1
        return mkstr(cells[:i])

    def split(self, sep=None, maxsplit=-1):
        cells = list(self.cells) if self._lazy_ok(sep) else self.chars()
        res = []
        if sep is None:
            cur = []
            i = 0
            n = len(cells)
            while True:
                while i < n and not isinstance(cells[i], Fmt) and cell_space(cells[i]):
                    i += 1
                if i >= n:
                    break
                if 0 <= maxsplit <= len(res):
                    j = n
                    while j > i and not isinstance(cells[j - 1], Fmt) and cell_space(cells[j - 1]):
                        j -= 1
                    res.append(mkstr(cells[i:j]))
                    break
                cur = []
                while i < n and (isinstance(cells[i], Fmt) or not cell_space(cells[i])):
                    cur.append(cells[i])
                    i += 1
                res.append(mkstr(cur))
            return res
        pat = cells_of(sep)
        if not pat:
            raise ValueError('empty separator')
        cur = []
        i = 0
        while i < len(cells):
            if not (0 <= maxsplit <= len(res)) and not isinstance(cells[i], Fmt) \
                    and not any(isinstance(c, Fmt) for c in cells[i:i + len(pat)]) and self._match_at(cells, pat, i):
                res.append(mkstr(cur))
                cur = []
                i += len(pat)
            else:
                cur.append(cells[i])
                i += 1
        res.append(mkstr(cur))
        return res

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        cells = list(self.cells) if self._lazy_ok(sep) else self.chars()
        if sep is None:
            rev = mkstr(cells[::-1])
            parts = rev.split(None, maxsplit)
            return [mkstr(cells_of(p)[::-1]) for p in parts][::-1]
        pat = cells_of(sep)
        res = []
        end = len(cells)
        i = end - len(pat)
        while i >= 0 and len(res) < maxsplit:
            if not any(isinstance(c, Fmt) for c in cells[i:i + len(pat)]) and self._match_at(cells, pat, i):
                res.append(mkstr(cells[i + len(pat):end]))
                end = i
                i -= len(pat)
            else:
                i -= 1
        res.append(mkstr(cells[:end]))
        return res[::-1]

    def splitlines(self, keepends=False):
        cells = self.chars()
        res, cur, i = [], [], 0
        while i < len(cells):
            c = cells[i]
            i += 1
            if cell_linebreak(c):
                end = [c]
                if cell_is(c, 13) and i < len(cells) and cell_is(cells[i], 10):
                    end.append(cells[i])
                    i += 1
                res.append(mkstr(cur + end if keepends else cur))
                cur = []
            else:
                cur.append(c)
        if cur:
            res.append(mkstr(cur))
        return res

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (self, '', '')

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else ('', '', self)

    def join(self, parts):
        return str_join(self, parts)

    def replace(self, old, new, count=-1):
        cells, pat, rep = self.chars(), cells_of(old), cells_of(new)
        if len(pat) == 1 and len(rep) == 1 and count < 0:
            res = []
            for c in cells:
                e = cell_eq_e(c, pat[0])
                if e is True:
                    res.append(rep[0])
                elif e is False:
                    res.append(c)
                else:
                    res.append(z3.If(e.e, _z(rep[0]), _z(c)))
            return mkstr(res)
        res = []
        i = n = 0
        if not pat:
            return self.concrete().replace(mkconcrete(old), mkconcrete(new), count)
        while i < len(cells):
            if (count < 0 or n < count) and self._match_at(cells, pat, i):
                res.extend(rep)
                i += len(pat)
                n += 1
            else:
                res.append(cells[i])
                i += 1
        return mkstr(res)

    def isspace(self):
        return len(self) > 0 and and_(*[chr(c).isspace() if isinstance(c, int) else SymBool(is_space_e(c))
                                        for c in self.chars()])

    def _all(self, name, empty=False):
        cells = self.chars()
        return and_(*[mkbool(uni.has(c, name)) for c in cells]) if cells else empty

    def isdigit(self): return self._all('isdigit')
    def isdecimal(self): return self._all('isdecimal')
    def isnumeric(self): return self._all('isnumeric')
    def isalpha(self): return self._all('isalpha')
    def isalnum(self): return self._all('isalnum')
    def isprintable(self): return self._all('isprintable', True)

    def _cased(self, name, other):
        # some character is of the case, and none of the other one (or title case)
        cells = self.chars()
        if len(cells) == 1:
            return self._all(name)
        some = or_(*[mkbool(uni.has(c, name)) for c in cells])
        return and_(some, *[or_(mkbool(uni.has(c, name)), not_(mkbool(uni.has(c, 'cased')))) for c in cells])

    def isupper(self): return self._cased('isupper', 'islower')
    def islower(self): return self._cased('islower', 'isupper')

    def _mapped(self, name):
        r = uni.map_case(self.chars(), name)
        return getattr(self.concrete(), name)() if r is None else mkstr(r)

    def lower(self): return self._mapped('lower')
    def upper(self): return self._mapped('upper')
    def casefold(self): return self._mapped('casefold')
    def swapcase(self): return self._mapped('swapcase')

    def normalize(self, form):
        cells = self.chars()
        if any([uni.test(c, 'active', form) for c in cells]):
            import unicodedata
            return unicodedata.normalize(form, mkstr([c if isinstance(c, int) else core.ENG.concretise(c, uni.PREFER, 'of a character') for c in cells]))
        return self

    def isascii(self):
        return and_(*[mkbool(z3.simplify(_z(c) < 128)) for c in self.chars()])

    def encode(self, encoding='utf-8', errors='strict'):
        return utf8_encode(self, encoding, errors)

    def zfill(self, w):
        cells = self.chars()
        if len(cells) >= w:
            return self
        if cells and (cell_is(cells[0], 45) or cell_is(cells[0], 43)):
            return mkstr(cells[:1] + [48] * (w - len(cells)) + cells[1:])
        return mkstr([48] * (w - len(cells)) + cells)

    def ljust(self, w, f=' '):
        cells = self.chars()
        return mkstr(cells + [ord(f)] * (w - len(cells)))

    def rjust(self, w, f=' '):
        cells = self.chars()
        return mkstr([ord(f)] * (w - len(cells)) + cells)

    def _unknown(self, name):
        def f(*a, **k):
            from . import rt
            return getattr(self.concrete(), name)(*rt.deep_concrete(a), **rt.deep_concrete(k))
        return f

    def __getattr__(self, name):
        if name.startswith('_') or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        return self._unknown(name)


def _same(a, b):
    if isinstance(a, Fmt):
        return a.same(b)
    if isinstance(b, Fmt):
        return False
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def _r(s):
    return s


def _z(c):
    return z3.IntVal(c) if isinstance(c, int) else c


def mkconcrete(s):
    if isinstance(s, SymStr):
        return s.concrete()
    if hasattr(s, 'as_symstr'):
        return mkconcrete(s.as_symstr())
    return s


def str_join(sep, parts):
    res = []
    first = True
    for i, p in enumerate(parts):
        if not first:
            res.extend(raw_cells(sep))
        first = False
        if not is_strlike(p):
            raise TypeError(f'sequence item {i}: expected str instance, {type(p).__name__} found')
        res.extend(raw_cells(p))
    return mkstr(res)


# ---------------------------------------------------------------------------------------------------------------------
def mkbytes(cells):
    cells = [norm_cell(c) for c in cells]
    for c in cells:
        if not isinstance(c, int):
            return SymBytes(cells)
    return bytes(cells)


def byte_cells(b):
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    return list(b.cells)


class SymBytes(Sym):
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = tuple(cells)

    def __len__(self): return len(self.cells)
    def __bool__(self): return len(self.cells) > 0

    def __iter__(self):
        for c in self.cells:
            yield c if isinstance(c, int) else SymInt(c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.cells[i])
        c = self.cells[i.__index__()]
        return c if isinstance(c, int) else SymInt(c)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return False
        b = byte_cells(o)
        if len(b) != len(self.cells):
            return False
        return and_(*[cell_eq_e(x, y) for x, y in zip(self.cells, b)])

    def __ne__(self, o): return not_(self.__eq__(o))
    def __hash__(self): return hash(self.concrete())
    def __add__(self, o): return mkbytes(list(self.cells) + byte_cells(o))
    def __radd__(self, o): return mkbytes(byte_cells(o) + list(self.cells))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f'SymBytes({self.cells})'

    def concrete(self):
        return bytes(c if isinstance(c, int) else core.ENG.concretise(c, (), 'of a byte') for c in self.cells)

    def decode(self, encoding='utf-8', errors='strict'):
        return utf8_decode(self, encoding, errors)

    def hex(self, *a):
        if a:
            return self.concrete().hex(*a)
        res = []
        for c in self.cells:
            for d in ((_z(c) / 16), (_z(c) % 16)):
                d = z3.simplify(d)
                res.append(z3.If(d < 10, 48 + d, 87 + d) if not z3.is_int_value(d) else ord('%x' % d.as_long()))
        return mkstr(res)

    def __getattr__(self, name):
        if name.startswith('_') or not hasattr(bytes, name):
            raise AttributeError(f"'bytes' object has no attribute '{name}'")

        def f(*a, **k):
            from . import rt
            return getattr(self.concrete(), name)(*rt.deep_concrete(a), **rt.deep_concrete(k))
        return f


class SymByteArray(SymBytes):
    """bytearray: the cells can change"""
    __slots__ = ()
    __hash__ = None

    def __init__(self, cells=()):
        self.cells = list(cells)

    @staticmethod
    def _cell(x):
        if isinstance(x, (core.SymInt, core.SymBool)):
            e = core.toint_z3(x)
            if not core.ENG.branch(z3.And(e >= 0, e < 256)):
                raise ValueError('byte must be in range(0, 256)')
            return norm_cell(e)
        b = x.__index__()
        if not 0 <= b < 256:
            raise ValueError('byte must be in range(0, 256)')
        return b

    def _cells(self, it):
        return byte_cells(it) if isinstance(it, (bytes, bytearray, SymBytes)) else [self._cell(x) for x in it]

    def __getitem__(self, i):
        r = super().__getitem__(i)
        return SymByteArray(byte_cells(r)) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        self.cells[i if isinstance(i, slice) else i.__index__()] = self._cells(v) if isinstance(i, slice) else self._cell(v)

    def __delitem__(self, i):
        del self.cells[i if isinstance(i, slice) else i.__index__()]

    def append(self, x): self.cells.append(self._cell(x))
    def extend(self, it): self.cells.extend(self._cells(it))
    def insert(self, i, x): self.cells.insert(i, self._cell(x))
    def clear(self): self.cells.clear()
    def reverse(self): self.cells.reverse()
    def copy(self): return SymByteArray(self.cells)
    __copy__ = copy

    def __deepcopy__(self, memo): return SymByteArray(self.cells)

    def pop(self, i=-1):
        c = self.cells.pop(i)
        return c if isinstance(c, int) else SymInt(c)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o): return SymByteArray(list(self.cells) + byte_cells(o))


UTF8 = ('utf-8', 'utf8', 'utf_8', 'u8')


def utf8_encode(s, encoding='utf-8', errors='strict'):
    enc = encoding.lower() if isinstance(encoding, str) else 'utf-8'
    cells = cells_of(s)
    B = core.ENG.branch
    res = []
    if enc in ('latin-1', 'latin1', 'iso-8859-1', 'ascii'):
        lim = 128 if enc == 'ascii' else 256
        for i, c in enumerate(cells):
            if isinstance(c, int) and c < lim or not isinstance(c, int) and B(c < lim):
                res.append(c)
            elif errors == 'strict':
                raise UnicodeEncodeError(enc, '?', i, i + 1, f'ordinal not in range({lim})')
            elif errors == 'replace':
                res.append(63)
            elif errors != 'ignore':
                raise Incomplete(f'encode errors={errors}')
        return mkbytes(res)
    if enc not in UTF8:
        return mkconcrete(s).encode(encoding, errors)
    for i, c in enumerate(cells):
        if isinstance(c, int):
            if 0xD800 <= c <= 0xDFFF:
                sur = True
            else:
                res.extend(chr(c).encode('utf-8'))
                continue
        else:
            if B(c < 0x80):
                res.append(c)
                continue
            if B(c < 0x800):
                res.append(0xC0 + c / 64)
                res.append(0x80 + c % 64)
                continue
            if B(c < 0x10000):
                sur = B(z3.And(c >= 0xD800, c <= 0xDFFF))
                if not sur or errors == 'surrogatepass':
                    res.append(0xE0 + c / 4096)
                    res.append(0x80 + (c / 64) % 64)
                    res.append(0x80 + c % 64)
                    continue
            else:
                res.append(0xF0 + c / 262144)
                res.append(0x80 + (c / 4096) % 64)
                res.append(0x80 + (c / 64) % 64)
                res.append(0x80 + c % 64)
                continue
        # a surrogate
        if errors == 'strict':
            raise UnicodeEncodeError('utf-8', '\ud800', i, i + 1, 'surrogates not allowed')
        elif errors == 'ignore':
            pass
        elif errors == 'replace':
            res.append(63)
        elif errors == 'surrogateescape' and B(z3.And(_z(c) >= 0xDC80, _z(c) <= 0xDCFF)):
            res.append(z3.simplify(_z(c) - 0xDC00))
        else:
            if errors in ('surrogateescape',):
                raise UnicodeEncodeError('utf-8', '\ud800', i, i + 1, 'surrogates not allowed')
            raise Incomplete(f'encode errors={errors}')
    return mkbytes(res)


def utf8_decode(b, encoding='utf-8', errors='strict'):
    """CPython's UTF-8 decoder: on error, the maximal subpart of an ill-formed sequence is one error"""
    enc = encoding.lower()
    cells = byte_cells(b)
    B = core.ENG.branch
    if enc in ('latin-1', 'latin1', 'iso-8859-1'):
        return mkstr(cells)
    if enc not in UTF8 and enc != 'ascii':
        return b.concrete().decode(encoding, errors) if isinstance(b, SymBytes) else b.decode(encoding, errors)

    def test(e):
        e = z3.simplify(e)
        return True if z3.is_true(e) else False if z3.is_false(e) else B(e)

    res = []
    n = len(cells)
    i = 0

    def err(start, end, why):
        if errors == 'strict':
            raise UnicodeDecodeError('utf-8', b'\xff' * n if n else b'', start, end, why)
        if errors == 'replace':
            res.append(0xFFFD)
        elif errors == 'surrogateescape':
            for c in cells[start:end]:
                res.append(_z(c) + 0xDC00)
        elif errors == 'backslashreplace':
            raise Incomplete('decode errors=backslashreplace')
        elif errors != 'ignore':
            raise LookupError(f"unknown error handler name '{errors}'")

    def inr(c, lo, hi):
        c = _z(c)
        return z3.And(c >= lo, c <= hi)

    while i < n:
        c = cells[i]
        if isinstance(c, int) and c < 128:
            res.append(c)
            i += 1
            continue
        z = _z(c)
        if test(z < 128):
            res.append(c)
            i += 1
            continue
        if enc == 'ascii' or test(z.__lt__(0xC2)) or test(z > 0xF4):
            err(i, i + 1, 'invalid start byte')
            i += 1
            continue
        if test(z < 0xE0):
            if i + 1 < n and test(inr(cells[i + 1], 0x80, 0xBF)):
                res.append((z - 0xC0) * 64 + _z(cells[i + 1]) - 0x80)
                i += 2
            else:
                err(i, i + 1, 'invalid continuation byte' if i + 1 < n else 'unexpected end of data')
                i += 1
            continue
        if test(z < 0xF0):
            if i + 1 >= n:
                err(i, i + 1, 'unexpected end of data')
                i += 1
                continue
            c1 = _z(cells[i + 1])
            ok1 = z3.And(c1 >= z3.If(z == 0xE0, z3.IntVal(0xA0), z3.IntVal(0x80)),
                         c1 <= z3.If(z == 0xED, z3.IntVal(0x9F), z3.IntVal(0xBF)))
            if not test(ok1):
                err(i, i + 1, 'invalid continuation byte')
                i += 1
                continue
            if i + 2 >= n:
                err(i, i + 2, 'unexpected end of data')
                i += 2
                continue
            if not test(inr(cells[i + 2], 0x80, 0xBF)):
                err(i, i + 2, 'invalid continuation byte')
                i += 2
                continue
            res.append((z - 0xE0) * 4096 + (c1 - 0x80) * 64 + _z(cells[i + 2]) - 0x80)
            i += 3
            continue
        if i + 1 >= n:
            err(i, i + 1, 'unexpected end of data')
            i += 1
            continue
        c1 = _z(cells[i + 1])
        ok1 = z3.And(c1 >= z3.If(z == 0xF0, z3.IntVal(0x90), z3.IntVal(0x80)),
                     c1 <= z3.If(z == 0xF4, z3.IntVal(0x8F), z3.IntVal(0xBF)))
        if not test(ok1):
            err(i, i + 1, 'invalid continuation byte')
            i += 1
            continue
        if i + 2 >= n:
            err(i, i + 2, 'unexpected end of data')
            i += 2
            continue
        if not test(inr(cells[i + 2], 0x80, 0xBF)):
            err(i, i + 2, 'invalid continuation byte')
            i += 2
            continue
        if i + 3 >= n:
            err(i, i + 3, 'unexpected end of data')
            i += 3
            continue
        if not test(inr(cells[i + 3], 0x80, 0xBF)):
            err(i, i + 3, 'invalid continuation byte')
            i += 3
            continue
        res.append((z - 0xF0) * 262144 + (c1 - 0x80) * 4096 + (_z(cells[i + 2]) - 0x80) * 64 + _z(cells[i + 3]) - 0x80)
        i += 4
    return mkstr([z3.simplify(c) if not isinstance(c, int) else c for c in res])


# -- numbers from text ------------------------------------------------------------------------------------------------
def int_of_str(s, base=10):
    if getattr(s, 'is_str_union', False):
        return s.map(lambda v: int(v, base))
    if isinstance(s, str):
        return int(s, base)
    cells = list(s.cells)
    if base in (10, 0):
        # strip whitespace without expanding
        t = s.strip()
        if isinstance(t, str):
            return int(t, base)
        cells = list(t.cells)
        if len(cells) == 1 and isinstance(cells[0], Fmt) and cells[0].is_dec:
            return cells[0].value
    else:
        t = s.strip()
        if isinstance(t, str):
            return int(t, base)
    cells = t.chars()
    B = core.ENG.branch
    neg = False
    if cells and len(cells) > 1 and cell_is(cells[0], 45):
        neg, cells = True, cells[1:]
    elif cells and len(cells) > 1 and cell_is(cells[0], 43):
        cells = cells[1:]
    if base not in (10, 16, 8, 2):
        return int(t.concrete(), base)
    val = z3.IntVal(0)
    for k, c in enumerate(cells):
        z = _z(c)
        top = min(base, 10)
        if z3.is_int_value(z):
            ch = chr(c)
            if ch == '_' and 0 < k < len(cells) - 1:
                continue
            try:
                d = int(ch, base)
            except ValueError:
                raise ValueError(f'invalid literal for int() with base {base}')
            val = val * base + d
            continue
        if B(z3.And(z >= 48, z < 48 + top)):
            d = z - 48
        elif base == 16 and B(z3.And(z >= 97, z <= 102)):
            d = z - 87
        elif base == 16 and B(z3.And(z >= 65, z <= 70)):
            d = z - 55
        elif B(z < 128) and not (0 < k < len(cells) - 1 and B(z == 95)):
            raise ValueError(f'invalid literal for int() with base {base}')
        else:
            v = core.ENG.concretise(z, (0x661, 0xff11), 'of a digit')
            try:
                if v == 95:
                    raise Incomplete('underscore inside a number')
                d = int(chr(v), base)
            except ValueError:
                raise ValueError(f'invalid literal for int() with base {base}')
        val = val * base + d
    if not cells:
        raise ValueError(f"invalid literal for int() with base {base}: ''")
    val = z3.simplify(val)
    return mkint(z3.simplify(-val) if neg else val)


def bytes_fromhex(s):
    if isinstance(s, str):
        return bytes.fromhex(s)
    cells = cells_of(s)
    res = []
    i = 0
    while i < len(cells):
        if cell_is(cells[i], 32) or (not isinstance(cells[i], int) and cell_space(cells[i])):
            i += 1
            continue
        if i + 1 >= len(cells):
            raise ValueError('non-hexadecimal number found in fromhex() arg')
        v = int_of_hexpair(cells[i], cells[i + 1])
        res.append(v)
        i += 2
    return mkbytes(res)


def _hexdigit(c):
    z = _z(c)
    ok = z3.Or(z3.And(z >= 48, z <= 57), z3.And(z >= 97, z <= 102), z3.And(z >= 65, z <= 70))
    ok = z3.simplify(ok)
    if not (z3.is_true(ok) or (not z3.is_false(ok) and core.ENG.branch(ok))):
        raise ValueError('non-hexadecimal number found in fromhex() arg')
    return z3.If(z <= 57, z - 48, z3.If(z >= 97, z - 87, z - 55))


def int_of_hexpair(a, b):
    return z3.simplify(_hexdigit(a) * 16 + _hexdigit(b))
