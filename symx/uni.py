"""Character properties and case mappings as tables of code-point ranges (taken from the running Python)."""
import functools
import unicodedata
import z3
from . import core
MAXCP = 0x10FFFF
PREFER = tuple(ord(c) for c in 'aAzZéÉßİΣ') + (0x301, 0x308, 0x212b, 0xfb01, 0xff21, 0x1161, 0x11a8, 0x1d15e)


def ranges(cps):
    res = []
    for c in cps:
        if res and res[-1][1] == c - 1:
            res[-1][1] = c
        else:
            res.append([c, c])
    return [tuple(r) for r in res]


@functools.lru_cache(None)
def table(name, arg=None):
    """ranges of the code points with a property"""
    f = TESTS[name]
    return ranges(c for c in range(MAXCP + 1) if not 0xd800 <= c <= 0xdfff and (f(chr(c)) if arg is None else f(chr(c), arg)))


def in_ranges(c, rs):
    if not rs:
        return z3.BoolVal(False)
    return z3.Or(*[c == a if a == b else z3.And(c >= a, c <= b) for a, b in rs])


def changed_by(m):
    return lambda ch: getattr(ch, m)() != ch


@functools.lru_cache(None)
def second(form):
    """characters that can combine with one before them, or are not kept by the normal form"""
    comp = set()
    for c in range(MAXCP + 1):
        d = unicodedata.decomposition(chr(c))
        if d and not d.startswith('<'):
            p = d.split()
            if len(p) == 2:
                comp.add(int(p[1], 16))
    comp |= set(range(0x1161, 0x1176)) | set(range(0x11a8, 0x11c3))
    return comp


def active(ch, form):
    if unicodedata.normalize(form, ch) != ch or unicodedata.combining(ch):
        return True
    return form in ('NFC', 'NFKC') and ord(ch) in second(form)


TESTS = {n: (lambda n: lambda ch: getattr(ch, n)())(n) for n in
         ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isprintable', 'isspace', 'isupper', 'islower')}
TESTS.update({n: changed_by(n) for n in ('lower', 'upper', 'casefold', 'swapcase')})
TESTS['cased'] = lambda ch: ch.isupper() or ch.islower() or ch.istitle()
TESTS['active'] = active
TESTS['category'] = lambda ch, k: unicodedata.category(ch) == k
TESTS['bidirectional'] = lambda ch, k: unicodedata.bidirectional(ch) == k
TESTS['combining'] = lambda ch, k: unicodedata.combining(ch) == int(k)
TESTS['east_asian_width'] = lambda ch, k: unicodedata.east_asian_width(ch) == k


def has(c, name, arg=None):
    """formula: the code point has the property"""
    if isinstance(c, int):
        return z3.BoolVal(any(a <= c <= b for a, b in table(name, arg)))
    key = f'_u_{name}_{arg}'
    e = c.__dict__.get(key)
    if e is None:
        v = core.ENG.vals.get(core.idof(c))
        if v is not None:
            return has(v, name, arg)
        e = c.__dict__[key] = in_ranges(c, table(name, arg))
    return e


def test(c, name, arg=None):
    """fork on a property"""
    if isinstance(c, int):
        return any(a <= c <= b for a, b in table(name, arg))
    return core.ENG.branch(has(c, name, arg))


@functools.lru_cache(None)
def deltas(m):
    """{difference: ranges} for characters mapped to one character, and the other ones"""
    by, rest = {}, []
    for a, b in table(m):
        for c in range(a, b + 1):
            t = getattr(chr(c), m)()
            if len(t) == 1 and not (m in ('lower', 'swapcase') and c == 0x3a3):
                by.setdefault(ord(t) - c, []).append(c)
            else:
                rest.append(c)
    return {d: ranges(cs) for d, cs in by.items()}, ranges(rest)


def map_case(cells, m):
    """str.lower, upper, casefold, swapcase; None: depends on the neighbours"""
    res = []
    for c in cells:
        if not isinstance(c, int):
            v = core.ENG.vals.get(core.idof(c))
            c = c if v is None else v
        if isinstance(c, int):
            if c == 0x3a3 and m in ('lower', 'swapcase'):
                return None
            res.extend(map(ord, getattr(chr(c), m)()))
            continue
        B = core.ENG.branch
        if not B(has(c, m)):
            res.append(c)
        elif m in ('lower', 'casefold') and B(z3.And(c >= 65, c <= 90)):
            res.append(c + 32)
        elif m == 'upper' and B(z3.And(c >= 97, c <= 122)):
            res.append(c - 32)
        else:
            by, rest = deltas(m)
            if B(in_ranges(c, rest)):
                v = core.ENG.concretise(c, PREFER, 'of a character')
                if v == 0x3a3 and m in ('lower', 'swapcase'):
                    return None
                res.extend(map(ord, getattr(chr(v), m)()))
            else:
                e = c
                for d, rs in by.items():
                    e = z3.If(in_ranges(c, rs), c + d, e)
                res.append(e)
    return res


def category(ch, name='category'):
    kinds = {'category': 'Ll Lu Lo Zs Nd Po Mn Cc Cn Co So Sm Mc Lm Lt Nl No Pc Pd Pe Pf Pi Ps Sc Sk Cf Zl Zp Me'.split(),
             'bidirectional': ['L', '', 'ON', 'R', 'AL', 'NSM', 'EN', 'AN', 'ET', 'ES', 'CS', 'WS', 'B', 'S', 'BN', 'LRE', 'LRO', 'RLE', 'RLO', 'PDF', 'LRI', 'RLI', 'FSI', 'PDI'],
             'east_asian_width': ['N', 'W', 'A', 'F', 'H', 'Na']}[name]
    c = ch.chars()[0]
    for k in kinds:
        if test(c, name, k):
            return k
    return getattr(unicodedata, name)(chr(core.ENG.concretise(c, PREFER, 'of a character')))
