"""SELF: no property; the library models of the engine against the libraries themselves (every sampled path is replayed on them)"""
from harness.lib import *
BOUNDS = {'quick': '', 'thorough': ''}


def jobs(tier):
    return [dict(name=f'codecs{i}', fn='codecs', params=dict(enc=e)) for i, e in enumerate(('utf-8', 'utf-8-sig', 'ascii'))] + [dict(name=n) for n in ('floats', 'scalars', 'arrays', 'arrays2', 'text', 'text3', 'counters', 'bytesarr', 'ints')] + [dict(name=f'formats{i}', fn='formats', params=dict(spec=s)) for i, s in enumerate(SPECS)] + \
        [dict(name=m, fn='text2', params=dict(m=m, n=2 if m[:2] == 'is' or m in ('NFC', 'NFKD') else 1)) for m in
         ('lower', 'upper', 'casefold', 'swapcase', 'isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isprintable', 'isupper', 'islower', 'NFC', 'NFD', 'NFKC', 'NFKD')]


def tl(x):
    return x.tolist() if hasattr(x, 'tolist') else x


def arrays(env):
    import numpy as np
    a = np.array([env.int('a', -100, 100) for _ in range(2)], dtype=np.int8)
    b = np.array([env.int('b', 0, 200) for _ in range(2)], dtype=np.uint8)
    O = lambda n, v: env.observe(n, (str(getattr(v, 'dtype', '')), tl(v)))
    O('cumsum', np.cumsum(a)); O('prod', np.prod(a)); O('sort', np.sort(a)); O('max', np.maximum(a, b)); O('min', np.minimum(a, 5))
    O('argmax', np.argmax(a)); O('argmin', a.argmin()); O('cnz', np.count_nonzero(a)); O('lex', np.lexsort((a, b)))
    O('flip', np.flip(a)); O('diff', np.diff(b)); O('pad', np.pad(a, (0, 2), constant_values=7)); O('uniq', np.unique(a))
    O('any', bool(np.any(a))); O('all', bool((a > 0).all())); O('clip', np.clip(a, 0, 50)); O('ptp', np.ptp(b)); O('rep', np.repeat(a, 2))
    c = a.copy(); c += 1; O('iadd', c)
    d = a.copy(); e = d[1:]; e -= a[1:]; O('view', d)
    O('add', np.add(a, b)); O('sub', a - b); O('eq', (a == b)); O('init', np.max(a, initial=3)); O('mean', float(np.mean(b)))


def scalars(env):
    import numpy as np
    a = np.array([env.int('a', -100, 100), 3], dtype=np.int8)[0]
    b = np.array([env.int('b', 0, 200), 3], dtype=np.uint8)[0]
    c = np.array([env.int('c', 0, 255), 3], dtype=np.uint8)[0]
    k = env.int('k', -5, 5)
    for n, f in (('ab', lambda: a + b), ('bc', lambda: b + c), ('cb', lambda: c - b), ('mul', lambda: b * c), ('bk', lambda: b + k), ('kb', lambda: k - b), ('ka', lambda: a + k),
                 ('one', lambda: 1 + c), ('neg', lambda: -a), ('sum', lambda: sum([b, c])), ('div', lambda: b // 7), ('mod', lambda: a % 7), ('max', lambda: max(b, c) + 1),
                 ('big', lambda: (b + 300))):
        try:
            v = f()
        except OverflowError:
            v = 'overflow'
        env.observe(n, (str(getattr(v, 'dtype', '')), tl(v)))


def arrays2(env):
    import numpy as np
    m = np.array([[env.int('m', 0, 9) for _ in range(2)] for _ in range(2)])
    O = lambda n, v: env.observe(n, (str(getattr(v, 'dtype', '')), tl(v)))
    O('ax0', m.sum(axis=0)); O('ax1', np.max(m, axis=1)); O('any', m.any(axis=1)); O('T', m.T); O('like', np.zeros_like(m)); O('full', np.full_like(m, 3))
    O('iter', np.fromiter((int(x) for x in m.ravel()), dtype=np.int16)); O('col', m[:, 1]); O('stack', np.column_stack((m[0], m[1]))); O('neg', m[:, ::-1])
    O('sorted', m[m[:, 1].argsort()])
    v, c = np.unique(m.ravel(), return_counts=True)
    O('u', v); O('c', c); O('where', np.where(m > 3, m, 0)); O('nz', [tl(x) for x in np.nonzero(m)])


def text(env):
    s = env.string('s', 0, 3, alphabet='aA \u00e9\u2028')
    n = env.int('n', 0, 300)
    O = env.observe
    O('pct', '%d|%x|%5d|%-4d|%03d|%s' % (n, n, n, n, n, s)); O('fmt', '{:>5}|{!r}|{:,}'.format(n, s, n)); O('f', f'{n:04d}{s!s}')
    O('strip', s.strip()); O('split', s.split()); O('sp1', s.split(' ')); O('part', s.partition('a')); O('rpart', s.rpartition('a')); O('lower', s.lower()); O('upper', s.upper())
    O('lines', s.splitlines()); O('rep', s.replace('a', 'bb')); O('find', s.find('A')); O('count', s.count('a')); O('starts', s.startswith(('a', 'A'))); O('ends', s.endswith(' '))
    O('join', s.join(['x', 'y'])); O('mul', s * 2); O('in', 'a' in s); O('idx', s[::-1]); O('rstrip', s.rstrip('a ')); O('title', s.title()); O('z', s.zfill(5)); O('just', s.ljust(5, '.'))
    O('removeprefix', s.removeprefix('a')); O('isspace', s.isspace()); O('alpha', s.isalpha()); O('rsplit', s.rsplit(None, 1)); O('center', s.center(4)); O('cmp', s < 'b'); O('hex', hex(n % 256)[2:])
    O('trans', s.translate(str.maketrans('a', 'o')))


def text2(env, m, n):
    import unicodedata as ud
    s = env.string('s', 0, n, alphabet=None if m[:2] != 'NF' else 'ae\u00e9\u0301\u1100\u1161\ufb01\u212b')
    r = ud.normalize(m, s) if m[:2] == 'NF' else getattr(s, m)()
    env.observe(m, r)
    if r:
        env.reach('true')


def text3(env):
    import unicodedata as ud
    c = env.char('c')
    env.observe('cat', [f(c) for f in (ud.category, ud.bidirectional, ud.east_asian_width)])


SPECS = ['g', ',', '_', 'd', '5d', '<5', '^7d', '+d', '05d', ' d', '*>8', '=8', '012', '.2f', 'n', 'x', 'X', '08x', 'b', 'o', '<9x']


def formats(env, spec):
    n = env.int('n', -2 ** 40, 2 ** 40) if spec[-1] not in 'bo' else env.int('n', -99, 99)
    r = format(n, spec)
    env.observe('f', (r, len(r), r[:1], r[-1:]))
    r = '%5d|%-5d|%+d|%05d' % (n, n, n, n)
    env.observe('p', (len(r), r))


def counters(env):
    import collections as coll
    xs = [env.char('x', alphabet='abc') for _ in range(3)]
    c, d = coll.Counter(xs), coll.Counter('ab')
    O = lambda n, v: env.observe(n, sorted((k, f) for k, f in v.items()))
    O('c', c); O('add', c + d); O('sub', c - d); O('or', c | d); O('and', c & d)
    e = coll.Counter(c); e += d; O('iadd', e)
    e = coll.Counter(c); e |= d; O('ior', e)
    e = coll.Counter(c); e &= d; O('iand', e)
    e = coll.Counter(c); e -= d; O('isub', e)
    e = coll.Counter(c); e.update({'a': 3}); e.subtract('b'); O('upd', e); O('pos', +e); O('neg', -e)
    env.observe('mc', c.most_common()); env.observe('mc1', c.most_common(1)); env.observe('tot', c.total()); env.observe('el', sorted(c.elements())); env.observe('get', c['q'])


def bytesarr(env):
    n = env.int('n', 0, 255)
    b = bytearray()
    b.append(n); b.extend(b'ab'); b += bytes([n]); b[1] = 65; b.insert(0, 7)
    env.observe('b', bytes(b)); env.observe('l', len(b)); env.observe('pop', b.pop()); del b[0]
    env.observe('d', bytes(b).decode('utf-8', 'replace')); env.observe('s', list(b[1:])); env.observe('h', bytes(b[:1]).hex())


def ints(env):
    import itertools, functools, operator
    x, y = env.int('x', -20, 20), env.int('y', 1, 5)
    O = env.observe
    O('divmod', divmod(x, y)); O('mod', -x % y); O('fl', x // y); O('pow', x ** 2); O('abs', abs(x)); O('mm', (min(x, y), max(x, y)))
    O('acc', list(itertools.accumulate([x, y, x]))); O('red', functools.reduce(operator.add, [x, y, 3])); O('srt', sorted([x, y, 0], reverse=True)); O('any', any(v > 3 for v in (x, y)))
    O('sum', sum([x, y])); O('idx', [0, 1, 2, 3, 4, 5][y]); O('rng', list(range(y))); O('f', x / y > 0.3); O('int', int(x / y)); O('bool', bool(x)); O('cmp', 0 < y <= 3)


def codecs(env, enc):
    t = [env.string('t', 1) for _ in range(2)]
    p = env.tmp() / 'f'
    enc2 = env.choice('enc2', ['utf-8', 'utf-8-sig', 'ascii', 'latin-1'])
    e1, e2 = env.choice('e1', ['strict', 'replace', 'ignore']), env.choice('e2', ['strict', 'replace', 'ignore'])
    try:
        with open(p, 'w', encoding=enc, errors=e1) as out:
            for x in t:
                env.observe('n', out.write(x))
        with open(p, 'r', encoding=enc2, errors=e2, newline='') as inp:
            env.observe('text', [ord(c) for c in inp.read()])
    except UnicodeError as e:
        env.observe('error', type(e).__name__)


def floats(env):
    n = env.int('n', -2 ** 62, 2 ** 62)
    env.observe('n', (int(float(n)), int(float(f'{n}'))))
