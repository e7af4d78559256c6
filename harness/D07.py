"""D07: batches lay out sequences exactly, padded, with the requested markers"""
import itertools
from harness.lib import *
BOUNDS = {'quick': 'batches of 1..3 records whose sides have 1..3 values each, every value of -2^31..2^32-1 that fits (every integer storage type up to 32 bits and int64) with any padding, begin and '
                   'end ids of that range (begin and end different), all 16 marker settings, both orientations, sorted or not, without target, with raw text; '
                   'through saved databases as well',
          'thorough': 'batches of up to 4 records, sides of up to 4 values'}
OUTSIDE = 'values of 2^53 and more; empty sides (never put into batches); equal begin and end ids; moving batches to a device'
LO, HI = -2 ** 31, 2 ** 32 - 1
TYPES = ('uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'int64')
FLAGS = list(itertools.product((False, True), repeat=2))


def jobs(tier):
    q = tier == 'quick'
    res = []
    shapes = [[(1, 1)], [(2, 1)], [(1, 2), (2, 1)], [(2, 3), (2, 1)], [(1, 1), (3, 2)], [(1, 1), (1, 1)], [(1, 1), (2, 1), (1, 2)], [(2, 1), (1, 1), (3, 1)]]
    if not q:
        shapes += [[(3, 3), (4, 1), (1, 2)], [(1, 1), (2, 2), (1, 3), (3, 1)]]
    for s in shapes:
        for sort in (0, 1):
            nm = ''.join(f'{a}{b}' for a, b in s)
            if len(s) == 1:
                res.append(dict(name=f'mark{nm}_{sort}', fn='layout', params=dict(shape=s, sort=sort, free=1), must_reach=['added', 'present', 'refused']))
            else:
                res.append(dict(name=f'lay{nm}_{sort}', fn='layout', params=dict(shape=s, sort=sort, free=0)))
    for sort in (0, 1):
        res.append(dict(name=f'two{sort}', fn='layout', params=dict(shape=[(1, 1), (2, 1)], sort=sort, free=1, sides=1)))
    res += [dict(name='no_target'), dict(name='twice'), dict(name='raw'), dict(name='stored'), dict(name='stored_random')]
    return res


def with_marks(env, seq, bos, eos, add_bos, add_eos):
    """(refused, expected sequence)"""
    seq = list(seq)
    refused = False
    if env.eq(seq[0], bos):
        refused = refused or not add_bos
        env.reach('present')
    elif add_bos:
        seq = [bos] + seq
        env.reach('added')
    if env.eq(seq[-1], eos):
        refused = refused or not add_eos
        env.reach('present')
    elif add_eos:
        seq = seq + [eos]
        env.reach('added')
    return refused, seq


def ints(a):
    return [[int(v) for v in r] for r in a]


def rows(mat, first):
    m = ints(mat)
    return m if first else [list(c) for c in zip(*m)]


def judge(env, b, exp, pad, first, sort, has_y=True):
    """exp: expected (x, y) of every record"""
    n = len(exp)
    env.check(len(b) == n, 'number of records')
    sides = ['x'] + ['y'] * has_y
    got = {}
    for s in sides:
        mat = rows(getattr(b, s + '_seqs'), first)
        top = max(len(e['xy'.index(s)]) for e in exp)
        shape = tuple(int(v) for v in getattr(b, s + '_seqs').shape)
        env.check(shape == ((n, top) if first else (top, n)), f'shape of {s}_seqs')
        lens = [int(v) for v in getattr(b, s + '_len')]
        env.check(len(lens) == n and getattr(b, f'max_{s}_len') == top and getattr(b, f'{s}_toks') == sum(lens), f'totals of {s}')
        got[s] = (mat, lens)

    def row_is(i, e):
        return env.all([env.and_(got[s][1][i] == len(q), env.eq(got[s][0][i], list(q) + [pad] * (len(got[s][0][i]) - len(q))))
                        for s, q in zip(sides, e)])
    perms = list(itertools.permutations(range(n))) if sort else [tuple(range(n))]
    env.check(env.any([env.all([row_is(i, exp[p[i]]) for i in range(n)]) for p in perms]), 'rows')
    if sort:
        ls = got['x'][1]
        env.check(all(a >= c for a, c in zip(ls, ls[1:])), 'rows not ordered by source length')


def make_meta(env, free, few=False):
    """marker ids and settings; with free=0 the markers are values no sequence holds"""
    from nlcodec.db.batch import BatchMeta
    if free:
        pad, bos, eos = env.int('pad', -5, 10), env.int('bos', 0, 70000), env.int('eos', 0, 70000)
        env.assume(env.not_(env.eq(bos, eos)))
    else:
        pad, bos, eos = env.int('pad', -5, 10), 1, 2
    fl = env.choice('settings', [(0, 0, 0, 0), (0, 0, 1, 1), (1, 0, 0, 1), (1, 1, 1, 1)]) if few else [env.flag(k) for k in ('add_bos_x', 'add_bos_y', 'add_eos_x', 'add_eos_y')]
    return BatchMeta(pad_idx=pad, bos_idx=bos, eos_idx=eos, add_bos_x=fl[0], add_bos_y=fl[1], add_eos_x=fl[2], add_eos_y=fl[3])


def arr(env, vals, dt):
    import numpy as np
    return np.array(vals, dtype=dt)


def layout(env, shape, sort, free, sides=2):
    import numpy as np
    from nlcodec.db.batch import Batch, IdExample
    meta = make_meta(env, free)
    if sides == 1:
        env.assume(not meta.add_bos_y and not meta.add_eos_y)
    first = env.flag('batch_first')
    dt = env.choice('dtype', [getattr(np, t) for t in TYPES]) if free and len(shape) == 1 else np.uint32
    lo, hi = (3 if not free else max(LO, int(np.iinfo(dt).min))), min(HI, int(np.iinfo(dt).max))
    exs, exp, refused = [], [], False
    for i, (a, c) in enumerate(shape):
        x = [env.int('x', lo, hi) for _ in range(a)]
        y = [env.int('y', lo if sides == 2 else 70001, hi) for _ in range(c)]
        exs.append(IdExample(i, arr(env, x, dt), arr(env, y, dt)))
        rx, ex = with_marks(env, x, meta.bos_idx, meta.eos_idx, meta.add_bos_x, meta.add_eos_x)
        ry, ey = with_marks(env, y, meta.bos_idx, meta.eos_idx, meta.add_bos_y, meta.add_eos_y)
        refused = refused or rx or ry
        exp.append((ex, ey))
    bad, b = env.raises(AssertionError, Batch, exs, bool(sort), first, meta)
    if refused:
        env.check(bad, 'a marker where none is requested is let through')
        env.reach('refused')
        return
    env.check(not bad, 'refused without reason')
    judge(env, b, exp, meta.pad_idx, first, sort)
    env.observe('x', ints(b.x_seqs))


def no_target(env):
    from nlcodec.db.batch import Batch, IdExample
    meta = make_meta(env, 0)
    first, sort = env.flag('batch_first'), env.flag('sort')
    exs, exp = [], []
    for i, n in enumerate((1, 2)):
        x = [env.int('x', 3, HI) for _ in range(n)]
        exs.append(IdExample(i, arr(env, x, 'uint32'), None))
        exp.append((with_marks(env, x, 1, 2, meta.add_bos_x, meta.add_eos_x)[1],))
    b = Batch(exs, sort, first, meta)
    env.check(not b.has_y, 'a target out of nowhere')
    judge(env, b, exp, meta.pad_idx, first, sort, has_y=False)


def twice(env):
    """the same records put into a batch again: no second marker"""
    from nlcodec.db.batch import Batch, IdExample
    meta = make_meta(env, 0)
    exs, exp = [], []
    for i, n in enumerate((2, 1)):
        x, y = [env.int('x', 3, HI) for _ in range(n)], [env.int('y', 3, HI)]
        exs.append(IdExample(i, arr(env, x, 'uint32'), arr(env, y, 'uint32')))
        exp.append((with_marks(env, x, 1, 2, meta.add_bos_x, meta.add_eos_x)[1], with_marks(env, y, 1, 2, meta.add_bos_y, meta.add_eos_y)[1]))
    for _ in range(2):
        judge(env, Batch(list(exs), False, True, meta), exp, meta.pad_idx, True, 0)


def raw(env):
    """raw texts follow their rows"""
    from nlcodec.db.batch import Batch, IdExample, BatchMeta
    meta = BatchMeta(pad_idx=0, bos_idx=1, eos_idx=2)
    exs = []
    lens = [env.pick('len', 1, 3) for _ in range(3)]
    for i, n in enumerate(lens):
        e = IdExample(i, arr(env, [10 + i] * n, 'uint8'), arr(env, [20 + i] * (1 + i % 2), 'uint8'))
        e.x_raw, e.y_raw = f'x{i}', f'y{i}'
        exs.append(e)
    sort = env.flag('sort')
    b = Batch(exs, sort, True, meta)
    for i, (r, s) in enumerate(zip(ints(b.x_seqs), ints(b.y_seqs))):
        k = r[0] - 10
        env.check(s[0] == 20 + k and b.x_raw[i] == f'x{k}' and b.y_raw[i] == f'y{k}', 'raw text of another record')
    env.check(sorted(r[0] for r in ints(b.x_seqs)) == [10, 11, 12], 'rows')


def stored_rows(env, shape):
    recs = [[[env.int('v', 3, 70000 if i == 0 else 255) for _ in range(n)] for n in s] for i, s in enumerate(shape)]
    return recs


def stored(env, sort_by=None):
    """through a saved database, twice: the markers do not get into the stored data"""
    from nlcodec.db.core import Db
    from nlcodec.db.batch import BatchIterable
    recs = stored_rows(env, [(2, 1), (1, 2)])
    meta = make_meta(env, 0, few=True)
    path = env.tmp() / 'db'
    Db.create(recs, ['x', 'y'], path=path)
    first, sort = env.flag('batch_first'), env.flag('sort')
    it = BatchIterable(path, batch_size=100, batch_meta=meta, sort_desc=sort, batch_first=first, sort_by=sort_by)
    exp = [(with_marks(env, x, 1, 2, meta.add_bos_x, meta.add_eos_x)[1], with_marks(env, y, 1, 2, meta.add_bos_y, meta.add_eos_y)[1]) for x, y in recs]
    for _ in range(2):
        bs = list(it)
        env.check(len(bs) == 1, 'number of batches')
        if sort or not sort_by:
            judge(env, bs[0], exp, meta.pad_idx, first, sort)
        else:
            any_order(env, bs[0], exp, meta.pad_idx, first)


def any_order(env, b, exp, pad, first):
    env.check(len(b) == len(exp), 'number of records')
    x, y = rows(b.x_seqs, first), rows(b.y_seqs, first)

    def is_(i, e):
        return env.and_(env.eq(x[i], list(e[0]) + [pad] * (len(x[i]) - len(e[0]))), env.eq(y[i], list(e[1]) + [pad] * (len(y[i]) - len(e[1]))))
    env.check(env.any([env.all([is_(i, exp[p[i]]) for i in range(len(exp))]) for p in itertools.permutations(range(len(exp)))]), 'rows')


def stored_random(env):
    stored(env, 'eq_len_rand_batch')
