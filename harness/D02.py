"""D02: a stored sequence database returns exactly what was put in"""
from harness.lib import *
BOUNDS = {'quick': 'in memory and after saving and loading: 0..3 records of 1..2 fields with 0..3 integers each, every integer any value of a '
                   '64-bit type (mixed signed and unsigned ranges included), buffers that are flushed after every 1..3 integers or never; '
                   '254..257 integers in one or two sequences; automatic and any distinct given integer ids; arrays of several integer types as input',
          'thorough': 'up to 4 records of up to 3 integers'}
OUTSIDE = 'a single field holding both negative values and values of 2^63 and more (no integer type holds both)'
LO, HI = -2 ** 63, 2 ** 64 - 1


def jobs(tier):
    q = tier == 'quick'
    res = []
    shapes = [[], [[0]], [[1]], [[2]], [[1], [1]], [[2], [1]], [[0], [1]], [[1], [0]], [[1], [0], [1]], [[1, 1]], [[1, 2], [0, 1]], [[0, 0], [1, 1]], [[0], [0]]]
    if not q:
        shapes += [[[1], [1], [1]], [[3], [2]], [[2], [0], [2]], [[1, 1], [1, 1], [1, 1]]]
    shapes.append([[3], [0], [2]])
    res += [dict(name=f'edge{t}', fn='edge', params=dict(total=t)) for t in (254, 255, 256, 257)]
    for s in shapes:
        tot = sum(map(sum, s))
        for buf in ([1, 2, 0] if tot > 1 else [0]):
            res.append(dict(name=f'rec{"_".join("".join(map(str, r)) for r in s)}_buf{buf}', fn='records', params=dict(shape=s, buf=buf)))
    res += [dict(name='signs', fn='signs', params=dict(buf=b)) for b in (1, 2)]
    res += [dict(name='ids'), dict(name='views'), dict(name='dup'), dict(name='no_fit', must_reach=['refused']), dict(name='arrays'), dict(name='file')]
    return res


def fits(env, vals):
    return env.or_(env.all([v <= 2 ** 63 - 1 for v in vals]), env.all([v >= 0 for v in vals]))


def is_int_seq(x):
    return x.dtype.kind in 'iu' if len(x) else True


def build(names, recs, buf):
    """through the field builders when a buffer size is wanted, through Db.create otherwise"""
    from nlcodec.db.core import Db, SeqField
    if not buf:
        return Db.create([r for _, r in recs], field_names=names)
    bs = [SeqField.Builder(n, buf_size=buf) for n in names]
    for i, r in recs:
        for b, col in zip(bs, r):
            b.append(i, col)
    return Db(fields=[b.build() for b in bs])


def judge(env, db, names, recs):
    env.check(len(db) == len(recs), 'number of records')
    seen = []
    for r in db:
        seen.append(r.id)
        hit = [c for i, c in recs if env.eq(i, r.id)]
        env.check(len(hit) == 1, 'a record out of nowhere')
        for n, col in zip(names, hit[0]):
            got = getattr(r, n)
            env.check(is_int_seq(got), 'no integers any more')
            env.check(env.eq([int(x) for x in got], list(col)), 'iteration gives another sequence')
    env.check(len(seen) == len(recs), 'iteration does not give each record exactly once')
    for i, (a, b) in enumerate((a, b) for k, a in enumerate(seen) for b in seen[:k]):
        env.check(env.not_(env.eq(a, b)), 'a record twice')
    for i, cols in recs:
        r = db[i]
        env.check(env.eq(r.id, i), 'id of the record')
        for n, col in zip(names, cols):
            got = getattr(r, n)
            env.check(is_int_seq(got), 'no integers any more')
            env.check(len(got) == len(col), 'length')
            env.check(env.eq(db.fields[n].get_len(i), len(col)), 'reported length')
            env.check(env.eq([int(x) for x in got], list(col)), 'looking up gives another sequence')


def both(env, db, names, recs):
    from nlcodec.db.core import Db
    judge(env, db, names, recs)
    p = env.tmp() / 'db'
    db.save(p)
    judge(env, Db.load(p), names, recs)


def records(env, shape, buf):
    names = ['x', 'y'][:len(shape[0]) if shape else 1]
    recs = []
    for i, r in enumerate(shape):
        recs.append((i, [[env.int('v', LO, HI) for _ in range(n)] for n in r]))
    for c in range(len(names)):
        env.assume(fits(env, [v for _, r in recs for v in r[c]]))
    db = build(names, recs, buf)
    both(env, db, names, recs)
    env.observe('lens', [[len(c) for c in r] for _, r in recs])


def signs(env, buf):
    """mixed ranges over several flushes of the buffer"""
    vs = [env.int('v', LO, HI) for _ in range(3)]
    env.assume(fits(env, vs))
    recs = [(0, [vs[:1]]), (1, [vs[1:]])]
    judge(env, build(['x'], recs, buf), ['x'], recs)


def ids(env):
    from nlcodec.db.core import Db
    k = [env.int('id', -5, 10 ** 12) for _ in range(2)]
    env.assume(env.not_(env.eq(k[0], k[1])))
    recs = [(i, [[env.int('v', 0, 300)]]) for i in k]
    db = Db.create(iter(recs), field_names=['x'], has_id=True)
    judge(env, db, ['x'], recs)


def views(env):
    """keys, values, lengths of a single field"""
    from nlcodec.db.core import SeqField
    recs = [(7, [env.int('v', -200, 70000), 1]), (3, []), (5, [env.int('v', -200, 70000)])]
    f = SeqField.create('x', recs)
    env.check(len(f) == 3, 'length')
    env.check(list(f.keys()) == [7, 3, 5], 'keys')
    env.check(env.eq([[int(x) for x in v] for v in f.values()], [r for _, r in recs]), 'values')
    env.check(env.eq([(i, int(n)) for i, n in f.lengths()], [(i, len(r)) for i, r in recs]), 'lengths')
    for i, r in recs:
        env.check(env.eq([int(x) for x in f[i]], r), 'item')


def dup(env):
    """a duplicate id is refused"""
    from nlcodec.db.core import Db
    k = [env.int('id', 0, 2) for _ in range(3)]
    recs = [(i, [[j]]) for j, i in enumerate(k)]
    dupl = env.or_(env.eq(k[0], k[1]), env.eq(k[0], k[2]), env.eq(k[1], k[2]))
    bad, db = env.raises((AssertionError, ValueError, KeyError, Exception), Db.create, iter(recs), ['x'], True)
    if dupl:
        env.check(bad, 'a duplicate id is accepted')
    else:
        env.check(not bad, 'different ids are refused')
        judge(env, db, ['x'], recs)


def edge(env, total):
    """totals and lengths around the limits of the narrowest integer types of the stored positions"""
    v = env.int('v', -1, 70000)
    k = env.choice('cut', [0, 1, total - 1, total])
    seq = [v] + [i % 100 for i in range(1, total)]
    recs = [(0, [seq[:k]]), (1, [seq[k:]]), (2, [[]]), (3, [[v] * env.pick('last', 0, 1)])]
    judge(env, build(['x'], recs, env.choice('buf', [0, 5])), ['x'], recs)


def no_fit(env):
    """values no common integer type can hold are refused, never altered"""
    a, b = env.int('v', LO, -1), env.int('w', 2 ** 63, HI)
    buf = env.pick('buf', 1, 3)
    recs = [(0, [[a]]), (1, [[b]])]
    bad, db = env.raises(Exception, build, ['x'], recs, buf)
    if bad:
        env.reach('refused')
        return
    judge(env, db, ['x'], recs)


def arrays(env):
    """sequences given as arrays"""
    import numpy as np
    dt = env.choice('dtype', [np.uint8, np.int16, np.int32, np.uint16, np.int64])
    info = np.iinfo(dt)
    vs = [[env.int('v', int(info.min), int(info.max)) for _ in range(2)], [env.int('v', int(info.min), int(info.max))]]
    recs = [(i, [np.array(v, dtype=dt)]) for i, v in enumerate(vs)]
    db = build(['x'], recs, env.pick('buf', 0, 2))
    judge(env, db, ['x'], [(i, [v]) for i, v in enumerate(vs)])


def file(env):
    """create with a path, load with another record type"""
    from collections import namedtuple
    from nlcodec.db.core import Db
    v = [env.int('v', -40000, 70000) for _ in range(2)]
    p = env.tmp() / 'db'
    Db.create([[[v[0]], [1, 2]], [[], [v[1]]]], field_names=['x', 'y'], path=p)
    T = namedtuple('T', ['id', 'x', 'y'])
    db = Db.load(p, rec_type=T)
    judge(env, db, ['x', 'y'], [(0, [[v[0]], [1, 2]]), (1, [[], [v[1]]])])
    env.check(all(isinstance(r, T) for r in db), 'record type')
