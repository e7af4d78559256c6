"""D08: shuffled iteration visits every record exactly once"""
from harness.lib import *
from harness.D03 import judge
BOUNDS = {'quick': 'every outcome of the shuffles for 0..4 records (any distinct ids, sequences of 0..2 values) in memory, loaded from a file, and in multi-part '
                   'databases of 1..4 parts of 1..4 records, both memory modes, iterated twice, partly iterated before, two iterations interleaved',
          'thorough': 'up to 5 records'}


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=f'mem{n}', fn='mem', params=dict(n=n)) for n in range(4 if q else 5)]
    res += [dict(name=f'parts{n}_{s}', fn='parts', params=dict(n=n, size=s)) for n in range(1, 4 if q else 5) for s in range(1, n + 1)]
    res += [dict(name='file'), dict(name='ids'), dict(name='interleaved'), dict(name='partial'), dict(name='order', must_reach=['moved', 'same'])]
    return res


def content(env, n):
    return [(i, [[env.int('v', 0, 255) for _ in range((i + 1) % 3)], [i]]) for i in range(n)]


def make(recs, has_id=False, **kw):
    from nlcodec.db.core import Db
    db = Db.create(iter(recs) if has_id else (r for _, r in recs), ['x', 'y'], has_id=has_id)
    return Db(list(db.fields.values()), shuffle=True, **kw)


def unchanged(env, db, recs):
    for i, (x, y) in recs:
        r = db[i]
        env.check(env.eq([int(v) for v in r.x], x) and env.eq([int(v) for v in r.y], y), 'stored data changed')


def mem(env, n):
    recs = content(env, n)
    db = make(recs)
    judge(env, db, recs)
    unchanged(env, db, recs)
    db.shuffle = False
    env.check([r.id for r in db] == list(range(n)), 'shuffling changed the stored order')


def file(env):
    from nlcodec.db.core import Db
    recs = content(env, 3)
    p = env.tmp() / 'db'
    Db.create([r for _, r in recs], ['x', 'y'], path=p)
    db = Db.load(p, shuffle=True)
    judge(env, db, recs)
    unchanged(env, db, recs)
    judge(env, Db.load(p), recs)


def ids(env):
    k = [env.int('id', -9, 10 ** 12) for _ in range(3)]
    env.assume(env.not_(env.or_(env.eq(k[0], k[1]), env.eq(k[0], k[2]), env.eq(k[1], k[2]))))
    recs = [(i, [[env.int('v', 0, 255)], [j]]) for j, i in enumerate(k)]
    judge(env, make(recs, has_id=True), recs)


def parts(env, n, size):
    from nlcodec.db.core import MultipartDb
    recs = content(env, n)
    path = env.tmp() / 'db'
    MultipartDb.create(path, (r for _, r in recs), ['x', 'y'], part_size=size)
    db = MultipartDb.load(path, shuffle=True, keep_in_mem=env.flag('mem'))
    if n < 4:
        judge(env, db, recs)
    else:
        seen = [r.id for r in db]
        env.check(sorted(seen) == list(range(n)), 'not each record once')
    judge(env, MultipartDb.load(path), recs)
    db.shuffle = False
    unshuffled = [r.id for r in db]
    env.check(sorted(unshuffled) == list(range(n)), 'not each record once after switching shuffling off')
    if env.eq(len(db.part_paths), n):  # parts of one record: nothing but the order of the parts
        env.check(unshuffled == list(range(n)), 'shuffling changed the stored order of the parts')


def interleaved(env):
    """two iterations at the same time do not disturb each other"""
    recs = content(env, 2)
    db = make(recs)
    a, b = iter(db), iter(db)
    x, y = [], []
    for _ in range(2):
        x.append(next(a).id)
        y.append(next(b).id)
    env.check(sorted(x) == [0, 1] and sorted(y) == [0, 1], 'interleaved iterations')


def partial(env):
    recs = content(env, 3)
    db = make(recs)
    it = iter(db)
    for _ in range(env.pick('taken', 1, 2)):
        next(it)
    judge(env, db, recs)


def order(env):
    """shuffling does move records, and the given order is one of the outcomes"""
    recs = content(env, 3)
    env.reach('same' if [r.id for r in make(recs)] == [0, 1, 2] else 'moved')
