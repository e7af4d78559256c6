"""D06: sequential batches keep the order, use each record once and stay within both budgets"""
from harness.lib import *
BOUNDS = {'quick': 'databases of 0..3 records with side lengths 0..3, single-part (automatic ids, any distinct integers of -2..9, texts, mixed types) and multi-part (every part size, both '
                   'memory modes, directory listings in any order), every token budget 1..14, sentence budget 1..3 or none; 4 records of equal sides; '
                   'order of 9 and 12 concrete records over every part size',
          'thorough': '4 records with side lengths 0..3, 5 records of equal sides'}
OUTSIDE = 'ids of other types than integers, texts and pairs'
PAIRS = [(0, 1), (1, 0), (0, 0), (1, 1), (2, 1), (1, 3), (3, 2)]


def jobs(tier):
    q = tier == 'quick'
    res = []
    for n in range(4 if q else 5):
        for sents in (0, 1, 2, 3):
            if n or not sents:
                res.append(dict(name=f'seq{n}_s{sents}', fn='seq', params=dict(n=n, sents=sents), must_reach=['batches', 'too long'] if n > 1 else []))
    for s in (0, 2):
        res.append(dict(name=f'seqeq_s{s}', fn='seq', params=dict(n=4 if q else 5, sents=s, equal=1), must_reach=['batches', 'too long']))
    res += [dict(name='ids'), dict(name='multi', must_reach=['batches', 'too long']), dict(name='order'), dict(name='dirs')]
    return res


def expected(env, recs):
    return [r for r in recs if min(r[1]) > 0]


def judge(env, it, recs, toks, sents):
    """recs: (marker, (x length, y length)) in the order of the database; every value of a record is its marker"""
    bad, batches = env.raises(Exception, lambda: list(it))
    want = expected(env, recs)
    too_long = env.any([max(ls) > toks for _, ls in want])
    if bad:
        env.check(too_long, f'an error although everything fits: {type(batches).__name__}')
        env.reach('too long')
        return
    env.check(env.not_(too_long), 'a record above the budget is not reported')
    if len(batches) > 1:
        env.reach('batches')
    got = []
    lens = dict(want)
    for b in batches:
        ms = [int(row[0]) for row in b.x_seqs]
        env.check(len(b) >= 1 and len(b) == len(ms), 'size of a batch')
        env.check(not sents or len(b) <= sents, 'more records than the budget')
        for m in ms:
            env.check(m in lens and m not in got, 'a record twice or out of nowhere')
            got.append(m)
            env.check(len(b) * max(lens[m]) <= toks, 'more tokens than the budget')
        env.check([int(row[0]) for row in b.y_seqs] == ms, 'sides do not belong together')
    env.check(got == [m for m, _ in want], 'missing records or another order')


def data_set(env, path, toks, sents, **kw):
    from nlcodec.db.batch import BatchIterable, BatchMeta
    meta = BatchMeta(pad_idx=0, bos_idx=1, eos_idx=2, add_eos_x=False, add_eos_y=False)
    return BatchIterable(path, batch_size=(toks, sents) if sents else toks, batch_meta=meta, **kw)


def rows_of(lens):
    return [[[k + 3] * a, [k + 3] * b] for k, (a, b) in enumerate(lens)]


def seq(env, n, sents, equal=0):
    from nlcodec.db.core import Db
    lens = [(k, k) for k in (env.pick('len', 0, 3) for _ in range(n))] if equal else [env.choice('lens', PAIRS) for _ in range(n)]
    path = env.tmp() / 'db'
    Db.create(rows_of(lens), ['x', 'y'], path=path)
    toks = env.int('max_toks', 1, 14)
    it = data_set(env, path, toks, sents)
    judge(env, it, [(k + 3, ls) for k, ls in enumerate(lens)], toks, sents)
    env.check(it.num_items == n, 'number of items')


def ids(env):
    """the order of the database is the order of writing, whatever the ids"""
    from nlcodec.db.core import Db
    ids = env.choice('ids', [None, ('b', 'a', 'c'), ('', 'b', 'a'), (2, 'a', (1, 2)), (2 ** 64, -1, 2 ** 63)])
    if ids is None:
        ids = [env.pick('id', -2, 9) for _ in range(3)]
        env.assume(len(set(ids)) == 3)
    path = env.tmp() / 'db'
    Db.create(list(zip(ids, rows_of([(1, 1)] * 3))), ['x', 'y'], has_id=True, path=path)
    toks = env.int('max_toks', 1, 4)
    judge(env, data_set(env, path, toks, 0), [(k + 3, (1, 1)) for k in range(3)], toks, 0)


def multi(env):
    from nlcodec.db.core import MultipartDb
    lens = [env.choice('lens', [(0, 1), (1, 1), (2, 1), (1, 3)]) for _ in range(3)]
    path = env.tmp() / 'db'
    MultipartDb.create(path, rows_of(lens), ['x', 'y'], part_size=env.pick('part', 1, 4))
    toks, sents = env.int('max_toks', 1, 10), env.pick('sents', 0, 2)
    judge(env, data_set(env, path, toks, sents, keep_in_mem=env.flag('mem')), [(k + 3, ls) for k, ls in enumerate(lens)], toks, sents)


def order(env):
    from nlcodec.db.core import MultipartDb
    n = env.choice('n', [9, 12])
    path = env.tmp() / 'db'
    MultipartDb.create(path, rows_of([(1, 1)] * n), ['x', 'y'], part_size=env.pick('part', 1, n + 1), max_parts=env.choice('max', [2, 1000]))
    toks = env.int('max_toks', 1, 5)
    judge(env, data_set(env, path, toks, 0), [(k + 3, (1, 1)) for k in range(n)], toks, 0)


def dirs(env):
    from nlcodec.db.core import MultipartDb
    path = env.tmp() / 'db'
    env.dir_order()
    MultipartDb.create(path, rows_of([(1, 1)] * 3), ['x', 'y'], part_size=1)
    toks = env.int('max_toks', 1, 3)
    it = data_set(env, path, toks, 0, keep_in_mem=env.flag('mem'))
    judge(env, it, [(k + 3, (1, 1)) for k in range(3)], toks, 0)
