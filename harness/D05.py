"""D05: length-sorted random batches use each record once and stay within both budgets"""
from harness.lib import *
BOUNDS = {'quick': 'databases of 0..3 records (4 for one setting) whose lengths are any numbers 0..1000 (one or two fields), every token budget 1..5000 and '
                   'sentence budget 1..4 or none, every outcome of the shuffles; multi-part databases of up to 3 parts (empty parts included), both memory modes; '
                   'ids automatic, any distinct integers (of any size), texts of up to 2 characters, pairs or mixed; the batched data set reading a saved database',
          'thorough': 'up to 4 records with two fields and 5 with one'}
OUTSIDE = 'ids of other types than integers, texts and pairs of them'
N = 1000


def jobs(tier):
    q = tier == 'quick'
    res = []
    for n, f in ((0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1)) + (() if q else ((3, 2),)):
        for sents in (['inf', 'any'] if n else ['inf']):
            res.append(dict(name=f'db_{n}x{f}_{sents}', fn='single', params=dict(n=n, f=f, sents=sents),
                            must_reach=['batches', 'too long'] if n else ['nothing']))
    if q:
        res += [dict(name=f'db_3x2_s{s}', fn='single', params=dict(n=3, f=2, sents='inf', same=1)) for s in (1,)]
        res += [dict(name=f'db_4x1_f{d}', fn='single', params=dict(n=4, f=1, sents=s, draw=d)) for d, s in ((0, 'inf'),)]
    else:
        res += [dict(name=f'db_4x1_{s}', fn='single', params=dict(n=4, f=1, sents=s)) for s in ('inf', 'any')]
    res += [dict(name=f'ids_{k}', fn='ids', params=dict(kind=k)) for k in ('int', 'str', 'mixed', 'pair')]
    for shape in ((2,), (1, 1), (1, 0), (0, 1, 1), (0, 0)) + (() if q else ((2, 1),)):
        res.append(dict(name='parts' + ''.join(map(str, shape)), fn='parts', params=dict(shape=shape)))
    res += [dict(name=f'iterable{m}', fn='iterable', params=dict(multi=m)) for m in (0, 1)]
    return res


def make_db(env, lens, ids=None):
    """a database whose records have the given (symbolic) lengths; contents do not matter here"""
    import numpy as np
    from nlcodec.db.core import Db, SeqField
    data = np.zeros(N, dtype=np.int64)
    ids = list(range(len(lens))) if ids is None else ids
    fields = []
    for k, name in enumerate(['x', 'y'][:len(lens[0]) if lens else 1]):
        refs = np.array([[0, ls[k]] for ls in lens], dtype=np.uint16).reshape(-1, 2)
        fields.append(SeqField(name, ids={i: j for j, i in enumerate(ids)}, refs=refs, data=data))
    return Db(fields)


def budgets(env, sents):
    toks = env.int('max_toks', 1, 5 * N)
    return dict(max_toks=toks) if sents == 'inf' else dict(max_toks=toks, max_sents=env.int('max_sents', 1, 4))


def judge(env, batches, recs, toks, sents=None, width=None):
    """recs: list of (id, longest, shortest); batches: lists of ids"""
    used = []
    for b in batches:
        env.check(len(b) >= 1, 'an empty batch')
        ls = []
        for r in b:
            hit = [x for x in recs if env.eq(x[0], r)]
            env.check(len(hit) == 1, 'a record out of nowhere')
            env.check(hit[0] not in used, 'a record twice')
            used.append(hit[0])
            ls.append(hit[0][1])
        for x in ls:
            env.check(len(b) * x <= toks, 'more tokens than the budget')
        if sents is not None:
            env.check(len(b) <= sents, 'more records than the budget')
    for r in recs:
        if r in used:
            env.check(r[2] >= 1, 'a record with an empty field is used')
        else:
            env.check(env.eq(r[2], 0), 'a record is missing')


def run(env, gen, recs, toks, sents=None):
    """takes all batches; an error is required exactly for records that can never fit"""
    bad, batches = env.raises(Exception, lambda: [list(b) for b in gen()])
    too_long = env.any([env.and_(lo >= 1, hi > toks) for _, hi, lo in recs])
    nothing = env.all([env.eq(lo, 0) for _, hi, lo in recs])
    if bad:
        env.check(env.or_(too_long, nothing), f'an error although everything fits: {type(batches).__name__}')
        if recs and env.eq(too_long, True):
            env.reach('too long')
        else:
            env.reach('nothing')
        return None
    env.check(env.not_(too_long), 'a record above the budget is not reported')
    env.reach('batches')
    judge(env, [[r.id for r in b] for b in batches], recs, toks, sents)
    return batches


def longest(env, ls):
    m = ls[0]
    for x in ls[1:]:
        m = env.ite(x > m, x, m)
    return m


def shortest(env, ls):
    m = ls[0]
    for x in ls[1:]:
        m = env.ite(x < m, x, m)
    return m


def as_recs(env, lens, ids=None):
    return [(i if ids is None else ids[i], longest(env, ls), shortest(env, ls)) for i, ls in enumerate(lens)]


def single(env, n, f, sents, same=0, draw=None):
    lens = [[env.int('len', 0, N) for _ in range(f)] for _ in range(n)]
    if same:        # one of the fields of the same length everywhere
        for ls in lens[1:]:
            env.assume(env.eq(ls[1], lens[0][1]))
    if draw is not None:    # lengths given in order, so that fewer orders remain
        for a, b in zip(lens, lens[1:]):
            env.assume(a[0] <= b[0] if draw else a[0] >= b[0])
    db = make_db(env, lens)
    kw = budgets(env, sents)
    bad, _ = env.raises(Exception, len, db)
    env.check(not bad and env.eq(len(db), n), 'number of records')
    run(env, lambda: db.make_eq_len_ran_batches(**kw), as_recs(env, lens), kw['max_toks'], kw.get('max_sents'))


def ids(env, kind):
    big = lambda: env.int('id', -3, 2 ** 70)
    text = lambda: env.string('id', 0, 2)
    if kind == 'pair':
        ids = [('a', 1), ('a', 2)]
    else:
        ids = dict(int=lambda: [big(), big()], str=lambda: [text(), text()], mixed=lambda: [big(), text()])[kind]()
        if kind != 'mixed':
            env.assume(env.not_(env.eq(*ids)))
    lens = [[env.int('len', 0, N)] for _ in ids]
    db = make_db(env, lens, ids)
    kw = budgets(env, 'inf')
    run(env, lambda: db.make_eq_len_ran_batches(**kw), as_recs(env, lens, ids), kw['max_toks'])


def parts(env, shape):
    from nlcodec.db.core import MultipartDb
    path = env.tmp() / 'db'
    lens, k = [], 0
    with MultipartDb.Writer(path, ['x', 'y']) as w:
        for p, n in enumerate(shape):
            rows = []
            for _ in range(n):
                ls = env.choice('lens', [(0, 1), (1, 1), (2, 1), (1, 3)])
                lens.append(ls)
                rows.append((k, [[k] * ls[0], [k] * ls[1]]))
                k += 1
            w(p, rows)
    db = MultipartDb.load(path, keep_in_mem=env.flag('mem'))
    toks = env.int('max_toks', 1, 12)
    sents = env.choice('sents', [None, 1, 2])
    kw = dict(max_toks=toks) if sents is None else dict(max_toks=toks, max_sents=sents)
    bs = run(env, lambda: db.make_eq_len_ran_batches(**kw), as_recs(env, lens), toks, sents)
    for b in bs or ():
        for r in b:
            env.check([int(v) for v in r.x] == [r.id] * lens[r.id][0] and [int(v) for v in r.y] == [r.id] * lens[r.id][1], 'content')


def iterable(env, multi):
    """through the batched data set"""
    from nlcodec.db.core import Db, MultipartDb
    from nlcodec.db.batch import BatchIterable, BatchMeta
    path = env.tmp() / 'db'
    lens = [env.choice('lens', [(0, 1), (1, 2), (3, 1)]) for _ in range(2 if multi else 3)]
    rows = [[[k + 3] * a, [k + 3] * b] for k, (a, b) in enumerate(lens)]
    if multi:
        MultipartDb.create(path, rows, ['x', 'y'], part_size=env.pick('part', 1, 2))
    else:
        Db.create(rows, ['x', 'y'], path=path)
    toks, sents = env.int('max_toks', 1, 10), env.pick('sents', 0, 3)
    meta = BatchMeta(pad_idx=0, bos_idx=1, eos_idx=2, add_eos_x=False, add_eos_y=False)
    it = BatchIterable(path, batch_size=(toks, sents) if sents else toks, batch_meta=meta, sort_by='eq_len_rand_batch',
                       keep_in_mem=env.flag('mem') if multi else False)
    recs = as_recs(env, lens)
    bad, batches = env.raises(Exception, lambda: list(it))
    too_long = env.any([env.and_(lo >= 1, hi > toks) for _, hi, lo in recs])
    if bad:
        env.check(env.or_(too_long, all(lo == 0 for _, _, lo in recs)), 'an error although everything fits')
        return
    env.check(env.not_(too_long), 'a record above the budget is not reported')
    judge(env, [[int(row[0]) - 3 for row in b.x_seqs] for b in batches], recs, toks, sents or None)
