"""S01: bitext conversion keeps pairs aligned and honours length limits"""
from harness.lib import *
from harness.lib import program as program_of
from harness.lib_spark import Session
BOUNDS = {'quick': '0..3 line pairs whose encodings have 0..3 ids of arbitrary value, every limit 1..4 on either side, truncating or dropping, lists or arrays as '
                   'encodings, every assignment of lines to at most 2 partitions and every order after the join, every number of stored parts 0..3; files of '
                   'different length; the command line program with word and byte codecs',
          'thorough': '4 pairs, 3 partitions'}
OUTSIDE = 'inputs without any usable pair; Spark itself (stand-in with its documented contract); lines with carriage returns'
TRUSTS = 'Spark: text splits into lines, zipWithIndex numbers them in file order, join matches equal keys, nothing is lost or duplicated by moving rows around'


def jobs(tier):
    q = tier == 'quick'
    res = []
    for n in (1, 2):
        for tr in (0, 1):
            res.append(dict(name=f'limits{n}_{"cut" if tr else "drop"}', fn='limits', params=dict(n=n, truncate=tr), must_reach=['stored', 'long', 'exact']))
    res += [dict(name=f'move{n}_{np}', fn='move', params=dict(n=n, np=np)) for n, np in ((2, 0), (2, 1), (2, 2), (3, 0), (3, 2)) + (() if q else ((3, 3), (4, 0)))]
    res += [dict(name='arrays'), dict(name='uneven', must_reach=['refused']), dict(name='empties'), dict(name='direct'), dict(name='overwrite'),
            dict(name='program_word', fn='program', params=dict(kind='word')), dict(name='program_two', fn='program', params=dict(kind='two'))]
    return res


class Codec:
    """encodings of the given texts; both sides know their own texts only"""

    def __init__(self, env, side, n, top, as_array=False):
        self.env, self.array = env, as_array
        self.lines = [f'{side}{i}' for i in range(n)]
        top = list(top) if isinstance(top, (list, tuple)) else [top] * n
        self.ids = {t: [env.int(side, 0, 300 if i == 0 else 200) for _ in range(env.pick('n_' + side, 0 if top[i] > 1 else 1, top[i]))]
                    for i, t in enumerate(self.lines)}

    def encode(self, t):
        ids = list(self.ids[t])
        if self.array:
            import numpy as np
            return np.array(ids, dtype=np.int64)
        return ids


def convert(env, spark, src, tgt, truncate, slen, tlen, np=0, enc=None, **kw):
    from nlcodec import spark as S
    df = S.read_raw_bitext_tok(spark, 's.txt', 't.txt', truncate=truncate, src_len=slen, tgt_len=tlen, src_tokenizer=src, tgt_tokenizer=tgt)
    return S.rdd_as_db(df.rdd.map(lambda r: (r.id, (r.x, r.y))), env.tmp() / 'db', repartition=np, **kw)


def expect(src, tgt, truncate, slen, tlen):
    res = {}
    for i, (a, b) in enumerate(zip(src.lines, tgt.lines)):
        x, y = src.ids[a], tgt.ids[b]
        if not x or not y:
            continue
        if truncate:
            res[i] = x[:slen], y[:tlen]
        elif len(x) <= slen and len(y) <= tlen:
            res[i] = x, y
    return res


def judge(env, db, want, sn='x', tn='y'):
    env.check(len(db) == len(want), 'number of stored pairs')
    seen = set()
    for r in db:
        i = int(r.id)
        env.check(i in want and i not in seen, 'a pair twice or out of nowhere')
        seen.add(i)
        env.check(env.eq([int(v) for v in getattr(r, sn)], list(want[i][0])) and env.eq([int(v) for v in getattr(r, tn)], list(want[i][1])), 'sides of another pair')
    env.check(len(seen) == len(want), 'a pair is missing')


def limits(env, n, truncate):
    src, tgt = Codec(env, 's', n, [3, 2]), Codec(env, 't', n, [3] if n < 2 else [2, 1])
    slen, tlen = env.pick('slen', 1, 4 if n < 2 else 3), env.pick('tlen', 1, 3 if n < 2 else 1)
    want = expect(src, tgt, truncate, slen, tlen)
    if any(len(v) > slen for v in src.ids.values()) or any(len(v) > tlen for v in tgt.ids.values()):
        env.reach('long')
    if any(len(v) == slen for v in src.ids.values()):
        env.reach('exact')
    env.assume(bool(want))
    spark = Session(env, {'s.txt': src.lines, 't.txt': tgt.lines}, 3 - n, shuffle=False)
    judge(env, convert(env, spark, src.encode, tgt.encode, bool(truncate), slen, tlen), want)
    env.reach('stored')


def move(env, n, np):
    """wherever Spark puts the rows"""
    src, tgt = Codec(env, 's', n, 1), Codec(env, 't', n, 1)
    spark = Session(env, {'s.txt': src.lines, 't.txt': tgt.lines}, 2 if n < 3 or not np else 1)
    judge(env, convert(env, spark, src.encode, tgt.encode, True, 5, 5, np), expect(src, tgt, True, 5, 5))


def arrays(env):
    src, tgt = Codec(env, 's', 2, 2, True), Codec(env, 't', 2, 2, True)
    tr = env.flag('truncate')
    want = expect(src, tgt, tr, 1, 2)
    env.assume(bool(want))
    judge(env, convert(env, Session(env, {'s.txt': src.lines, 't.txt': tgt.lines}, 1), src.encode, tgt.encode, tr, 1, 2), want)


def uneven(env):
    a, b = env.pick('a', 0, 3), env.pick('b', 0, 3)
    src, tgt = Codec(env, 's', a, 1), Codec(env, 't', b, 1)
    env.assume(a and b or a != b)
    spark = Session(env, {'s.txt': src.lines, 't.txt': tgt.lines}, 1)
    bad, db = env.raises(Exception, convert, env, spark, src.encode, tgt.encode, True, 5, 5)
    env.check(bad == (a != b), 'files of different length are not refused' if a != b else 'refused without reason')
    if a != b:
        env.reach('refused')
    else:
        judge(env, db, expect(src, tgt, True, 5, 5))


def empties(env):
    """empty lines keep their numbers"""
    lines = [['', 'ab', ' ', 'b'][env.pick('line', 0, 3 if i < 2 else 1)] for i in range(3)]
    other = ['x', 'y', ''] if env.flag('gap') else ['x', 'y', 'z']
    spark = Session(env, {'s.txt': lines, 't.txt': other}, 1)
    enc = lambda t: [ord(c) for c in t if c != ' ']  # noqa
    want = {i: (enc(a), enc(b)) for i, (a, b) in enumerate(zip(lines, other)) if enc(a) and enc(b)}
    env.assume(bool(want))
    judge(env, convert(env, spark, enc, enc, env.flag('truncate'), 5, 5), want)


def direct(env):
    """ready-made ids, empty partitions included"""
    from nlcodec import spark as S
    recs = [(i * 7, ([env.int('v', 0, 300)], [i])) for i in range(env.pick('n', 1, 3))]
    spark = Session(env, {}, 3)
    db = S.rdd_as_db(spark.parallelize(recs), env.tmp() / 'db', field_names=('x', 'y'), repartition=env.choice('np', [0, None]))
    judge(env, db, dict(recs))


def overwrite(env):
    """an existing database stays unless overwriting is asked for"""
    from nlcodec import spark as S
    from nlcodec.db.core import MultipartDb
    path = env.tmp() / 'db'
    old, new = [(0, ([1], [2])), (1, ([3], [4]))], [(5, ([env.int('v', 0, 9)], [9]))]
    MultipartDb.create(path, old, ['x', 'y'], has_id=True, part_size=1)
    over = env.flag('over')
    spark = Session(env, {}, 1)
    bad, db = env.raises(Exception, lambda: S.rdd_as_db(spark.parallelize(new), path, overwrite=over))
    env.check(bad != over, 'overwriting')
    judge(env, MultipartDb.load(path), dict(new if over else old))


def program(env, kind):
    """the command line program with real codecs"""
    from nlcodec import bitextdb, codec as C, spark as S
    from nlcodec.db.core import MultipartDb
    d = env.tmp()
    C.WordScheme(table=C.WordScheme.learn(['a b', 'ab a'])).save(d / 'w.model')
    C.CharScheme(table=C.CharScheme.learn(['a b', 'ab a'])).save(d / 'c.model')
    src = [env.string('s', 1, alphabet='ab ') + env.choice('more', [' b', '']) for _ in range(2)]
    tgt = ['a c ab', 'b']
    sn, tn = ('source', 'target') if kind == 'two' else ('x', 'y')
    for f in ('s.txt', 't.txt'):
        (d / f).write_text('')
    slen, cut, parts = env.pick('slen', 1, 2), env.pick('truncate', 0, 2), env.pick('np', 0, 2)
    truncate = cut < 2   # the default is to truncate
    opts = [(('-sm', '--src-model'), d / 'w.model'), (('-st', '--src-text'), d / 's.txt'), (('-tt', '--tgt-text'), d / 't.txt'),
            (('-db', '--db'), d / 'db'), (('-sl', '--src-len'), slen), (('-tl', '--tgt-len'), 3)]
    if kind == 'two':
        opts += [(('-tm', '--tgt-model'), d / 'c.model'), (('-sn', '--src-col'), sn), (('-tn', '--tgt-col'), tn)]
    if parts:
        opts += [(('-np', '--num-parts'), parts)]
    if cut:
        opts += [(('--truncate',) if truncate else ('--no-truncate',),)]
    spark = Session(env, {d / 's.txt': src, d / 't.txt': tgt}, 2, shuffle=False)
    real, S.get_session = S.get_session, lambda *a, **k: spark
    sc = C.load_scheme(d / 'w.model')
    tc = C.load_scheme(d / 'c.model') if kind == 'two' else sc
    want = {}
    for i, (a, b) in enumerate(zip(src, tgt)):
        x, y = [int(v) for v in sc.encode(a)], [int(v) for v in tc.encode(b)]
        if x and y and (truncate or len(x) <= slen and len(y) <= 3):
            want[i] = x[:slen], y[:3]
    try:
        env.assume(bool(want))
        program_of(env, bitextdb, arguments(env, 'spelling', *opts))
    finally:
        S.get_session = real
    judge(env, MultipartDb.load(d / 'db'), want, sn, tn)
