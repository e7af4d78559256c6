"""D03: a multi-part database holds every record exactly once"""
from harness.lib import *
BOUNDS = {'quick': '1..4 records of two fields with 0..2 integers each (one or two of them of 34 bits, the others of one byte: all widths are D02), every part size 1..5 and the default, '
                   'both memory modes, automatic and any distinct given ids, several limits on the number of parts, up to 12 parts; target directory absent, '
                   'empty, holding an older database of 1..3 parts, an interrupted write or a foreign file; overwriting asked for or not',
          'thorough': 'up to 6 records, every part size 1..7'}
OUTSIDE = 'streams without any record; ids given twice; the order of parts'
SHAPES = [[(1, 1)], [(2, 1), (0, 1)], [(1, 0), (0, 0), (2, 1)], [(1, 2), (1, 1), (0, 1), (1, 1)]]
BIG = [[(1, 1)] * 5, [(1, 0), (2, 2), (0, 0), (1, 1), (1, 1), (2, 0)]]


def jobs(tier):
    shapes = SHAPES + (BIG if tier != 'quick' else [])
    res = [dict(name=f'store{i}', fn='store', params=dict(shape=s), must_reach=['one', 'ragged'] if len(s) > 2 else []) for i, s in enumerate(shapes)]
    res += [dict(name='ids', fn='ids'), dict(name='writer', fn='writer'), dict(name='many', fn='many'), dict(name='default', fn='default'),
            dict(name='target', fn='target', must_reach=['refused', 'overwritten', 'new'])]
    return res


def content(env, shape, tag='v', wide=1):
    """the first values of a wide range of integers, the others of one byte"""
    rng = iter([(-2 ** 33, 2 ** 33)] * wide + [(0, 255)] * 99)
    return [(i, [[env.int(tag, *next(rng)) for _ in range(n)] for n in s]) for i, s in enumerate(shape)]


def judge(env, db, recs):
    env.check(env.eq(len(db), len(recs)), 'reported number of records')
    for again in range(2):
        left = list(recs)
        for r in db:
            hit = None
            for k, (i, _) in enumerate(left):
                if env.eq(i, r.id):
                    hit = k
            env.check(hit is not None, 'a record twice or out of nowhere')
            _, cols = left.pop(hit)
            env.check(env.eq([int(x) for x in r.x], cols[0]) and env.eq([int(x) for x in r.y], cols[1]), 'content of a record')
        env.check(not left, 'a record is missing')


def parts(path):
    """sizes of the parts on disk, in order"""
    from nlcodec.db.core import Db
    fs = [p for p in path.iterdir() if p.name.startswith('part-') and p.suffix == '']
    fs.sort(key=lambda p: int(p.name[5:]))
    return [len(Db.load(p)) for p in fs]


def store(env, shape):
    from nlcodec.db.core import MultipartDb
    recs = content(env, shape, wide=2)
    n = len(recs)
    size = env.pick('part_size', 1, n + 1)
    path = env.tmp() / 'db'
    judge(env, MultipartDb.create(path, iter([r for _, r in recs]), field_names=['x', 'y'], part_size=size), recs)
    env.check(parts(path) == [size] * (n // size) + ([n % size] if n % size else []), 'sizes of the parts')
    judge(env, MultipartDb.load(path, keep_in_mem=env.flag('mem')), recs)
    env.reach('one' if size >= n else 'several')
    if n % size and size < n:
        env.reach('ragged')


def ids(env):
    from nlcodec.db.core import MultipartDb
    k = [env.int('id', -3, 10 ** 12) for _ in range(3)]
    env.assume(env.not_(env.or_(env.eq(k[0], k[1]), env.eq(k[0], k[2]), env.eq(k[1], k[2]))))
    recs = [(i, [[env.int('v', 0, 300)], [j]]) for j, i in enumerate(k)]
    path = env.tmp() / 'db'
    judge(env, MultipartDb.create(path, iter(recs), field_names=['x', 'y'], has_id=True, part_size=env.pick('part_size', 1, 3)), recs)
    judge(env, MultipartDb.load(path, keep_in_mem=True), recs)


def writer(env):
    """parts written in any order by hand, possibly without records"""
    from nlcodec.db.core import MultipartDb
    recs = content(env, [(1, 1), (0, 2), (1, 0)])
    path = env.tmp() / 'deep' / 'db'
    nums = env.choice('numbers', [[0, 1, 2], [2, 0, 1], [7, 30, 4]])
    cut = env.choice('cut', [[0, 1, 2, 3], [0, 3, 3, 3], [0, 0, 2, 3]])
    with MultipartDb.Writer(path, field_names=['x', 'y'], max_parts=env.choice('max', [1, 2, 10, 1000])) as w:
        for j, k in enumerate(nums):
            p, c = w(k, iter(recs[cut[j]:cut[j + 1]]))
            env.check(c == cut[j + 1] - cut[j] and p.exists(), 'result of writing a part')
    judge(env, MultipartDb.load(path, keep_in_mem=env.flag('mem')), recs)


def many(env):
    from nlcodec.db.core import MultipartDb
    recs = [(i, [[i], [env.int('v', 0, 255 if i % 11 else 70000)]]) for i in range(12)]
    path = env.tmp() / 'db'
    judge(env, MultipartDb.create(path, (r for _, r in recs), field_names=['x', 'y'], part_size=1, max_parts=env.choice('max', [1, 2, 10, 11, 1000])), recs)
    env.check(parts(path) == [1] * 12, 'sizes of the parts')


def default(env):
    from nlcodec.db.core import MultipartDb
    recs = content(env, [(1, 1), (2, 0)])
    path = env.tmp() / 'db'
    judge(env, MultipartDb.create(path, [r for _, r in recs], ['x', 'y']), recs)
    env.check(parts(path) == [2], 'sizes of the parts')
    from nlcodec.db.batch import IdExample
    env.check(all(isinstance(r, IdExample) for r in MultipartDb.load(path, rec_type=IdExample)), 'record type')
    judge(env, MultipartDb.load(str(path), rec_type=IdExample), recs)


def target(env):
    from nlcodec.db.core import MultipartDb
    recs = content(env, [(1, 1), (0, 1), (1, 0)], wide=0)
    old = content(env, [(1, 1), (1, 1), (1, 1)][:env.choice('old_n', [1, 3])], 'w', wide=0)
    path = env.tmp() / 'db'
    state = env.choice('state', ['absent', 'empty', 'old', 'interrupted', 'foreign'])
    if state in ('empty', 'foreign'):
        path.mkdir()
    if state in ('old', 'interrupted'):
        MultipartDb.create(path, [r for _, r in old], ['x', 'y'], part_size=1)
    if state == 'interrupted':
        (path / '_SUCCESS').unlink()
    if state == 'foreign':
        (path / 'notes.txt').write_text('mine')
    over = env.flag('overwrite')
    bad, db = env.raises(Exception, MultipartDb.create, path, (r for _, r in recs), ['x', 'y'], False, over, env.pick('part_size', 1, 4))
    if state in ('absent', 'empty') or over:
        env.check(not bad, f'refused although allowed ({state})')
        judge(env, db, recs)
        judge(env, MultipartDb.load(path, keep_in_mem=True), recs)
        env.reach('overwritten' if state == 'old' else 'new')
    else:
        env.check(bad, f'overwritten without being asked ({state})')
        env.reach('refused')
        if state == 'old':
            judge(env, MultipartDb.load(path), old)
        if state == 'foreign':
            env.check((path / 'notes.txt').read_text() == 'mine' and len(list(path.iterdir())) == 1, 'foreign files changed')
