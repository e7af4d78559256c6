"""D04: an interrupted multi-part write is never mistaken for a complete database"""
from harness.lib import *
from harness.D03 import judge
BOUNDS = {'quick': 'writing 3 records (contents arbitrary bytes) in parts of 1..4 records, into a new directory or over a complete older database of 1..2 parts; '
                   'the process stops before any change to the file system or within any flush of a file (nothing, one byte, half or all but one byte of it reaching the disk); '
                   'the record source fails before any record; any subset of the files of a complete database missing; a second attempt after every interruption; '
                   'writing a database of 3 records into a single file, new or over an older one',
          'thorough': '5 records, parts of 1..6'}
OUTSIDE = 'loss of changes the operating system already accepted (power failure); two writers at once'


def jobs(tier):
    n = 3 if tier == 'quick' else 5
    res = []
    for size in range(1, n + 2):
        for old in (0, 1, 2):
            res.append(dict(name=f'crash_s{size}_o{old}', fn='crash', params=dict(n=n, size=size, old=old),
                            must_reach=['crashed', 'finished', 'fails'] + ['complete'] * bool(old)))
    res += [dict(name='source', fn='source', params=dict(n=n), must_reach=['fails', 'complete']),
            dict(name='source_with', fn='source_with', must_reach=['fails', 'complete']),
            dict(name='subset', fn='subset', must_reach=['fails', 'complete'])]
    res += [dict(name=f'file_o{old}', fn='single', params=dict(n=n, old=old), must_reach=['crashed', 'finished', 'fails'] + ['complete'] * bool(old)) for old in (0, 2)]
    return res


def load_all(path, mem):
    from nlcodec.db.core import MultipartDb
    db = MultipartDb.load(path, keep_in_mem=mem)
    return db


def inspect(env, path, sets):
    """whatever the directory looks like: loading fails, or the complete records of one finished write are there"""
    for mem in (False, True):
        bad, db = env.raises(Exception, load_all, path, mem)
        if bad:
            env.reach('fails')
            continue
        env.reach('complete')
        mine = [s for s in sets if len(s) == len(db) and all(any(env.eq(r.id, i) for i, _ in s) for r in db)]
        env.check(mine, 'an interrupted write is taken for a complete database')
        judge(env, db, mine[0])


def make(env, n, tag, first):
    return [(first + i, [[env.int(tag, 0, 255)], [i]]) for i in range(n)]


def create(path, recs, size, over):
    from nlcodec.db.core import MultipartDb
    return MultipartDb.create(path, iter(recs), field_names=['x', 'y'], has_id=True, overwrite=over, part_size=size)


def retry(env, path, recs, size):
    judge(env, create(path, recs, size, True), recs)


def crash(env, n, size, old):
    new = make(env, n, 'v', 0)
    before = make(env, old, 'w', 100)
    path = env.tmp() / 'db'
    if old:
        create(path, before, 1, False)
    env.crash_arm(60)
    done = False
    try:
        create(path, new, size, bool(old))
        done = True
    except env.SimCrash:
        env.reach('crashed')
    env.crash_disarm()
    if done:
        env.reach('finished')
        judge(env, load_all(path, True), new)
    else:
        inspect(env, path, [new] + ([before] if old else []))
        retry(env, path, new, size)


class Broken(Exception):
    pass


def source(env, n):
    new = make(env, n, 'v', 0)
    before = make(env, 2, 'w', 100)
    path = env.tmp() / 'db'
    old = env.flag('old')
    if old:
        create(path, before, 1, False)
    k = env.pick('fails_at', 0, n)
    size = env.pick('size', 1, n + 1)

    def recs():
        for i, r in enumerate(new):
            if i == k:
                raise Broken()
            yield r
        if k == n:
            raise Broken()
    bad, r = env.raises(Broken, create, path, recs(), size, old)
    env.check(bad, 'the failure of the source is swallowed')
    inspect(env, path, [before] if old else [])
    retry(env, path, new, size)
    inspect(env, path, [new])


def source_with(env):
    """parts written by hand within a with block that fails"""
    from nlcodec.db.core import MultipartDb
    new = make(env, 2, 'v', 0)
    path = env.tmp() / 'db'
    k = env.pick('fails_at', 0, 3)

    def write():
        with MultipartDb.Writer(path, field_names=['x', 'y']) as w:
            for i, r in enumerate(new):
                if k == i:
                    raise Broken()
                w(i, [r])
            if k == 2:
                raise Broken()
    bad, _ = env.raises(Broken, write)
    env.check(bad == (k < 3), 'the failure is swallowed')
    inspect(env, path, [] if bad else [new])


def subset(env):
    """removing an older database stops anywhere, in whatever order its files are removed"""
    recs = make(env, 3, 'v', 0)
    path = env.tmp() / 'db'
    create(path, recs, env.pick('size', 1, 3), False)
    gone = [f for f in sorted(path.iterdir()) if env.flag('gone')]
    for f in gone:
        f.unlink()
    inspect(env, path, [recs])


def single(env, n, old):
    """a database in a single file"""
    from nlcodec.db.core import Db
    new, before = make(env, n, 'v', 0), make(env, old, 'w', 100)
    path = env.tmp() / 'db'
    if old:
        Db.create(iter(before), field_names=['x', 'y'], has_id=True, path=path)
    env.crash_arm(60)
    done = False
    try:
        Db.create(iter(new), field_names=['x', 'y'], has_id=True, path=path)
        done = True
    except env.SimCrash:
        env.reach('crashed')
    env.crash_disarm()
    bad, db = env.raises(Exception, Db.load, path)
    if done:
        env.reach('finished')
        env.check(not bad, 'a complete database does not load')
    if bad:
        env.reach('fails')
    else:
        env.reach('complete')
        mine = [s for s in [new] + ([before] if old and not done else []) if len(s) == len(db) and all(any(env.eq(r.id, i) for i, _ in s) for r in db)]
        env.check(mine, 'an interrupted write is taken for a complete database')
        judge(env, db, mine[0])
    Db.create(iter(new), field_names=['x', 'y'], has_id=True, path=path)
    judge(env, Db.load(path), new)
