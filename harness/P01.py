"""P01: iterative pairwise reduction equals folding the items in order"""
from harness.lib import *
BOUNDS = {'quick': 'every sequence of 1..9 items over the free monoid (tuples of 0..1 arbitrary integers, concatenation, so that order, loss and duplication all show), '
                   'serial and with order-preserving pools of any chunk size 1..4, default as identity; pairing of 0..7 arbitrary items; '
                   'failing sources and failing functions',
          'thorough': 'up to 17 items'}
TRUSTS = 'order-preserving pools deliver results in order and pass on an exception of the source (contract of multiprocessing.Pool.imap)'


def jobs(tier):
    n = 9 if tier == 'quick' else 17
    res = [dict(name=f'fold{k}_{p}', fn='fold', params=dict(n=k, pool=p)) for k in range(1, n + 1) for p in ('map', 'pool')]
    res += [dict(name='pairs'), dict(name='empty'), dict(name='sizes'), dict(name='engine'), dict(name='maxima'), dict(name='broken'), dict(name='multi')]
    return res


def cat(a, b):
    return a + b


def pools(env, kind):
    if kind == 'map':
        return map
    import multiprocessing as mp
    from functools import partial
    return partial(mp.get_context('spawn').Pool(processes=2).imap, chunksize=env.pick('chunk', 1, 4))


def fold(env, n, pool):
    from nlcodec.para.mapred import ireduce
    items = [env.int('v', -3, 10 ** 6) for _ in range(n)]
    got = ireduce(cat, (), ((v,) for v in items), pool=pools(env, pool))
    env.check(env.eq(tuple(got), tuple(items)), 'not the fold of the items in order')


def sizes(env):
    """some items are the identity themselves"""
    from nlcodec.para.mapred import IterativeReducer
    items = [tuple(env.int('v', 0, 9) for _ in range(env.pick('len', 0, 1))) for _ in range(env.pick('n', 1, 6))]
    want = tuple(v for t in items for v in t)
    red = IterativeReducer(func=cat, default=())
    for _ in range(2):
        env.check(env.eq(tuple(red(iter(items))), want), 'not the fold of the items in order')


def pairs(env):
    from nlcodec.para.mapred import pair_subsequent
    n = env.pick('n', 0, 7)
    items = [env.choice('kind', [None, 0, 5]) if i in (0, n - 1) else env.int('v', -3, 10) for i in range(n)]
    got = list(pair_subsequent(iter(items), default='pad'))
    want = [(items[i], items[i + 1] if i + 1 < n else 'pad') for i in range(0, n, 2)]
    env.check(env.eq([tuple(p) for p in got], want), 'pairs')


def empty(env):
    from nlcodec.para.mapred import ireduce, MapReduce
    bad, _ = env.raises(Exception, ireduce, cat, (), iter([]), pools(env, env.choice('pool', ['map', 'pool'])))
    env.check(bad, 'an empty input is not refused')
    bad, _ = env.raises(Exception, MapReduce(str, cat, ''), [], map, map)
    env.check(bad, 'an empty input is not refused')


def engine(env):
    """mapper and reducer, each serial or with a pool"""
    from nlcodec.para.mapred import MapReduce
    items = [env.int('v', 0, 9) for _ in range(env.pick('n', 1, 7))]
    mr = MapReduce(mapper=lambda v: (v, v + 1), reducer=cat, default=())
    want = tuple(x for v in items for x in (v, v + 1))
    kinds = env.choice('pools', [('map', 'map'), ('map', 'pool'), ('pool', 'map'), ('pool', 'pool'), None])
    got = mr(iter(items)) if kinds is None else mr(iter(items), map_pool=pools(env, kinds[0]), reduce_pool=pools(env, kinds[1]))
    env.check(env.eq(tuple(got), want), 'not the fold of the mapped items in order')


def maxima(env):
    from nlcodec.para.mapred import ireduce
    items = [env.int('v', 0, 10 ** 6) for _ in range(env.pick('n', 1, 5))]
    got = ireduce(lambda a, b: env.ite(a >= b, a, b), 0, iter(items))
    env.check(env.all([got >= v for v in items]) and env.any([env.eq(got, v) for v in items]), 'maximum')


class Broken(Exception):
    pass


def broken(env):
    """a failing source or function is reported, never swallowed"""
    from nlcodec.para.mapred import ireduce
    n, k = env.pick('n', 2, 5), env.pick('k', 0, 4)
    env.assume(k < n)
    pool = pools(env, env.choice('pool', ['map', 'pool']))
    where = env.flag('source')

    def src():
        for i in range(n):
            if where and i == k:
                raise Broken()
            yield (i,)

    def f(a, b):
        if not where and k in a + b and len(a + b) > 1:
            raise Broken()
        return a + b
    bad, r = env.raises(Broken, ireduce, f, (), src(), pool)
    env.check(bad, 'a failure is swallowed')


def multi(env):
    from nlcodec.para.mapred import MapReduce
    items = [env.int('v', 0, 9) for _ in range(env.pick('n', 1, 7))]
    mr = MapReduce(mapper=wrap, reducer=cat, default=())
    got = mr.multiprocess(iter(items), map_procs=env.pick('maps', 1, 2), red_procs=env.pick('reds', 1, 2), chunksize=env.pick('chunk', 1, 3))
    env.check(env.eq(tuple(got), tuple(items)), 'not the fold of the items in order')


def wrap(v):
    return (v,)
