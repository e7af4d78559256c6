"""P03: parallel encoding equals sequential encoding, in input order"""
from harness.lib import *
BOUNDS = {'quick': 'streams of 0..4 lines (lists and generators) of up to 2 characters, word, character, BPE and byte codecs, 2..3 workers; every order in which workers '
                   'may finish where the pool in use allows it; long streams of 1001 and 2500 lines with one symbolic line',
          'thorough': 'up to 5 lines'}
TRUSTS = 'a pool\'s ordered calls (map, imap) deliver in order; its unordered ones in any order (contract of multiprocessing.Pool); workers see the same codec'


def jobs(tier):
    n = 4 if tier == 'quick' else 5
    res = [dict(name=f'{k}{i}', fn='small', params=dict(kind=k, n=i)) for k in ('word', 'char', 'bpe', 'byte') for i in ((0, 2, n) if k == 'word' else (2,))]
    res += [dict(name='long'), dict(name='mapper'), dict(name='broken'), dict(name='cpus')]
    return res


def scheme(kind):
    from nlcodec import codec as C
    if kind == 'byte':
        return C.ByteScheme()
    if kind == 'word':
        return C.WordScheme(table=C.WordScheme.learn(['a b', 'ab a']))
    if kind == 'char':
        return C.CharScheme(table=C.CharScheme.learn(['a b', 'ab a']))
    return C.BPEScheme(table=C.BPEScheme.learn(['ab ab ab', 'a b'], vocab_size=11, min_co_evidence=1))


def judge(env, codec, lines, got):
    got = list(got)
    env.check(len(got) == len(lines), 'number of encoded lines')
    for i, t in enumerate(lines):
        env.check(env.eq([int(v) for v in got[i]], [int(v) for v in codec.encode(t)]), 'encoding of another line')


def small(env, kind, n):
    codec = scheme(kind)
    lines = [env.string('t', 1, 2 if i < 2 else 1, alphabet='abc ') for i in range(n)]
    src = list(lines) if env.flag('list') else (t for t in lines)
    judge(env, codec, lines, codec.encode_parallel(src, n_cpus=env.pick('cpus', 2, 3)))


def long(env):
    codec = scheme('word')
    n = env.choice('n', [1001, 2500])
    lines = [['a', 'b', 'ab', 'a b'][i % 7 % 4] for i in range(n)]
    k = env.choice('at', [0, 998, 999, 1000])
    lines[k] = env.string('t', 2, alphabet='abc ')
    got = list(codec.encode_parallel(iter(lines), n_cpus=2))
    env.check(len(got) == n, 'number of encoded lines')
    env.check(env.eq(list(got[k]), list(codec.encode(lines[k]))), 'encoding of another line')
    cache = {t: codec.encode(t) for t in ['a', 'b', 'ab', 'a b']}
    env.check(all(list(g) == list(cache[t]) for i, (g, t) in enumerate(zip(got, lines)) if i != k), 'encoding of another line')


def twice(x):
    return [x, x]


def mapper(env):
    """the mapping itself with any chunk size"""
    from nlcodec.codec import EncoderScheme
    items = [env.int('v', 0, 9) for _ in range(env.pick('n', 0, 5))]
    got = list(EncoderScheme.parallel_map(twice, iter(items), n_cpus=2, chunksize=env.pick('chunk', 1, 3)))
    env.check(env.eq(got, [[v, v] for v in items]), 'results are not those of the items in order')


class Broken(Exception):
    pass


def broken(env):
    """a failing source is reported after the lines before it, never silently cut off"""
    codec = scheme('word')
    n, k = 3, env.pick('k', 0, 3)

    def src():
        for i in range(n):
            if i == k:
                raise Broken()
            yield 'a'
        if k == n:
            raise Broken()
    bad, _ = env.raises(Broken, lambda: list(codec.encode_parallel(src(), n_cpus=2)))
    env.check(bad, 'a failing source is swallowed')


def cpus(env):
    """one worker is refused, or works like many"""
    codec = scheme('word')
    bad, got = env.raises(Exception, lambda: list(codec.encode_parallel(['a', 'b a'], n_cpus=1)))
    if not bad:
        judge(env, codec, ['a', 'b a'], got)
