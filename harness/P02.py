"""P02: merged term frequencies are the exact sums"""
from harness.lib import *
BOUNDS = {'quick': 'pairs of tables of 0..3 terms each (arbitrary terms of 1..2 characters, equal or not across tables, arbitrary counts, plain dictionaries and '
                   'counters); 1..5 lines of up to 4 characters over letters and blanks, serial and with pools',
          'thorough': 'tables of up to 4 terms; up to 7 lines'}


def jobs(tier):
    m = 3 if tier == 'quick' else 4
    res = [dict(name=f'merge{a}{b}', fn='merge', params=dict(a=a, b=b), must_reach=['shared', 'apart'] if a and b else []) for a in range(m + 1) for b in range(m + 1)]
    res += [dict(name=f'lines{n}', fn='lines', params=dict(n=n)) for n in range(1, 5 if tier == 'quick' else 7)]
    res += [dict(name='blank'), dict(name='repeat'), dict(name='multi')]
    return res


def table(env, n, tag):
    keys = []
    for _ in range(n):
        k = env.string(tag, 1)
        for o in keys:
            env.assume(env.not_(env.eq(k, o)))
        keys.append(k)
    return [(k, env.int('count', 0, 10 ** 9)) for k in keys]


def merge(env, a, b):
    import collections as coll
    from nlcodec.para.mapred import merge_freqs
    ta, tb = table(env, a, 'a'), table(env, b, 'b')
    mk = env.choice('type', [dict, coll.Counter])
    da, db = mk(dict(ta)), mk(dict(tb))
    got = merge_freqs(da, db)
    sums = []
    for k, v in ta + tb:
        for s in sums:
            if env.eq(s[0], k):
                s[1] = s[1] + v
                env.reach('shared')
                break
        else:
            sums.append([k, v])
    if len(sums) == a + b:
        env.reach('apart')
    env.check(len(got) == len(sums), 'terms out of nowhere or missing')
    for k, v in sums:
        env.check(k in got and env.eq(got[k], v), 'not the sum of the counts')


def count(env, texts):
    sums = []
    for t in texts:
        for w in t.split():
            for s in sums:
                if env.eq(s[0], w):
                    s[1] += 1
                    break
            else:
                sums.append([w, 1])
    return sums


def judge(env, got, texts):
    want = count(env, texts)
    env.check(len(got) == len(want), 'terms out of nowhere or missing')
    for w, n in want:
        env.check(w in got and env.eq(got[w], n), 'count of a word')


def lines(env, n):
    from nlcodec.para.mapred import WordCounter
    texts = [env.string('t', 3 if n < 3 else 1, alphabet='ab ') for _ in range(n)]
    wc = WordCounter()
    judge(env, wc(iter(texts), map_pool=map, reduce_pool=map), texts)
    env.check(len(wc.default) == 0, 'the default of the reduction was altered')


def blank(env):
    """lines without words, at every position"""
    from nlcodec.para.mapred import WordCounter
    texts = [env.choice('line', ['', ' ', 'a', 'a b', 'b b']) for _ in range(env.pick('n', 1, 4))]
    wc = WordCounter()
    judge(env, wc(iter(texts), map_pool=map, reduce_pool=map), texts)
    env.check(len(wc.default) == 0, 'the default of the reduction was altered')


def repeat(env):
    """the same counter used again starts from nothing"""
    from nlcodec.para.mapred import WordCounter
    wc = WordCounter()
    for _ in range(2):
        texts = [env.choice('line', ['', 'a', 'b a']) for _ in range(env.pick('n', 1, 3))]
        judge(env, wc(iter(texts), map_pool=map, reduce_pool=map), texts)


def multi(env):
    from nlcodec.para.mapred import WordCounter
    texts = [env.choice('line', ['', 'a', 'b a', 'b']) for _ in range(env.pick('n', 1, 4))]
    judge(env, WordCounter().multiprocess(iter(texts), map_procs=2, red_procs=2, chunksize=env.pick('chunk', 1, 2)), texts)
