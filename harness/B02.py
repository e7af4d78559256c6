"""B02: BPE learning stops exactly when asked or when nothing is left to merge"""
from harness.lib_bpe import *
from harness.B01 import CORPORA, MAXF
BOUNDS = {'quick': '9 corpora of 1..3 words with any frequencies 1..10^6, any minimum evidence (1..10^6) and 1, 2, 4 or 14 merges '
                   'requested; size given by minimum evidence only; word of 3 symbolic characters',
          'thorough': '14 corpora; word of 5 symbolic characters'}
QUICK = ['one', 'runs', 'mixed', 'shared', 'dup', 'rev', 'run5', 'runx', 'chain']


def jobs(tier):
    q = tier == 'quick'
    res = []
    for n, (w, m) in CORPORA.items():
        if not q or n in QUICK:
            res.append(dict(name=n, fn='corpus', params=dict(words=w, extra=14), must_reach=['evidence', 'empty', 'size']))
    res.append(dict(name='symbolic', fn='symbolic', params=dict(n=3 if q else 5)))
    res.append(dict(name='unlimited', fn='unlimited', must_reach=['evidence']))
    res.append(dict(name='letters', fn='letters'))
    return res


def judge(env, words, freqs, table, size, mce):
    segs = follow(env, words, freqs, table, mce)
    env.check(len(table) <= size, 'more types than requested')
    if len(table) < size:
        left = pairs(segs, freqs)
        for p, c in left.items():
            env.check(c < mce, 'stopped although a pair has the minimum evidence')
        env.reach('evidence' if left else 'empty')
    else:
        env.reach('size')
    env.observe('types', [t.name for t in table])


def corpus(env, words, extra):
    freqs = [env.int('freq', 1, MAXF) for _ in words]
    n0 = 6 + len(set(''.join(words)))
    size = n0 + env.choice('size', [1, 2, 4, extra])
    mce = env.int('min_co_ev', 1, MAXF)
    judge(env, words, freqs, learn(words, freqs, size, mce), size, mce)


def symbolic(env, n):
    w = env.string('c', n, alphabet='ab')
    f = [env.int('freq', 1, MAXF)]
    mce = env.int('min_co_ev', 1, 3)
    judge(env, [w], f, learn([w], f, 16, mce), 16, mce)


def unlimited(env):
    """the minimum evidence alone as the stop condition"""
    words = ['ab', 'abc']
    freqs = [env.int('freq', 1, MAXF) for _ in words]
    mce = env.int('min_co_ev', 2, MAXF)
    judge(env, words, freqs, learn(words, freqs, env.choice('size', [0, -1, 1]), mce), 10 ** 9, mce)


def letters(env):
    """single-character words"""
    words = ['a', 'b']
    freqs = [env.int('freq', 1, MAXF) for _ in words]
    size = env.pick('size', 9, 12)
    mce = env.int('min_co_ev', 1, MAXF)
    judge(env, words, freqs, learn(words, freqs, size, mce), size, mce)
