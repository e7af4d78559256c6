"""B04: BPE learning never builds pieces out of the unknown symbol"""
from harness.lib_bpe import *
BOUNDS = {'quick': '5 corpora of 2..3 words with any frequencies 1..10^6, with character coverage 0.5, 0.75 and 0.9; up to 6 merges',
          'thorough': 'coverage 0.3 .. 0.99'}
TRUSTS = 'floats as reals, coverage ties closer than 1e-9 excluded'
MAXF = 10 ** 6
CORPORA = dict(mid=['axb', 'ab', 'ab'], ends=['xab', 'bax'], double=['xxab', 'ab'], apart=['abxab', 'ya'], all=['x', 'abab'])


def jobs(tier):
    q = tier == 'quick'
    return [dict(name=f'{n}_{c}', fn='corpus', params=dict(words=w, cov=c, merges=6), must_reach=[])
            for n, w in CORPORA.items() for c in ((0.5, 0.75, 0.9) if q else (0.3, 0.5, 0.6, 0.75, 0.8, 0.9, 0.99))] + [dict(name='reached', must_reach=['unknown'])]


def no_char_ties(env, words, freqs, cov):
    from harness.V01 import no_ties
    count = {}
    for w, f in zip(words, freqs):
        for ch in w + SP:
            count[ch] = count.get(ch, 0) + f
    sp = count.pop(SP)
    no_ties(env, list(count.values()), cov)


def corpus(env, words, cov, merges):
    words = list(dict.fromkeys(words))
    freqs = [env.int('freq', 1, MAXF) for _ in words]
    no_char_ties(env, words, freqs, cov)
    n0 = 6 + len(set(''.join(words)))
    table = learn(words, freqs, n0 + merges, 1, coverage=cov)
    for t in table[6:]:
        if has_kids(t):
            env.check(all(k.idx != 1 for k in t.kids), 'the unknown marker is a piece of a learned type')
        env.check('<unk>' not in t.name, 'a learned type has the unknown marker in its name')
    segs = follow(env, words, freqs, table, 1)
    left = pairs(segs, freqs)
    env.check(len(table) == n0 + merges or not left, 'stopped early')
    env.observe('types', [t.name for t in table])


def reached(env):
    """the corpora do have characters outside the alphabet"""
    table = learn(['axb', 'ab'], [1, env.int('f', 3, 10)], 12, 1, coverage=0.75)
    if 'x' not in [t.name for t in table]:
        env.reach('unknown')
