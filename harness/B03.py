"""B03: BPE learning is reproducible: same data, same model"""
from harness.lib_bpe import *
BOUNDS = {'quick': 'another hash seed: 4 corpora of words and 2 texts with any order of every set of strings and any string hashes; 7 corpora with repeated and overlapping pieces, any frequencies 1..1000; two runs, the second with every iteration order '
                   'of sets of objects hashed by identity (which depends on memory layout)',
          'thorough': '11 corpora'}
OUTSIDE = 'sets and dicts inside C code (dict order is insertion order)'
CORPORA = dict(runs=['aaaa'], run3=['aaa', 'a'], run5=['aaaaa'], mixed=['abab', 'aab'], two=['ab', 'abc', 'cab'], dup=['aab', 'aba'], runx=['xaaay'])
MORE = dict(run6=['aaaaaa'], runs2=['aaaa', 'aaa'], tri=['aaabaaab'], nest=['ababab'])


SEEDS = [('abab', ['abab', 'ab'], 1), ('two', ['ab', 'ba'], 1), ('three', ['ab', 'c', 'ac'], 1), ('four', ['abc'], 2)]
TEXTS = [(['ab ba', 'b'], 0.999), (['a c', 'bc'], 0.8)]


def jobs(tier):
    c = dict(CORPORA) if tier == 'quick' else dict(CORPORA, **MORE)
    return [dict(name=n, fn='twice', params=dict(words=w)) for n, w in c.items()] \
        + [dict(name='seeds_' + n, fn='seeds', params=dict(words=w, mce=m)) for n, w, m in SEEDS] \
        + [dict(name=f'text_{i}', fn='text', params=dict(lines=t, coverage=c)) for i, (t, c) in enumerate(TEXTS)]


def twice(env, words):
    freqs = [env.int('freq', 1, 1000) for _ in words]
    size = 6 + len(set(''.join(words))) + 4
    a = learn(words, freqs, size, 1)
    for _ in env.orders():
        b = learn(words, freqs, size, 1)
        env.check(len(a) == len(b), 'models of different size')
        for x, y in zip(a, b):
            env.check(env.eq(x.name, y.name), 'different types')
            env.check(env.eq(x.freq, y.freq), 'different frequencies')
            env.check([k.idx for k in x.kids or ()] == [k.idx for k in y.kids or ()], 'different pieces')
    env.observe('types', [t.name for t in a])


def model(table):
    return [[t.name, t.freq, t.level, [k.idx for k in t.kids or ()]] for t in table]


def same(env, runs):
    for r in runs[1:]:
        env.check(len(r) == len(runs[0]), 'models of different size')
        for x, y in zip(runs[0], r):
            env.check(env.eq(x[0], y[0]), 'different types')
            env.check(env.eq(x[1], y[1]), 'different frequencies')
            env.check(env.and_(env.eq(x[2], y[2]), env.eq(x[3], y[3])), 'different levels or pieces')


def seeds(env, words, mce):
    freqs = [env.int('freq', 1, 1000) for _ in words]
    size = 6 + len(set(''.join(words))) + 3
    same(env, env.across(lambda: model(learn(words, freqs, size, mce))))


def text(env, lines, coverage):
    from nlcodec.codec import BPEScheme
    size = 6 + len(set(''.join(lines))) + 2
    mce = env.pick('mce', 1, 2)
    same(env, env.across(lambda: model(BPEScheme.learn(iter(lines), vocab_size=size, coverage=coverage, min_co_evidence=mce))))
