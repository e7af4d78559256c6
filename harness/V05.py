"""V05: shrinking a vocabulary keeps what the data needs and nothing breaks"""
from harness.lib import *
BOUNDS = {'quick': 'word, character, class vocabularies of 3..4 corpus types and 3 BPE vocabularies with nested pieces; files (one or two) '
                   'with up to 4 symbolic tokens or characters of the vocabulary and unknown ones, any minimum frequency -1..5; arbitrary '
                   'type names for the word vocabulary',
          'thorough': 'up to 5 tokens'}
OUTSIDE = 'class vocabularies of which nothing remains; byte vocabularies (cannot be shrunk meaningfully)'
BPE = dict(nested=('abc', [(6, 7), (9, 8), (10, 5)]), runs=('ab', [(6, 6), (8, 8), (9, 7)]), dup=('abc', [(6, 7), (7, 8), (9, 8), (6, 10)]))


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=f'word{n}', fn='words', params=dict(n=n), must_reach=['drop', 'keep', 'unk'] if n > 1 else []) for n in range(1, 4 if q else 5)]
    res += [dict(name=f'char{n}', fn='chars', params=dict(n=n)) for n in (2, 3)]
    res += [dict(name='class', fn='classes')]
    res += [dict(name=f'bpe_{v}{n}', fn='bpe', params=dict(v=v, n=n), must_reach=['drop', 'piece', 'unk'] if n > 1 else [])
            for v in BPE for n in ((2, 3) if q else (2, 3, 4))]
    res += [dict(name='names'), dict(name='two_files'), dict(name='empty')]
    return res


def write(p, text):
    with open(p, 'w', encoding='utf-8', newline='\n') as f:
        f.write(text)
    return p


def judge(env, s, texts, mf):
    """texts: contents of the files"""
    from nlcodec.codec import load_scheme
    d = env.tmp()
    files = [write(d / f'f{i}', t) for i, t in enumerate(texts)]
    lines = [l for t in texts for l in t.split('\n') if l != '']
    ids = [s.encode(l) for l in lines]
    old = [t for t in s.table]
    counts = [0] * len(old)
    for l in ids:
        for i in l:
            if i >= 0:
                counts[i] += 1
    if any(i == 1 for l in ids for i in l):
        env.reach('unk')
    env.observe('counts', counts)
    mapping = s.shrink_vocab(files, mf, save_at=d / 'new')
    t = load_scheme(d / 'new')
    env.check(type(t) is type(s), f'a {type(s).__name__} becomes a {type(t).__name__}')
    mapping = list(mapping)
    env.check(all(a < b for a, b in zip(mapping, mapping[1:])), 'mapping is not increasing')
    env.check(len(mapping) == len(t.table), 'mapping does not fit the saved vocabulary')
    need = set()

    def mark(k):
        if k.idx not in need:
            need.add(k.idx)
            for x in k.kids or ():
                mark(x)
    used = [x for x in old if x.level == -1 or counts[x.idx] >= mf]
    for x in used:
        mark(x)
    for x in old:
        kept = x.idx in mapping
        env.check(kept or x.idx not in need, f'a needed type was dropped: {x.idx}')
        env.check(not kept or x.idx in need, f'an unneeded type was kept: {x.idx}')
        env.reach('keep' if kept else 'drop')
        if kept and x.level != -1 and counts[x.idx] < mf:
            env.reach('piece')
    for new, o in enumerate(mapping):
        x, y = old[o], t.table[new]
        env.check(env.eq(x.name, y.name) and x.level == y.level and env.eq(y.idx, new), 'name, level or id')
        env.check(env.eq(x.freq, y.freq), 'frequency')
        env.check([mapping[k.idx] for k in y.kids or ()] == [k.idx for k in x.kids or ()], 'pieces')
    env.check(len(s.table) == len(old) and all(a is b for a, b in zip(s.table, old)), 'the original vocabulary changed')
    if mf == 1:
        for l, i in zip(lines, ids):
            env.check(env.eq([mapping[k] if k >= 0 else k for k in t.encode(l)], i), 'the new codec encodes differently')
    env.observe('mapping', mapping)


def freqs(table):
    for t in table[6:]:
        object.__setattr__(t, 'freq', 100 - t.idx)
    return table


def words(env, n):
    from nlcodec.codec import WordScheme, Level
    toks = [env.choice('t', ['a', 'bc', 'd', 'zz']) for _ in range(n)]
    judge(env, WordScheme(freqs(table_of(['a', 'bc', 'd'], Level.word))), [' '.join(toks) + '\n'], env.int('min_freq', -1, 4))


def chars(env, n):
    from nlcodec.codec import CharScheme, Level
    s = env.string('c', n, alphabet='abz ')
    judge(env, CharScheme(freqs(table_of(['a', 'b', 'c'], Level.char))), [s], env.int('min_freq', 0, 4))


def classes(env):
    from nlcodec.codec import ClassScheme, Type, Level
    table = [Type(x, level=Level.clasz, idx=i, freq=5 - i) for i, x in enumerate(['', 'a b', 'c\td', 'e'])]
    ls = [env.choice('l', ['', 'a b', 'c\td', 'e']) for _ in range(3)]
    mf = env.int('min_freq', 1, 3)
    env.assume(env.any([env.sum_if([(l == x, 1) for l in ls]) >= mf for x in ls]))
    env.assume(env.not_(env.any([l == '' for l in ls])))
    judge(env, ClassScheme(table), [''.join(l + '\n' for l in ls)], mf)


def bpe(env, v, n):
    from nlcodec.codec import BPEScheme
    cs, merges = BPE[v]
    s = env.string('c', n, alphabet=cs + 'z ')
    judge(env, BPEScheme(freqs(bpe_table(merges, cs))), ['abc' + s if v != 'runs' else 'aaaab' + s], env.int('min_freq', 0, 3))


def names(env):
    from nlcodec.codec import WordScheme, Level
    ns = distinct_names(env, 3, 1)
    judge(env, WordScheme(freqs(table_of(ns, Level.word))), [ns[1] + ' ' + ns[0] + '\n' + ns[1]], env.int('min_freq', 0, 3))


def two_files(env):
    from nlcodec.codec import BPEScheme
    cs, merges = BPE['nested']
    a, b = [env.string('c', 1, alphabet=cs + 'z') for _ in range(2)]
    judge(env, BPEScheme(freqs(bpe_table(merges, cs))), [a + 'b\n', 'b' + b + '\na\n'], env.int('min_freq', 0, 4))


def empty(env):
    """files without tokens"""
    from nlcodec.codec import WordScheme, Level
    judge(env, WordScheme(freqs(table_of(['a', 'b'], Level.word))), [env.choice('text', ['', '\n', ' \n'])], env.int('min_freq', 0, 2))
