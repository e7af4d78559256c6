"""E03: codec quality estimates are exact"""
from harness.lib import *
BOUNDS = {'quick': 'corpora of 1..2 lines of up to 3 characters (words, characters, BPE, bytes, class labels) with vocabularies of up to 3 types besides the reserved ones; '
                   'imbalance and distances: every table of 1..4 counts (any non-negative integers), every pair of distributions over 1..3 outcomes',
          'thorough': 'up to 3 lines, 5 characters; 6 counts'}
OUTSIDE = 'floating point rounding (compared up to 1e-9); Kullback-Leibler and Jensen-Shannon divergence (logarithms)'
KINDS = ('word', 'char', 'bpe', 'byte', 'class')


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=k, fn='quality', params=dict(kind=k, lens=[3, 1] if q else [4, 2, 1])) for k in KINDS]
    res += [dict(name=f'emd{n}', fn='emd', params=dict(n=n)) for n in ((1, 2, 4) if q else (1, 2, 3, 4, 6))]
    res += [dict(name=f'dist{n}', fn='dist', params=dict(n=n)) for n in ((1, 3) if q else (1, 2, 3, 4))]
    return res + [dict(name=f'report_{k}', fn='report', params=dict(kind=k)) for k in KINDS]


def close(a, b):
    d = a - b
    return d < 1e-9 and d > -1e-9


def codec(kind):
    from nlcodec import codec as C
    if kind == 'byte':
        return C.ByteScheme()
    if kind == 'word':
        return C.WordScheme(table=table_of(['a', 'ab'], C.Level.word))
    if kind == 'char':
        return C.CharScheme(table=table_of(['a', 'b'], C.Level.char))
    if kind == 'class':
        return C.ClassScheme(table=C.ClassScheme.learn(['b', 'a', 'a b']))
    return C.BPEScheme(table=bpe_table([(6, 7), (8, 5)], 'ab'))


def true_counts(env, c, kind, lines):
    """ids per line and the number of unknown tokens, from the encoder itself"""
    ids = [[int(v) for v in c.encode(t)] for t in lines]
    unk = {'byte': None, 'class': -1}.get(kind, 1)
    n = sum(map(len, ids))
    unks = 0 if unk is None else sum(s.count(unk) for s in ids)
    counts = [0] * len(c.table)
    for s in ids:
        for v in s:
            if v >= 0:
                counts[v] += 1
    return n, unks, counts


def imbalance(counts):
    tot = sum(counts)
    return sum(abs(x / tot - 1 / len(counts)) for x in counts) / 2


def judge(env, q, c, kind, lines):
    n, unks, counts = true_counts(env, c, kind, lines)
    env.check(q.n_types == len(c.table), 'number of types')
    env.check(q.n_tokens == n, 'number of tokens')
    env.check(q.unk_count == unks, 'number of unknown tokens')
    env.check(close(float(q.mean_seq_len), n / len(lines)), 'mean encoded length')
    if sum(counts):
        env.check(close(float(q.imbalance), imbalance(counts)), 'imbalance is not that of the type counts')
        env.check(float(q.imbalance) < 1 and float(q.imbalance) >= 0, 'imbalance outside of [0,1)')


def settle(env, text):
    """the same text with one path per value (byte ids would otherwise stay symbolic in 258 counts)"""
    return ''.join(next(a for a in ALPHABET + '\r' if env.eq(ch, a)) for ch in text)


ALPHABET = 'ab zé'


def corpus(env, lens, kind=None, more=''):
    res = [env.string('t', 0 if i else 1, n, alphabet=ALPHABET + more) for i, n in enumerate(lens)]
    return [settle(env, t) for t in res] if kind == 'byte' or more else res


def quality(env, kind, lens):
    from nlcodec.qestim import QualityEstimator
    c = codec(kind)
    lines = corpus(env, lens[:env.pick('lines', 1, len(lens))], kind)
    judge(env, QualityEstimator(c).estimate(iter(lines)), c, kind, lines)


def emd(env, n):
    from nlcodec.qestim import QualityEstimator
    counts = [env.int('count', 0, 10 ** 9) for _ in range(n)]
    env.assume(sum(counts) > 0)
    v = QualityEstimator.EMD_simple(list(counts))
    tot = sum(counts)
    s = 0
    for x in counts:
        d = x * n - tot
        s = s + (d if d >= 0 else -d)
    d = 2 * n * tot * v - s
    env.check(d <= 1e-6 * tot and d >= -1e-6 * tot, 'not half the total deviation from the uniform distribution')
    env.check(v < 1, 'imbalance of one or more')
    env.check(v >= 0, 'negative imbalance')
    if env.all([env.eq(x, counts[0]) for x in counts]):
        env.check(v <= 1e-9, 'imbalance of a uniform distribution')


def dist(env, n):
    import numpy as np
    from nlcodec.qestim import QualityEstimator
    p, q = [[env.real('p', 0, 1) for _ in range(n)] for _ in range(2)]
    for d in (p, q):
        env.assume(env.eq(sum(d), 1))
    v = QualityEstimator.earth_mov_dist(np.array(p, dtype=np.float64), np.array(q, dtype=np.float64))
    s = 0
    for a, b in zip(p, q):
        s = s + (a - b if a >= b else b - a)
    env.check(close(v, s / 2), 'not half the total difference')
    bad = [x for x in p]
    how = env.pick('bad', 0, 2 if n > 1 else 1)
    if how == 2:   # sums up to one, but one share is negative
        bad[0], bad[1] = bad[0] + 2, bad[1] - 2
    else:
        bad[0] = bad[0] + (1 if how else -2)
    refused, _ = env.raises(AssertionError, lambda: QualityEstimator.earth_mov_dist(np.array(bad, dtype=np.float64), np.array(q, dtype=np.float64)))
    env.check(refused, 'values that are no distribution are accepted')


def report(env, kind):
    """the command-line entry point prints the estimate"""
    d = env.tmp()
    c = codec(kind)
    c.save(d / 'model')
    lines = corpus(env, [2, 1], kind, '\r')
    with open(d / 'in', 'w', encoding='utf-8', newline='\n') as f:
        for t in lines:
            f.write(t + '\n')
    std = env.flag('standard input')
    prog = env.choice('program', ['nlcodec.qestim', 'nlcodec.__main__'])
    opts = [(('-c', '--codec') if prog == 'nlcodec.qestim' else ('-m', '--model'), d / 'model')]
    if not std:
        opts += [(('-d', '--data') if prog == 'nlcodec.qestim' else ('-i', '--inp'), d / 'in')]
    program(env, prog, ['estimate'] * (prog == 'nlcodec.__main__') + arguments(env, std, *opts), d / 'in' if std else None, d / 'out')
    n, unks, counts = true_counts(env, c, kind, lines)
    text = (d / 'out').read_text()
    for name, v in (('n_types', len(c.table)), ('n_tokens', n), ('unk_count', unks)):
        env.check(f'{name}={v},' in text or f'{name}={v})' in text, f'{name} is not reported')
    mean = text.split('mean_seq_len=')[1].split(',')[0].split(')')[0]
    env.check(abs(float(mean) - n / len(lines)) < 1e-5, 'mean encoded length reported')
