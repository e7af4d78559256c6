"""E05: n-gram frequency tables list every n-gram with its exact count"""
from harness.lib import *
BOUNDS = {'quick': 'two lines of up to 4 and 1 characters (letters, space, a character outside the vocabulary), word, character and BPE codecs, n 1..3; '
                   'count tables of 2 sequences of up to 3 arbitrary symbols',
          'thorough': 'lines of up to 6 and 2 characters; sequences of up to 4'}


def jobs(tier):
    q = tier == 'quick'
    return [dict(name=f'{k}{n}', fn='grams', params=dict(kind=k, k=n, n=4 if q else 6, m=1 if q else 2)) for k in ('word', 'char', 'bpe') for n in (1, 2, 3)] + \
           [dict(name=f'byte{n}', fn='grams', params=dict(kind='byte', k=n, n=2 if q else 3, m=0)) for n in (1, 2)] + \
           [dict(name=f'all{n}', fn='counts', params=dict(n=n, mx=3 if q else 4)) for n in (1, 2, 3)]


def count(env, gram, sent):
    return sum(1 for i in range(len(sent) - len(gram) + 1) if env.all([env.eq(a, b) for a, b in zip(gram, sent[i:i + len(gram)])]))


def counts(env, n, mx):
    from nlcodec.utils import make_n_grams_all
    sents = [[env.int('v', 0, 9) for _ in range(env.pick('len', 0, mx))] for _ in range(2)]
    got = make_n_grams_all(iter([list(s) for s in sents]), n)
    seen = []
    for s in sents:
        for i in range(len(s) - n + 1):
            g = s[i:i + n]
            if not any(env.all([env.eq(a, b) for a, b in zip(g, o)]) for o in seen):
                seen.append(g)
    env.check(len(got) == len(seen), 'number of n-grams')
    for g in seen:
        env.check(env.eq(got[tuple(g)], sum(count(env, g, s) for s in sents)), 'count of an n-gram')


def codec(kind):
    from nlcodec import codec as C
    if kind == 'byte':
        return C.ByteScheme()
    if kind == 'word':
        return C.WordScheme(table=table_of(['a', 'b'], C.Level.word))
    if kind == 'char':
        return C.CharScheme(table=table_of(['a', 'b'], C.Level.char))
    return C.BPEScheme(table=bpe_table([(6, 7), (8, 5)], 'ab'))


def grams(env, kind, k, n, m):
    """the file written by the tool"""
    import json
    d = env.tmp()
    c = codec(kind)
    c.save(d / 'model')
    lines = [env.string('t', 0, n, alphabet='ab z\r'), env.string('t', 0, m, alphabet='ab')]
    with open(d / 'in', 'w', encoding='utf-8', newline='\n') as f:
        for t in lines:
            f.write(t + '\n')
    std = env.flag('standard streams and defaults')
    opts = [(('-m', '--model'), d / 'model')] + ([] if std else [(('-i', '--inp'), d / 'in'), (('-o', '--out'), d / 'out')])
    if k > 1 or not std:
        opts += [(('-n', '--n'), k)]
    program(env, 'nlcodec.eval.termfreq', arguments(env, std, *opts), *([d / 'in', d / 'out'] if std else []))
    if kind == 'byte':   # one path per text
        lines = [''.join(next(a for a in 'ab z\r' if env.eq(ch, a)) for ch in t) for t in lines]
    names = [t.name for t in c.table]
    exp = {}
    for t in lines:
        s = [int(v) for v in c.encode(t)]
        for i in range(len(s) - k + 1):
            g = tuple(s[i:i + k])
            exp[g] = exp.get(g, 0) + 1
    with open(d / 'out', encoding='utf-8', newline='\n') as f:
        rows = [json.loads(r) for r in f.read().split('\n') if r]
    env.check(len(rows) == len(exp), 'number of n-grams')
    last = None
    for g, f, nm in rows:
        env.check(exp.get(tuple(g)) == f, 'frequency of an n-gram')
        env.check(nm == [names[v] for v in g], 'names of an n-gram')
        env.check(last is None or f <= last, 'order of frequencies')
        last = f
    env.check(len({tuple(g) for g, _, _ in rows}) == len(rows), 'n-gram listed twice')
