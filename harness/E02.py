"""E02: n-gram precision, recall and F1 follow their definitions"""
from harness.lib import *
BOUNDS = {'quick': '1..2 sentence pairs, candidates and references of up to 3 (one pair: up to 3+3) arbitrary symbols, n 1..3; precision and recall: all real numbers in [0,1]; '
                   'the report of the command line for n 1..2 on a word model of 2 words, lines of up to 3 characters, with and without an external frequency table',
          'thorough': 'up to 4 symbols per sentence'}
OUTSIDE = 'rounding of the averages (compared up to 1e-9)'


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=f'{n}gram_{"_".join(map(str, s))}', fn='grams', params=dict(n=n, shape=s))
           for n in (1, 2, 3) for s in ([[3, 3], [2, 2, 2, 1]] if q else [[4, 4], [3, 2, 2, 3], [2, 2, 2, 1]])]
    res += [dict(name='f1'), dict(name='make')]
    res += [dict(name=f'report{n}_{int(f)}', fn='report', params=dict(n=n, freqs=f, mx=3 if q else 5)) for n in (1, 2) for f in (False, True)]
    return res


def count(env, gram, sent):
    """number of positions of the sentence at which the n-gram stands (concrete on each path)"""
    r = 0
    for i in range(len(sent) - len(gram) + 1):
        if env.all([env.eq(a, b) for a, b in zip(gram, sent[i:i + len(gram)])]):
            r += 1
    return r


def grams_of(env, sents, n):
    """distinct n-grams in order of first occurrence"""
    res = []
    for s in sents:
        for i in range(len(s) - n + 1):
            g = s[i:i + n]
            if not any(env.all([env.eq(a, b) for a, b in zip(g, o)]) for o in res):
                res.append(g)
    return res


def expected(env, a, b, n):
    """gram -> (total count in a, mean over the sentences of a that have it of the clipped share also found in b)"""
    res = []
    for g in grams_of(env, a, n):
        tot, shares = 0, []
        for x, y in zip(a, b):
            k = count(env, g, x)
            if k:
                tot += k
                shares.append(min(k, count(env, g, y)) / k)
        res.append((g, tot, sum(shares) / len(shares)))
    return res


def same_table(env, got, exp, what, tol=0):
    env.check(len(got) == len(exp), f'{what}: number of n-grams')
    for g, v in exp:
        x = got.get(tuple(g))
        env.check(x is not None, f'{what}: an n-gram is missing')
        env.check(abs(x - v) <= tol if tol else env.eq(x, v), f'{what}: wrong value')


def grams(env, n, shape):
    from nlcodec.eval.pr_measure import count_gram_recall
    sents = [[env.int('v', 0, 9) for _ in range(env.pick('len', 0, k))] for k in shape]
    cands, refs = sents[0::2], sents[1::2]
    recalls, rfreq, precs, cfreq = count_gram_recall([list(c) for c in cands], [list(r) for r in refs], n)
    er, ec = expected(env, refs, cands, n), expected(env, cands, refs, n)
    same_table(env, rfreq, [(g, t) for g, t, _ in er], 'reference frequencies')
    same_table(env, cfreq, [(g, t) for g, t, _ in ec], 'candidate frequencies')
    same_table(env, recalls, [(g, v) for g, _, v in er], 'recall', 1e-9)
    same_table(env, precs, [(g, v) for g, _, v in ec], 'precision', 1e-9)
    for t in (recalls, precs):
        for v in t.values():
            env.check(0 <= v <= 1, 'outside of [0,1]')


def f1(env):
    from nlcodec.eval.pr_measure import f1_measure
    p, r = env.real('p', 0, 1), env.real('r', 0, 1)
    f = f1_measure(p, r)
    if p + r == 0:
        env.check(f == 0, 'F1 of two zeros')
        return
    d = f * (p + r) - 2 * p * r
    env.check(d < 1e-9 and d > -1e-9, 'F1 is not the harmonic mean')
    env.check(f >= -1e-9 and f <= 1 + 1e-9, 'F1 outside of [0,1]')


def make(env):
    from nlcodec.utils import make_n_grams, make_n_grams_all
    n = env.pick('n', 1, 3)
    sents = [[env.int('v', 0, 9) for _ in range(env.pick('len', 0, 3))] for _ in range(2)]
    for s in sents:
        env.check(env.eq([list(g) for g in make_n_grams(list(s), n)], [s[i:i + n] for i in range(len(s) - n + 1)]), 'n-grams of a sentence')
    got = make_n_grams_all([list(s) for s in sents], n)
    same_table(env, got, [(g, sum(count(env, g, s) for s in sents)) for g in grams_of(env, sents, n)], 'n-gram counts')


WORDS = ['a', 'b']


def report(env, n, freqs, mx):
    import json
    from nlcodec.codec import WordScheme, Level
    d = env.tmp()
    codec = WordScheme(table=table_of(WORDS, Level.word))
    codec.save(d / 'word.model')
    text = [env.string('t', 0, mx, alphabet='ab z\r') for _ in range(2)]
    ids = [[6 + index_of(env, w, WORDS, -5) for w in words_of(t)] for t in text]
    for f, t in zip(('cands', 'refs'), text):
        with open(d / f, 'w', encoding='utf-8', newline='\n') as fh:
            fh.write(t + '\n')
    table = None
    opts = [(('-m', '--model'), d / 'word.model'), (('-c', '--cands'), d / 'cands'), (('-r', '--refs'), d / 'refs'), (('-o', '--out'), d / 'out')]
    if n > 1 or freqs:
        opts += [(('-n', '--n'), n)]
    if freqs:
        table = [([6, 7][:n], 5), ([7, 7][:n], 2), ([2, 3][:n], 9)]
        (d / 'freqs').write_text(''.join(json.dumps([g, f, []]) + '\n' for g, f in table))
        opts += [(('-f', '--freqs'), d / 'freqs')]
    program(env, 'nlcodec.eval.pr_measure', arguments(env, freqs, *opts))
    with open(d / 'out', encoding='utf-8', newline='\n') as f:
        rows = [ln.split('\t') for ln in f.read().split('\n')[1:-1]]
    cand, ref = ids
    er, ec = expected(env, [ref], [cand], n), expected(env, [cand], [ref], n)
    er, ec = {tuple(g): (t, v) for g, t, v in er}, {tuple(g): (t, v) for g, t, v in ec}
    rank = {g: t for g, (t, _) in er.items()}
    if freqs:
        rank = {tuple(g): f for g, f in table if tuple(g) in er or tuple(g) in ec}
        for g in er:
            rank.setdefault(g, -1)
    env.check(len(rows) == len(rank), 'number of n-grams reported')
    names = {1: '<unk>', 6: WORDS[0], 7: WORDS[1]}
    seen = []
    for i, row in enumerate(rows):
        g = tuple(int(v) for v in row[1].split(','))
        env.check(g in rank and g not in seen, 'n-gram reported')
        seen.append(g)
        env.check(row[0] == str(i + 1), 'rank')
        env.check(row[2] == ','.join(names[v] for v in g), 'name')
        env.check(int(row[3]) == rank[g], 'frequency ranked by')
        rf, rec = er.get(g, (-1, 0))
        cf, prec = ec.get(g, (-1, 1))
        env.check(int(row[4]) == rf and int(row[5]) == cf, 'frequencies reported')
        f = 2 * prec * rec / (prec + rec) if prec + rec else 0
        for got, e in zip(row[6:], (rec, prec, f)):
            env.check(abs(float(got) - e) < 1e-4, 'precision, recall or F1 reported')
    env.check([rank[g] for g in seen] == sorted(rank.values(), reverse=True), 'order of ranks')
