"""V04: learning from a term-frequency file equals learning from the text"""
from harness.lib import *
BOUNDS = {'quick': 'statistics of 0..3 terms of up to 2 arbitrary non-space characters and any frequencies 1..10^18, with any line count, '
                   'through a file or a stream, also without the header; word and BPE vocabularies from texts of 3 tokens over 3 words, '
                   'from 2 lines of symbolic characters, and from words with arbitrary repetition counts, any size and frequency limits',
          'thorough': 'texts of 4 tokens'}
OUTSIDE = 'text streams opened with universal newlines by the caller'


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=f'stats{i}', fn='stats', params=dict(lens=n, plain=p), must_reach=['hash'] if n == (2, 1) else [])
           for i, (n, p) in enumerate([((), 0), ((1,), 0), ((2, 1), 0), ((1, 1, 1), 0), ((1,), 1), ((2, 1), 1)])]
    res += [dict(name='word_text', fn='text', params=dict(level='word', n=3 if q else 4)),
            dict(name='bpe_text', fn='text', params=dict(level='bpe', n=3 if q else 4)),
            dict(name='chars', fn='chars'), dict(name='bpe_chars', fn='chars', params=dict(level='bpe')), dict(name='cli'), dict(name='corpus')]
    return res


def same(env, a, b, what):
    env.check(len(a) == len(b), f'{what}: different number of types')
    for x, y in zip(a, b):
        env.check(env.eq(x.name, y.name), f'{what}: different types')
        env.check(env.eq(x.freq, y.freq), f'{what}: different frequency of {x.idx}')
        env.check(x.level == y.level and env.eq(x.idx, y.idx), f'{what}: different id or level')


def stats(env, lens, plain):
    from nlcodec.term_freq import write_stats
    from nlcodec.codec import WordScheme
    from nlcodec.utils import IO
    names = []
    for n in lens:
        s = env.string('t', n)
        for ch in s:
            env.assume(env.not_(ch.isspace()))
        env.assume(env.all([env.not_(env.eq(s, o)) for o in names]))
        if s[0] == '#':
            env.reach('hash')
        names.append(s)
    freqs = [env.int('f', 1, 10 ** 18) for _ in names]
    lc = env.int('lines', 0, 10 ** 9)
    p = env.tmp() / 'stats'
    if plain:
        with open(p, 'w', encoding='utf-8', newline='\n') as f:
            for t, x in zip(names, freqs):
                f.write(f'{t}\t{x}\n')
    else:
        with IO.writer(p) as f:
            write_stats(dict(zip(names, freqs)), f, line_count=lc)
    with IO.reader(p) as f:
        got, n = WordScheme.read_term_freqs(f)
    env.check(len(got) == len(names), 'terms are lost or added')
    for t, x in zip(names, freqs):
        env.check(t in got, 'a term is lost')
        env.check(env.eq(got[t], x), 'wrong frequency')
    if not plain:
        env.check(env.eq(n, lc), 'wrong line count')
    else:
        env.check(n is None or n <= 0, 'a line count out of nowhere')
    env.observe('n', n)


def learn(level, data, tf, vs, mf):
    from nlcodec.codec import REGISTRY
    kw = dict(coverage=1.0, min_co_evidence=1) if level == 'bpe' else {}
    return REGISTRY[level].learn(data, vocab_size=vs, min_freq=mf, term_freqs=tf, **kw)


def count(env, toks):
    """term frequencies in order of first occurrence"""
    res = []
    for t in toks:
        for r in res:
            if env.eq(r[0], t):
                r[1] += 1
                break
        else:
            res.append([t, 1])
    return res


def compare(env, level, lines, toks, vs, mf):
    from nlcodec.term_freq import write_stats
    from nlcodec.utils import IO
    a = learn(level, lines, False, vs, mf)
    c = count(env, toks)
    b = learn(level, [f'#{{"line_count": {len(lines)}}}\n'] + [f'{t}\t{n}\n' for t, n in c], True, vs, mf)
    same(env, a, b, 'from counts')
    if level == 'word':
        p = env.tmp() / 'stats'
        with IO.writer(p) as f:
            write_stats({t: n for t, n in c}, f, line_count=len(lines))
        with IO.reader(p) as f:
            same(env, a, learn(level, f, True, vs, mf), 'from a file')
    env.observe('table', [(t.name, t.freq) for t in a])


def text(env, level, n):
    toks = [env.choice('w', ['a', 'ba', '#ab']) for _ in range(n)]
    k = env.pick('split', 0, n)
    lines = [' '.join(toks[:k]) + '\n', ' \t'.join(toks[k:])]
    vs = env.int('vs', -1, 10) if level == 'word' else env.pick('vs', 11, 14)
    compare(env, level, lines, toks, vs, env.int('mf', 1, 5) if level == 'word' else 1)


def chars(env, level='word'):
    a, b, c = [env.string('c', 1) for _ in range(3)]
    for x in (a, b, c):
        env.assume(env.not_(x.isspace()))
        env.assume(env.not_(env.eq(x, SP)))
    compare(env, level, [a + 'x ' + b, a + c + '\n'], [a + 'x', b, a + c], -1 if level == 'word' else 14, 1)


def cli(env):
    """through learn_vocab, with the line count at the markers"""
    from nlcodec.codec import learn_vocab, load_scheme
    d = env.tmp()
    c = env.string('c', 1, alphabet=[(0x21, 0x7e), (0x100, 0x2000)])
    env.assume(env.not_(c.isspace()))
    f = [env.int('f', 1, 10 ** 6) for _ in range(2)]
    lc = env.int('lines', 1, 10 ** 6)
    table = learn_vocab([f'#{{"types": 2, "line_count": {lc}}}\n', f'{c}q\t{f[0]}\n', f'zz\t{f[1]}\n'], 'word', d / 'm', -1, term_freqs=True)
    env.check(len(table) == 8, 'terms are lost')
    for t in load_scheme(d / 'm').table:
        if t.idx in (2, 3, 4):
            env.check(env.eq(t.freq, lc), 'line count')
        if t.idx > 5:
            env.check(env.eq(t.freq, f[0] if env.eq(t.name, c + 'q') else f[1]), 'frequency')


def corpus(env):
    """learning from lines directly"""
    from nlcodec.bpe import BPELearn
    from nlcodec.codec import CharScheme
    a, b = [env.string('c', 1) for _ in range(2)]
    for x in (a, b):
        env.assume(env.not_(x.isspace()))
        env.assume(env.not_(env.eq(x, SP)))
    kw = dict(vocab_size=env.pick('vs', 11, 13), min_co_evidence=env.pick('ev', 1, 2),
              init_vocab_factory=lambda c: CharScheme.get_init_vocab(c, line_count=0, coverage=1.0, min_freq=1))
    got = BPELearn.learn_subwords_from_corpus([a + 'x ' + b, '', ' ' + a + b + '\t' + a + 'x\n'], **kw)
    want = {t: n for t, n in count(env, [a + 'x', b, a + b, a + 'x'])}
    same(env, got, BPELearn.learn_subwords(want, **kw), 'from lines')
    env.observe('table', [(t.name, t.freq) for t in got])
