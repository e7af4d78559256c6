"""V02: vocabulary building conserves token counts and respects coverage"""
from harness.lib import *
from harness.V01 import learn, no_ties, MAXF
BOUNDS = {'quick': 'word and character vocabularies from 3 terms (and any one reserved name) with any frequencies 1..10^6, any size '
                   'limit, minimum frequency, line count (or none); coverage 0.4, 0.75, 0.9, 0.9995, 1; texts of 3 tokens on 2 lines',
          'thorough': '4 terms'}
TRUSTS = 'floats as reals, coverage ties closer than 1e-9 excluded'


def jobs(tier):
    q = tier == 'quick'
    res = []
    for r in ['none'] + RNAMES:
        res.append(dict(name=f'count_{r}', fn='conserve', params=dict(n=2 if q else 3, res=r, cov=0), must_reach=['excluded', 'known', 'unknown']))
    res.append(dict(name='count_n3', fn='conserve', params=dict(n=3, res='none', cov=0, header=True), must_reach=['excluded', 'known']))
    for c in (0.4, 0.9, 1.0):
        res.append(dict(name=f'count_cov{c}', fn='conserve', params=dict(n=3, res='none', cov=c, header=False), must_reach=['excluded']))
    for c in (0.4, 0.75, 0.9, 0.9995, 1.0):
        res.append(dict(name=f'cover{c}', fn='cover', params=dict(n=3 if q else 4, cov=c), must_reach=['some'] if c < 1 else []))
    res.append(dict(name='text', fn='text', must_reach=['excluded']))
    return res


def marker_counts(env, table, line_count, in_corpus):
    """frequencies of the reserved types; unk_extra: what the unknown type counts besides corpus occurrences"""
    for i, (name, _) in enumerate(RESERVED):
        if i == 1:
            continue
        want = in_corpus.get(name, 0)
        if i in (2, 3, 4):
            want = want + line_count
        f = table[i].freq
        env.check(env.or_(env.eq(f, want), env.and_(env.eq(want, 0), f <= 0)), f'frequency of {name}')


def conserve(env, n, res, cov, header=None):
    level = 'char'
    terms = list('abcd')[:n]
    freqs = [env.int('freq', 1, MAXF) for _ in terms]
    lines = [f'{t}\t{f}\n' for t, f in zip(terms, freqs)]
    in_corpus = {}
    if res != 'none':
        in_corpus[res] = env.int('res_freq', 1, MAXF)
        lines.append(f'{res}\t{in_corpus[res]}\n')
    line_count = 0
    if header is None:
        header = env.flag('header')
    if header:
        line_count = env.int('lines', 1, MAXF)
        lines.insert(0, f'#{{"types": {n}, "line_count": {line_count}}}\n')
        env.reach('known')
    else:
        env.reach('unknown')
    if cov and cov < 1:
        no_ties(env, freqs, cov)
    table = learn(level, data=lines, vocab_size=env.int('vocab_size', -1, 12), min_freq=env.int('min_freq', 1, MAXF + 1), coverage=cov,
                  term_freqs=True)
    total = sum(freqs) + in_corpus.get('<unk>', 0)
    kept = sum(t.freq for t in table[6:])
    unk = table[1].freq
    env.check(env.or_(env.eq(kept + unk, total), env.and_(env.eq(kept, total), unk <= 0)),
              'kept and unknown frequencies do not add up to the number of tokens')
    marker_counts(env, table, line_count, in_corpus)
    if len(table) < 6 + n:
        env.reach('excluded')
    env.observe('table', [(t.name, t.freq) for t in table])


def cover(env, n, cov):
    terms = list('abcd')[:n]
    freqs = [env.int('freq', 1, MAXF) for _ in terms]
    if cov < 1:
        no_ties(env, freqs, cov)
    table = learn('char', data=[f'{t}\t{f}\n' for t, f in zip(terms, freqs)], min_freq=1, coverage=cov, term_freqs=True)
    fs = [t.freq for t in table[6:]]
    total = sum(freqs)
    env.check(len(fs) > 0, 'nothing kept')
    if cov == 1.0:
        env.check(env.eq(sum(fs), total), 'full coverage drops tokens')
        return
    num = int(round(cov * 10 ** 9))
    env.check(sum(fs) * 10 ** 9 >= total * num, 'the kept types cover less than the requested share')
    small = min(fs)
    env.check((sum(fs) - small) * 10 ** 9 < total * num, 'fewer types would cover the requested share')
    if len(fs) < n:
        env.reach('some')
    for t in table[6:]:
        for k, x in enumerate(terms):
            if x not in [u.name for u in table[6:]]:
                env.check(t.freq >= freqs[k], 'a more frequent type is left out')
    env.observe('kept', [t.name for t in table])


def text(env):
    """counts and line counts from text"""
    from nlcodec.codec import WordScheme, CharScheme
    S = env.choice('scheme', [WordScheme, CharScheme])
    toks = [env.string('c', 1, alphabet=[(0x61, 0x7a)]) for _ in range(3)]
    lines = [' '.join(toks[:2]) + '\n', '\n', toks[2]]
    vs = env.int('vs', -1, 9)
    table = S.learn(iter(lines), vocab_size=vs, min_freq=env.int('mf', 1, 4), coverage=env.choice('cov', [0, 1.0]))
    kept = sum(t.freq for t in table[6:])
    unk = env.ite(table[1].freq > 0, table[1].freq, 0)
    total = 3
    env.check(env.eq(kept + unk + (table[5].freq if S is CharScheme and table[5].freq > 0 else 0), 3 + (1 if S is CharScheme else 0)),
              'tokens are lost or counted twice')
    for i in (2, 3, 4):
        env.check(env.eq(table[i].freq, 3), 'line count at a marker')
    if len(table) == 6:
        env.reach('excluded')
    env.observe('table', [(t.name, t.freq) for t in table])
