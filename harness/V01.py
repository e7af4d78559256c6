"""V01: vocabularies have fixed reserved ids, contiguous ids and honour limits"""
from harness.lib import *
BOUNDS = {'quick': 'word and character vocabularies from 0..4 terms with any frequencies (1..10^6), optionally one reserved name among '
                   'them, any size limit (-2..14), any minimum frequency; coverage limits 0.4, 0.9 and 1; BPE alphabets from 2 words '
                   'over 3 characters with any frequencies',
          'thorough': 'up to 5 terms'}
TRUSTS = 'floats as reals, coverage ties closer than 1e-9 excluded'
MAXF = 10 ** 6


def jobs(tier):
    q = tier == 'quick'
    res = []
    for lv in ('word', 'char'):
        for n in range(0, 4 if q else 5):
            res.append(dict(name=f'{lv}{n}', fn='limits', params=dict(level=lv, n=n, res=''),
                            must_reach=['size', 'freq', 'all', 'tie'] if n > 2 else []))
    res.append(dict(name='word4', fn='limits', params=dict(level='word', n=4, res='', mf=not q), must_reach=['size', 'all']))
    for r in RNAMES:
        res.append(dict(name=f'reserved_{r}', fn='limits', params=dict(level='char' if r == SP else 'word', n=2, res=r), must_reach=['size', 'freq', 'all']))
    for c in (0.4, 0.9, 1.0):
        res.append(dict(name=f'coverage{c}', fn='limits', params=dict(level='char', n=3, res='', cov=c), must_reach=['all'] if c > 0.5 else []))
    res.append(dict(name='bpe', fn='bpe', must_reach=['order']))
    res.append(dict(name='text', fn='text', params=dict(n=3 if q else 4)))
    return res


def learn(level, **k):
    from nlcodec.codec import REGISTRY
    return REGISTRY[level].learn(**k)


def check_reserved(env, table):
    for i, (n, idx) in enumerate(RESERVED):
        env.check(env.eq(table[i].name, n), 'a reserved type is not at its id')
        env.check(table[i].level == -1, 'a reserved type lost its level')
    for i, t in enumerate(table):
        env.check(env.eq(t.idx, i), 'ids are not contiguous')


def limits(env, level, n, res, cov=0, mf=True):
    terms = list('abcde')[:n]
    freqs = [env.int('freq', 1, MAXF) for _ in terms]
    lines = [f'{t}\t{f}\n' for t, f in zip(terms, freqs)]
    if res:
        lines.insert(1, f'{res}\t{env.int("res_freq", 1, MAXF)}\n')
    vs = env.int('vocab_size', -2, 14)
    mf = env.int('min_freq', 1, MAXF + 1) if mf else 1
    if cov and cov < 1:
        no_ties(env, freqs, cov)
    table = learn(level, data=lines, vocab_size=vs, min_freq=mf, coverage=cov, term_freqs=True)
    check_reserved(env, table)
    kept = {}
    for t in table[6:]:
        env.check(t.name in terms and t.name not in kept, 'a type is no corpus type, or occurs twice')
        k = terms.index(t.name)
        kept[t.name] = k
        env.check(env.eq(t.freq, freqs[k]), 'wrong frequency of a type')
        env.check(env.or_(mf <= 1, freqs[k] >= mf), 'a type below the minimum frequency is kept')
        env.check(t.level == {'word': 2, 'char': 0}[level], 'wrong level')
    for a, b in zip(table[6:], table[7:]):
        env.check(a.freq >= b.freq, 'types are not ordered by decreasing frequency')
        if a.freq == b.freq:
            env.reach('tie')
    dropped = [k for k in range(n) if terms[k] not in kept]
    for d in dropped:
        for k in kept.values():
            env.check(freqs[k] >= freqs[d], 'a more frequent type is dropped in favour of a less frequent one')
    env.check(env.or_(vs <= 0, len(table) <= vs, len(table) == 6), 'more types than the size limit allows')
    if cov in (0, 1.0):
        for d in dropped:
            env.check(env.or_(freqs[d] < mf, env.and_(vs > 0, len(table) >= vs)), 'a type is dropped without a limit that demands it')
            env.reach('freq' if freqs[d] < mf else 'size')
    if not dropped:
        env.reach('all')
    env.observe('table', [(t.name, t.level, t.idx, t.freq) for t in table])


def no_ties(env, freqs, cov):
    """no set of terms covers the share exactly (up to 1e-9)"""
    from fractions import Fraction
    c, eps = Fraction(cov), Fraction(1, 10 ** 9)
    tot = sum(freqs)
    for m in range(1, 2 ** len(freqs)):
        s = sum(f for i, f in enumerate(freqs) if m >> i & 1)
        d = s * 10 ** 9 - tot * int(round(cov * 10 ** 9))
        env.assume(env.or_(d > tot, -d > tot))


def bpe(env):
    """the alphabet of a BPE vocabulary comes right after the reserved types, most frequent first"""
    from nlcodec.codec import BPEScheme
    words = ['ab', 'cab']
    freqs = [env.int('freq', 1, MAXF) for _ in words]
    table = BPEScheme.learn([f'{w}\t{f}' for w, f in zip(words, freqs)], vocab_size=11, coverage=1.0, min_co_evidence=1, term_freqs=True)
    check_reserved(env, table)
    count = {'a': freqs[0] + freqs[1], 'b': freqs[0] + freqs[1], 'c': freqs[1]}
    alpha = [t for t in table[6:] if not has_kids(t)]
    env.check(sorted(t.name for t in alpha) == ['a', 'b', 'c'], 'alphabet')
    env.check(all(not has_kids(t) for t in table[:9]), 'characters do not come first')
    for t in alpha:
        env.check(env.eq(t.freq, count[t.name]), 'character frequency')
    for a, b in zip(alpha, alpha[1:]):
        env.check(a.freq >= b.freq, 'alphabet is not ordered by frequency')
        env.reach('order')
    env.check(len(table) <= 11, 'size limit')


def text(env, n):
    """from text: arbitrary tokens of 1 character"""
    from nlcodec.codec import WordScheme
    toks = [env.string('c', 1) for _ in range(n)]
    for t in toks:
        env.assume(env.not_(t.isspace()))
    table = WordScheme.learn([' '.join(toks[:2]), ' '.join(toks[2:])], vocab_size=env.int('vs', -1, 10))
    check_reserved(env, table)
    for i, t in enumerate(table):
        for u in table[:i]:
            env.check(env.not_(env.eq(t.name, u.name)), 'names are not unique')
    for t in table[6:]:
        env.check(env.eq(t.freq, env.sum_if([(env.eq(x, t.name), 1) for x in toks])), 'frequency')
    env.observe('table', [(t.name, t.freq) for t in table])
