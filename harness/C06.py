"""C06: class vocabularies map whole labels to ids one-to-one"""
from harness.lib import *
BOUNDS = {'quick': 'up to 3 label lines of 0..2 arbitrary Unicode characters (line breaks excluded), one of them with '
                   'surrounding whitespace; every size limit, minimum frequency and coverage setting in small ranges; one '
                   'further label looked up',
          'thorough': 'up to 4 label lines of 0..2 characters'}


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=f'labels{n}', fn='labels', params=dict(n=n, mx=2 if n < 3 or not q else 1, pad=(n < 3)),
                must_reach=['dup', 'inner', 'unknown'] if n == 2 else []) for n in range(1, 4 if q else 5)]
    res.append(dict(name='limits', fn='limits'))
    return res


def strip(env, s):
    i, j = 0, len(s)
    while i < j and s[i].isspace():
        i += 1
    while j > i and s[j - 1].isspace():
        j -= 1
    return s[i:j]


def labels(env, n, mx, pad):
    from nlcodec.codec import ClassScheme
    lines = []
    for i in range(n):
        l = env.string('c', 0, mx, exclude='\n\r')
        if pad and i == 0:
            l = ' ' + l + '\t'
        lines.append(l)
    labels = [strip(env, l) for l in lines]
    for l in labels:
        if len(l) > 1:
            env.reach('inner')
    count = []
    for l in labels:
        for e in count:
            if env.eq(e[0], l):
                e[1] += 1
                env.reach('dup')
                break
        else:
            count.append([l, 1])
    table = ClassScheme.learn([l + '\n' for l in lines])
    env.check(len(table) == len(count), 'one type per distinct label')
    for i, t in enumerate(table):
        env.check(t.idx == i, 'ids are not contiguous from 0')
        env.check(t.kids is None or len(t.kids) == 0, 'labels have no pieces')
        if i:
            env.check(table[i - 1].name < t.name, 'labels are not in alphabetical order')
    ids = {}
    for l, c in count:
        hit = [t for t in table if env.eq(t.name, l)]
        env.check(len(hit) == 1, 'label is missing')
        env.check(env.eq(hit[0].freq, c), 'wrong number of occurrences')
    s = ClassScheme(table)
    for k, l in enumerate(lines):
        got = list(s.encode(l + '\n'))
        env.check(len(got) == 1, 'one id per label')
        env.check(env.eq(s.idx_to_str[got[0]], labels[k]), 'id of another label')
        env.check(got[0] >= 0, 'id of a known label')
        env.check(env.eq(s.decode(got), labels[k]), 'decoding the id does not give the label')
        env.observe('id', got)
    other = env.string('q', 1, 1)
    o = strip(env, other)
    known = env.any([env.eq(o, l) for l in labels])
    bad, got = env.raises((KeyError, ValueError, LookupError), s.encode, other)
    if known:
        env.check(not bad, 'known label is refused')
        env.check(env.eq(s.idx_to_str[list(got)[0]], o), 'id of another label')
    else:
        env.reach('unknown')
        if not bad:
            env.check(env.all([env.not_(env.and_(x >= 0, x < len(table))) for x in got]),
                      'unknown label encodes to the id of another label')
    env.observe('names', [t.name for t in table])


def limits(env):
    """size, frequency and coverage limits do not apply to labels"""
    from nlcodec.codec import ClassScheme
    a, b = env.char('c', exclude='\n\r'), env.char('c', exclude='\n\r')
    for c in (a, b):
        env.assume(env.not_(c.isspace()))
    vs, mf = env.int('vocab_size', -1, 10), env.int('min_freq', 1, 10)
    cov = env.real('coverage', 0, 1)
    lines = [a, b, a]
    table = ClassScheme.learn(lines, vocab_size=vs, min_freq=mf, coverage=cov)
    names = [a] if env.eq(a, b) else [a, b]
    env.check(len(table) == len(names), 'a limit removed a label')
    env.check(env.eq(sum(t.freq for t in table), 3), 'occurrences')
    for n in names:
        env.check(env.any([env.eq(t.name, n) for t in table]), 'label missing')
