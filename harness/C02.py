"""C02: word encoding maps every token to its id and unknowns to the UNK id"""
from harness.lib import *
BOUNDS = {'quick': 'vocabularies of 2 words of 1..2 arbitrary Unicode characters besides the reserved ones; lines of up to 4 '
                   'arbitrary Unicode characters, and lines of a reserved name with up to one arbitrary character before and after',
          'thorough': 'vocabularies of 3 words of 1..2 characters, lines of up to 5 characters'}


def jobs(tier):
    q = tier == 'quick'
    return [dict(name=f'line{n}', fn='word', params=dict(n=n, nv=2 if q or n > 3 else 3, mx=2 if n < 5 else 1),
                 must_reach=['known', 'unknown'] if n > 1 else []) for n in range(0, 5 if q else 6)] \
        + [dict(name='reserved', params=dict(nv=1), must_reach=['known', 'unknown'])]


def reserved(env, nv):
    """lines with the reserved names"""
    line = env.string('pre', 0, 1) + env.choice('name', RNAMES) + env.choice('sep', ['', ' ', '\t ']) + env.string('post', 0, 1)
    word(env, len(line), nv, 1, line)


def word(env, n, nv, mx, line=None):
    from nlcodec.codec import WordScheme, Level
    names = distinct_names(env, nv, mx)
    s = WordScheme(table_of(names, Level.word))
    allnames = RNAMES + names
    line = env.string('c', n) if line is None else line
    toks = words_of(line)
    ids = list(s.encode(line))
    pieces = list(s.encode_str(line))
    env.check(len(ids) == len(toks), 'one id per token')
    env.check(env.eq(pieces, toks), 'pieces are not the tokens')
    want = [index_of(env, t, allnames, 1) for t in toks]
    env.check(env.eq(ids, want), 'wrong id')
    known = []
    for t, w in zip(toks, want):
        kn = w != 1 or env.eq(t, '<unk>')
        if kn:
            known.append(t)
            env.reach('known')
        else:
            known.append('<unk>')
            env.reach('unknown')
    text = s.decode(ids)
    env.check(env.eq(text, ' '.join(known)), 'decoded text')
    env.check(env.eq(list(s.encode(text)), want), 'encoding the decoded text gives other ids')
    env.check(env.eq(s.decode_str(pieces), ' '.join(toks)), 'decoding the pieces')
    env.observe('ids', ids)
    env.observe('text', text)
