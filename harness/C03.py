"""C03: character encoding is one id per character, lossless up to whitespace"""
from harness.lib import *
BOUNDS = {'quick': 'vocabularies of 2 arbitrary characters besides the reserved types; lines of up to 5 arbitrary Unicode '
                   'characters (decoding: lines without the space marker itself)',
          'thorough': 'vocabularies of 3 characters, lines of up to 7 characters'}


def jobs(tier):
    q = tier == 'quick'
    return [dict(name=f'line{n}', fn='char', params=dict(n=n, nv=2 if q else 3),
                 must_reach=['space', 'unknown', 'known'] if n > 2 else []) for n in range(0, 6 if q else 8)]


def char(env, n, nv):
    from nlcodec.codec import CharScheme, Level
    names = distinct_names(env, nv, 1)
    s = CharScheme(table_of(names, Level.char))
    allnames = RNAMES + names
    line = env.string('c', n)
    toks = words_of(line)
    chars = []
    for i, t in enumerate(toks):
        if i:
            chars.append(SP)
            env.reach('space')
        chars += list(t)
    ids = list(s.encode(line))
    env.check(len(ids) == len(chars), 'one id per character')
    want = [index_of(env, c, allnames, 1) for c in chars]
    env.check(env.eq(ids, want), 'wrong id')
    pieces = list(s.encode_str(line))
    env.check(env.eq(pieces, chars), 'pieces are not the characters')
    env.observe('ids', ids)
    out = ''
    for c, w in zip(chars, want):
        if env.eq(c, SP):
            out = out + ' '
        elif w == 1:
            env.reach('unknown')
            out = out + '<unk>'
        else:
            env.reach('known')
            out = out + c
    for t in toks:
        for c in t:
            env.assume(env.not_(env.eq(c, SP)))
    env.check(env.eq(s.decode(ids), out), 'decoded text')
    env.check(env.eq(s.decode_str(pieces), ' '.join(toks)), 'decoding the pieces')
    env.observe('text', s.decode(ids))
