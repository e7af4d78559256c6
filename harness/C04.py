"""C04: BPE segmentation covers the text exactly, greedily, longest piece first"""
from harness.lib import *
BOUNDS = {'quick': '6 fixed vocabularies with nested, overlapping, repeated and dangling pieces, and every vocabulary of 2 merges over 2 '
                   'characters and the space marker; lines of up to 4 (fixed) and 3 (all) arbitrary Unicode characters; lines with a reserved name and up to one arbitrary character on either side',
          'thorough': 'lines of up to 6 and 4 characters'}
# (characters, merges as id pairs; ids: 5 = space marker, 6.. = characters, then merges in order)
VOCABS = {
    'nested': ('ab', [(6, 7), (8, 5), (6, 8)]),            # ab, ab_, aab
    'dangling': ('abc', [(6, 7), (9, 8), (10, 9)]),        # ab, abc, abcab : long dead ends
    'runs': ('a', [(6, 6), (7, 7), (8, 5)]),               # aa, aaaa, aaaa_
    'dup': ('abc', [(6, 7), (7, 8), (9, 8), (6, 10)]),     # ab, bc, abc twice
    'across': ('ab', [(6, 5), (8, 7), (9, 5)]),            # a_, a_b, a_b_
    'nochars': ('', []),
}


def jobs(tier):
    q = tier == 'quick'
    res = []
    for v in VOCABS:
        for n in range(0, 5 if q else 7):
            res.append(dict(name=f'{v}{n}', fn='fixed', params=dict(v=v, n=n),
                            must_reach=(['long'] if VOCABS[v][1] else []) + ['unk'] if n > 3 else []))
    for a in (5, 6, 7):
        for b in (5, 6, 7):
            res.append(dict(name=f'all{a}{b}', fn='every', params=dict(a=a, b=b, n=3 if q else 4), must_reach=['long', 'unk']))
    res.append(dict(name='gap', fn='gap', params=dict(n=4 if q else 5), must_reach=['long', 'unk']))
    res.append(dict(name='reserved', fn='reserved', params=dict(v='nested')))
    res.sort(key=lambda j: -j['params'].get('n', 0))
    return res


def segment(env, table, text):
    """greedy longest match from left to right, by definition; list of (piece or None, text)"""
    res, i = [], 0
    while i < len(text):
        best = None
        for t in table:
            n = len(t.name)
            if i + n <= len(text) and (best is None or n > len(best)) and env.eq(text[i:i + n], t.name):
                best = t.name
        if best is None:
            res.append((None, text[i:i + 1]))
            i += 1
        else:
            res.append((best, best))
            i += len(best)
    return res


def reserved(env, v):
    """texts with the names of reserved types, which are types of the vocabulary too"""
    chars, merges = VOCABS[v]
    line = env.string('pre', 0, 1) + env.choice('name', RNAMES) + env.choice('cut', ['', ' ', '<', 'a']) + env.string('post', 0, 1)
    run(env, bpe_table(merges, chars), line)


def run(env, table, line):
    from nlcodec.codec import BPEScheme
    s = BPEScheme(table)
    toks = words_of(line)
    text = SP.join(toks) + SP
    want = segment(env, table, text)
    pieces = list(s.encode_str(line))
    ids = list(s.encode(line))
    env.check(len(pieces) == len(want), 'number of pieces')
    names = [p if p is not None else '<unk>' for p, _ in want]
    env.check(env.eq(pieces, names), 'pieces are not the greedy segmentation')
    env.check(len(ids) == len(pieces), 'ids and pieces differ in number')
    for i, n in zip(ids, names):
        env.check(env.and_(i >= 0, i < len(table)), 'id out of range')
        env.check(env.eq(table[i].name, n), 'id does not name the piece')
    if any(p is None for p, _ in want):
        env.reach('unk')
    if any(p is not None and len(p) > 1 for p, _ in want):
        env.reach('long')
    env.observe('pieces', pieces)
    env.observe('ids', ids)


def fixed(env, v, n):
    chars, merges = VOCABS[v]
    run(env, bpe_table(merges, chars), env.string('c', n))


def every(env, a, b, n):
    c, d = env.pick('c', 5, 8), env.pick('d', 5, 8)
    run(env, bpe_table([(a, b), (c, d)], 'ab'), env.string('c', n))


def gap(env, n):
    """a vocabulary whose characters are not all types of their own, and types that are not composed"""
    table = table_of(['ab', 'abab' + 'a', 'b'], 1)
    run(env, table, env.string('c', n))
