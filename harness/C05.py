"""C05: BPE decoding inverts encoding, also under stochastic splitting"""
from harness.lib import *
from harness.C04 import VOCABS
BOUNDS = {'quick': '4 fixed vocabularies (all characters covered); lines of up to 5 characters of the vocabulary and arbitrary '
                   'whitespace; every split ratio and every outcome of the random generator',
          'thorough': 'lines of up to 7 characters'}
NAMES = ['nested', 'dangling', 'runs', 'dup']


def jobs(tier):
    q = tier == 'quick'
    res = []
    for v in NAMES:
        for n in range(0, 6 if q else 7):
            res.append(dict(name=f'plain_{v}{n}', fn='plain', params=dict(v=v, n=n)))
        for n in range(1, 4 if q else 5):
            res.append(dict(name=f'split_{v}{n}', fn='split', params=dict(v=v, n=n)))
        res.append(dict(name=f'perms_{v}', fn='perms', params=dict(v=v)))
    res.append(dict(name='split_long', fn='split_long', must_reach=['split', 'zero', 'one']))
    res.append(dict(name='perms_all', fn='perms_all'))
    res.sort(key=lambda j: -j['params'].get('n', 0) if 'params' in j else 0)
    return res


def scheme(v):
    from nlcodec.codec import BPEScheme
    chars, merges = VOCABS[v]
    return BPEScheme(bpe_table(merges, chars)), chars


def line_of(env, n, chars):
    s = ''
    for _ in range(n):
        c = env.char('c')
        env.assume(env.or_(c.isspace(), *[env.eq(c, x) for x in chars]))
        s = s + c
    return s


def plain(env, v, n):
    s, chars = scheme(v)
    line = line_of(env, n, chars)
    norm = ' '.join(words_of(line))
    env.check(env.eq(s.decode(s.encode(line)), norm), 'decoding the ids')
    env.check(env.eq(s.decode_str(s.encode_str(line)), norm), 'decoding the pieces')
    env.observe('text', s.decode(s.encode(line)))


def refines(env, table, idx, out, k):
    """position in out after consuming a splitting of type idx starting at k, or None"""
    t = table[idx]
    if k < len(out) and out[k] == idx:
        return k + 1
    if not has_kids(t):
        return None
    for kid in t.kids:
        k = refines(env, table, kid.idx, out, k)
        if k is None:
            return None
    return k


def leaves(table, idx):
    t = table[idx]
    return [idx] if not has_kids(t) else [x for k in t.kids for x in leaves(table, k.idx)]


def split(env, v, n):
    s, chars = scheme(v)
    line = line_of(env, n, chars)
    check_split(env, s, line, norm=' '.join(words_of(line)))


def split_long(env):
    """lines that start with the longest pieces"""
    v = env.choice('v', NAMES)
    s, chars = scheme(v)
    line = env.choice('line', [t.name.replace(SP, ' ') for t in s.table[6:] if has_kids(t)])
    check_split(env, s, line, norm=' '.join(words_of(line)))


def check_split(env, s, line, norm):
    base = list(s.encode(line))
    ratio = env.real('ratio', 0, 1)
    out = list(s.encode(line, split_ratio=ratio))
    env.check(env.eq(s.decode(out), norm), 'decoding a split encoding')
    conc = ''.join(s.table[i].name for i in out)
    env.check(env.eq(conc, ''.join(s.table[i].name for i in base)), 'splitting changes the text')
    # some type with the same name explains every part
    k = 0
    for b in base:
        best = None
        for t in s.table:
            if t.name == s.table[b].name:
                r = refines(env, s.table, t.idx, canon(s, out), k) if best is None else best
                best = r
        env.check(best is not None, 'a piece is replaced by pieces it is not composed of')
        k = best
    env.check(k == len(out), 'extra pieces')
    if len(out) > len(base):
        env.reach('split')
    if env.eq(ratio, 0):
        env.reach('zero')
        env.check(out == base, 'ratio 0 splits')
    if env.eq(ratio, 1):
        env.reach('one')
        env.check(all(not has_kids(s.table[i]) for i in out), 'ratio 1 does not split all the way down')
    env.observe('out', out)


def canon(s, out):
    """ids of equal names are the same piece: all candidates are tried by refines, so map nothing but keep ids"""
    return out


def perms(env, v):
    s, _ = scheme(v)
    check_perms(env, s.table)


def perms_all(env):
    """every vocabulary of 2 merges over one character and the marker"""
    ms = [(env.pick('a', 5, 6), env.pick('b', 5, 6)), (env.pick('c', 5, 7), env.pick('d', 5, 7)),
          (env.pick('e', 5, 8), env.pick('f', 5, 8))]
    check_perms(env, bpe_table(ms, 'a'))


def all_splits(t):
    res = [[t.idx]]
    if has_kids(t):
        l, r = t.kids
        for x in all_splits(l):
            for y in all_splits(r):
                res.append(x + y)
    return res


def check_perms(env, table):
    for t in table:
        want = sorted(all_splits(t))
        ids = t.get_permutations()
        names = t.get_permutations(name=True)
        env.check(sorted(ids) == want, 'listed permutations are not the ways to compose the type')
        env.check(all(''.join(p) == t.name for p in names), 'a permutation does not concatenate to the type')
        env.check(sorted([table[i].name for i in p] for p in ids) == sorted(names), 'names and ids of permutations differ')
