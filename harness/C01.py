"""C01: byte encoding is lossless for every text"""
BOUNDS = {'quick': 'all texts of up to 4 arbitrary Unicode characters (surrogates excluded); markers at any positions of up to '
                   '4 pieces; all byte sequences of up to 3 bytes, and of 4 bytes that start with F0..FF, for invalid input',
          'thorough': 'texts of up to 6 characters, byte sequences of up to 4 bytes'}


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=f'text{n}', fn='text', params=dict(n=n), must_reach=['multi'] if n else []) for n in range(0, 5 if q else 7)]
    res += [dict(name='vocab')]
    res += [dict(name=f'markers{n}', fn='markers', params=dict(n=n), must_reach=['bos', 'eos']) for n in range(1, 4 if q else 5)]
    res += [dict(name=f'invalid{n}', fn='invalid', params=dict(n=n), must_reach=['bad', 'good']) for n in range(1, 4 if q else 5)]
    res += [dict(name='invalid_lead4', fn='invalid', params=dict(n=4, lead=(0xF0, 0xFF)), must_reach=['bad', 'good'])]
    return res


def scheme():
    from nlcodec.codec import ByteScheme
    return ByteScheme()


def vocab(env):
    from nlcodec.codec import ByteScheme
    for s in (ByteScheme(), ByteScheme(ByteScheme.learn([])), ByteScheme(ByteScheme.learn(iter(['abc']), vocab_size=3))):
        names = [t.name for t in s.table]
        env.check(len(names) == 258 and len(set(names)) == 258 and len(s) == 258, 'size of the byte vocabulary')
        env.check(all(int(x, 16) == i for i, x in enumerate(names[:256])), 'pieces do not name their bytes')
        env.check([t.idx for t in s.table] == list(range(258)), 'ids')
        env.check(names[256:] == ['<s>', '</s>'] and all(t.is_reserved for t in s.table[256:])
                  and not any(t.is_reserved for t in s.table[:256]), 'markers')


def utf8(env, text):
    """UTF-8 of a text by the definition of the encoding"""
    out = []
    for ch in text:
        c = ord(ch)
        if c < 0x80:
            out.append(c)
        elif c < 0x800:
            out += [0xC0 + c // 64, 0x80 + c % 64]
        elif c < 0x10000:
            out += [0xE0 + c // 4096, 0x80 + c // 64 % 64, 0x80 + c % 64]
        else:
            out += [0xF0 + c // 262144, 0x80 + c // 4096 % 64, 0x80 + c // 64 % 64, 0x80 + c % 64]
    return out


def text(env, n):
    s = scheme()
    t = env.string('c', n)
    ids = s.encode(t)
    want = utf8(env, t)
    env.check(len(ids) == len(want), 'number of ids')
    env.check(env.eq(list(ids), want), 'ids are not the UTF-8 bytes')
    if len(want) > n:
        env.reach('multi')
    pieces = s.encode_str(t)
    env.check(len(pieces) == len(want), 'number of pieces')
    env.check(env.all(int(p, 16) == w for p, w in zip(pieces, want)), 'pieces do not name the bytes')
    env.check(env.eq(s.decode(ids), t), 'decoding the ids does not give the text back')
    env.check(env.eq(s.decode_str(pieces), t), 'decoding the pieces does not give the text back')
    env.observe('ids', ids)
    env.observe('text', s.decode(ids))


def markers(env, n):
    """markers between whole characters are copied verbatim, everything else is untouched"""
    s = scheme()
    ids, pieces, want = [], [], ''
    for i in range(n):
        kind = env.pick('kind', 0, 2)
        if kind == 0:
            c = env.char('c')
            ids += s.encode(c)
            pieces += s.encode_str(c)
            want = want + c
        else:
            m = ['<s>', '</s>'][kind - 1]
            env.reach(['bos', 'eos'][kind - 1])
            ids.append(255 + kind)
            pieces.append(m)
            want = want + m
    env.check(env.eq(s.decode(ids), want), 'decoding ids with markers')
    env.check(env.eq(s.decode_str(pieces), want), 'decoding pieces with markers')
    env.observe('out', s.decode(ids))


def invalid(env, n, lead=(0, 255)):
    """any byte sequence decodes without an error; characters that are not replacement marks are the valid parts"""
    s = scheme()
    ids = [env.int('b', *(lead if i == 0 else (0, 255))) for i in range(n)]
    out = s.decode(ids)
    # reference: the definition of well-formed UTF-8 (Unicode, table 3-7) with maximal-subpart replacement
    want = []
    i = 0
    while i < n:
        b = ids[i]
        if b < 0x80:
            want.append(b)
            i += 1
            continue
        if env.and_(b >= 0xC2, b <= 0xDF):
            need, lo, hi, cp = 1, 0x80, 0xBF, b - 0xC0
        elif env.and_(b >= 0xE0, b <= 0xEF):
            lo, hi = (0xA0, 0xBF) if b == 0xE0 else (0x80, 0x9F) if b == 0xED else (0x80, 0xBF)
            need, cp = 2, b - 0xE0
        elif env.and_(b >= 0xF0, b <= 0xF4):
            lo, hi = (0x90, 0xBF) if b == 0xF0 else (0x80, 0x8F) if b == 0xF4 else (0x80, 0xBF)
            need, cp = 3, b - 0xF0
        else:
            want.append(0xFFFD)
            i += 1
            env.reach('bad')
            continue
        k = 1
        while k <= need and i + k < n and env.and_(ids[i + k] >= lo, ids[i + k] <= hi):
            cp = cp * 64 + ids[i + k] - 0x80
            lo, hi = 0x80, 0xBF
            k += 1
        if k > need:
            want.append(cp)
            env.reach('good')
        else:
            want.append(0xFFFD)
            env.reach('bad')
        i += k
    if not any(x is not None and not isinstance(x, int) for x in want):
        env.reach('good')
    env.check(len(out) == len(want), 'number of characters decoded from arbitrary bytes')
    env.check(env.all(ord(c) == w for c, w in zip(out, want)), 'characters decoded from arbitrary bytes')
    env.observe('out', out)
