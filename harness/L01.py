"""L01: command-line encode and decode work line by line and invert each other"""
from harness.lib import *
BOUNDS = {'quick': 'streams of up to 2 lines of up to 3 characters (letters, spaces, tabs, carriage returns, multi-byte characters, characters outside the vocabulary, empty lines, '
                   'last line without terminator), word, character, BPE and byte codecs, pieces and ids; byte codec: one line of 1 character up to U+00FF (pieces) and of 2 arbitrary characters (ids)',
          'thorough': 'up to 3 lines; 2 arbitrary characters'}
OUTSIDE = 'class codecs (their labels may contain spaces, which separate pieces in the output)'
KINDS = ('word', 'char', 'bpe', 'byte')


def jobs(tier):
    q = tier == 'quick'
    res = []
    for k in KINDS:
        for i in (0, 1):
            res.append(dict(name=f'{k}{"_ids" if i else ""}', fn='stream', params=dict(kind=k, indices=bool(i), lens=[2, 1] if q else [3, 1, 1])))
            res.append(dict(name=f'cli_{k}{"_ids" if i else ""}', fn='cli', params=dict(kind=k, indices=bool(i), lens=[2, 1] if q else [3, 1])))
    res += [dict(name=f'free{i}', fn='free', params=dict(indices=bool(i), n=(1, 2)[i] if q else 2)) for i in (0, 1)]
    return res


def codec(kind):
    from nlcodec import codec as C
    if kind == 'byte':
        return C.ByteScheme()
    if kind == 'word':
        return C.WordScheme(table=table_of(['a', 'ab'], C.Level.word))
    if kind == 'char':
        return C.CharScheme(table=table_of(['a', 'b'], C.Level.char))
    return C.BPEScheme(table=bpe_table([(6, 7), (8, 5)], 'ab'))


def lines_of(env, lens, kind=None):
    res = []
    for i, n in enumerate(lens):
        al = 'ab \té\r' if i == 0 else 'a z'
        t = env.string('t', 0, n, alphabet=al)
        if kind == 'byte':   # one path per text: hexadecimal digits of symbolic bytes are costly
            t = ''.join(next(a for a in al if env.eq(ch, a)) for ch in t)
        res.append(t)
    return res


def show(seq, indices):
    return ' '.join([str(v) for v in seq] if indices else seq)


def stream(env, kind, indices, lens):
    """the two generators"""
    from nlcodec import codec as C
    c = codec(kind)
    lines = lines_of(env, lens, kind)
    raw = [t + '\n' for t in lines]
    if env.flag('unterminated'):
        raw[-1] = lines[-1]
    mid = list(C.encode(iter(raw), c, indices=indices))
    env.check(len(mid) == len(lines), 'number of encoded lines')
    for got, t in zip(mid, lines):
        env.check(env.eq(list(got), list(c.encode(t) if indices else c.encode_str(t))), 'not the encoding of the line')
    out = list(C.decode(iter([show(s, indices) + '\n' for s in mid]), c, indices=indices))
    env.check(len(out) == len(lines), 'number of decoded lines')
    for got, t in zip(out, lines):
        env.check(env.eq(got, expected(c, t, indices)), 'not the decoding of the encoding of the line')
        if kind == 'byte':
            env.check(env.eq(got, t), 'bytes do not give the line back')


def expected(c, t, indices):
    return c.decode(c.encode(t)) if indices else c.decode_str(c.encode_str(t))


def run_main(env, how, flag, task, model, inp, out):
    """the nlcodec command"""
    import nlcodec.__main__ as M
    if how == 'short':
        program(env, M, ['-m', model, '-i', inp, '-o', out, task] + flag)
    elif how == 'long':
        program(env, M, flag + [task, '--out', out, '--inp', inp, '--model', model])
    else:
        program(env, M, [task, '-m', model] + flag, inp, out)


def cli(env, kind, indices, lens):
    """both commands, connected through files"""
    d = env.tmp()
    c = codec(kind)
    c.save(d / 'model')
    lines = lines_of(env, lens, kind)
    with open(d / 'in', 'w', encoding='utf-8', newline='\n') as f:
        for t in lines:
            f.write(t + '\n')
    flag = [option(env, 'flag', '-idx', '--indices')] if indices else []
    hows = env.choice('how', [('short', 'long'), ('long', 'standard'), ('standard', 'short')])
    for task, i, o, how in (('encode', 'in', 'mid', hows[0]), ('decode', 'mid', 'out', hows[1])):
        run_main(env, how, flag, task, d / 'model', d / i, d / o)
    with open(d / 'mid', encoding='utf-8', newline='\n') as f:
        mid = f.read()
    env.check(env.eq(mid, ''.join([show(c.encode(t) if indices else c.encode_str(t), indices) + '\n' for t in lines])), 'encoded output')
    with open(d / 'out', encoding='utf-8', newline='\n') as f:
        out = f.read()
    env.check(env.eq(out, ''.join([expected(c, t, indices) + '\n' for t in lines])), 'decoded output')
    if kind == 'byte':
        env.check(env.eq(out, ''.join([t + '\n' for t in lines])), 'bytes do not give the text back')


def free(env, indices, n):
    """any characters but the terminator"""
    from nlcodec import codec as C
    c = codec('byte')
    line = env.string('t', n, exclude='\n', alphabet=None if indices else [(0, 0xff)])
    mid = list(C.encode(iter([line + '\n']), c, indices=indices))
    out = list(C.decode(iter([show(mid[0], indices) + '\n']), c, indices=indices))
    env.check(env.eq(out, [line]), 'bytes do not give the line back')
