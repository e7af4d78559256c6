"""V03: saving and loading a vocabulary preserves it and its kind"""
from harness.lib import *
BOUNDS = {'quick': 'word, character and BPE vocabularies of the reserved types and 2..3 further ones, class vocabularies of 1..2 labels; '
                   'names of up to 2 arbitrary Unicode characters (word types without whitespace, labels stripped and without line '
                   'feeds), any frequencies; the byte vocabulary; one line of 2 arbitrary characters encoded before and after',
          'thorough': 'names of up to 3 characters'}
OUTSIDE = 'lone surrogates in names (not encodable in UTF-8)'


def jobs(tier):
    q = tier == 'quick'
    m = 2 if q else 3
    res = [dict(name=f'word{n}', fn='words', params=dict(kind='word', lens=n)) for n in ((1, 1), (2,) if q else (3,), (1, 2))]
    res += [dict(name=f'char{n}', fn='words', params=dict(kind='char', lens=(1,) * n)) for n in (1, 2)]
    res += [dict(name=f'bpe{i}', fn='bpe', params=dict(n=n, merges=ms)) for i, (n, ms) in enumerate(
        [(2, []), (2, [(6, 7)]), (2, [(6, 7), (8, 8)]), (2, [(6, 5), (7, 8), (7, 6)])])]
    res += [dict(name=f'class{n}', fn='classes', params=dict(lens=n), must_reach=['tab', 'cr'] if 3 in n else [])
            for n in ((0,), (1,), (2,), (3,), (1, 1), (1, 2) if not q else (0, 1))]
    res += [dict(name='byte'), dict(name='learned'), dict(name='twice')]
    return res


def same_table(env, a, b):
    env.check(len(a) == len(b), 'a type is lost or added')
    for x, y in zip(a, b):
        env.check(env.eq(x.name, y.name), f'name changed: {x.idx}')
        env.check(env.eq(x.idx, y.idx) and env.eq(x.level, y.level), 'id or level changed')
        env.check(env.eq(x.freq, y.freq), 'frequency changed')
        env.check(env.eq([k.idx for k in x.kids or ()], [k.idx for k in y.kids or ()]), 'pieces changed')
        for k, l in zip(x.kids or (), y.kids or ()):
            env.check(env.eq(k.name, l.name), 'pieces changed')


def round_trip(env, s, line=None, as_str=False):
    from nlcodec.codec import load_scheme
    p = env.tmp() / 'm'
    s.save(str(p) if as_str else p)
    t = load_scheme(p if not as_str else str(p))
    env.check(type(t) is type(s), f'a {type(s).__name__} is loaded as a {type(t).__name__}')
    same_table(env, s.table, t.table)
    if line is not None:
        a, b = s.encode(line), t.encode(line)
        env.check(env.eq(a, b), 'the loaded codec encodes differently')
        env.observe('enc', a)
    return t


def with_freqs(env, table, n0):
    return [t if i < n0 else t.copy(freq=env.int('freq', -1, 10 ** 12)) for i, t in enumerate(table)]


def words(env, kind, lens):
    from nlcodec.codec import REGISTRY, Level
    names = []
    for n in lens:
        s = env.string('name', n)
        for ch in s:
            env.assume(env.not_(ch.isspace()))
        env.assume(env.all([env.not_(env.eq(s, o)) for o in names + RNAMES]))
        names.append(s)
    table = with_freqs(env, table_of(names, getattr(Level, kind)), 1)
    line = env.string('line', 1) + names[0] + (' ' if kind == 'word' else '')
    round_trip(env, REGISTRY[kind](table), line, as_str=kind == 'char')


def bpe(env, n, merges):
    from nlcodec.codec import BPEScheme
    names = distinct_names(env, n, 1)
    table = bpe_table(merges, names)
    for t in table[6:]:
        object.__setattr__(t, 'freq', env.int('freq', 1, 10 ** 12))
    round_trip(env, BPEScheme(table), names[0] + names[1] + names[0])


def classes(env, lens):
    from nlcodec.codec import ClassScheme
    names = []
    for n in lens:
        s = env.string('name', n, exclude='\n')
        if n:
            env.assume(env.not_(s[0].isspace()))
            env.assume(env.not_(s[n - 1].isspace()))
        env.assume(env.all([env.not_(env.eq(s, o)) for o in names]))
        for c in s:
            if c == '\t':
                env.reach('tab')
            elif c == '\r':
                env.reach('cr')
        names.append(s)
    from nlcodec.codec import Type, Level
    table = [Type(x, level=Level.clasz, idx=i, freq=env.int('freq', 1, 10 ** 12)) for i, x in enumerate(names)]
    round_trip(env, ClassScheme(table), names[-1])


def byte(env):
    from nlcodec.codec import ByteScheme
    t = round_trip(env, ByteScheme(), env.string('line', 2))
    n = env.int('id', 0, 257)
    env.check(env.eq(t.decode([n]), ByteScheme().decode([n])), 'the loaded codec decodes differently')


def learned(env):
    """through learn_vocab and the model file it writes"""
    from nlcodec.codec import learn_vocab, load_scheme, REGISTRY
    level = env.choice('level', ['word', 'char', 'bpe', 'class', 'byte'])
    model = env.tmp() / 'model'
    w = env.string('w', 1, alphabet=[(0x21, 0x2580), (0xe000, 0xffff)])
    env.assume(env.not_(w.isspace()))
    table = learn_vocab([w + 'b\n', 'ab ' + w + 'b'], level, model, vocab_size={'bpe': 10, 'byte': 0}.get(level, -1), min_freq=1,
                        min_co_ev=1)
    s = load_scheme(model)
    env.check(type(s) is REGISTRY[level], 'wrong kind of codec')
    same_table(env, table, s.table)
    line = w + 'b ab'
    env.check(env.eq(s.encode(line), REGISTRY[level](table).encode(line)), 'the loaded codec encodes differently')
    env.observe('names', [t.name for t in s.table][:12])


def twice(env):
    """saving what was loaded gives the same again; levels decide the kind of files without a recorded kind"""
    from nlcodec.codec import Type, Level, load_scheme, CharScheme, WordScheme, BPEScheme
    cls, lv = env.choice('kind', [(CharScheme, Level.char), (WordScheme, Level.word), (BPEScheme, Level.subword)])
    names = distinct_names(env, 2, 1)
    table = with_freqs(env, table_of(names, lv), 6) if cls is not BPEScheme else bpe_table([(6, 7)], names)
    d = env.tmp()
    Type.write_out(table, d / 'old')
    s = load_scheme(d / 'old')
    env.check(type(s) is cls, 'a file without a recorded kind is loaded as another kind')
    s.save(d / 'new')
    t = load_scheme(d / 'new')
    env.check(type(t) is cls, 'kind changed')
    same_table(env, table, t.table)
