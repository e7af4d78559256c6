"""X01: Unicode expansion for Devanagari is exactly undone by its inverse"""
BOUNDS = {'quick': 'every text of up to 3 code points (surrogates included) without the expansion mark; streams of 2 lines',
          'thorough': 'up to 5 code points'}
MARK = '⋮'


def jobs(tier):
    return [dict(name=f'text{n}', fn='text', params=dict(n=n)) for n in range(0, 4 if tier == 'quick' else 6)] + [dict(name='stream')]


def consonant(env, ch):
    """the basic and the additional consonants of the Devanagari block"""
    return env.or_(env.and_(ch >= 'क', ch <= 'ह'), env.and_(ch >= '\u0958', ch <= '\u095f'))


def expand(env, text):
    res = ''
    for i, ch in enumerate(text):
        res = res + ch
        if i + 1 < len(text) and env.and_(consonant(env, ch), consonant(env, text[i + 1])):
            res = res + MARK
    return res


def text(env, n):
    from uxdx import Devanagari
    t = env.string('t', n, surrogates=True, exclude=MARK) if n else ''
    lang = Devanagari()
    e = lang.encode(t)
    env.check(env.eq(e, expand(env, t)), 'marks are not exactly between adjacent consonants')
    env.check(env.eq(lang.decode(e), t), 'the text is not restored')
    env.check(env.eq(lang.decode(t), t), 'text without marks is changed')


def stream(env):
    """the program: one output line per line"""
    import io
    import uxdx
    lines = [env.string('t', 0, 2 if i == 0 else 1, exclude=MARK + '\n', alphabet=[(0, 0x40), (0x900, 0x97f), (0x1f600, 0x1f640)]) for i in range(2)]
    mid, out = io.StringIO(), io.StringIO()
    uxdx.main(iter([t + '\n' for t in lines]), mid)
    env.check(env.eq(mid.getvalue(), ''.join([expand(env, t) + '\n' for t in lines])), 'expanded stream')
    uxdx.main(iter([expand(env, t) + '\n' for t in lines]), out, decode=True)
    env.check(env.eq(out.getvalue(), ''.join([t + '\n' for t in lines])), 'stream is not restored')
