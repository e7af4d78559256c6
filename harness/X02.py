"""X02: writing the vowels of Devanagari out is undone for well-formed text"""
BOUNDS = {'quick': 'every well-formed text of up to 2 code points of all Unicode, and of 3 with two kinds of vowels and their signs, for both '
                   'variants; streams of 2 lines',
          'thorough': 'up to 4 code points with two kinds of vowels'}
OUTSIDE = 'texts with a virama that is not between a consonant and a consonant or word end, words that begin with a dependent vowel sign'
FORMS = 'ािीुूृॄॅॆेैॉॊोौॢॣ'
VOWELS = 'आइईउऊऋॠऍऎएऐऑऒओऔऌॡ'
VIRAMA, A, MARK = '्', 'अ', '\ue000'


def jobs(tier):
    n, m = (3, 2) if tier == 'quick' else (4, 2)
    return [dict(name=f'{v}{k}', fn='text', params=dict(v=v, n=k, few=k > m), must_reach=['cluster', 'vowel'] if k > 2 else [])
            for v in ('full', 'lite') for k in range(n + 1)] + [dict(name='stream')]


def consonant(env, ch):
    return env.or_(env.and_(ch >= 'क', ch <= 'ह'), env.and_(ch >= '\u0958', ch <= '\u095f'))


def space(env, ch):
    return env.or_(ch == ' ', ch == '\t', ch == '\n')


def among(env, ch, s):
    return env.any([ch == x for x in s])


def well_formed(env, t, lite, few):
    n = len(t)
    for i, ch in enumerate(t):
        env.assume(env.not_(ch == MARK))
        if few:
            env.assume(env.not_(among(env, ch, FORMS[2:] + VOWELS[2:])))
        prev = consonant(env, t[i - 1]) if i else False
        first = space(env, t[i - 1]) if i else True
        after = env.or_(consonant(env, t[i + 1]), space(env, t[i + 1])) if i + 1 < n else True
        env.assume(env.or_(env.not_(ch == VIRAMA), env.and_(prev, after)))
        if lite:
            env.assume(env.not_(env.and_(ch == A, prev)))
        else:
            env.assume(env.not_(env.and_(among(env, ch, FORMS), first)))


def make(v):
    import unicode_fix as u
    lang = u.get_aubugida('hin')
    if v == 'lite':
        lang.__class__ = u.AbugidaLangLite
    return lang


def text(env, v, n, few):
    t = env.string('t', n) if n else ''
    well_formed(env, t, v == 'lite', few)
    lang = make(v)
    e = lang.encode(t)
    env.check(VIRAMA not in e, 'a virama is left')
    env.check(env.eq(lang.decode(e), t), 'the text is not restored')
    if n > 2 and t[1] == VIRAMA and consonant(env, t[2]):
        env.reach('cluster')
        env.check(env.eq(e[:2], t[0] + t[2]), 'a consonant without vowel is not written alone')
    if n > 2 and consonant(env, t[0]) and consonant(env, t[1]):
        env.reach('vowel')
        env.check(env.eq(e[:3], t[0] + A + t[1]), 'the implied vowel is not written')
    env.observe('e', e)


def stream(env):
    import io
    import unicode_fix as u
    lines = [env.string('t', 0, 2 - i, alphabet=[(0x20, 0x22), (0x905, 0x94d), (0x1f600, 0x1f601)]) for i in range(2)]
    mid, out = io.StringIO(), io.StringIO()
    for t in lines:
        well_formed(env, t, False, True)
    u.main(iter([t + '\n' for t in lines]), mid, 'devanagari')
    text = mid.getvalue()
    env.check(text.count('\n') == 2, 'number of lines')
    u.main(iter([l + '\n' for l in text.split('\n')[:-1]]), out, 'hin', decode=True)
    env.check(env.eq(out.getvalue(), ''.join([t + '\n' for t in lines])), 'stream is not restored')
