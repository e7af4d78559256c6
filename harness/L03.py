"""L03: interrupted learning is never mistaken for a finished one"""
from harness.lib import *
from harness.lib import program as program_of
from harness import L02
from harness.lib_spark import Session
BOUNDS = {'quick': 'saving word, BPE and class vocabularies over nothing or an older model, and the whole distributed learning program; the process stops before any change to the '
                   'file system or within any flush of a file (nothing, one byte, half, all lines but the last or all but one byte of it reaching the disk), or writing fails at any line; '
                   'the program is then run again',
          'thorough': 'the same with 4 lines of text'}
OUTSIDE = 'loss of changes the operating system already accepted (power failure); two programs at once; models written to streams of the caller'


def jobs(tier):
    return [dict(name=f'save_{k}{o}', fn='save', params=dict(kind=k, old=o), must_reach=['crashed', 'finished']) for k in ('word', 'bpe', 'class') for o in (0, 1)] + \
           [dict(name=f'shrink{o}', fn='shrink', params=dict(old=o), must_reach=['crashed', 'finished']) for o in (0, 1)] + \
           [dict(name=f'learn_{k}', fn='program', params=dict(level=k), must_reach=['crashed', 'finished']) for k in ('word', 'char', 'bpe')] + \
           [dict(name=f'fail_{k}', fn='failing', params=dict(level=k)) for k in ('word', 'char')]


def codec(env, kind, n):
    from nlcodec import codec as C
    f = env.int('freq', 1, 99)
    if kind == 'word':
        return C.WordScheme(table=table_of(['a', 'bc', 'd'][:n], C.Level.word, f))
    if kind == 'class':
        return C.ClassScheme(table=C.ClassScheme.learn(['x', 'yz', 'w'][:n]))
    return C.BPEScheme(table=bpe_table([(6, 7), (8, 5)][:n - 1], 'ab'))


def same(env, got, exp):
    if len(got.table) != len(exp.table) or type(got) is not type(exp):
        return False
    return env.all([env.and_(env.eq(a.name, b.name), env.eq(a.freq, b.freq), a.level == b.level,
                             env.eq([k.idx for k in (a.kids or ())], [k.idx for k in (b.kids or ())])) for a, b in zip(got.table, exp.table)])


def inspect(env, path, allowed):
    from nlcodec.codec import load_scheme
    bad, got = env.raises(Exception, load_scheme, path)
    if not bad:
        env.check(env.any([same(env, got, x) for x in allowed]), 'an interrupted write is taken for a complete vocabulary')
    return bad


def save(env, kind, old):
    p = env.tmp() / 'model'
    before, new = codec(env, kind, 2), codec(env, kind, 3)
    if old:
        before.save(p)
    guarded(env, p, lambda: new.save(p), [before] * old, [new])
    new.save(p)
    env.check(not inspect(env, p, [new]), 'the vocabulary cannot be saved again')


def guarded(env, p, act, before, after):
    env.crash_arm(40, lines=True)
    try:
        act()
        done = True
        env.reach('finished')
    except env.SimCrash:
        done = False
        env.reach('crashed')
    env.crash_disarm()
    bad = inspect(env, p, after if done else before + after)
    env.check(not (done and bad), 'a finished write cannot be loaded')


def shrink(env, old):
    """shrinking writes a vocabulary, too"""
    d = env.tmp()
    c = codec(env, 'word', 3)
    (d / 'text').write_text('a bc\n')
    before = codec(env, 'class', 2)
    if old:
        before.save(d / 'model')
    c.shrink_vocab([d / 'text'], 1, d / 'good')
    from nlcodec.codec import load_scheme
    new = load_scheme(d / 'good')
    guarded(env, d / 'model', lambda: c.shrink_vocab([d / 'text'], 1, d / 'model'), [before] * old, [new])


LINES = ['ab ab', 'c ab', 'c']


def learn(env, d, level, lines):
    from nlcodec import spark as S, learn as L
    real = S.get_session
    S.get_session = lambda *a, **k: Session(env, {d / 'text': lines}, 1, False)
    try:
        program_of(env, L, ['-i', d / 'text', '-m', d / 'x.model', '-l', level, '-vs', 10 if level == 'bpe' else -1, '-mf', 1, '-mce', 1, '-cv', 1.0])
    finally:
        S.get_session = real


def expected(level, lines):
    from nlcodec.codec import REGISTRY
    counts = {}
    for t in lines:
        for w in t.split():
            for x in (w if level == 'char' else [w]):
                counts[x] = counts.get(x, 0) + 1
    stats = [f'#{{"types": 0, "tokens": 0, "line_count": {len(lines)}}}\n'] + [f'{t}\t{f}\n' for t, f in sorted(counts.items(), key=lambda x: -x[1])]
    lim = dict(vocab_size=10 if level == 'bpe' else -1, min_freq=1, min_co_ev=1)
    return REGISTRY[level](L02.direct(level, stats, lim, True))


def program(env, level):
    d = env.tmp()
    (d / 'text').write_text('')
    exp = expected(level, LINES)
    guarded(env, d / 'x.model', lambda: learn(env, d, level, LINES), [], [exp])
    again(env, d, level, exp)


def again(env, d, level, exp):
    """a second run reports an error or gives the vocabulary of the text"""
    from nlcodec.codec import load_scheme
    (d / 'x.model').unlink(missing_ok=True)
    bad, _ = env.raises(Exception, learn, env, d, level, LINES)
    if not bad:
        got = load_scheme(d / 'x.model')
        env.check(same(env, got, exp), 'incomplete statistics are reused')


class Broken(Exception):
    pass


def failing(env, level):
    """writing the statistics fails with an error"""
    from nlcodec import learn as L
    d = env.tmp()
    (d / 'text').write_text('')
    exp = expected(level, LINES)
    at = env.pick('fails_at', 0, 8)
    real = L.write_stats
    n = [0]

    class Out:
        def __init__(self, out):
            self.out = out

        def write(self, t):
            n[0] += 1
            if n[0] > at:
                raise Broken()
            return self.out.write(t)
    L.write_stats = lambda stats, out, **k: real(stats, Out(out), **k)
    try:
        env.raises(Broken, learn, env, d, level, LINES)
    finally:
        L.write_stats = real
    again(env, d, level, exp)
