"""L02: the learning programs give the vocabulary of the text, also when statistics are reused"""
from harness.lib import *
from harness.lib_spark import Session
BOUNDS = {'quick': 'one or two input files; texts of 2..3 lines over 5 line shapes, and of one line of symbolic characters; word, character, BPE and byte levels; size limits, minimum frequencies, minimum '
                   'evidence and character coverage; both programs, the distributed one with statistics computed and reused, with and without de-duplication',
          'thorough': 'texts of 4 lines'}
OUTSIDE = 'Spark itself (stand-in with its documented contract); order of equally frequent types'
TRUSTS = 'Spark: text splits into lines, nothing is lost or duplicated by moving rows around'
TEXTS = ['', 'ab ab', 'ab c ab', 'c', 'abab ab b']


def jobs(tier):
    n = 2 if tier == 'quick' else 3
    res = [dict(name=f'cli_{k}', fn='cli', params=dict(level=k, n=n)) for k in ('word', 'char', 'bpe', 'byte', 'class')]
    res += [dict(name=f'spark_{k}', fn='distributed', params=dict(level=k, n=n)) for k in ('word', 'char', 'bpe')]
    res += [dict(name='chars')]
    return res


def limits(env, level):
    """vocabulary size, minimum frequency, minimum evidence and coverage"""
    if level == 'bpe':
        return dict(vocab_size=env.choice('vs', [-1, 10, 12]), min_freq=None, min_co_ev=env.choice('mce', [1, 2, 4]), char_coverage=env.choice('cv', [1.0, 0.7]))
    return dict(vocab_size=env.choice('vs', [-1, 7, 8]), min_freq=env.choice('mf', [1, 2]), min_co_ev=5,
                char_coverage=env.choice('cv', [1.0, 0.7]) if level == 'char' else 1.0)


def skip(level, lim):
    # without a size, BPE learning needs a stop condition
    return level == 'bpe' and lim['vocab_size'] < 0 and lim['min_co_ev'] < 2


def direct(level, data, lim, tf=False):
    from nlcodec.codec import REGISTRY
    kw = dict(vocab_size=lim['vocab_size'], term_freqs=tf)
    if level == 'bpe':
        kw.update(min_co_evidence=lim['min_co_ev'], coverage=lim.get('char_coverage', 1.0))
    else:
        kw.update(min_freq=lim['min_freq'])
        if level == 'char':
            kw.update(coverage=lim.get('char_coverage', 1.0))
    return REGISTRY[level].learn(data, **kw)


def view(t):
    return (t.name, t.level, t.freq, tuple(k.name for k in (t.kids or ())))


def same(env, got, exp, what):
    env.check(len(got) == len(exp), f'{what}: number of types')
    for i, (a, b) in enumerate(zip(got, exp)):
        env.check(a.idx == b.idx == i, f'{what}: ids')
        env.check(env.eq(a.name, b.name), f'{what}: name of a type')
        env.check(env.eq(a.freq, b.freq), f'{what}: frequency of a type')
        env.check(a.level == b.level, f'{what}: level of a type')
        env.check(env.eq([k.idx for k in (a.kids or ())], [k.idx for k in (b.kids or ())]), f'{what}: pieces of a type')


def options(level, lim, default, omit):
    """the limits as options; values that are the default may be left out"""
    res = [(('-l', '--level'), level), (('-vs', '--vocab-size'), lim['vocab_size']), (('-mf', '--min-freq'), lim['min_freq']),
           (('-mce', '--min-co-ev'), lim['min_co_ev']), (('-cv', '--char-coverage'), lim['char_coverage'])]
    return [o for o in res if o[1] is not None and not (o[1] == default.get(o[0][0]) and omit)]


def run_cli(env, lines, level, lim, d):
    import nlcodec.__main__ as M
    with open(d / 'text', 'w', encoding='utf-8', newline='\n') as f:
        for t in lines:
            f.write(t + '\n')
    inp = env.flag('standard input and defaults')
    opts = [(('-m', '--model'), d / 'model')] + ([] if inp else [(('-i', '--inp'), d / 'text')])
    program(env, M, ['learn'] + arguments(env, inp, *opts, *options(level, lim, {'-vs': -1}, inp)), inp=d / 'text' if inp else None)


def kind(codec):
    return type(codec).__name__


KIND = dict(word='WordScheme', char='CharScheme', bpe='BPEScheme', byte='ByteScheme')
KIND['class'] = 'ClassScheme'


def cli(env, level, n):
    """nlcodec learn"""
    from nlcodec.codec import load_scheme
    lines = [env.choice('line', TEXTS) for _ in range(n)] + ['ab b']
    lim = limits(env, level)
    env.assume(not skip(level, lim))
    d = env.tmp()
    m = d / 'model'
    run_cli(env, lines, level, lim, d)
    got = load_scheme(m)
    env.check(kind(got) == KIND[level], 'kind of codec')
    if level == 'byte':
        env.check(len(got.table) == 258, 'number of types')
        return
    if level == 'class':
        names = sorted(set(lines))
        env.check([t.name for t in got.table] == names and [t.freq for t in got.table] == [lines.count(x) for x in names], 'classes')
        return
    same(env, got.table, direct(level, lines, lim), 'learned from the command line')


def chars(env):
    """words of symbolic characters"""
    from nlcodec.codec import load_scheme
    lines = [env.string('c', 2, alphabet=[(0x21, 0x7e), (0xe0, 0x2028)]), 'zz']
    d = env.tmp()
    m = d / 'model'
    lim = dict(vocab_size=-1, min_freq=1, min_co_ev=2, char_coverage=1.0)
    run_cli(env, lines, 'word', lim, d)
    same(env, load_scheme(m).table, direct('word', lines, lim), 'learned from the command line')


def statistics(env, counts, path, n):
    """the true counts in the form the learners read; equally frequent terms come in the order of the statistics file"""
    from nlcodec.utils import IO
    with IO.reader(path) as f:
        order = [r.split('\t')[0] for r in f]
    env.check(set(counts) <= set(order), 'a term is missing in the statistics')
    terms = sorted(counts.items(), key=lambda x: (-x[1], order.index(x[0])))
    return [f'#{{"types": 0, "tokens": 0, "line_count": {n}}}\n'] + [f'{t}\t{f}\n' for t, f in terms]


def distributed(env, level, n):
    """nlcodec-learn, twice"""
    from nlcodec import spark as S, learn as L
    from nlcodec.codec import load_scheme
    d = env.tmp()
    paths = [d / 'text', d / 'more'][:1 + env.flag('two files')]
    for p in paths:
        p.write_text('')
    lines = [env.choice('line', TEXTS) for _ in range(n)] + ['ab b']
    files = {p: lines[i::len(paths)] for i, p in enumerate(paths)}
    lines = [t for p in paths for t in files[p]]
    lim = limits(env, level)
    env.assume(not skip(level, lim))
    dedup = env.flag('dedup')
    used = [t for i, t in enumerate(lines) if t not in lines[:i]] if dedup else lines
    counts = {}
    for t in used:
        for w in t.split():
            for x in (w if level == 'char' else [w]):
                counts[x] = counts.get(x, 0) + 1
    sessions = []

    def get(*a, **k):
        sessions.append(Session(env, files, 1, False))
        return sessions[-1]
    real, S.get_session = S.get_session, get
    short = env.flag('short and defaults') if len(paths) > 1 else dedup
    argv = arguments(env, short, (('-i', '--inp'), *paths), (('-m', '--model'), d / 'bpe.model'), *options(level, lim, {'-vs': -1, '-l': 'bpe'}, short),
                     *([(('--dedup',) if dedup else ('--no-dedup',),)] if dedup or not short else []))
    try:
        for i in range(2):
            program(env, L, argv)
            got = load_scheme(d / 'bpe.model')
            env.check(kind(got) == KIND[level], 'kind of codec')
            if i == 0:
                exp = direct(level, statistics(env, counts, d / f'bpe.{"char" if level == "char" else "word"}freq.gz', len(used)), lim, True)
            same(env, got.table, exp, 'first run' if i == 0 else 'statistics reused')
            (d / 'bpe.model').unlink()
    finally:
        S.get_session = real
    env.check(all(s.stopped == 1 for s in sessions), 'a session is not stopped')
