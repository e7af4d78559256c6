"""S02: distributed term counting equals sequential counting"""
from harness.lib import *
from harness.lib import program as program_of
from harness.lib_spark import Session
BOUNDS = {'quick': '0..3 lines in 1..2 files: words of arbitrary characters, blanks, empty and repeated lines, the line marker the counter uses itself as a word; '
                   'de-duplication on and off; every assignment to at most 2 partitions, every order of rows and of combining counts; the program and the statistics files it writes',
          'thorough': '4 lines, 3 files'}
OUTSIDE = 'Spark itself (stand-in with its documented contract); lines with carriage returns'
TRUSTS = 'Spark: text splits into lines, nothing is lost or duplicated by moving rows around, values of one key are combined in any order'


def jobs(tier):
    res = [dict(name=f'free{n}', fn='free', params=dict(n=n)) for n in (1, 2)]
    res += [dict(name=f'lines{n}_{"dedup" if d else "all"}', fn='lines', params=dict(n=n, dedup=d)) for n in ((0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4)) for d in (0, 1)]
    res += [dict(name=f'moves_{"dedup" if d else "all"}', fn='moves', params=dict(dedup=d)) for d in (0, 1)]
    res += [dict(name='files'), dict(name='marker'), dict(name='program'), dict(name='session')]
    return res


def unique(env, lines):
    res = []
    for t in lines:
        if not any(env.eq(t, u) for u in res):
            res.append(t)
    return res


def tally(env, items):
    res = []
    for k, n in items:
        for s in res:
            if env.eq(s[0], k):
                s[1] += n
                break
        else:
            res.append([k, n])
    return res


def judge(env, got, lines, dedup):
    words, chars, count = got
    lines = unique(env, lines) if dedup else lines
    env.check(env.eq(count, len(lines)), 'number of lines')
    want = tally(env, [(w, 1) for t in lines for w in t.strip().split()])
    wc = tally(env, [(c, n) for w, n in want for c in w])
    for nm, have, exp in (('word', words, want), ('character', chars, wc)):
        env.check(len(have) == len(exp), f'a {nm} out of nowhere or missing')
        for k, n in exp:
            env.check(k in have and env.eq(have[k], n), f'frequency of a {nm}')


def count(env, lines, dedup, width=1, shuffle=False, files=1):
    from pathlib import Path
    from nlcodec.term_freq import word_counts
    d = env.tmp()
    cut = [0] + [env.pick('file', 0, len(lines)) for _ in range(files - 1)] + [len(lines)]
    cut.sort()
    paths, data = [], {}
    for i in range(files):
        p = d / f'f{i}'
        p.write_text('')
        paths.append(p)
        data[p] = lines[cut[i]:cut[i + 1]]
    spark = Session(env, data, width, shuffle)
    got = word_counts(paths, dedup=bool(dedup), spark=spark)
    env.check(spark.stopped == 0, 'a session of the caller is stopped')
    return got


def free(env, n):
    """words of arbitrary characters"""
    lines = [env.string('w', 2 if n == 1 else 1, exclude='\n\r') + env.choice('rest', ['', ' a', ' a a']) for _ in range(n)]
    d = env.flag('dedup')
    judge(env, count(env, lines, d), lines, d)


TEXTS = ['', ' ', 'a', 'a ', 'a b', 'ab a']


def lines(env, n, dedup):
    ls = [env.choice('line', TEXTS) for _ in range(n)]
    judge(env, count(env, ls, dedup), ls, dedup)


def moves(env, dedup):
    ls = [env.choice('line', ['', 'a', 'a b']) for _ in range(2)] + ['a']
    judge(env, count(env, ls[:2] if dedup else ls, dedup, 1, True), ls[:2] if dedup else ls, dedup)


def files(env):
    ls = [env.choice('line', ['', 'a', 'a b']) for _ in range(3)]
    d = env.flag('dedup')
    judge(env, count(env, ls, d, files=2), ls, d)


def marker(env):
    """words that look like the markers of the counter"""
    ls = [env.choice('line', ['<!S!>', '<!S!> a', 'a <!S!> <!S!>', '<s>', 'None', 'a']) for _ in range(2)]
    d = env.flag('dedup')
    judge(env, count(env, ls, d), ls, d)


def session(env):
    """an own session is stopped in any case"""
    from nlcodec import spark as S
    from nlcodec.term_freq import word_counts
    p = env.tmp() / 'f'
    p.write_text('')
    broken = env.flag('broken')
    spark = Session(env, {} if broken else {p: ['a b', 'a']}, 1, False)
    real, S.get_session = S.get_session, lambda *a, **k: spark
    try:
        bad, got = env.raises(FileNotFoundError, word_counts, [p])
    finally:
        S.get_session = real
    env.check(bad == broken, 'a missing file is ignored')
    env.check(spark.stopped == 1, 'the session is not stopped')
    if not bad:
        judge(env, got, ['a b', 'a'], True)


def program(env):
    """the statistics files can be read back"""
    from nlcodec import spark as S, term_freq
    from nlcodec.codec import WordScheme
    d = env.tmp()
    p = d / 'f'
    p.write_text('')
    ls = [env.choice('line', ['', 'a', '#b a', 'a a']) for _ in range(3)]
    dd = env.flag('dedup')
    spark = Session(env, {p: ls}, 1, False)
    real, S.get_session = S.get_session, lambda *a, **k: spark
    try:
        program_of(env, term_freq, arguments(env, 'spelling', (('-i', '--inp'), p), (('-wf', '--word_freqs'), d / 'w'), (('-cf', '--char_freqs'), d / 'c'),
                                             *([(('-dd', '--dedup') if dd else ('-ndd', '--no-dedup'),)] if not dd or env.flag('explicit') else [])))
    finally:
        S.get_session = real
    res = []
    for f in ('w', 'c'):
        with open(d / f) as fh:
            freqs, n = WordScheme.read_term_freqs(fh)
        res.append(dict(freqs))
        env.check(env.eq(n, len(unique(env, ls) if dd else ls)), 'number of lines in a file')
    judge(env, (res[0], res[1], len(unique(env, ls) if dd else ls)), ls, dd)
