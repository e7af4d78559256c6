"""E04: out-of-vocabulary statistics partition the tokens exactly"""
from harness.lib import *
BOUNDS = {'quick': '3 lines of one letter and 1..2 lines of up to 4 characters over 2 letters, a space, a tab, an accented letter and a non-breaking space; vocabularies of 2 words; '
                   'one line of up to 3 arbitrary characters with vocabularies of 1 arbitrary word',
          'thorough': 'lines of up to 6 and 3 characters; arbitrary lines of up to 4'}
OUTSIDE = 'inputs without any token (the percentages of the report are undefined)'
ALPHA = 'ab \té\xa0'


def jobs(tier):
    q = tier == 'quick'
    return [dict(name='three', fn='split', params=dict(lens=[1, 1, 1] if q else [2, 1, 2], alphabet='ab')), dict(name='split', params=dict(lens=[4] if q else [6])), dict(name='two', fn='split', params=dict(lens=[2, 2] if q else [3, 3])),
            dict(name='free', params=dict(n=3 if q else 4)), dict(name='report', params=dict(n=3 if q else 5))]


def judge(env, lines, vocab, iv, oov):
    toks = [w for t in lines for w in words_of(t)]
    for table, known in ((iv, True), (oov, False)):
        for w, f in table.items():
            env.check(env.any([env.eq(w, v) for v in vocab]) if known else env.all([env.not_(env.eq(w, v)) for v in vocab]), 'type in the wrong table')
            env.check(env.eq(f, sum(1 for o in toks if env.eq(w, o))), 'number of occurrences')
    n = 0
    for w in toks:
        n += 1
        env.check(env.any([env.eq(w, o) for o in list(iv) + list(oov)]), 'a token is in no table')
    env.check(env.eq(sum(iv.values()) + sum(oov.values()), n), 'occurrences do not add up')


def split(env, lens, alphabet=ALPHA):
    from nlcodec.eval.oov_count import partition_vocab_toks
    lines = [env.string('t', 0, n, alphabet=alphabet) for n in lens]
    vocab = ['a', 'ab']
    iv, oov = partition_vocab_toks(iter([t + '\n' for t in lines]), set(vocab))
    judge(env, lines, vocab, iv, oov)


def free(env, n):
    from nlcodec.eval.oov_count import partition_vocab_toks
    line = env.string('t', 0, n)
    vocab = distinct_names(env, 1, 2, reserved=False)
    iv, oov = partition_vocab_toks(iter([line]), set(vocab))
    judge(env, [line], vocab, iv, oov)


def report(env, n):
    """the numbers printed by the tool"""
    from nlcodec.codec import WordScheme, Level
    d = env.tmp()
    WordScheme(table=table_of(['a', 'ab'], Level.word)).save(d / 'word.model')
    line = env.string('t', 1, n, alphabet='ab z')
    toks = words_of(line)
    env.assume(len(toks) > 0)
    with open(d / 'in', 'w', encoding='utf-8', newline='\n') as f:
        f.write(line + '\n')
    std = env.flag('standard input')
    program(env, 'nlcodec.eval.oov_count', arguments(env, std, (('-m', '--model'), d / 'word.model'), *([] if std else [(('-i', '--inp'), d / 'in')])),
            d / 'in' if std else None, d / 'out')
    known = [bool(env.eq(w, 'a')) or bool(env.eq(w, 'ab')) for w in toks]
    types = [not any(env.eq(w, o) for o in toks[:i]) for i, w in enumerate(toks)]
    rows = {r.split('\t')[0]: r.split('\t')[1:] for r in (d / 'out').read_text().split('\n') if r}
    iv, ov = sum(known), len(known) - sum(known)
    env.check([int(v) for v in rows['Token Count']] == [iv, ov], 'token counts reported')
    env.check([int(v) for v in rows['Types']] == [sum(k and t for k, t in zip(known, types)), sum(t and not k for k, t in zip(known, types))], 'type counts reported')
    env.check([abs(float(v) - 100 * e / len(toks)) < .006 for v, e in zip(rows['Token %'], (iv, ov))] == [True, True], 'percentages reported')
