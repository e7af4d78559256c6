"""B01: BPE learning merges a most frequent pair with exact counts every time"""
from harness.lib_bpe import *
BOUNDS = {'quick': '13 corpora of 1..3 words (repeats, nested repeats, shared pieces, single characters) with any frequencies 1..10^6 and up to 7 '
                   'merges; words of 2+2 and 4 symbolic characters over 2 letters with any frequencies',
          'thorough': '14 corpora, up to 10 merges; words of up to 6 symbolic characters over 2 letters'}
MAXF = 10 ** 6
CORPORA = dict(
    one=(['abcd'], 6), runs=(['aaaa', 'aa'], 5), run5=(['aaaaa'], 5), mixed=(['abab', 'aab', 'b'], 6), banana=(['banana', 'nab'], 7),
    shared=(['abc', 'bcd', 'ab'], 6), chain=(['abcab', 'cab'], 6), dup=(['aab', 'aba'], 6), long=(['abababab'], 6),
    rev=(['ab', 'ba', 'bb'], 6), runx=(['xaaay', 'aax'], 6), nest=(['abcabc', 'abc', 'bc'], 6), tri=(['aaabaaab'], 7), run8=(['aaaaaaaa', 'a'], 6))


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=n, fn='corpus', params=dict(words=w, merges=m if q else m + 3)) for n, (w, m) in CORPORA.items()]
    res += [dict(name=f'sym{"_".join(map(str, ls))}', fn='symbolic', params=dict(lens=ls, merges=3 if q else 5))
            for ls in ([[2, 2], [3], [4]] if q else [[2, 2], [3, 2], [4], [5], [6], [3, 3]])]
    return res


def corpus(env, words, merges):
    freqs = [env.int('freq', 1, MAXF) for _ in words]
    n0 = 6 + len(set(''.join(words)))
    table = learn(words, freqs, n0 + merges, 1)
    follow(env, words, freqs, table, 1)
    env.observe('types', [t.name for t in table])


def symbolic(env, lens, merges):
    words = []
    for n in lens:
        w = env.string('c', n, alphabet='ab')
        env.assume(env.all([env.not_(env.eq(w, o)) for o in words]))
        words.append(w)
    freqs = [env.int('freq', 1, MAXF) for _ in words]
    table = learn(words, freqs, 6 + 2 + merges, 1)
    follow(env, words, freqs, table, 1)
    env.observe('types', [t.name for t in table])
