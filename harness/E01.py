"""E01: merge tracking reports exact counts and sequence lengths"""
import math
from harness.lib import *
from harness.lib_bpe import apply
BOUNDS = {'quick': '1..2 lines of up to 5 (one line) or 3 (two lines) characters over 2 letters, space and a character outside the vocabulary, 7 merge lists of up to 4 merges '
                   '(repeated, nested, overlapping and across-merge pieces), every iteration order of identity-hashed sets',
          'thorough': 'lines of up to 7 / 4 characters and merge lists of 2 arbitrary merges over 2 letters and the space marker'}
# ids 6, 7 are the letters a, b; 5 the space marker
LISTS = dict(aa=[(6, 6)], run=[(6, 6), (8, 8), (6, 8)], runx=[(6, 6), (8, 6)], ab=[(6, 7), (8, 8), (8, 6)], mix=[(7, 6), (6, 7), (8, 7), (6, 8)],
             end=[(6, 5), (7, 8), (6, 9)], sub=[(6, 7), (7, 5), (8, 9)], none=[])


def jobs(tier):
    q = tier == 'quick'
    res = []
    for n, ms in LISTS.items():
        res.append(dict(name=f'one_{n}', fn='track', params=dict(merges=ms, lens=[5 if q else 7])))
    for n in ('run', 'mix', 'end'):
        res.append(dict(name=f'two_{n}', fn='track', params=dict(merges=LISTS[n], lens=[2, 3] if q else [4, 4])))
    if not q:
        res += [dict(name=f'any_{a}{b}', fn='anymerges', params=dict(a=a, b=b)) for a in (5, 6, 7) for b in (5, 6, 7)]
    return res


def emd(counts):
    tot = sum(counts)
    return sum(abs(c / tot - 1 / len(counts)) for c in counts) / 2


def anymerges(env, a, b):
    m = [(a, b)]
    m.append((env.pick('x', 5, 8), env.pick('y', 5, 8)))
    run(env, m, [env.string('t', 4, alphabet='ab ')])


def track(env, merges, lens):
    run(env, merges, [env.string('t', 0 if i else 1, n, alphabet='ab x' if n < 5 else 'ab ') for i, n in enumerate(lens)])


def run(env, merges, lines):
    from nlcodec.codec import Type, BPEScheme
    from nlcodec.eval.bpe_len import BPECodecXt, BpeTracker
    d = env.tmp()
    table = bpe_table(merges, 'ab')
    if merges:
        BPEScheme(table=table).save(d / 'bpe.model')
    else:   # a model needs a learned piece to count as a BPE model: use one that never occurs
        table = bpe_table([(6, 4)], 'ab')
        BPEScheme(table=table).save(d / 'bpe.model')
        merges = [(6, 4)]
    n0 = 8
    chars = BPEScheme(table=table[:n0])
    segs = [[int(v) for v in chars.encode(t)] for t in lines]
    for _ in env.orders():
        tracker = BpeTracker(BPECodecXt(d / 'bpe.model'), iter(lines))
        got = tracker.track_merges()
    env.check(len(got) == len(merges) + 1, 'number of reports')
    for i, (k, dist, mean) in enumerate(got):
        env.check(k == n0 + i, 'number of types reported')
        counts = [0] * (n0 + i)
        for s in segs:
            for v in s:
                counts[v] += 1
        env.check(math.isclose(float(mean), sum(map(len, segs)) / len(segs), abs_tol=1e-9), 'mean length is not that of the re-segmented corpus')
        env.check(math.isclose(float(dist), emd(counts), abs_tol=1e-9), 'imbalance is not that of the re-segmented corpus')
        if i < len(merges):
            segs = [apply(s, *merges[i], n0 + i) for s in segs]
    env.check([int(v) for v in tracker.uni] == counts, 'type counts are not those of the re-segmented corpus')
    env.check([int(v) for v in tracker.seq_lens] == [len(s) for s in segs], 'lengths are not those of the re-segmented corpus')
    env.observe('counts', [int(v) for v in tracker.uni])
