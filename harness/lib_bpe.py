"""oracle for BPE learning: the corpus is re-segmented by hand, merge by merge"""
from harness.lib import *


def learn(words, freqs, size, mce, coverage=1.0, header=True):
    from nlcodec.codec import BPEScheme
    return BPEScheme.learn([f'{w}\t{f}\n' for w, f in zip(words, freqs)], vocab_size=size, coverage=coverage,
                           min_co_evidence=mce, term_freqs=True)


def segment(env, words, table, n0, unk=1):
    """words and end marker as lists of ids of the initial types (concrete per path)"""
    res = []
    for w in words:
        ids = []
        for ch in list(w) + [SP]:
            k = unk
            for t in table[:n0]:
                if env.eq(t.name, ch):
                    k = t.idx
                    break
            ids.append(k)
        res.append(ids)
    return res


def pairs(segs, freqs, unk=1):
    """adjacent pairs within words -> occurrences weighted by word frequency (None for pairs with the unknown type)"""
    res = {}
    for s, f in zip(segs, freqs):
        for a, b in zip(s, s[1:]):
            if unk is not None and unk in (a, b):
                continue
            res[(a, b)] = res.get((a, b), 0) + f
    return res


def apply(seg, a, b, new):
    out, i = [], 0
    while i < len(seg):
        if i + 1 < len(seg) and seg[i] == a and seg[i + 1] == b:
            out.append(new)
            i += 2
        else:
            out.append(seg[i])
            i += 1
    return out


def n_initial(table):
    n = len(RESERVED)
    while n < len(table) and not has_kids(table[n]):
        n += 1
    return n


def follow(env, words, freqs, table, mce, exact_freq=True, prop='B01'):
    """checks every learned type against the corpus and returns the final segmentation"""
    n0 = n_initial(table)
    segs = segment(env, words, table, n0)
    for i in range(n0, len(table)):
        t = table[i]
        env.check(has_kids(t) and len(t.kids) == 2, 'a learned type does not consist of two types')
        a, b = [k.idx for k in t.kids]
        env.check(a < i and b < i, 'a learned type consists of later types')
        env.check(t.idx == i, 'ids do not grow by one')
        env.check(t.level == 1, 'level of a learned type')
        env.check(env.eq(t.name, table[a].name + table[b].name), 'name is not the concatenation of the names of its pieces')
        counts = pairs(segs, freqs)
        env.check((a, b) in counts, 'the pieces are not adjacent anywhere in the corpus')
        best = counts[(a, b)]
        env.check(env.eq(t.freq, best), 'recorded frequency is not the number of occurrences of the pair')
        for p, c in counts.items():
            if p != (a, b):
                env.check(best >= c, 'another pair occurs more often')
        env.check(best >= mce, 'merged below the minimum evidence')
        segs = [apply(s, a, b, i) for s in segs]
    return segs
