"""D09: masks hide exactly padding and later positions"""
from harness.lib import *
BOUNDS = {'quick': 'batches of 1..3 sequences of 1..3 values, every value and padding id of a 64-bit type; batches built from records of those lengths, their target '
                   'and source matrices masked with any padding id; sizes 0..6 of the plain mask',
          'thorough': 'up to 4 sequences of 4 values, sizes up to 9'}
SHAPES = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2)]


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=f'mask{b}x{n}', fn='mask', params=dict(b=b, n=n), must_reach=['padding', 'value']) for b, n in SHAPES + ([] if q else [(3, 3), (4, 3), (2, 4)])]
    return res + [dict(name='later', params=dict(top=6 if q else 9)), *[dict(name=f'batch{a}{c}{"_bos" * bos}', fn='batch', params=dict(a=a, c=c, bos=bool(bos)), must_reach=['padding', 'value']) for a in (1, 2) for c in (1, 2) for bos in (0, 1)]]


def judge(env, got, seqs, pad):
    b, n = len(seqs), len(seqs[0])
    env.check(tuple(int(v) for v in got.shape) == (b, n, n), 'shape')
    for s in range(b):
        for i in range(n):
            for j in range(n):
                v = got[s, i, j]
                if j > i:
                    env.check(env.not_(bool_of(env, v)), 'a later position is visible')
                else:
                    p = env.eq(seqs[s][j], pad)
                    env.check(env.eq(bool_of(env, v), env.not_(p)), 'padding is visible or a value hidden')


def bool_of(env, v):
    return v != False  # noqa


def mask(env, b, n):
    import numpy as np
    from nlcodec.db.batch import Batch, BatchMeta, IdExample
    seqs = [[env.int('v', -2 ** 63, 2 ** 63 - 1) for _ in range(n)] for _ in range(b)]
    pad = env.int('pad', -2 ** 63, 2 ** 63 - 1)
    got = Batch.make_autogres_mask_(np.array(seqs, dtype=np.int64), pad)
    judge(env, got, seqs, pad)
    if seqs[0][0] == pad:
        env.reach('padding')
    else:
        env.reach('value')


def later(env, top):
    from nlcodec.db.batch import subsequent_mask
    n = env.pick('n', 0, top)
    m = subsequent_mask(n)
    env.check(tuple(int(v) for v in m.shape) == (1, n, n), 'shape')
    env.check(all(bool(m[0, i, j]) == (j <= i) for i in range(n) for j in range(n)), 'positions')


def batch(env, a, c, bos):
    """masks of a batch use its own padding id"""
    import numpy as np
    from nlcodec.db.batch import Batch, BatchMeta, IdExample
    pad = env.int('pad', 0, 9)
    meta = BatchMeta(pad_idx=pad, bos_idx=20, eos_idx=21, add_bos_y=bos)
    recs = [(a, c), (env.pick('x_len', 1, 2), env.pick('y_len', 1, 2))]
    b = Batch([IdExample(i, np.array([env.int('x', 0, 12) for _ in range(n)], dtype=np.uint8), np.array([env.int('y', 0, 12) for _ in range(m)], dtype=np.uint8))
               for i, (n, m) in enumerate(recs)], meta=meta)
    for seqs in (b.x_seqs, b.y_seqs):
        judge(env, b.make_autoreg_mask(seqs), [[v for v in row] for row in seqs], pad)
    env.reach('padding' if recs[0] != recs[1] else 'value')
