"""D01: the chosen integer width holds the whole range and is the narrowest"""
BOUNDS = {'quick': 'all integer pairs lo <= hi (unbounded integers)'}
SIZES = {'uint8': (0, 2**8 - 1, 1), 'int8': (-2**7, 2**7 - 1, 1), 'uint16': (0, 2**16 - 1, 2), 'int16': (-2**15, 2**15 - 1, 2),
         'uint32': (0, 2**32 - 1, 4), 'int32': (-2**31, 2**31 - 1, 4), 'uint64': (0, 2**64 - 1, 8),
         'int64': (-2**63, 2**63 - 1, 8)}
BIG = 2**70


def jobs(tier):
    return [dict(name='dtype', must_reach=list(SIZES) + ['refused'])]


def dtype(env):
    import numpy as np
    from nlcodec.db.core import best_dtype
    lo = env.int('lo', -BIG, BIG)
    hi = env.int('hi', -BIG, BIG)
    env.assume(lo <= hi)
    fits = env.any([env.and_(a <= lo, hi <= b) for a, b, _ in SIZES.values()])
    bad, t = env.raises((AssertionError, ValueError, OverflowError, TypeError), best_dtype, lo, hi)
    if bad:
        env.reach('refused')
        env.check(env.not_(fits), 'a representable range is refused')
        return
    name = np.dtype(t).name
    env.check(name in SIZES, f'not an integer type: {name}')
    env.reach(name)
    a, b, size = SIZES[name]
    env.check(env.and_(a <= lo, hi <= b), 'range does not fit the chosen type')
    for x, y, s in SIZES.values():
        if s < size:
            env.check(env.not_(env.and_(x <= lo, hi <= y)), 'a narrower type would do')
    env.observe('type', name)
