"""T01: the priority queue always yields the current maximum"""
BOUNDS = {'quick': 'starting tables of 0..4 entries, then every sequence of 4,4,3,2,1 operations (insert, remove, peek), then emptying '
                   'the queue; priorities: all integers; node ids may repeat in the second job (2 ids)',
          'thorough': 'tables of 0..5 entries with 6,5,5,4,3,2 operations; repeated ids: 5 operations'}
OUTSIDE = 'longer histories; nodes of other types than integers'
BIG = 2 ** 66


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=f'heap_n{n}', fn='heap', params=dict(n0=n, ops=[4, 4, 3, 2, 1][n] if q else [6, 5, 5, 4, 3, 2][n], ids=None),
                must_reach=['pop', 'push', 'tie'] if n else ['pop', 'push'])
           for n in range(0, 5 if q else 6)]
    res += [dict(name=f'heap_rep{n}', fn='heap', params=dict(n0=n, ops=(4 - n) if q else 5 - n, ids=2), must_reach=['pop'])
            for n in range(0, 2 if q else 3)]
    return res


def heap(env, n0, ops, ids):
    from nlcodec.dstruct import MaxHeap
    present = []
    items = {}
    for i in range(n0):
        v = env.int('v', -BIG, BIG)
        items[i] = v
        present.append((i, v))
    h = MaxHeap(items)
    env.check(len(h) == n0, 'length after construction')
    fresh = n0

    def take(pair, what, remove):
        task, val = pair
        env.check(env.all(val >= v for _, v in present), f'{what} does not give the largest priority')
        match = [k for k, (t, v) in enumerate(present) if t == task and v == val]
        env.check(bool(match), f'{what} gives an entry that was never inserted or with another priority')
        if len(present) > 1 and present[0][1] == present[1][1]:
            env.reach('tie')
        if remove:
            present.pop(match[0])

    for _ in range(ops):
        op = env.pick('op', 0, 2 if present else 0)
        if op == 0:
            v = env.int('v', -BIG, BIG)
            node = fresh if ids is None else env.pick('id', 0, ids - 1)
            fresh += 1
            h.push(node, v)
            present.append((node, v))
            env.reach('push')
        elif op == 1:
            take(h.pop(), 'pop', True)
            env.reach('pop')
        else:
            top = h.peek()
            take(top, 'peek', False)
            env.check(len(h) == len(present), 'peek changes the length')
            nxt = h.pop()
            env.check(env.eq(top, nxt), 'peek shows another entry than the next pop')
            take(nxt, 'pop', True)
            env.reach('peek')
        env.check(len(h) == len(present), 'length')
    out = []
    while len(h):
        top = h.pop()
        take(top, 'pop', True)
        out.append(top)
    env.check(not present, 'entries lost')
    env.observe('rest', out)
