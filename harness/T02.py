"""T02: linked sequences stay consistent under deletion, prefix trees under lookup"""
BOUNDS = {'quick': 'lists of 1..5 nodes with any values, every order of deleting any of them; tries of 3 keys over an alphabet '
                   'of 3 symbols, key lengths 0..2, one lookup of any key of length 0..3; one key of 15000 symbols of which one is arbitrary',
          'thorough': 'lists of 1..6 nodes; tries of 3 keys of length 0..3, lookups of length 0..4'}


def jobs(tier):
    q = tier == 'quick'
    res = [dict(name=f'list{n}', fn='lst', params=dict(n=n), must_reach=['mid'] if n > 2 else [])
           for n in range(1, 6 if q else 7)]
    m = 2 if q else 3
    for a in range(0, m + 1):
        res.append(dict(name=f'trie{a}', fn='trie', params=dict(first=a, n=3, mx=m, alpha='ab' if q else 'abc'),
                        must_reach=['absent', 'present']))
    res.append(dict(name='trie_counts', fn='trie', params=dict(first=m, n=4, mx=1, alpha='abc'), must_reach=['absent', 'present']))
    res.append(dict(name='long', must_reach=['absent', 'present']))
    return res


def walk(env, nodes, alive, vals, freq):
    """following the links from every remaining node gives exactly the remaining items in order"""
    n = len(nodes)
    rest = [i for i in range(n) if alive[i]]
    for pos, i in enumerate(rest):
        want_r, want_l = rest[pos + 1:], rest[:pos][::-1]
        for side, want in (('right', want_r), ('left', want_l)):
            cur = getattr(nodes[i], side)
            for w in want:
                env.check(cur is nodes[w], f'wrong {side} neighbour')
                env.check(env.eq(cur.val, vals[w]), 'value changed')
                env.check(cur.freq == freq, 'frequency changed')
                cur = getattr(cur, side)
            env.check(cur is None, f'walk to the {side} does not end')


def lst(env, n):
    from nlcodec.dstruct import LnNode
    vals = [env.int('val', -2 ** 40, 2 ** 40) for _ in range(n)]
    freq = env.int('freq', 1, 2 ** 40)
    nodes = LnNode.from_seq(vals, freq=freq)
    env.check(len(nodes) == n, 'number of nodes')
    env.check(env.eq([x.val for x in nodes], vals), 'values')
    alive = [True] * n
    walk(env, nodes, alive, vals, freq)
    for step in range(n - 1):
        rest = [i for i in range(n) if alive[i]]
        k = rest[env.pick('victim', 0, len(rest) - 1)]
        unlink = env.flag('unlink')
        nodes[k].delete(unlink=unlink)
        alive[k] = False
        if 0 < rest.index(k) < len(rest) - 1:
            env.reach('mid')
        if unlink:
            env.check(nodes[k].left is None and nodes[k].right is None and nodes[k].is_unlinked, 'deleted node still linked')
        walk(env, nodes, alive, vals, freq)
    env.observe('alive', [nodes[i].val for i in range(n) if alive[i]])


def trie(env, first, n, mx, alpha):
    from nlcodec.dstruct import TrNode
    root = TrNode(idx='')
    keys = [env.string('key', first if i == 0 else 0, first if i == 0 else mx, alphabet=alpha) for i in range(n)]
    nodes = {}
    for i, k in enumerate(keys):
        nd = root.get_node(idxs=k, create_missing=True)
        nd.data = i
        nodes[i] = nd

    def same(i, j):
        return bool(env.eq(keys[i], keys[j]))
    last = {}
    for i in range(n):
        for j in range(n):
            env.check((nodes[i] is nodes[j]) == same(i, j), 'two keys share a node or one key has two')
        last[i] = max(j for j in range(n) if same(i, j))
    distinct = len(set(last.values()))
    prefixes = []
    for k in keys:
        for c in range(len(k) + 1):
            if not any(bool(env.eq(k[:c], p)) for p in prefixes):
                prefixes.append(k[:c])
    size = root.size
    env.check(env.eq(size, max(len(prefixes), 1)), 'size is not the number of distinct prefixes')
    env.check(env.eq(root.data_node_count, distinct), 'data node count')
    for i, k in enumerate(keys):
        nd = root.get_node(k, create_missing=False)
        env.check(nd is nodes[i], 'lookup of a present key gives another node')
        env.check(nd.has_data and nd.data == last[i], 'data of a key changed')
    q = env.string('query', 0, mx + 1, alphabet=alpha)
    known = any(bool(env.eq(q, p)) for p in prefixes) or len(q) == 0
    bad, nd = env.raises((KeyError, LookupError, AttributeError), root.get_node, q, create_missing=False)
    env.check(bad == (not known), 'lookup of an absent key without creating it must fail, of a present one succeed')
    env.reach('absent' if bad else 'present')
    if not bad and len(q):
        env.check(env.eq(nd.idx, q[-1]), 'lookup leads to a node of another symbol')
    env.check(env.eq(root.size, size), 'a lookup changed the tree')
    env.observe('size', root.size)
    env.observe('found', not bad)


def long(env):
    """keys longer than the recursion limit of the interpreter"""
    try:
        _long(env)
    except RecursionError:  # however deep the limit: a key is as long as its symbols, not as the stack
        env.check(False, 'a long key exceeds the recursion limit')


def _long(env):
    from nlcodec.dstruct import TrNode
    n = 15000
    root = TrNode(idx='')
    key = 'a' * (n - 2) + env.char('c', alphabet='abc') + 'b'
    nd = root.get_node(key, create_missing=True)
    nd.data = 1
    env.check(root.size == n + 1 and root.data_node_count == 1, 'counts')
    env.check(root.get_node(key, create_missing=False) is nd, 'lookup')
    q = 'a' * (n - 2) + env.char('d', alphabet='abc')
    bad, nd = env.raises((KeyError, LookupError, AttributeError), root.get_node, q, create_missing=False)
    env.check(bad == (not env.eq(q[-1], key[-2])), 'absent key found, or a present one not')
    env.reach('absent' if bad else 'present')
