"""helpers shared by the harnesses (work on symbolic and on plain values)"""
RESERVED = [('<pad>', 0), ('<unk>', 1), ('<s>', 2), ('</s>', 3), ('<cls>', 4), ('▁', 5)]
RNAMES = [n for n, _ in RESERVED]
SP = '▁'
WS = '\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a' \
     '\u2028\u2029\u202f\u205f\u3000'


def words_of(line):
    """whitespace-separated tokens, by definition"""
    res, cur = [], ''
    for ch in line:
        if ch.isspace():
            if len(cur):
                res.append(cur)
            cur = ''
        else:
            cur = cur + ch
    if len(cur):
        res.append(cur)
    return res


def reserved_table():
    from nlcodec.codec import Type, Level
    return [Type(n, level=Level.reserved, idx=i, freq=-1) for n, i in RESERVED]


def table_of(names, level, freq=1):
    """reserved types followed by the given names"""
    from nlcodec.codec import Type
    t = reserved_table()
    for n in names:
        t.append(Type(n, level=level, idx=len(t), freq=freq))
    return t


def distinct_names(env, n, mx, label='name', alphabet=None, reserved=True, space_ok=False):
    """n different non-empty symbolic names without whitespace that are not reserved ones"""
    names = []
    for i in range(n):
        s = env.string(label, 1, mx, alphabet=alphabet)
        if alphabet is None:
            for c in s:
                env.assume(env.not_(c.isspace()))
        for o in names:
            env.assume(env.not_(env.eq(s, o)))
        if reserved:
            for r in RNAMES:
                if len(r) == len(s):
                    env.assume(env.not_(env.eq(s, r)))
        names.append(s)
    return names


def index_of(env, name, names, default):
    """position of a name in a list of different names (as a value, without forking where possible)"""
    for i, n in enumerate(names):
        if env.eq(name, n):
            return i
    return default


def bpe_table(merges, chars):
    """BPE vocabulary: reserved types, single characters, then merges given as pairs of ids"""
    from nlcodec.codec import Type, Level
    t = reserved_table()
    for c in chars:
        t.append(Type(c, level=Level.char, idx=len(t), freq=1))
    for a, b in merges:
        t.append(Type(t[a].name + t[b].name, level=Level.subword, idx=len(t), freq=1, kids=(t[a], t[b])))
    return t


def has_kids(t):
    return t.kids is not None and len(t.kids) > 0


def program(env, mod, argv, inp=None, out=None):
    """runs the command-line program of a module (given by name: executed as a program) with these arguments, and with these files as standard input and output"""
    import sys
    old = sys.argv, sys.stdin, sys.stdout
    sys.argv = ['prog'] + [str(a) for a in argv]
    sys.stdin = open(inp) if inp else env.null()
    sys.stdout = open(out, 'w') if out else env.null('w')
    try:
        env.as_main(mod) if isinstance(mod, str) else mod.main()
    except SystemExit as e:
        env.check(e.code in (None, 0), 'the program refused its arguments')
    finally:
        sys.stdin.close()
        sys.stdout.close()
        sys.argv, sys.stdin, sys.stdout = old
    env.program_ended()


def option(env, label, *spellings):
    """one of the spellings of an option"""
    return env.choice(label, list(spellings))


def arguments(env, label, *opts):
    """an argument list from (spellings, values...): all options in their first or all in their last spelling, in this or the opposite order"""
    k = env.flag(label) if isinstance(label, str) else label
    res = []
    for o in (reversed(opts) if k else opts):
        res += [o[0][-1 if k else 0]] + [x for x in o[1:]]
    return res
