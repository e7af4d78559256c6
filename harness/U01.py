"""U01: file helpers keep text line by line, compressed or not"""
from pathlib import Path
from harness.lib import *
BOUNDS = {'quick': 'texts of up to 3 arbitrary Unicode characters (line feeds, carriage returns and other separators included) written at once or in two pieces and '
                   'appended to, read back as lines and through streams of up to 3 files, empty files included; plain and gzip files, paths as text or path '
                   'objects; binary contents of 6 kinds, undecodable bytes included; safe replacement of new and old files, finished or failing',
          'thorough': 'texts of up to 4 characters'}
OUTSIDE = 'lone surrogates; files compressed otherwise'
RAW = [b'', b'a\n', b'a\r\nb\rc', b'\xc3\xa9\n\xe2\x80\xa8x\x85\n', b'a\xffb\n\xc3', b'\n\n']


def jobs(tier):
    n = 3 if tier == 'quick' else 4
    res = [dict(name=f'text{k}', fn='text', params=dict(n=k), must_reach=['lf', 'cr'] if k else []) for k in range(n + 1)]
    res += [dict(name=f'stream{"".join(map(str, s))}', fn='stream', params=dict(shape=s)) for s in ((), (1,), (2, 1), (1, 0, 1), (1, 1, 1))]
    res += [dict(name='append'), dict(name='raw'), dict(name='swap', must_reach=['done', 'failed'])]
    return res


def lines_of(text):
    """reference: lines end with a line feed and nothing else"""
    res, cur = [], ''
    for ch in text:
        cur = cur + ch
        if ch == '\n':
            res.append(cur)
            cur = ''
    return res + [cur] if len(cur) else res


def target(env, name):
    p = env.tmp() / (name + env.choice('kind', ['.txt', '.gz', '.txt.gz']))
    return str(p) if env.flag('as_text') else p


def same(env, got, want, what='lines'):
    got = list(got)
    env.check(len(got) == len(want), f'number of {what}')
    env.check(env.all([env.eq(a, b) for a, b in zip(got, want)]), f'{what} changed')


def text(env, n):
    from nlcodec.utils import IO
    t = env.string('t', n)
    for ch in t:
        if ch == '\n':
            env.reach('lf')
        elif ch == '\r':
            env.reach('cr')
    p = target(env, 'f')
    k = env.pick('cut', 0, n)
    with IO.writer(p) as out:
        out.write(t[:k])
        out.write(t[k:])
    with IO.reader(p) as inp:
        same(env, inp, lines_of(t))
    with IO.reader(p) as inp:
        env.check(env.eq(inp.read(), t), 'text changed')
    env.check(inp.closed and out.closed, 'a file stays open')


def append(env):
    from nlcodec.utils import IO
    t = [env.string('t', 1) for _ in range(3)]
    p = target(env, 'f')
    k = env.pick('append', 0, 3)
    for i, x in enumerate(t):
        with IO.writer(p, append=bool(k >> i & 1) or i == 2) as out:
            out.write(x)
    want = t[0] + t[1] + t[2] if k >> 1 & 1 else t[1] + t[2]
    with IO.reader(p) as inp:
        same(env, inp, lines_of(want))


def stream(env, shape):
    from nlcodec.utils import IO
    ps, want, d = [], [], env.tmp()
    for i, n in enumerate(shape):
        t = env.string('t', n) + ('\n' if env.flag('end') else '')
        p = d / (f'f{i}' + env.choice('kind', ['.txt', '.gz']))
        with IO.writer(p) as out:
            out.write(t)
        ps.append(p)
        want += lines_of(t)
    same(env, IO.read_as_stream(ps), want)


def raw(env):
    from nlcodec.utils import IO
    data = env.choice('data', RAW)
    p = target(env, 'f')
    with IO.writer(p, text=False) as out:
        out.write(data)
    with IO.reader(p, text=False) as inp:
        env.check(inp.read() == data, 'bytes changed')
    same(env, IO.read_as_stream([p, p], text=False), data.splitlines(True) * 2 if b'\r' not in data else [b'a\r\n', b'b\rc'] * 2)
    with IO.reader(p) as inp:
        want = data.decode('utf-8', errors='replace')
        same(env, inp, lines_of(want))


class Broken(Exception):
    pass


def swap(env):
    """a file is replaced when the new one is complete, never before"""
    from nlcodec import utils
    from nlcodec.utils import IO
    replacing = getattr(utils, 'replacing', None)
    if replacing is None:  # then saving is judged by L03 and D04 alone
        env.reach('done')
        env.reach('failed')
        return
    p = target(env, 'f')
    a, b = env.string('old', 1), env.string('new', 2)
    old, fail = env.flag('old'), env.flag('fail')
    if old:
        with IO.writer(p) as out:
            out.write(a)

    def now(want):
        try:
            with IO.reader(p) as inp:
                t = inp.read()
        except FileNotFoundError:
            t = None
        env.check(t is None if want is None else t is not None and env.eq(t, want), 'another content than expected')
    try:
        with replacing(p) as tmp:
            with IO.writer(tmp) as out:
                out.write(b[:1])
                now(a if old else None)
                if fail:
                    raise Broken()
                out.write(b[1:])
            now(a if old else None)
        env.reach('done')
        now(b)
    except Broken:
        env.check(fail, 'no failure')
        env.reach('failed')
        now(a if old else None)
    left = sorted(f.name for f in Path(p).parent.iterdir())
    env.check(left == ([Path(p).name] if old or not fail else []), f'other files than expected: {left}')
