"""Text and binary files holding symbolic content.  The real file system (inside a scratch directory) is used; symbolic
cells are written as markers that refer to a side table."""
import builtins
import codecs
import gzip
import io
import json
import os
import pathlib
import pickle
import z3
from . import core, rt, strs
from .core import Sym, SymInt, SymBool, SymReal, Incomplete, mkint
from .strs import SymStr, SymBytes, Fmt, mkstr, mkbytes, cell_is
from .cont import SymUnion, SymDict, SymSet

TABLE = []
MARK = b'\xff\xfeS'


def token(x):
    TABLE.append(x)
    return len(TABLE) - 1


def reset():
    TABLE.clear()


def codec(encoding):
    """normal name of an encoding"""
    return codecs.lookup(encoding).name


LIMIT = {'ascii': 128, 'iso8859-1': 256}
BOM = {'utf-8-sig': 'utf-8', 'utf-16': 'utf-16-le', 'utf-32': 'utf-32-le'}  # encodings that start with a mark


def encode_cells(cells, encoding, errors):
    out = []
    encoding = codec(encoding)
    run = []

    def flush():
        if run:
            out.append(''.join(map(chr, run)).encode(encoding, errors))
            run.clear()
    cells = [x for c in cells for x in (c.expand() if isinstance(c, Fmt) and not c.is_dec else [c])]
    for c in cells:
        if isinstance(c, int):
            run.append(c)
            continue
        if not isinstance(c, Fmt):
            E = core.ENG
            if encoding in LIMIT and not E.valid(c < 128) and not E.branch(c < 128):
                lim = LIMIT[encoding]
                if lim > 128 and E.branch(c < lim):
                    run.append(E.concretise(c, strs.INTERESTING))
                elif errors == 'strict':
                    raise UnicodeEncodeError(encoding, '?', 0, 1, f'ordinal not in range({lim})')
                elif errors == 'replace':
                    run.append(63)
                elif errors != 'ignore':
                    raise Incomplete(f'errors={errors}')
                continue
            sur = z3.And(c >= 0xD800, c <= 0xDFFF)
            if not E.valid(z3.Not(sur)) and E.branch(sur):
                if errors == 'strict':
                    raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
                if errors == 'replace':
                    run.append(63)
                    continue
                if errors == 'ignore':
                    continue
                raise Incomplete(f'errors={errors}')
            if encoding != 'utf-8' and encoding not in LIMIT:
                run.append(E.concretise(c, strs.INTERESTING))
                continue
        flush()
        out.append(MARK + str(token(c)).encode() + b';')
    flush()
    return b''.join(out)


def decode_cells(data, encoding, errors):
    cells = []
    i = 0
    encoding = codec(encoding)
    if MARK not in data:
        return [ord(c) for c in data.decode(encoding, errors)]
    if encoding == 'utf-8-sig':
        cells = decode_cells(data, 'utf-8', errors)
        return cells[1:] if cells and not isinstance(cells[0], Fmt) and cell_is(cells[0], 0xFEFF) else cells
    if encoding not in LIMIT and encoding != 'utf-8':
        raise Incomplete(f'reading text as {encoding}')
    while True:
        j = data.find(MARK, i)
        if j < 0:
            cells.extend(ord(c) for c in data[i:].decode(encoding, errors))
            return cells
        cells.extend(ord(c) for c in data[i:j].decode(encoding, errors))
        k = data.index(b';', j)
        c = TABLE[int(data[j + len(MARK):k])]
        if encoding == 'utf-8' or isinstance(c, Fmt) or core.ENG.branch(c < 128):
            cells.append(c)
        else:  # its bytes, one by one
            for b in strs.byte_cells(strs.utf8_encode(strs.mkstr([c]))):
                if encoding != 'ascii':
                    cells.append(b)
                elif errors == 'strict':
                    raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal not in range(128)')
                elif errors in ('replace', 'surrogateescape'):
                    cells.append(0xFFFD if errors == 'replace' else z3.simplify(strs._z(b) + 0xDC00))
                elif errors != 'ignore':
                    raise Incomplete(f'errors={errors}')
        i = k + 1


def split_text_lines(cells, newline):
    """lines (lists of cells) as a text stream with the given newline mode produces them"""
    lines, cur, i, n = [], [], 0, len(cells)
    while i < n:
        c = cells[i]
        i += 1
        if isinstance(c, Fmt):
            cur.append(c)
            continue
        if newline in (None, ''):
            if cell_is(c, 10):
                cur.append(10)
            elif cell_is(c, 13):
                crlf = i < n and not isinstance(cells[i], Fmt) and cell_is(cells[i], 10)
                if crlf:
                    i += 1
                if newline is None:
                    cur.append(10)
                else:
                    cur.extend([13, 10] if crlf else [13])
            else:
                cur.append(c)
                continue
        elif newline == '\n':
            cur.append(c)
            if not cell_is(c, 10):
                continue
        else:
            raise Incomplete(f'newline={newline!r}')
        lines.append(cur)
        cur = []
    if cur:
        lines.append(cur)
    return lines


OPEN = []


def program_ended():
    """what the interpreter does with files left open at the end of a program"""
    for f in OPEN:
        f.close()
    OPEN.clear()


class SymText:
    """text stream"""

    def __init__(self, raw, mode, encoding=None, errors=None, newline=None, name=None):
        self._raw, self.mode = raw, mode
        self.encoding = encoding or 'utf-8'
        self.errors = errors or 'strict'
        self._newline = newline
        self.name = name
        self.closed = False
        self._pending = []
        self._lines = None
        self._pos = 0
        self._started = False  # a mark was written
        if raw is not None:
            OPEN.append(self)

    # writing
    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not strs.is_strlike(s):
            raise TypeError(f'write() argument must be str, not {type(s).__name__}')
        if 'r' in self.mode:
            raise io.UnsupportedOperation('not writable')
        cells, extra = strs.raw_cells(s), 0
        enc = codec(self.encoding)
        if enc in BOM:
            if not self._started:
                try:
                    self._started = self._raw.tell() > 0
                except (OSError, AttributeError):
                    pass
            if not self._started:
                cells = [0xFEFF] + list(cells)
                extra = 1
            self._started = True
            enc = BOM[enc]
        data = encode_cells(cells, enc, self.errors)
        if self._newline not in (None, '', '\n'):
            raise Incomplete('newline translation on writing')
        self._pending.append(data)
        return len(cells) - extra

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        if self._pending:
            data = b''.join(self._pending)
            self._pending = []
            self._raw.write(data)
        self._raw.flush()

    def reconfigure(self, *, encoding=None, errors=None, newline=..., line_buffering=None, write_through=None):
        if self._lines is not None and (encoding or newline is not ...):
            raise io.UnsupportedOperation('It is not possible to set the encoding or newline of stream after the first read')
        self.flush() if 'r' not in self.mode else None
        if encoding is not None:
            self.encoding, self.errors = encoding, errors or 'strict'
        elif errors is not None:
            self.errors = errors
        if newline is not ...:
            self._newline = newline

    def writable(self): return 'r' not in self.mode
    def readable(self): return 'r' in self.mode

    # reading
    def _load(self):
        if self._lines is None:
            data = self._raw.read()
            self._lines = split_text_lines(decode_cells(data, self.encoding, self.errors), self._newline)
        return self._lines

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if 'r' not in self.mode:
            raise io.UnsupportedOperation('not readable')

    def read(self, n=-1):
        self._check()
        rest = [c for l in self._load()[self._pos:] for c in l]
        if n is not None and n >= 0:
            raise Incomplete('partial read of a text file')
        self._pos = len(self._lines)
        return mkstr(rest)

    def readline(self, *a):
        self._check()
        ls = self._load()
        if self._pos >= len(ls):
            return ''
        self._pos += 1
        return mkstr(ls[self._pos - 1])

    def readlines(self, *a):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def seek(self, off, whence=0):
        if off == 0 and whence == 0 and 'r' in self.mode:
            self._pos = 0
            return 0
        raise Incomplete('seek')

    def close(self):
        if not self.closed:
            try:
                if 'r' not in self.mode:
                    self.flush()
            finally:
                self.closed = True
                self._raw.close()

    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class SymStringIO(SymText):
    def __init__(self, initial='', newline='\n'):
        super().__init__(None, 'w', name='<StringIO>')
        self._cells = strs.raw_cells(initial)
        self._newline = newline
        self._pos = 0

    def write(self, s):
        self._cells.extend(strs.raw_cells(s))
        return len(s)

    def getvalue(self):
        return mkstr(self._cells)

    def _check(self): pass

    def _load(self):
        self._lines = split_text_lines(self._cells, self._newline)
        return self._lines

    def flush(self): pass

    def seek(self, *a):
        self._pos = 0
        return 0

    def close(self): self.closed = True


class SymBin:
    """binary stream opened by instrumented code"""

    def __init__(self, raw, mode, name):
        self._raw, self.mode, self.name = raw, mode, name

    def write(self, b):
        if isinstance(b, SymBytes):
            b = b.concrete()
        return self._raw.write(b)

    def __getattr__(self, n):
        return getattr(self._raw, n)

    def __iter__(self): return iter(self._raw)
    def __enter__(self): return self
    def __exit__(self, *a): self._raw.close()


def h_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    file = rt.deep_concrete(file)
    if 'b' in mode:
        if encoding is not None or errors is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        return SymBin(io.open(file, mode), mode, file)
    m = mode.replace('t', '')
    raw = io.open(file, m + 'b')
    return SymText(raw, m, encoding, errors, newline, file)


def h_gzip_open(filename, mode='rb', compresslevel=9, encoding=None, errors=None, newline=None):
    filename = rt.deep_concrete(filename)
    if 't' not in mode:
        if encoding is not None:
            raise ValueError("Argument 'encoding' not supported in binary mode")
        if errors is not None:
            raise ValueError("Argument 'errors' not supported in binary mode")
        return gzip.open(filename, mode, compresslevel)
    m = mode.replace('t', '')
    return SymText(gzip.open(filename, m + 'b', compresslevel), m, encoding, errors, newline, filename)


rt.HANDLERS[builtins.open] = h_open
rt.HANDLERS[io.open] = h_open
rt.HANDLERS[gzip.open] = h_gzip_open
rt.HANDLERS[io.StringIO] = SymStringIO


def p_open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
    return h_open(self, mode, buffering, encoding, errors, newline)


def p_read_text(self, encoding=None, errors=None):
    with h_open(self, 'r', -1, encoding, errors) as f:
        return f.read()


def p_write_text(self, data, encoding=None, errors=None, newline=None):
    with h_open(self, 'w', -1, encoding, errors, newline) as f:
        return f.write(data)


rt.METHODS[pathlib.Path.open] = p_open
rt.METHODS[pathlib.Path.read_text] = p_read_text
rt.METHODS[pathlib.Path.write_text] = p_write_text
from . import crashfs
rt.HANDLERS[crashfs.open_] = h_open


# -- pickle: symbolic leaves become persistent ids ----------------------------------------------------------------------
class SymPickler(pickle.Pickler):
    def persistent_id(self, obj):
        if isinstance(obj, Sym):
            return token(obj)
        return None


class SymUnpickler(pickle.Unpickler):
    def persistent_load(self, pid):
        return TABLE[pid]


@rt.handles(pickle.dump)
def h_pdump(obj, file, *a, **k):
    SymPickler(file if not isinstance(file, SymBin) else file._raw, *a, **k).dump(obj)


@rt.handles(pickle.dumps)
def h_pdumps(obj, *a, **k):
    b = io.BytesIO()
    SymPickler(b, *a, **k).dump(obj)
    return b.getvalue()


@rt.handles(pickle.load)
def h_pload(file, **k):
    return SymUnpickler(file if not isinstance(file, SymBin) else file._raw, **k).load()


@rt.handles(pickle.loads)
def h_ploads(b, **k):
    return SymUnpickler(io.BytesIO(b), **k).load()


# -- json -----------------------------------------------------------------------------------------------------------------
def _plain(x, subs):
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        subs.append([Fmt(x)])
        return f'@@SYM{len(subs) - 1}@@'
    if isinstance(x, SymUnion):
        return _plain(x.pick(), subs)
    if isinstance(x, SymReal):
        raise Incomplete('json of a symbolic real')
    if isinstance(x, SymStr):
        cells = []
        for c in x.chars():
            if isinstance(c, int):
                cells.extend(ord(ch) for ch in json.dumps(chr(c), ensure_ascii=subs.ascii)[1:-1])
            elif core.ENG.branch(z3.Or(c < 32, c == 34, c == 92, *([c > 126] if subs.ascii else []))):
                v = core.ENG.concretise(c, strs.INTERESTING, 'of a json character')
                cells.extend(ord(ch) for ch in json.dumps(chr(v), ensure_ascii=subs.ascii)[1:-1])
            else:
                cells.append(c)
        subs.append([34] + cells + [34])
        return f'@@SYM{len(subs) - 1}@@'
    if isinstance(x, dict):
        return {_plain_key(k, subs): _plain(v, subs) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v, subs) for v in x]
    return x


def _plain_key(k, subs):
    if isinstance(k, SymStr):
        return _plain(k, subs)
    return rt.deep_concrete(k)


class _Subs(list):
    ascii = True


@rt.handles(json.dumps)
def h_dumps(obj, **k):
    subs = _Subs()
    subs.ascii = k.get('ensure_ascii', True)
    text = json.dumps(_plain(obj, subs), **k)
    if not subs:
        return text
    import re
    cells = []
    i = 0
    for m in re.finditer(r'"@@SYM(\d+)@@"', text):
        cells.extend(ord(c) for c in text[i:m.start()])
        cells.extend(subs[int(m.group(1))])
        i = m.end()
    cells.extend(ord(c) for c in text[i:])
    return mkstr(cells)


@rt.handles(json.dump)
def h_dump(obj, fp, **k):
    fp.write(h_dumps(obj, **k))


BASE = 7919 * 10 ** 15


@rt.handles(json.loads)
def h_loads(s, **k):
    if isinstance(s, SymUnion):
        s = s.pick()
    if not isinstance(s, SymStr):
        return json.loads(s, **k)
    subs = []
    text = []
    instr = False
    esc = False
    for c in s.cells:
        if isinstance(c, int):
            text.append(chr(c))
            if instr and esc:
                esc = False
            elif instr and c == 92:
                esc = True
            elif c == 34:
                instr = not instr
        elif not instr and not isinstance(c, Fmt):
            text.append(chr(core.ENG.concretise(c, strs.INTERESTING, 'of a json character')))
        elif isinstance(c, Fmt):
            if c.is_dec:
                subs.append(c.value)
                text.append(str(BASE + len(subs) - 1))
            else:
                x = c.expand()
                text.append(''.join(chr(y if isinstance(y, int) else core.ENG.concretise(y, (), 'of a json number')) for y in x))
        elif core.ENG.branch(z3.Or(c < 32, c == 34, c == 92, z3.And(c >= 0xF0000, c < 0xF1000))):
            text.append(chr(core.ENG.concretise(c, strs.INTERESTING, 'of a json character')))
        else:
            subs.append(c)
            text.append(chr(0xF0000 + len(subs) - 1))
    r = json.loads(''.join(text), **k)

    def back(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, int) and x >= BASE and x - BASE < len(subs):
            return subs[x - BASE]
        if isinstance(x, str):
            cs = [subs[ord(ch) - 0xF0000] if 0xF0000 <= ord(ch) < 0xF0000 + len(subs) else ord(ch) for ch in x]
            return mkstr([Fmt(c) if isinstance(c, SymInt) else c for c in cs])
        if isinstance(x, list):
            return [back(y) for y in x]
        if isinstance(x, dict):
            return rt.mkdict([(back(k), back(v)) for k, v in x.items()])
        return x
    return back(r)


@rt.handles(json.load)
def h_load(fp, **k):
    return h_loads(fp.read(), **k)
