"""File-system effects of the code under test: containment in a scratch directory and crash injection.

Used both by the symbolic runs and by replays (no dependency on the solver).  Every change to the file system made through
open(), io.open, os.* or pathlib is an event; an armed injector may stop the "process" before any event or after a partial
flush of a file, after which nothing else reaches the disk."""
import builtins
import io
import os
import sys

_real_open = io.open
WRITE_EVENTS = {'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod',
                'os.utime', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'os.chown'}


class SimCrash(BaseException):
    """the process stops here"""


class State:
    scratch = None       # containment root; None = not contained
    armed = None         # callable(description) -> None | 'before'   decides whether to crash here
    dead = False
    prefix = None        # callable(n, path, data) -> number of bytes of a torn flush that reach the disk, or None for no tear
    log = []
    inside = False


def _inside(path):
    if State.scratch is None:
        return True
    try:
        p = os.fspath(path)
    except TypeError:
        return True
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not os.path.isabs(p):
        return None  # relative to a directory descriptor or cwd
    rp = os.path.normpath(p)
    return rp == State.scratch or rp.startswith(State.scratch + os.sep)


def _event(what, path):
    if State.dead:
        raise SimCrash('dead')
    if State.armed is not None:
        State.log.append((what, str(path)))
        if State.armed(f'{what} {path}'):
            State.dead = True
            raise SimCrash(f'{what} {path}')


def _hook(event, args):
    if State.inside or State.scratch is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        if isinstance(mode, str):
            w = any(c in mode for c in 'wax+')
        else:
            w = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if not w:
            return
        if _inside(path) is False:
            if str(path).startswith(('/dev/null', '/proc/self')) or '__pycache__' in str(path):
                return
            raise PermissionError(f'contained: write to {path}')
        State.inside = True
        try:
            _event('open', path)
        finally:
            State.inside = False
    elif event in WRITE_EVENTS:
        path = args[0]
        for p in args[:2]:
            if isinstance(p, (str, bytes, os.PathLike)) and _inside(p) is False:
                if '__pycache__' in str(p):
                    return
                raise PermissionError(f'contained: {event} {p}')
        if event == 'shutil.rmtree':
            return  # the single removals are events of their own
        State.inside = True
        try:
            _event(event, path)
        finally:
            State.inside = False


_installed = False


def install(scratch):
    global _installed
    State.scratch = os.path.realpath(scratch)
    if not _installed:
        sys.addaudithook(_hook)
        builtins.open = open_
        io.open = open_
        _installed = True


class CrashFile(io.BufferedIOBase):
    """binary file whose content reaches the disk at flush or close"""

    def __init__(self, path, mode):
        self._f = _real_open(path, mode, buffering=0)
        self._path = path
        self.name = path
        self.mode = mode
        self._buf = bytearray()

    def writable(self): return True
    def readable(self): return False
    def seekable(self): return False
    def fileno(self): return self._f.fileno()

    def write(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        b = bytes(b)
        self._buf += b
        return len(b)

    def tell(self):
        return self._f.tell() + len(self._buf)

    def _out(self):
        if not self._buf:
            return
        data = bytes(self._buf)
        self._buf.clear()
        if State.dead:
            return
        if State.armed is not None and State.prefix is not None:
            n = State.prefix(len(data), self._path, data)
            if n is not None:
                self._f.write(data[:n])
                State.dead = True
                raise SimCrash(f'torn write {self._path}')
        self._f.write(data)

    def flush(self):
        if not self.closed:
            self._out()

    def close(self):
        if not self.closed:
            try:
                self._out()
            finally:
                self._f.close()
                super().close()


def open_(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if State.scratch is None or isinstance(file, int) or opener is not None or '+' in mode \
            or not any(c in mode for c in 'wax') or not _inside(file):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    bmode = mode.replace('t', '').replace('b', '') + 'b'
    f = CrashFile(os.fspath(file), bmode)
    if 'b' in mode:
        return f
    t = io.TextIOWrapper(f, encoding=encoding or 'utf-8', errors=errors, newline=newline)
    t.mode = mode
    return t
