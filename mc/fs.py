"""Control over the file operations of the code under test.

While `watching(root, hook)` is active, hook(op) is called before every operation that changes something under
root: creation or truncation of a file, write, rename, removal, creation of a folder.  The hook may record the
state of the folder (and with it every state a crash there would leave), raise, or run something else.
"""
import builtins
import contextlib
import io
import os
import threading

_real = {}
_local = threading.local()


class Op:
    def __init__(self, kind, path, pos=0, data=b''):
        self.kind, self.path, self.pos, self.data = kind, path, pos, data

    def __repr__(self):
        return f'{self.kind} {os.path.basename(str(self.path))}' + (f' [{len(self.data)} bytes]' if self.data else '')


def snapshot(root):
    """{relative path: bytes, or None for a folder}"""
    out = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dirs:
            out[os.path.normpath(os.path.join(rel, d))] = None
        for f in files:
            with _real.get('open', io.open)(os.path.join(base, f), 'rb') as h:
                out[os.path.normpath(os.path.join(rel, f))] = h.read()
    return out


def restore(root, state):
    os.makedirs(root, exist_ok=True)
    for p in sorted(k for k, v in state.items() if v is None):
        os.makedirs(os.path.join(root, p), exist_ok=True)
    for p, v in state.items():
        if v is not None:
            with io.open(os.path.join(root, p), 'wb') as h:
                h.write(v)


def torn(root, state, op, cuts):
    """States a crash during op may leave, besides the one before it."""
    if op.kind != 'write':
        return
    rel = os.path.normpath(os.path.relpath(op.path, root))
    old = state.get(rel)
    if old is None:
        return
    n = len(op.data)
    for c in sorted({c for c in cuts(n) if 0 < c <= n}):
        new = old[:op.pos].ljust(op.pos, b'\0') + op.data[:c] + old[op.pos + c:]
        yield {**state, rel: new}


class _Raw(io.RawIOBase):
    def __init__(self, raw, path):
        self._r, self._p = raw, path

    def readable(self):
        return self._r.readable()

    def writable(self):
        return True

    def seekable(self):
        return self._r.seekable()

    def write(self, b):
        b = bytes(b)
        _call(Op('write', self._p, self._r.tell(), b))
        return self._r.write(b)

    def readinto(self, b):
        return self._r.readinto(b)

    def seek(self, *a):
        return self._r.seek(*a)

    def tell(self):
        return self._r.tell()

    def truncate(self, size=None):
        _call(Op('truncate', self._p))
        return self._r.truncate(self.tell() if size is None else size)

    def close(self):
        if not self.closed:
            super().close()
            self._r.close()


def _call(op):
    h = getattr(_local, 'hook', None)
    if h is None or getattr(_local, 'busy', False):
        return
    root = _local.root
    p = os.path.abspath(os.fspath(op.path))
    if not p.startswith(root):
        return
    _local.busy = True
    try:
        h(op)
    finally:
        _local.busy = False


def _under(path):
    if getattr(_local, 'hook', None) is None or getattr(_local, 'busy', False):
        return False
    try:
        return os.path.abspath(os.fspath(path)).startswith(_local.root)
    except TypeError:
        return False


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fd = isinstance(file, int)
    path = os.readlink('/proc/self/fd/%d' % file) if fd and getattr(_local, 'hook', None) else file
    if not set(mode) & set('wax+') and not isinstance(path, int) and _under(path):
        _call(Op('read', path))
    if not set(mode) & set('wax+') or isinstance(path, int) or not _under(path):
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.path.abspath(os.fspath(path))
    b = mode.replace('t', '').replace('b', '') + 'b'
    if not fd and 'r' not in mode:
        if 'w' in mode or not os.path.exists(path):
            _call(Op('create', path))
    raw = _Raw(_real['open'](file, b, 0, closefd=closefd, opener=opener), path)
    if 'b' in mode and buffering == 0:
        return raw
    buf = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw)
    if 'b' in mode:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, write_through=False)


def _os1(name, kind):
    def f(path, *a, **k):
        p = path
        if k.get('dir_fd') is not None and getattr(_local, 'hook', None):
            p = os.path.join(os.readlink('/proc/self/fd/%d' % k['dir_fd']), os.fspath(path))
        _call(Op(kind, p))
        return _real[name](path, *a, **k)
    return f


def _os2(name, kind):
    def f(src, dst, *a, **k):
        _call(Op(kind, dst))
        return _real[name](src, dst, *a, **k)
    return f


def _os_open(path, flags, *a, **k):
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and _under(path):
        if flags & os.O_CREAT and not os.path.exists(path) or flags & os.O_TRUNC:
            _call(Op('create', path))
    return _real['os.open'](path, flags, *a, **k)


def _os_write(fd, data):
    if getattr(_local, 'hook', None) and not getattr(_local, 'busy', False):
        p = os.readlink('/proc/self/fd/%d' % fd)
        if _under(p):
            _call(Op('write', p, os.lseek(fd, 0, os.SEEK_CUR), bytes(data)))
    return _real['os.write'](fd, data)


def install():
    if _real:
        return
    _real.update({'open': builtins.open, 'os.open': os.open, 'os.write': os.write})
    builtins.open = io.open = _open
    os.open, os.write = _os_open, _os_write
    for n, k in (('mkdir', 'mkdir'), ('rmdir', 'rmdir'), ('unlink', 'remove'), ('remove', 'remove'), ('truncate', 'truncate')):
        _real['os.' + n] = getattr(os, n)
        setattr(os, n, _os1('os.' + n, k))
    for n in ('rename', 'replace', 'link', 'symlink'):
        _real['os.' + n] = getattr(os, n)
        setattr(os, n, _os2('os.' + n, n))


@contextlib.contextmanager
def watching(root, hook):
    """Only operations of the current thread are seen."""
    install()
    old = getattr(_local, 'hook', None), getattr(_local, 'root', None), getattr(_local, 'busy', False)
    _local.hook, _local.root, _local.busy = hook, os.path.abspath(root), False
    try:
        yield
    finally:
        _local.hook, _local.root, _local.busy = old


def schedules(n_a, n_b, preemptions):
    """All ways to run two threads of at most n_a and n_b operations with a number of preemptions.

    A schedule is a list of numbers of operations: the first thread performs that many, then the other...
    """
    def go(left, bound):
        yield [None]    # to its end, then the others
        if bound:
            for k in range(left[0] + 1):
                for rest in go((left[1], left[0] - k), bound - 1):
                    yield [k] + rest
    for s in go((n_a, n_b), preemptions):
        yield s


class Pair:
    """Two functions in two threads, of which one runs at a time, switching as told at file operations."""

    def __init__(self, root, fns, schedule):
        self.root, self.fns, self.schedule = root, fns, list(schedule)
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.out, self.err = [None, None], [None, None]
        self.left = self.schedule.pop(0) if self.schedule else None
        self.ops = [0, 0]
        self.end = threading.Semaphore(0)

    def hook(self, i):
        def f(op):
            self.ops[i] += 1
            if self.left == 0 and not self.done[1 - i]:
                self.switch(i)
                self.sem[i].acquire()
            elif self.left == 0:
                self.left = None
            if self.left is not None:
                self.left -= 1
        return f

    def switch(self, i):
        self.left = self.schedule.pop(0) if self.schedule else None
        self.sem[1 - i].release()

    def body(self, i):
        self.sem[i].acquire()
        try:
            with watching(self.root, self.hook(i)):
                self.out[i] = self.fns[i]()
        except BaseException as e:  # noqa
            self.err[i] = e
        self.done[i] = True
        if self.done[1 - i]:
            self.end.release()
        else:
            self.switch(i)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.sem[0].release()
        if not self.end.acquire(timeout=60):
            raise RuntimeError('the two threads do not end')
        for t in ts:
            t.join()
        return self.out, self.err
