"""The file system the code under test sees.

Everything lives in a private scratch directory.  `open` (builtins and io) is
replaced: files inside the scratch directory get a raw layer the simulator
controls (the buffered and text layers above it are Python's own, real ones);
paths elsewhere are opened as usual, read-only.  Each raw operation has an
index; a plan maps indices to faults.
"""
import _io
import builtins
import errno
import io
import os
import shutil

from . import core

REAL_OPEN = io.open


class Fault:
    """one planned fault: at operation number `at` (counted from `arm`)"""

    def __init__(self, kind, at, arg=0):
        self.kind, self.at, self.arg = kind, at, arg

    def __repr__(self):
        return '%s@%d' % (self.kind, self.at)


# which faults make sense at which operation
FAULTS = {
    'open-r': ['open-EMFILE', 'open-EIO', 'open-EACCES'],
    'open-w': ['open-EMFILE', 'open-ENOSPC', 'open-EACCES'],
    'read': ['read-EIO', 'read-EIO', 'read-ESTALE'],
    'write': ['write-EIO', 'write-ENOSPC', 'write-torn-EIO', 'write-torn-ENOSPC', 'write-EDQUOT'],
    'close-r': [],
    'close-w': ['close-EIO', 'close-ENOSPC'],
    'seek': ['seek-EIO'],
}
BENIGN = {'read': ['read-EINTR', 'read-short'], 'write': ['write-EINTR', 'write-short']}


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, mode, opener=None):
        self.fs = fs
        self.rel = fs.rel(path)
        self.w = any(c in mode for c in 'wax+')
        self.name = path
        self.fs.op('open-w' if self.w else 'open-r', self)
        self.f = _io.FileIO(path, mode.replace('b', '').replace('t', ''), opener=opener)
        self.mode = self.f.mode
        fs.handles.append(self)
        self.wrote = 0

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return True

    def fileno(self):
        if not self.fs.fileno:
            raise io.UnsupportedOperation('fileno')
        return self.f.fileno()

    def isatty(self):
        return False

    def tell(self):
        return self.f.tell()

    def seek(self, pos, whence=0):
        self.fs.op('seek', self)
        return self.f.seek(pos, whence)

    def truncate(self, size=None):
        return self.f.truncate(size)

    def readinto(self, b):
        k = self.fs.op('read', self)
        n = len(b)
        if n == 0:
            return 0
        if k == 'read-short' or self.fs.always_short:
            n = min(n, 1 + self.fs.ch.draw(min(n, 300)))
        d = self.f.read(n)
        b[:len(d)] = d
        self.fs.bytes_read += len(d)
        return len(d)

    def readall(self):
        out = bytearray()
        buf = bytearray(self.fs.read_unit)
        while True:
            while True:
                try:
                    n = self.readinto(buf)
                    break
                except InterruptedError:
                    continue      # as the real raw file does (PEP 475)
            if not n:
                return bytes(out)
            out += buf[:n]

    def write(self, b):
        b = bytes(b)
        n = len(b)
        if n == 0:
            return 0
        cap = self.fs.room()
        k = self.fs.op('write', self, n)
        if k and k.startswith('write-torn'):
            m = self.fs.torn(n)
            self.f.write(b[:m])
            self.fs.fail(k, self.rel)
        if k == 'write-short' or (self.fs.always_short and n > 1):
            n = 1 + self.fs.ch.draw(n)
        if cap is not None and n > cap:
            if cap <= 0:
                self.fs.ctx.fault('disk-full')
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            n = cap
        n = self.f.write(b[:n])
        self.fs.written += n
        self.wrote += n
        return n

    def close(self):
        if self.closed:
            return
        try:
            super().close()
            k = None
            if getattr(self, 'f', None) is not None and not self.f.closed:
                k = self.fs.op('close-w' if self.w else 'close-r', self, defer=True)
        finally:
            if getattr(self, 'f', None) is not None:
                self.f.close()
            if self in self.fs.handles:
                self.fs.handles.remove(self)
        if k:
            self.fs.fail(k, self.rel)


class FS:
    """use as a context manager around a run"""

    def __init__(self, ch, ctx):
        self.ch, self.ctx = ch, ctx
        root = os.environ.get('VSIM_ROOT') or '/tmp'
        self.base = os.path.join(root, 'vsim-%d' % os.getpid())
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base)
        os.environ['VSIM_SCRATCH'] = self.base
        self.handles = []
        self.plan = {}
        self.trace = []          # (kind, file) of every operation since arm()
        self.count = 0
        self.fired = []
        self.always_short = False
        self.read_unit = 8192
        self.buffer = None       # size of the buffers above the raw layer
        self.capacity = None
        self.written = 0
        self.bytes_read = 0
        self.on = False
        self.hook = None
        self.fileno = True       # False: nothing may go around the simulated layer

    # -------------------------------------------------------------- set up
    def __enter__(self):
        builtins.open = io.open = self.open
        self.cwd = os.getcwd()
        os.chdir(self.base)
        self.on = True
        return self

    def __exit__(self, *a):
        builtins.open = io.open = REAL_OPEN
        os.chdir(self.cwd)
        for h in list(self.handles):
            try:
                h.f.close()
            except Exception:
                pass
        shutil.rmtree(self.base, ignore_errors=True)
        self.on = False

    def rel(self, path):
        p = os.path.realpath(os.path.abspath(os.fspath(path)))
        b = os.path.realpath(self.base)
        return os.path.relpath(p, b)

    def inside(self, path):
        r = self.rel(path)
        return not r.startswith('..')

    def path(self, name):
        return os.path.join(self.base, name)

    def put(self, name, data):
        with REAL_OPEN(self.path(name), 'wb') as fp:
            fp.write(data)
        return self.path(name)

    def get(self, name):
        try:
            with REAL_OPEN(self.path(name), 'rb') as fp:
                return fp.read()
        except (FileNotFoundError, NotADirectoryError):
            return None

    def listing(self):
        out = {}
        for d, dirs, files in os.walk(self.base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                with REAL_OPEN(p, 'rb') as fp:
                    out[os.path.relpath(p, self.base)] = fp.read()
        return out

    # --------------------------------------------------------------- seam
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.on or isinstance(file, int) or not self.inside(file):
            if self.on and not isinstance(file, int) and any(c in mode for c in 'wax+'):
                raise core.Violation('outside', 'opens %r for writing, outside its files' % (file,))
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        # argument checks as the real one does them
        if 'b' in mode and (encoding is not None or errors is not None or newline is not None):
            raise ValueError('binary mode doesn\'t take text arguments')
        raw = SimRaw(self, os.fspath(file), mode, opener)
        if buffering == 0:
            if 'b' not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = (self.buffer or io.DEFAULT_BUFFER_SIZE) if buffering in (-1, 1) else buffering
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif raw.w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
        text.mode = mode
        return text

    # -------------------------------------------------------------- faults
    def arm(self, *faults):
        """start counting operations from 0, with these faults"""
        self.plan = {f.at: f for f in faults}
        self.count = 0
        self.trace = []
        self.fired = []
        self.written = 0

    def disarm(self):
        self.plan = {}
        self.capacity = None
        self.always_short = False

    def room(self):
        return None if self.capacity is None else max(0, self.capacity - self.written)

    def torn(self, n):
        return self.ch.draw(n)

    def op(self, kind, raw, size=0, defer=False):
        i = self.count
        self.count += 1
        self.ctx.steps += 1
        self.trace.append((kind, raw.rel))
        if self.hook:
            self.hook(kind, raw)
        f = self.plan.get(i)
        if f is None:
            return None
        k = f.kind
        if not (k.startswith(kind.split('-')[0])):
            return None
        if k in ('read-short', 'write-short'):
            self.ctx.fault(k)
            self.fired.append(k)
            return k
        if defer or k.startswith('write-torn'):
            return k
        self.fail(k, raw.rel)

    def fail(self, k, rel):
        name = k.split('-')[-1]
        e = getattr(errno, name)
        self.ctx.fault(k)
        self.fired.append(k)
        self.ctx.log('operation #%d on %s: %s' % (self.count - 1, rel, k))
        raise OSError(e, os.strerror(e))

    def pick_fault(self, trace, benign=False, only=None):
        """a fault at a random operation of a recorded trace"""
        table = BENIGN if benign else FAULTS
        cand = [(i, k) for i, (kind, rel) in enumerate(trace) for k in [kind] if table.get(k) and (only is None or only(kind, rel))]
        if not cand:
            return None
        i, kind = self.ch.choice(cand)
        return Fault(self.ch.choice(table[kind]), i)

    def open_handles(self):
        return sorted(h.rel for h in self.handles)


def install_cmaps(fs):
    """the predefined CMaps of the simulated installation"""
    from . import pdfgen
    for n, data in pdfgen.cmap_files().items():
        fs.put(n, data)
    os.environ['CMAP_PATH'] = fs.base
