"""Calling the code under test, and comparing what it answers."""
import os

from . import core
from . import steps
from .steps import StepBudget


depth = 0           # > 0 while code under test runs


class Expected(Exception):
    """Wrapper for an exception the model allows."""

    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc


def call(what, fn, *args, allow=(), **kw):
    """Run code under test.  Exceptions in `allow` come back as Expected; any
    other exception, where the model expects success, violates the property."""
    global depth
    steps.begin()
    depth += 1
    try:
        return fn(*args, **kw)
    except (core.Violation, core.Discard):
        raise
    except StepBudget as e:
        raise core.Violation('no-termination', '%s: %s' % (what, e)) from None
    except BaseException as e:
        if allow and isinstance(e, allow):
            raise Expected(e) from None
        raise core.Violation('exception:%s' % type(e).__name__, '%s raised %s' % (what, core.describe_exc(e))) from None
    finally:
        depth -= 1


def check(cond, kind, fmt, *args):
    if not cond:
        raise core.Violation(kind, (fmt % args) if args else fmt)


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


# ---------------------------------------------------------------- values
def plain(v, depth=0, apart=()):
    """A comparable picture of a parsed PDF value (references unresolved, but for those to the objects in `apart`)."""
    from pdfmajor.parser.PSStackParser import PSLiteral, PSKeyword
    from pdfmajor.parser.PDFStream import PDFStream
    from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
    if depth > 60:
        return '...'
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, v)
    if isinstance(v, (bytes, bytearray)):
        return ('bytes', bytes(v))
    if isinstance(v, PSLiteral):
        return ('name', v.name)
    if isinstance(v, PSKeyword):
        return ('keyword', v.name)
    if isinstance(v, PDFObjRef):
        if v.objid in apart:
            return plain(v.resolve(), depth + 1, apart)
        return ('ref', v.objid)
    if isinstance(v, PDFStream):
        return ('stream', plain(v.attrs, depth + 1, apart), v.get_data())
    if isinstance(v, (list, tuple)):
        return ('array', tuple(plain(x, depth + 1, apart) for x in v))
    if isinstance(v, dict):
        return ('dict', tuple(sorted((k if isinstance(k, str) else repr(k), plain(x, depth + 1, apart)) for k, x in v.items())))
    return ('other', repr(v))


def literal_ok(v):
    """names and keywords must be the interned objects"""
    from pdfmajor.parser.PSStackParser import PSLiteral, PSKeyword, LIT, KWD
    if isinstance(v, PSLiteral):
        return LIT(v.name) is v
    if isinstance(v, PSKeyword):
        return KWD(v.name) is v
    if isinstance(v, (list, tuple)):
        return all(literal_ok(x) for x in v)
    if isinstance(v, dict):
        return all(literal_ok(x) for x in v.values())
    return True


# ---------------------------------------------------------------- inputs
class SimInput:
    """A seekable binary input whose reads the simulator delivers.

    mode 'full' answers like a buffered file; the others return fewer bytes
    than asked (never 0 before the end), as an unbuffered source may.
    faults: {read number: errno} -- that read raises OSError, nothing consumed.
    """

    def __init__(self, data, ch=None, ctx=None, mode='full', cuts=None, faults=None):
        self.data = bytes(data)
        self.pos = 0
        self.ch, self.ctx, self.mode = ch, ctx, mode
        self.cuts = cuts or []
        self.faults = faults or {}
        self.nreads = 0
        self.fired = 0
        self.closed = False
        self.name = 'sim-input'

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return False

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += len(self.data)
        if off < 0:
            raise OSError(22, 'Invalid argument')
        self.pos = off
        return off

    def read(self, n=-1):
        self.nreads += 1
        if self.ctx:
            self.ctx.steps += 1
        if self.nreads in self.faults:
            self.fired += 1
            e = self.faults[self.nreads]
            if self.ctx:
                self.ctx.fault('read-' + os.strerror(e).replace(' ', '_'))
                self.ctx.log('read #%d at %d fails: %s' % (self.nreads, self.pos, os.strerror(e)))
            raise OSError(e, os.strerror(e))
        left = max(0, len(self.data) - self.pos)
        if n is None or n < 0:
            k = left
        else:
            k = min(n, left)
        if k > 1 and n is not None and n >= 0 and self.mode != 'full':
            full = k
            if self.mode == 'one':
                k = 1
            elif self.mode == 'small':
                k = min(k, 1 + self.ch.draw(4))
            elif self.mode == 'half':
                k = max(1, k // 2)
            elif self.mode == 'random':
                k = 1 + self.ch.draw(k)
            elif self.mode == 'cuts':
                for c in self.cuts:
                    if self.pos < c < self.pos + k:
                        k = c - self.pos
                        break
            if k < full and self.ctx:
                self.ctx.fault('short-read')
        out = self.data[self.pos:self.pos + k]
        self.pos += k
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
