"""Exceptions from outside, delivered at a drawn point of the code under test.

KeyboardInterrupt, a cancellation or a failing allocation may come up between
any two lines.  When armed, the lines of pdfmajor executed are counted (all of
them, or only those not executed before since arming; of the whole package, of
one module or of one function) and the exception is raised in front of the
drawn one.  Nothing is raised inside of logging and destructors, where Python
itself drops exceptions, nor in front of the lines of a finally block, which
nothing can protect.
"""
import ast
import os
import sys

from . import core, sut

_mon = sys.monitoring
TOOL = 2


class Cancelled(BaseException):
    """what a watchdog throws into an operation that takes too long"""


EXCS = [KeyboardInterrupt, KeyboardInterrupt, Cancelled, MemoryError]

_cleanup = {}


def cleanup(path):
    """lines of finally blocks: Python gives no way to make these safe"""
    s = _cleanup.get(path)
    if s is None:
        s = _cleanup[path] = set()
        with open(path, 'rb') as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                for b in n.finalbody:
                    s.update(range(b.lineno, b.end_lineno + 1))
    return s


_functions = None


def functions():
    """module -> names of the functions in it"""
    global _functions
    if _functions is None:
        _functions = {}
        root = os.path.join(core.REPO, 'pdfmajor')
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                names = set()

                def walk(code):
                    for c in code.co_consts:
                        if hasattr(c, 'co_consts'):
                            if not c.co_name.startswith('<') and c.co_flags & 2:
                                names.add(c.co_qualname)
                            walk(c)
                try:
                    with open(p, 'rb') as fp:
                        walk(compile(fp.read(), p, 'exec'))
                except SyntaxError:
                    continue
                if names:
                    _functions[os.path.relpath(p, root)] = sorted(names)
    return _functions


class Target:
    def __init__(self, n, new, module=None, function=None, line=None):
        self.n, self.new, self.module, self.function, self.line = n, new, module, function, line

    def __repr__(self):
        if self.line is not None:
            return 'pass %d over line %d of %s' % (self.n, self.line, self.function)
        return '%s line %d of %s' % ('new' if self.new else 'any', self.n, self.function or self.module or 'all')


def draw_reached(ch, lines, only=None):
    """a line among those a rehearsal went through: any module, function and line alike"""
    fs = {}
    for (m, f, l) in lines:
        if only is None or only(m):
            fs.setdefault((m, f), []).append(l)
    if not fs:
        return None
    if ch.bool(40):
        # of every module the same share, however few functions were used
        m = ch.choice(sorted(set(m for (m, _) in fs)))
        fs = dict((k, v) for (k, v) in fs.items() if k[0] == m)
    k = ch.choice(sorted(fs))
    return Target(ch.weighted([(6, 0), (2, 1), (2, ch.int(0, 12))]), False, k[0], k[1], ch.choice(sorted(fs[k])))


def draw_target(ch, only=None):
    k = ch.draw(100)
    if k < 25:
        return Target(ch.weighted([(2, ch.int(0, 12)), (3, ch.int(0, 120)), (3, ch.int(0, 500))]), True)
    if k < 35:
        return Target(ch.weighted([(2, ch.int(0, 30)), (2, ch.int(0, 400)), (1, ch.int(0, 6000))]), False)
    fs = functions()
    mods = sorted(m for m in fs if only is None or only(m))
    if k < 55:
        return Target(ch.weighted([(3, ch.int(0, 8)), (2, ch.int(0, 30))]), True, ch.choice(mods))
    if k < 75:
        m = ch.choice(mods)
        return Target(ch.weighted([(3, ch.int(0, 5)), (1, ch.int(0, 20))]), ch.bool(80), m, ch.choice(fs[m]))
    m, f = ch.choice([(m, f) for m in mods for f in fs[m]])
    return Target(ch.weighted([(3, ch.int(0, 5)), (1, ch.int(0, 20))]), ch.bool(80), m, f)


class Interrupter:
    def __init__(self):
        self.pre = os.path.join(core.REPO, 'pdfmajor') + os.sep
        self.target = None
        self.exc = None
        self.seen = set()
        self.matched = {}
        self.fired = None           # (module, function, line) where it was raised
        self.count = 0
        _mon.use_tool_id(TOOL, 'vsim-interrupt')
        _mon.register_callback(TOOL, _mon.events.LINE, self._line)

    def arm(self, target, exc):
        """raise exc in front of a line from now on; stays armed until fired or disarmed"""
        self.target, self.exc, self.fired, self.count = target, exc, None, 0
        self.seen = set()
        self.matched = {}
        _mon.set_events(TOOL, _mon.events.LINE)
        _mon.restart_events()

    def rehearse(self, fn):
        """the lines that fn() goes through; to be called in a process of its own"""
        self.seen = set()
        self.target = self
        _mon.register_callback(TOOL, _mon.events.LINE, self._record)
        _mon.set_events(TOOL, _mon.events.LINE)
        _mon.restart_events()
        try:
            fn()
        except BaseException:
            pass
        _mon.set_events(TOOL, 0)
        return sorted(self.seen)

    def _record(self, code, line):
        if code.co_filename.startswith(self.pre) and line not in cleanup(code.co_filename):
            if not sut.depth:
                return
            self.seen.add((code.co_filename[len(self.pre):], code.co_qualname, line))
        return _mon.DISABLE

    def disarm(self):
        _mon.set_events(TOOL, 0)
        self.target = self.exc = None

    def match(self, code):
        m = self.matched.get(code)
        if m is None:
            m = False
            if code.co_filename.startswith(self.pre):
                t = self.target
                m = (t.module is None or code.co_filename[len(self.pre):] == t.module) and (t.function is None or code.co_qualname == t.function)
            self.matched[code] = m
        return m

    def _line(self, code, line):
        if self.target is None:
            return
        if not self.match(code):
            return _mon.DISABLE
        if not sut.depth:
            return
        new = self.target.new
        if self.target.line is not None:
            if self.target.line != line:
                return _mon.DISABLE
        elif new:
            k = (code, line)
            if k in self.seen:
                return _mon.DISABLE
            self.seen.add(k)
        if line in cleanup(code.co_filename):
            return _mon.DISABLE
        self.count += 1
        if self.count <= self.target.n:
            return _mon.DISABLE if new else None
        f = sys._getframe(1)
        name = f.f_code.co_qualname
        while f is not None:
            if f.f_code.co_name == '__del__' or f.f_code.co_filename.startswith('<frozen importlib') or f.f_code.co_filename.endswith('logging/__init__.py'):
                return
            f = f.f_back
        self.fired = (code.co_filename[len(self.pre):], name, line)
        exc = self.exc
        self.disarm()
        raise exc
