"""Deterministic scheduler for real threads running code under test.

Exactly one thread holds the baton.  A thread may lose it before any line (or
bytecode) of pdfmajor it executes, or behind an I/O operation; how long it
keeps it, and who gets it next, comes from the run's choices.  Locks made by
pdfmajor (threading.Lock, RLock) are replaced by cooperative ones, so waiting
for a lock is a scheduling decision as well and a deadlock is a verdict.
"""
import os
import sys
import threading
import zlib

from . import core

_mon = sys.monitoring
TOOL = 3
REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock
current = None          # the Scheduler in charge of this process, if any


class Killed(BaseException):
    """the run is over; unwinds a thread"""


class SimLock:
    """threading.Lock / RLock for code under test"""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        s = current
        while self.owner is not None:
            if not blocking or timeout == 0:
                return False
            t = s.mine() if s else None
            if t is None:
                raise core.Violation('deadlock', 'a lock is taken that nobody can release')
            if timeout is not None and timeout > 0:
                s.switch(t)      # a bounded wait may end at once
                if self.owner is not None:
                    return False
                break
            t.waits = self
            s.switch(t)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            if current:
                current.woken(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # what threading.Condition asks of an RLock
    def _is_owned(self):
        return self.owner == threading.get_ident()

    def _release_save(self):
        d, self.depth = self.depth, 1
        self.release()
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d


def patch_locks():
    """before pdfmajor is imported: locks it makes are cooperative.
    Only modules of the code under test get them; the standard library keeps its own."""
    pre = os.path.join(core.REPO, 'pdfmajor') + os.sep

    def maker(real, reentrant):
        def make():
            f = sys._getframe(1)
            while f is not None and f.f_code.co_filename.startswith('<frozen'):
                f = f.f_back
            if f is not None and f.f_code.co_filename.startswith(pre):
                return SimLock(reentrant)
            return real()
        return make
    threading.Lock = maker(REAL_LOCK, False)
    threading.RLock = maker(REAL_RLOCK, True)


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.waits = None
        self.exc = None
        self.seen = set()
        self.hot = {}
        self.noswitch = 0
        self.steps = 0


class Scheduler:
    def __init__(self, ch, ctx, fine=False, max_switches=400, spans=None):
        self.ch, self.ctx = ch, ctx
        self.fine = fine
        self.max_switches = max_switches
        self.spans = spans or [(3, 'line'), (3, 'new'), (2, 'io'), (1, 'end')]
        self.tasks = []
        self.by_ident = {}
        self.unit, self.left = 'end', 0
        self.switches = 0
        self.dead = None
        self.over = threading.Semaphore(0)
        self.pre = os.path.join(core.REPO, 'pdfmajor') + os.sep
        self.steps = 0
        self.places = set()
        self.hot = None          # the few functions where 'hot' spans end
        self.hot_of, self.hot_cap = 24, 1000
        self.hotness = {}

    def add(self, name, fn):
        self.tasks.append(Task(name, fn))

    def mine(self):
        return self.by_ident.get(threading.get_ident())

    # ----------------------------------------------------------- decisions
    def plan(self):
        """how long the next one runs"""
        if self.switches >= self.max_switches:
            self.unit, self.left = 'end', 0
            return
        self.unit = self.ch.weighted(self.spans)
        if self.unit in ('line', 'op'):
            self.left = 1 + self.ch.draw(1 << self.ch.draw(15))
        elif self.unit == 'new':
            self.left = 1 + self.ch.draw(1 << self.ch.draw(9))
        elif self.unit == 'io':
            self.left = 1 + self.ch.draw(1 << self.ch.draw(5))
        elif self.unit == 'hot':
            self.left = 1 + self.ch.draw(1 << self.ch.draw(4))

    def pick(self):
        ready = [t for t in self.tasks if not t.done and t.waits is None]
        if not ready:
            if all(t.done for t in self.tasks):
                return None
            self.dead = core.Violation('deadlock', 'every thread waits for a lock: %s' % [t.name for t in self.tasks if not t.done])
            return None
        return self.ch.choice(ready) if len(ready) > 1 else ready[0]

    def woken(self, lock):
        for t in self.tasks:
            if t.waits is lock:
                t.waits = None

    def switch(self, me, where=None):
        """the running thread gives the baton away (and gets it back later)"""
        t = self.pick()
        self.plan()
        self.switches += 1
        if t is None:
            self.finish()
        elif t is not me:
            if where:
                self.places.add(where)
                self.ctx.state((where, t.name != me.name, self.fine))
                if self.switches < 60:
                    self.ctx.log('%s stops before %s:%d after %d, %s goes on' % (me.name, where[0], where[1], me.steps, t.name))
            self.ctx.fault('preemption')
            t.sem.release()
        else:
            return
        me.sem.acquire()
        if self.dead:
            raise Killed()

    def finish(self):
        if self.dead:
            for t in self.tasks:
                if not t.done:
                    t.sem.release()
        self.over.release()

    # -------------------------------------------------------------- events
    def on_line(self, code, arg):
        if not code.co_filename.startswith(self.pre):
            return _mon.DISABLE
        t = self.by_ident.get(threading.get_ident())
        if t is None or t.noswitch:
            return
        t.steps += 1
        self.steps += 1
        u = self.unit
        if u == 'line' or u == 'op':
            self.left -= 1
        elif u == 'new':
            k = (code, arg)
            if k in t.seen:
                return
            t.seen.add(k)
            self.left -= 1
        elif u == 'hot':
            h = self.hotness.get(code)
            if h is None:
                h = self.hotness[code] = zlib.crc32(('%s:%s' % (code.co_filename[len(self.pre):], code.co_qualname)).encode()) % self.hot_of
            if h != self.hot:
                return
            n = t.hot.get(code, 0)
            if n >= self.hot_cap:
                return
            t.hot[code] = n + 1
            self.left -= 1
        elif u == 'io':
            if self.left > 0:
                return
        else:
            return
        if self.left <= 0:
            self.switch(t, (code.co_filename[len(self.pre):], arg if not self.fine else code.co_firstlineno))

    def on_start(self, code, off):
        # no switches inside of an import: it holds a lock of the interpreter
        if code.co_name == '<module>':
            t = self.by_ident.get(threading.get_ident())
            if t is not None:
                t.noswitch += 1
            return
        return _mon.DISABLE

    def on_end(self, code, *a):
        if code.co_name == '<module>':
            t = self.by_ident.get(threading.get_ident())
            if t is not None:
                t.noswitch -= 1
            return
        return _mon.DISABLE

    def io(self, *a):
        """an I/O operation was made"""
        self.steps += 1
        if self.unit == 'io':
            self.left -= 1

    # ----------------------------------------------------------------- run
    def body(self, t):
        t.sem.acquire()
        self.by_ident[threading.get_ident()] = t
        try:
            if not self.dead:
                t.fn()
        except Killed:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            t.done = True
            self.by_ident.pop(threading.get_ident(), None)
            if not self.dead:
                nxt = self.pick()
                self.plan()
                if nxt is None:
                    self.finish()
                else:
                    nxt.sem.release()

    def run(self, timeout=50):
        global current
        current = self
        ev = _mon.events
        _mon.use_tool_id(TOOL, 'vsim-sched')
        unit = ev.INSTRUCTION if self.fine else ev.LINE
        _mon.register_callback(TOOL, unit, self.on_line)
        _mon.register_callback(TOOL, ev.PY_START, self.on_start)
        _mon.register_callback(TOOL, ev.PY_RETURN, self.on_end)
        _mon.set_events(TOOL, unit | ev.PY_START | ev.PY_RETURN)
        try:
            ths = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in self.tasks]
            for th in ths:
                th.start()
            first = self.pick()
            self.plan()
            if first is not None:
                first.sem.release()
                if not self.over.acquire(timeout=timeout):
                    raise RuntimeError('no thread goes on')
            if self.dead:
                raise self.dead
        finally:
            _mon.set_events(TOOL, 0)
            _mon.free_tool_id(TOOL)
            current = None
        self.ctx.steps += self.steps
        self.ctx.log('%d switches, steps %s' % (self.switches, [t.steps for t in self.tasks]))
        for t in self.tasks:
            if isinstance(t.exc, (core.Violation, core.Discard)):
                raise t.exc
