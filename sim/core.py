"""Deterministic simulation core.

One integer decides everything: every run is a pure function of the sequence
of integers handed out by `Choices`.  In search mode that sequence comes from
a PRNG seeded from (VERIF_SEED, property, run index); in replay mode it is read
back from a file.  Every run executes in a freshly forked child of a pristine
parent, so no run sees caches or globals another run left behind.
"""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, message):
        Exception.__init__(self, '%s: %s' % (kind, message))
        self.kind = kind
        self.message = message


class Discard(Exception):
    """The generated case is outside the property's precondition."""


class Choices:
    """The one source of nondeterminism of a run.

    A tree of named streams: `sub(name)` gives an independent stream for one
    part of the run (the document, how it is saved, the schedule, ...), so that
    one part can be minimised without changing the others."""

    def __init__(self, seed=None, replay=None, name='', root=None):
        self.root = root or self
        self.name = name
        if root is None:
            self.seed = seed
            self.replays = replay
            if replay is not None and not isinstance(replay, dict):
                self.replays = {'': list(replay)}
            self.recs = {}
        r = self.root
        if name in r.recs:
            raise AssertionError('stream %r twice' % name)
        self.rec = r.recs[name] = []
        self.replay = None if r.replays is None else r.replays.get(name, [])
        if self.replay is None:
            self.rng = random.Random(r.seed if not name else derive_seed(r.seed, name))

    def sub(self, name):
        full = self.name + '/' + name
        k = 1
        while full in self.root.recs:
            k += 1
            full = '%s/%s~%d' % (self.name, name, k)
        return Choices(name=full, root=self.root)

    def draw(self, n):
        """an int in [0, n)"""
        if n <= 1:
            return 0
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.rec)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v %= n
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, pct=50):
        """True with probability pct/100; 0 (the shrink target) means False"""
        return self.draw(100) >= 100 - pct

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first value is the shrink target"""
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][1]

    def sample(self, seq, k):
        pool = list(seq)
        out = []
        for _ in range(min(k, len(pool))):
            out.append(pool.pop(self.draw(len(pool))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def geometric(self, pct, cap):
        n = 0
        while n < cap and self.bool(pct):
            n += 1
        return n


class Ctx:
    """What a run records about itself; never draws, never reads a clock."""

    def __init__(self):
        self.events = []
        self.hash = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.steps = 0
        self.nontrivial = False
        self.sample = None

    def log(self, msg):
        self.hash.update(msg.encode('utf-8', 'backslashreplace') + b'\n')
        if len(self.events) < 4000:
            self.events.append(msg if len(msg) < 600 else msg[:600] + '...')

    def digest(self, what):
        """feed observed data into the event log without keeping it"""
        self.hash.update(repr(what).encode('utf-8', 'backslashreplace'))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, key):
        self.states.add(hashlib.blake2b(repr(key).encode('utf-8', 'backslashreplace'), digest_size=6).hexdigest())


def derive_seed(*parts):
    h = hashlib.sha256('/'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


_norm_repo = None


def describe_exc(e):
    """A deterministic one-line description of an exception."""
    where = ''
    tb = e.__traceback__
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO):
            where = ' at %s:%s' % (os.path.relpath(fr.filename, REPO), fr.name)
    text = str(e)
    sd = os.environ.get('VSIM_SCRATCH')
    if sd:
        text = text.replace(sd, '<scratch>')
    text = text.replace(REPO, '<repo>')
    import re
    text = re.sub(r'0x[0-9a-f]{6,}', '0x..', text)
    return '%s(%s)%s' % (type(e).__name__, text[:300], where)


def execute(prop, choices, verbose=False):
    """One run in this process -> result dict."""
    ctx = Ctx()
    res = {'status': 'ok'}
    try:
        prop.run(choices, ctx)
    except Violation as v:
        res = {'status': 'violation', 'kind': v.kind, 'message': v.message[:4000]}
        ctx.log('VIOLATION %s' % v)
    except Discard as d:
        res = {'status': 'discard', 'message': str(d)}
    except BaseException as e:  # harness failure: never a verdict
        res = {'status': 'error', 'message': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]}
    res.update(rec=strip(choices.recs), faults=ctx.faults, probes=ctx.probes, steps=ctx.steps,
               states=sorted(ctx.states), nontrivial=ctx.nontrivial,
               hash=ctx.hash.hexdigest()[:24])
    if verbose or res['status'] in ('violation', 'error'):
        res['events'] = ctx.events
    elif ctx.sample is not None:
        res['sample'] = ctx.sample
    else:
        res['sample'] = ctx.events[:12]
    return res


class Child:
    __slots__ = ('pid', 'fd', 'buf', 'tag', 't0')


def tell_slow(w, wall):
    """Shortly before the wall limit a run whose single operations all come to
    an end says that it is merely long: no verdict, instead of a hang."""
    from . import steps
    write, leave, now = os.write, os._exit, time.monotonic

    def due(*_):
        if steps.started is not None and now() - steps.started < wall / 3:
            write(w, json.dumps({'status': 'discard', 'message': 'a long run: every operation ends, the run did not in %.0f s' % wall, 'rec': {},
                                    'faults': {}, 'probes': {}, 'steps': 0, 'states': [], 'nontrivial': False, 'hash': 'long', 'sample': []}).encode())
            leave(0)
    signal.signal(signal.SIGALRM, due)
    signal.setitimer(signal.ITIMER_REAL, max(1.0, wall - 8))


def spawn(prop, make_choices, tag, verbose=False, step_budget=None, wall=None):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            if step_budget:
                from . import steps
                steps.install(step_budget)
                steps.per_call = not getattr(prop, 'OWN_STEPS', False)
                steps.begin()
                if wall:
                    tell_slow(w, wall)
            devnull = os.open('/dev/null', os.O_WRONLY)
            if not os.environ.get('VSIM_DEBUG'):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            res = execute(prop, make_choices(), verbose)
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    c = Child()
    c.pid, c.fd, c.buf, c.tag, c.t0 = pid, r, [], tag, time.monotonic()
    return c


def finish(c):
    os.close(c.fd)
    _, st = os.waitpid(c.pid, 0)
    data = b''.join(c.buf)
    try:
        return json.loads(data)
    except ValueError:
        return {'status': 'error', 'message': 'child died (status %r) with no result' % (st,), 'rec': {}, 'died': st}


def kill(c):
    try:
        os.kill(c.pid, signal.SIGKILL)
    except OSError:
        pass
    os.close(c.fd)
    os.waitpid(c.pid, 0)


def run_alone(prop, make_choices, timeout=60.0, verbose=False, step_budget=None):
    c = spawn(prop, make_choices, None, verbose, step_budget, timeout)
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            kill(c)
            return {'status': 'hang', 'message': 'no result after %.0f s' % timeout, 'rec': {}}
        rl, _, _ = select.select([c.fd], [], [], left)
        if rl:
            d = os.read(c.fd, 1 << 20)
            if not d:
                return finish(c)
            c.buf.append(d)


HANG_WALL = 60.0           # a run that takes this long is re-run under a step budget
HANG_STEPS = 40_000_000    # deterministic verdict for such a run
HANG_LIMIT = 150.0         # wall limit while re-running under the step budget


def fatal(kind, message):
    return {'status': 'violation', 'kind': kind, 'message': message, 'rec': {}, 'by_seed': True, 'faults': {}, 'probes': {}, 'steps': 0, 'states': [],
            'nontrivial': False, 'hash': kind, 'sample': []}


def batch(prop, seed, n_runs, wall_cap, workers, on_result, first=0):
    """Run indices first..first+n_runs-1; stops early when on_result returns True."""
    live = {}
    nxt = first
    last = first + n_runs
    t0 = time.monotonic()
    stopped = False
    try:
        while True:
            while (not stopped and nxt < last and len(live) < workers
                   and time.monotonic() - t0 < wall_cap):
                idx = nxt
                nxt += 1
                s = derive_seed(seed, prop.ID, idx)
                c = spawn(prop, lambda s=s: Choices(seed=s), idx)
                live[c.fd] = c
            if not live:
                break
            rl, _, _ = select.select(list(live), [], [], 1.0)
            for fd in rl:
                c = live[fd]
                d = os.read(fd, 1 << 20)
                if d:
                    c.buf.append(d)
                    continue
                del live[fd]
                res = finish(c)
                sig = os.WTERMSIG(res['died']) if os.WIFSIGNALED(res.get('died') or 0) else 0
                if sig and sig not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
                    res = fatal('process-died', 'the process was ended by signal %d' % sig)
                if not stopped and on_result(c.tag, res):
                    stopped = True
            now = time.monotonic()
            for fd in list(live):
                c = live[fd]
                if now - c.t0 > HANG_WALL:
                    del live[fd]
                    kill(c)
                    s = derive_seed(seed, prop.ID, c.tag)
                    res = run_alone(prop, lambda: Choices(seed=s), HANG_LIMIT, step_budget=HANG_STEPS)
                    if res['status'] == 'hang':
                        res = fatal('no-answer', 'no result after %.0f s, thousands of times as long as a run takes' % HANG_LIMIT)
                    if not stopped and on_result(c.tag, res):
                        stopped = True
            if stopped:
                break
    finally:
        for c in live.values():
            kill(c)
    return nxt - first, time.monotonic() - t0


def apart(fn):
    """fn() in a process of its own, where nothing was done before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn()))
            except Violation as v:
                data = pickle.dumps(('violation', (v.kind, v.message)))
            except Discard as v:
                data = pickle.dumps(('discard', str(v)))
            with os.fdopen(w, 'wb') as fp:
                fp.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    how, v = pickle.loads(data)
    if how == 'violation':
        raise Violation(*v)
    if how == 'discard':
        raise Discard(v)
    return v


def run_many(prop, cands, timeout, step_budget=None):
    """several choice sequences at once; results in the order given"""
    out = [None] * len(cands)
    live = {}
    for i, cand in enumerate(cands):
        c = spawn(prop, lambda cand=cand: Choices(replay=cand), i, False, step_budget)
        live[c.fd] = c
    end = time.monotonic() + timeout
    while live:
        left = end - time.monotonic()
        rl = select.select(list(live), [], [], left)[0] if left > 0 else []
        if not rl:
            for c in live.values():
                kill(c)
                out[c.tag] = {'status': 'hang', 'message': 'no result', 'rec': {}}
            break
        for fd in rl:
            c = live[fd]
            d = os.read(fd, 1 << 20)
            if d:
                c.buf.append(d)
            else:
                del live[fd]
                out[c.tag] = finish(c)
    return out


def strip(recs):
    """without trailing zeros and empty streams: what they replay as anyway"""
    out = {}
    for k, x in recs.items():
        n = len(x)
        while n and x[n - 1] == 0:
            n -= 1
        if n:
            out[k] = list(x[:n])
    return out


def size_of(recs):
    return sum(map(len, recs.values()))


def cost(recs):
    return (size_of(recs), sum(map(sum, recs.values())), sorted(recs.items()))


def shrink(prop, rec, kind, budget_s=60.0, max_execs=30000, step_budget=None, width=8):
    """Greedy minimisation of the choice streams; keeps the violation class.

    Candidates are tried `width` at a time; of those that still fail the first
    one wins, so the result depends on the budget only."""
    best = strip(rec)
    t_end = time.monotonic() + budget_s
    execs = 0
    seen = set()

    def live():
        return time.monotonic() < t_end and execs < max_execs

    def first_good(gen):
        """-> (tag of the candidate, new streams) or None"""
        nonlocal execs
        gen = iter(gen)
        done = False
        while not done and live():
            part = []
            while len(part) < width:
                x = next(gen, None)
                if x is None:
                    done = True
                    break
                tag, cand = x
                key = derive_seed(json.dumps(cand, sort_keys=True))
                if key in seen:
                    continue
                seen.add(key)
                part.append((tag, cand))
            if not part:
                continue
            execs += len(part)
            for (tag, cand), r in zip(part, run_many(prop, [c for _, c in part], 30.0, step_budget)):
                if r['status'] == 'violation' and r['kind'] == kind and cost(r['rec']) < cost(best):
                    return tag, r['rec']
        return None

    def with_(k, x):
        c = dict(best)
        c[k] = x
        return strip(c)

    def subtrees():
        names = set()
        for k in best:
            while k:
                names.add(k)
                k = k.rpartition('/')[0]
        weigh = lambda n: sum(len(x) for k, x in best.items() if k == n or k.startswith(n + '/'))
        return sorted(names, key=lambda n: (-weigh(n), n))

    def drops(done):
        for n in subtrees():
            if n not in done:
                yield n, {k: x for k, x in best.items() if not (k == n or k.startswith(n + '/'))}
        for n in sorted(best, key=lambda n: (-len(best[n]), n)):
            if n not in done:
                yield n, {k: x for k, x in best.items() if k != n}

    def cuts(k, size, top):
        """remove or clear a stretch, the last one first"""
        x = best.get(k, [])
        i = min(top, len(x) - size)
        while i >= 0:
            yield i, with_(k, x[:i] + x[i + size:])
            if size > 1 and any(x[i:i + size]):
                yield i, with_(k, x[:i] + [0] * size + x[i + size:])
            if i == 0:
                break
            i = max(0, i - size)

    def smaller(k, at):
        x = best.get(k, [])
        for i in range(at, len(x)):
            v = x[i]
            for c in sorted({0, 1, v // 2, v - 1}):
                if 0 <= c < v:
                    yield i, with_(k, x[:i] + [c] + x[i + 1:])

    improved = True
    while improved and best and live():
        improved = False
        done = set()
        while True:
            hit = first_good(drops(done))
            if hit is None:
                break
            done.add(hit[0])
            best = hit[1]
            improved = True
        for k in sorted(best, key=lambda n: (-len(best[n]), n)):
            size = max(1, len(best.get(k, [])) // 2)
            while size >= 1 and live():
                top = len(best.get(k, []))
                while True:
                    hit = first_good(cuts(k, size, top))
                    if hit is None:
                        break
                    top, best = hit
                    improved = True
                size //= 2
        for k in sorted(best):
            at = 0
            while live():
                hit = first_good(smaller(k, at))
                if hit is None:
                    break
                at, best = hit
                improved = True
    return best, execs
