"""C06: documents read at the same time do not affect each other."""
import os
import pickle

from sim import core, pdfgen, pdfsave, sut, observe, sched, fs as simfs
from sim.props.c05 import got_obj, want_obj
from sim.syntax import Name
from sim.sut import check

ID = 'C06'
RUNS_QUICK = 1800
RUNS_THOROUGH = 90000
RULE = ('one run = two to four jobs (read a document, read its pages interleaved, convert it, look up its objects, intern names) over one to '
        'three generated documents with the same object numbers and resource names, executed together - by real threads under the scheduler '
        '(switches before any line or bytecode of the package and after any I/O), or as iterators stepped in a drawn order - and each alone '
        'in a process of its own; non-trivial = at least two jobs ran and at least two switches happened while both were unfinished')
STATE_MEASURE = 'distinct places (file, line) where a thread lost the processor to another, and (job kinds, mode, sharing)'
REAL = ['pdfmajor.interpreter', 'pdfmajor.parser', 'pdfmajor.converters', 'CPython threads (switched by the simulator)', 'Python buffered I/O layers']
STUB = ['thread scheduling (sim/sched.py)', 'locks the package might create', 'raw file layer', 'installed CMap files']
ASSUMPTIONS = ['one document object is used by one thread at a time', 'switches happen between bytecodes of the package, not inside of the C library']
PROBES = ['threads', 'iterators', 'bytecodes', 'same-file', 'other-file', 'read', 'pages', 'convert', 'objects', 'intern', 'predefined-cmap', 'switched',
          'switched-often', 'same-process-again', 'revision', 'interned-shared', 'hot-functions']


# --------------------------------------------------------------------- jobs
def job_read(spec, out):
    from pdfmajor.interpreter import PDFInterpreter
    it = PDFInterpreter(spec['path'], password='', **spec['kw'])
    yield
    for p in it:
        out.append(('page', p.page.pageid, observe.page_head(p)))
        yield
        for item in p:
            out.append((observe.meaning(item), observe.detail(item)))
            yield


def job_pages(spec, out):
    """the items of several pages of a document, a few at a time"""
    from pdfmajor.interpreter import PDFInterpreter
    import random
    rng = random.Random(spec['order'])
    doc = PDFInterpreter(spec['path'], password='', **spec['kw'])
    walk = iter(doc)
    lanes = {}
    k = 0
    while walk is not None or lanes:
        pick = rng.randrange(len(lanes) + 2)
        if walk is not None and (pick >= len(lanes) or not lanes):
            p = next(walk, None)
            if p is None:
                walk = None
            else:
                lanes[k] = (iter(p), p.page.pageid)
                k += 1
        elif lanes:
            key = sorted(lanes)[min(pick, len(lanes) - 1)]
            it, num = lanes[key]
            item = next(it, None)
            if item is None:
                del lanes[key]
            else:
                out.append((key, num, observe.meaning(item), observe.detail(item)))
        yield
    out.sort(key=lambda x: x[0])


def job_convert(spec, out):
    from pdfmajor.converters import convert_file
    yield
    convert_file(spec['path'], spec['out'], out_type=spec['fmt'], password='', **spec['kw'])
    yield
    with open(spec['out'], 'rb') as fp:
        out.append(fp.read())


def job_objects(spec, out):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    fp = open(spec['path'], 'rb')
    try:
        doc = PDFDocument(PDFParser(fp), '', **spec['kw'])
        yield
        for n in spec['nums']:
            o = doc.getobj(n)
            check(sut.literal_ok(getattr(o, 'attrs', o)), 'interning', 'object %d holds a name or keyword that is not the interned one', n)
            out.append((n, got_obj(o)))
            yield
    finally:
        fp.close()


def job_intern(spec, out):
    from pdfmajor.parser.PSStackParser import LIT, KWD, PSLiteral, PSKeyword
    seen = spec['seen']
    for kind, n in spec['names']:
        o = (LIT if kind else KWD)(n)
        check(isinstance(o, PSLiteral if kind else PSKeyword) and o.name == n, 'interning', 'interning %r gives %r', n, o)
        seen.append((kind, n, o))
        yield


JOBS = dict(read=job_read, pages=job_pages, convert=job_convert, objects=job_objects, intern=job_intern)


def result(spec, drive):
    """run one job with the given driver -> comparable result"""
    out = []
    try:
        drive(JOBS[spec['kind']](spec, out))
    except (core.Violation, core.Discard, sched.Killed):
        raise
    except Exception as e:
        out.append(('raised', core.describe_exc(e)))
    return out


def straight(gen):
    for _ in gen:
        pass


def alone(spec):
    """the job in a process of its own, where nothing was read before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', result(dict(spec, seen=[]), straight)))
            except core.Violation as v:
                data = pickle.dumps(('violation', (v.kind, v.message)))
            with os.fdopen(w, 'wb') as fp:
                fp.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    how, v = pickle.loads(data)
    if how == 'violation':
        raise core.Violation(*v)
    return v


def diff(name, got, want, what):
    if got == want:
        return
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            raise core.Violation('result', '%s %s: entry %d is %s, alone %s' % (name, what, i, sut.short(a, 700), sut.short(b, 700)))
    raise core.Violation('result', '%s %s: %d entries, alone %d (next: %s)' % (name, what, len(got), len(want), sut.short((got + want)[min(len(got), len(want))])))


# ----------------------------------------------------------------- documents


def documents(ch, ctx, fs):
    ch = ch.sub('docs')
    o = pdfgen.Opts(apart=10, pages=(1, 2), ops=(0, 2), fonts=(1, 2), forms=(0, 1), images=(0, 1), misc=(0, 1), font_kinds=pdfgen.FONT_KINDS_CMAP)
    docs = []
    n = ch.int(1, 3)
    for i in range(n):
        if docs and ch.bool(30):
            # the same document, edited
            d = pdfgen.evolve(ch.sub('edit'), docs[-1][0])
            ctx.probe('revision')
        else:
            d = pdfgen.gen_doc(ch, o)
        saved = pdfsave.save_doc(ch.sub('save'), [d])
        path = fs.put('in%d.pdf' % i, saved.data)
        docs.append((d, path))
        if any(f.kind == 'cmap' for r in d.res for f in r.fonts):
            ctx.probe('predefined-cmap')
    return docs


def run(ch, ctx):
    for v in ('CMAP_PATH',):
        os.environ.pop(v, None)
    with simfs.FS(ch.sub('fs'), ctx) as fs:
        simfs.install_cmaps(fs)
        cs = ch.sub('jobs')
        mode = cs.choice(['threads', 'threads', 'threads', 'iterators', 'intern'])
        jobs = []
        if mode == 'intern':
            pool = ['V%d' % i for i in range(cs.int(1, 5))] + ['Page', 'obj']
            for k in range(cs.int(2, 4)):
                names = []
                for _ in range(cs.int(1, 8)):
                    lit = cs.bool()
                    n = cs.choice(pool)
                    names.append((lit, n if lit else n.encode()))
                jobs.append(dict(name='%s%d' % ('job', k), kind='intern', names=names, seen=[]))
            docs = []
            fine = cs.bool(80)
        else:
            docs = documents(ch, ctx, fs)
            fine = mode == 'threads' and cs.bool(15)
            for k in range(cs.int(2, 4)):
                d, path = cs.choice(docs)
                kind = cs.choice(['read', 'read', 'pages', 'convert', 'convert', 'objects', 'intern'] if k else ['read', 'convert', 'objects'])
                s = dict(name='job%d' % k, kind=kind, path=path)
                if kind in ('read', 'pages'):
                    s['kw'] = dict(caching=cs.bool(70), preload=cs.bool(25))
                    s['order'] = cs.draw(1 << 16)
                    s['doc'] = d
                elif kind == 'convert':
                    s['fmt'] = cs.choice(['text', 'json', 'xml', 'html', 'yaml'])
                    s['out'] = fs.path('out%d.%s' % (k, s['fmt']))
                    s['kw'] = dict(caching=cs.bool(70))
                elif kind == 'objects':
                    s['kw'] = dict(caching=cs.bool(60))
                    nums = sorted(d.objs)
                    s['nums'] = cs.sample(nums, min(len(nums), cs.int(3, 30)))
                    if cs.bool(30):
                        s['nums'] += s['nums'][:5]
                    s['doc'] = d
                else:
                    names = ['Page', 'Font', 'Contents', 'MediaBox', 'F0', 'Im0', 'Encoding', 'BT', 'Tf', 'Tj', 'VSimA-H', 'stream', 'Fx0', 'TTF0']
                    s['names'] = []
                    for n in cs.sample(names, cs.int(1, 10)):
                        lit = cs.bool()
                        s['names'].append((lit, n if lit else n.encode()))
                    s['seen'] = []
                jobs.append(s)
        paths = [s.get('path') for s in jobs if s.get('path')]
        if len(set(paths)) < len(paths):
            ctx.probe('same-file')
        if len(set(paths)) > 1:
            ctx.probe('other-file')
        for s in jobs:
            ctx.probe(s['kind'])
            ctx.log('%s: %s %s' % (s['name'], s['kind'], {k: (os.path.basename(v) if k in ('path', 'out') else v) for k, v in s.items() if k not in ('doc', 'seen', 'name', 'kind')}))
        want = [alone(s) if s['kind'] != 'intern' else [] for s in jobs]
        for s, w in zip(jobs, want):
            against_model(s, w)
        got = [None] * len(jobs)
        sc = ch.sub('schedule')
        ctx.state((tuple(sorted(s['kind'] for s in jobs)), mode, fine, len(set(paths))))
        if mode == 'iterators':
            ctx.probe('iterators')
            switched = interleave(sc, ctx, jobs, got)
        else:
            ctx.probe('threads')
            if fine:
                ctx.probe('bytecodes')
            style = sc.draw(6)
            # no 'io' and 'new' lines where there are none
            spans = {0: [(1, 'end'), (8, 'line'), (8, 'new'), (5, 'io')], 1: [(1, 'end'), (30, 'new'), (4, 'line')],
                     2: [(1, 'line')], 3: [(1, 'end'), (15, 'line')],
                     4: [(1, 'hot')], 5: [(1, 'end'), (20, 'hot')]}[style if mode != 'intern' else 2 + style % 2]
            if sc.bool(20):
                lim = sc.int(200, 1500)
            else:
                lim = 1 + sc.draw(1 << sc.int(2, 8))
            s = sched.Scheduler(sc, ctx, fine, lim, spans)
            fs.hook = s.io
            if style > 3 and mode != 'intern':
                # threads meet inside of few functions, each of which counts for so long
                s.hot_of = sc.choice([4, 12, 40])
                s.hot = sc.draw(s.hot_of)
                s.hot_cap = sc.choice([10, 40, 200])
                lim = 4000
                s.max_switches = lim
                ctx.probe('hot-functions')
            for k, spec in enumerate(jobs):
                def body(k=k, spec=spec):
                    got[k] = result(spec, straight)
                s.add(spec['name'], body)
            s.run()
            fs.hook = None
            for t in s.tasks:
                if t.exc is not None:
                    raise t.exc
            switched = ctx.faults.get('preemption', 0)
        if switched:
            ctx.probe('switched')
        if switched >= 50:
            ctx.probe('switched-often')
        ctx.nontrivial = len(jobs) > 1 and switched >= 2
        for s, g, w in zip(jobs, got, want):
            if s['kind'] != 'intern':
                diff(s['name'], g, w, 'together with the others')
        check_interned(ctx, jobs)
        ctx.digest(want)
        # what is left behind does not matter either
        again = [s for s in jobs if s['kind'] != 'intern']
        if again and cs.bool(40):
            s = cs.choice(again)
            diff(s['name'], result(s, straight), alone_of(jobs, want, s), 'after the others')
            ctx.probe('same-process-again')
        del got
        import gc
        gc.collect()
        check(not fs.open_handles(), 'handles', 'files left open: %s', fs.open_handles())


def alone_of(jobs, want, s):
    return want[[j is s for j in jobs].index(True)]


def against_model(s, got):
    """alone, a job gets what the document says"""
    for x in got:
        check(x[0] != 'raised' if isinstance(x, tuple) else True, 'exception', '%s alone: %s', s['name'], x[-1] if isinstance(x, tuple) else '')
    d = s.get('doc')
    if d is None:
        return
    if s['kind'] == 'read':
        want = []
        for p in d.pages:
            want.append(p.num)
            want += list(p.items)
        have = [x[1] if x[0] == 'page' else x[0] for x in got]
        check(have == want, 'model', '%s alone: %s, the document says %s', s['name'], sut.short(have, 400), sut.short(want, 400))
    elif s['kind'] == 'pages':
        want = [(p.num, i) for p in d.pages for i in p.items]
        have = [(x[1], x[2]) for x in got]
        check(have == want, 'model', '%s alone: %s, the document says %s', s['name'], sut.short(have, 400), sut.short(want, 400))
    elif s['kind'] == 'objects':
        for n, v in got:
            check(v == want_obj(d, n), 'model', '%s alone: object %d is %s, the document says %s', s['name'], n, sut.short(v), sut.short(want_obj(d, n)))


def check_interned(ctx, jobs):
    from pdfmajor.parser.PSStackParser import LIT, KWD
    first = {}
    for s in jobs:
        for kind, n, o in s.get('seen', ()):
            k = (kind, n)
            if k in first:
                ctx.probe('interned-shared')
                check(first[k] is o, 'interning', '%s got another object for %r than a job before', s['name'], n)
            first[k] = o
            check((LIT if kind else KWD)(n) is o, 'interning', '%s got an object for %r that is not the interned one', s['name'], n)


def interleave(sc, ctx, jobs, got):
    live = []
    for k, s in enumerate(jobs):
        out = []
        live.append((k, s, JOBS[s['kind']](s, out), out))
    last, switched = None, 0
    while live:
        k, s, gen, out = e = sc.choice(live)
        n = sc.choice([1, 1, 2, 5, 1000])
        if last is not None and last != k:
            switched += 1
            ctx.fault('switch')
        last = k
        try:
            for _ in range(n):
                ctx.steps += 1
                next(gen)
        except StopIteration:
            live.remove(e)
            got[k] = out
        except (core.Violation, core.Discard):
            raise
        except Exception as x:
            live.remove(e)
            out.append(('raised', core.describe_exc(x)))
            got[k] = out
    return switched
