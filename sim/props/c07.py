"""C07: iterating a document delivers its pages in order, once, every time."""
import errno

from sim import core, pdfgen, pdfsave, sut, observe, fs as simfs
from sim.syntax import Name, Ref
from sim.sut import check

ID = 'C07'
RUNS_QUICK = 7000
RUNS_THOROUGH = 220000
RULE = ('one run = one generated document on the simulated file system, one or two interpreters over it (preload, pagenos, maxpages, '
        'caching drawn) and a seeded schedule of: start an iteration, advance it, abandon it, iterate items of a page already '
        'delivered, advance, abandon - all interleaved, with opens and reads that fail at drawn moments; non-trivial = two '
        'iterations overlapped, or one was abandoned or failed and a later one ran to the end')
STATE_MEASURE = 'distinct (operation, iterations alive, items iterations alive, preloaded, finished iterations before, faults so far)'
REAL = ['pdfmajor.interpreter (PDFInterpreter, PageInterpreter and below)', 'pdfmajor.parser', 'Python buffered I/O layers']
STUB = ['raw file layer (simulated failures and short reads)']
ASSUMPTIONS = ['the file does not change while it is used', 'pagenos and maxpages are not combined']
PROBES = ['sibling-font', 'chain', 'apart', 'preload', 'pagenos', 'maxpages', 'overlap', 'abandoned', 'failed-open', 'failed-read', 'complete-after-abandoned', 'complete-after-failed',
          'second-complete', 'no-pages', 'no-pages-selected', 'page-reiterated', 'page-items-overlap', 'page-after-end', 'bad-page', 'two-interpreters']


class Bad(Exception):
    pass


class PageRun:
    """one iteration over the items of a page"""

    def __init__(self, page, model, detail, tag):
        self.page, self.model, self.detail, self.tag = page, model, detail, tag
        self.it = iter(page)
        self.n = 0
        self.got = []


class Sim:
    def __init__(self, ch, ctx, fs, doc, bad):
        self.ch, self.ctx, self.fs, self.doc, self.bad = ch, ctx, fs, doc, bad
        self.iters = []
        self.items = []
        self.delivered = []      # (page object, model page, record dict)
        self.finished = 0
        self.abandoned = 0
        self.failed = 0
        self.nfaults = 0
        self.details = {}

    def note(self, op, h):
        self.ctx.state((op, min(len(self.iters), 3), min(len(self.items), 3), h.preload if h else None,
                        min(self.finished, 2), min(self.abandoned, 1), min(self.nfaults, 2)))
        self.ctx.steps += 1

    # ------------------------------------------------- iterating documents
    def start(self, h):
        it = iter(h.sut)
        self.ctx.log('%s: start iteration %d' % (h.name, h.serial))
        rec = dict(h=h, it=it, at=0, tag='%s#%d' % (h.name, h.serial), fresh=True)
        h.serial += 1
        self.iters.append(rec)
        if len(self.iters) > 1:
            self.ctx.probe('overlap')
        self.note('start', h)

    def advance(self):
        if not self.iters:
            return self.start(self.ch.choice(self.hs))
        rec = self.ch.choice(self.iters)
        h = rec['h']
        k = self.ch.choice([1, 1, 2, 50])
        for _ in range(k):
            if not self.step(rec):
                break
        self.note('advance', h)

    def step(self, rec):
        from pdfmajor.execptions import EmptyDocumentError
        h = rec['h']
        fault = None
        if self.ch.bool(12 if rec['fresh'] else 3):
            # fails wherever in the operations this step makes (if it makes that many)
            kind = self.ch.choice(['open-EMFILE', 'read-EIO', 'read-EIO', 'open-EACCES'])
            fault = simfs.Fault(kind, 0 if kind.startswith('open') else 1 + self.ch.draw(3))
        self.fs.arm(*([fault] if fault else []))
        want = h.want
        try:
            p = sut.call('%s: page %d' % (rec['tag'], rec['at']), next, rec['it'], allow=(StopIteration, OSError, EmptyDocumentError))
        except sut.Expected as e:
            self.iters.remove(rec)
            if isinstance(e.exc, StopIteration):
                check(not self.fs.fired, 'swallowed', '%s: ended normally although %s', rec['tag'], self.fs.fired)
                check(rec['at'] == len(want), 'pages', '%s ended after %d of %d pages', rec['tag'], rec['at'], len(want))
                check(want, 'no-pages', '%s: no pages selected, and no error', rec['tag'])
                self.ctx.log('%s: complete' % rec['tag'])
                if self.abandoned:
                    self.ctx.probe('complete-after-abandoned')
                    self.ctx.nontrivial = True
                if self.failed:
                    self.ctx.probe('complete-after-failed')
                    self.ctx.nontrivial = True
                if h.finished:
                    self.ctx.probe('second-complete')
                    self.ctx.nontrivial = True
                h.finished += 1
                self.finished += 1
            elif isinstance(e.exc, OSError):
                check(self.fs.fired, 'exception:OSError', '%s: %s although nothing failed', rec['tag'], core.describe_exc(e.exc))
                self.failed += 1
                self.nfaults += 1
                self.ctx.probe('failed-open' if self.fs.fired[0].startswith('open') else 'failed-read')
            else:
                check(not want and rec['at'] == 0, 'no-pages', '%s: %s after %d of %d pages', rec['tag'], core.describe_exc(e.exc), rec['at'], len(want))
                self.ctx.probe('no-pages' if not self.doc.pages else 'no-pages-selected')
            return False
        finally:
            self.fs.disarm()
        rec['fresh'] = False
        check(not self.fs.fired, 'swallowed', '%s: page %d delivered although %s', rec['tag'], rec['at'], self.fs.fired)
        check(rec['at'] < len(want), 'pages', '%s delivers more than the %d selected pages', rec['tag'], len(want))
        m = want[rec['at']]
        check(p.page.pageid == m.num, 'order', '%s: page %d is object %r, expected %d', rec['tag'], rec['at'], p.page.pageid, m.num)
        check((p.width, p.height) == observe.size_of(m) and p.page.rotate == m.rotate, 'page',
              '%s: page %d has size %r rotate %r, expected %r %r', rec['tag'], rec['at'], (p.width, p.height), p.page.rotate, observe.size_of(m), m.rotate)
        if not h.selects:
            check(p.page_num == rec['at'], 'page', '%s: page %d has number %r', rec['tag'], rec['at'], p.page_num)
        self.delivered.append((p, m, rec['tag'], h))
        rec['at'] += 1
        return True

    def abandon(self):
        if not self.iters:
            return self.start(self.ch.choice(self.hs))
        rec = self.ch.choice(self.iters)
        self.iters.remove(rec)
        self.ctx.log('%s: abandoned after %d pages' % (rec['tag'], rec['at']))
        if self.ch.bool() and hasattr(rec['it'], 'close'):
            sut.call('close', rec['it'].close)
        if rec['at']:
            self.abandoned += 1
            self.ctx.probe('abandoned')
        self.note('abandon', rec['h'])

    # ---------------------------------------------------- iterating pages
    def page_start(self):
        if not self.delivered:
            return self.advance()
        p, m, tag, h = self.ch.choice(self.delivered[-8:])
        if not any(r['tag'] == tag for r in self.iters):
            self.ctx.probe('page-after-end')
        r = PageRun(p, m, None, '%s page object %d' % (tag, m.num))
        if any(q.page is p for q in self.items):
            self.ctx.probe('page-items-overlap')
        if getattr(p, '_vsim_seen', False):
            self.ctx.probe('page-reiterated')
        p._vsim_seen = True
        self.items.append(r)
        self.ctx.log('%s: start reading items' % r.tag)
        self.note('page-start', h)
        self.page_step(r)

    def page_advance(self):
        if not self.items:
            return self.page_start()
        self.page_step(self.ch.choice(self.items))
        self.note('page-advance', None)

    def page_step(self, r):
        from pdfmajor.execptions import InvalidOperation
        want = list(r.model.items)
        for _ in range(self.ch.choice([1, 1, 3, 100])):
            try:
                it = sut.call('%s: item %d' % (r.tag, r.n), next, r.it, allow=(StopIteration, InvalidOperation))
            except sut.Expected as e:
                self.items.remove(r)
                if isinstance(e.exc, InvalidOperation):
                    check(r.model.num in self.bad, 'exception:InvalidOperation', '%s: %s', r.tag, core.describe_exc(e.exc))
                    self.ctx.probe('bad-page')
                else:
                    check(r.model.num not in self.bad, 'bad-page', '%s: ended although its content is invalid', r.tag)
                check(r.n == len(want), 'items', '%s: %d items, expected %d', r.tag, r.n, len(want))
                return
            check(r.n < len(want), 'items', '%s: more than %d items', r.tag, len(want))
            m = sut.call('%s: item' % r.tag, observe.meaning, it)
            check(m == want[r.n], 'items', '%s: item %d is %s, expected %s', r.tag, r.n, sut.short(m), sut.short(want[r.n]))
            d = observe.detail(it)
            first = self.details.setdefault((r.model.num, r.n), d)
            check(d == first, 'detail', '%s: item %d is %s this time, before %s', r.tag, r.n, sut.short(d), sut.short(first))
            r.n += 1

    def page_abandon(self):
        if self.items:
            r = self.ch.choice(self.items)
            self.items.remove(r)
            self.ctx.log('%s: items abandoned after %d' % (r.tag, r.n))
        else:
            self.page_start()


class Handle:
    pass


def run(ch, ctx):
    from pdfmajor.interpreter import PDFInterpreter
    from pdfmajor.execptions import EmptyDocumentError
    o = pdfgen.Opts(apart=15, chain=6, pages=(1, 6), ops=(0, 4), forms=(0, 1), images=(0, 1), misc=(0, 1), empty_pages=15, sparse=4)
    doc = pdfgen.gen_doc(ch, o)
    for k in doc.probes:
        ctx.probe(k) if k in ('apart', 'sibling-font', 'chain') else None
    empty = ch.bool(6)
    bad = set()
    if empty:
        d = dict(doc.objs[doc.pages_root], Kids=[], Count=0)
        for n in [p.num for p in doc.pages]:
            del doc.objs[n]
        doc.set(doc.pages_root, d)
        doc.pages = []
        # nodes of a former tree must not be taken for pages
    else:
        for p in doc.pages:
            if p.content_nums and ch.bool(10):
                n = p.content_nums[-1]
                s = doc.objs[n]
                doc.objs[n] = pdfgen.Stream(s.data + b'\n/NoSuchFont 12 Tf\nBT ET', dict(s.attrs), [f for f in s.filters if f != 'CCITTFaxDecode'])
                bad.add(p.num)
    saved = pdfsave.save_doc(ch, [doc])
    with simfs.FS(ch, ctx) as fs:
        path = fs.put('in.pdf', saved.data)
        sim = Sim(ch, ctx, fs, doc, bad)
        sim.hs = []
        for i in range(2 if ch.bool(25) else 1):
            h = Handle()
            h.name = 'AB'[i]
            kw = {}
            h.want, h.selects = list(doc.pages), False
            n = len(doc.pages)
            sel = ch.draw(4)
            if sel == 2:
                nos = ch.sample(range(n + 2), ch.int(1, n + 1))
                kw['pagenos'] = nos if ch.bool() else set(nos)
                h.want = [p for k, p in enumerate(doc.pages) if k in nos]
                h.selects = True
                ctx.probe('pagenos')
            elif sel == 3:
                m = ch.int(0, n + 1)
                kw['maxpages'] = m
                h.want = doc.pages[:m] if m else list(doc.pages)
                ctx.probe('maxpages')
            kw['caching'] = ch.bool(70)
            h.preload = ch.bool(35)
            h.serial = 0
            h.finished = 0
            ctx.log('%s: %s preload=%s pages=%d want=%s bad=%s' % (h.name, {k: v for k, v in kw.items()}, h.preload, n, [p.num for p in h.want], sorted(bad)))
            fs.always_short = ch.bool(20)
            try:
                h.sut = sut.call('PDFInterpreter', PDFInterpreter, path, preload=h.preload, password='', **kw,
                                 allow=(EmptyDocumentError,) if h.preload else ())
            except sut.Expected as e:
                check(not h.want, 'no-pages', 'preload: %s although %d pages are selected', core.describe_exc(e.exc), len(h.want))
                ctx.probe('no-pages' if not doc.pages else 'no-pages-selected')
                h.preload = False
                h.sut = sut.call('PDFInterpreter', PDFInterpreter, path, password='', **kw)
            else:
                check(h.want or not h.preload, 'no-pages', 'preload of no pages succeeds')
                if h.preload:
                    ctx.probe('preload')
            sim.hs.append(h)
        if len(sim.hs) > 1:
            ctx.probe('two-interpreters')
        fs.always_short = False
        ops = [lambda: sim.start(ch.choice(sim.hs)), sim.advance, sim.advance, sim.advance, sim.abandon,
               sim.page_start, sim.page_start, sim.page_advance, sim.page_advance, sim.page_abandon]
        for _ in range(ch.int(5, 40)):
            ch.choice(ops)()
            if len(sim.iters) > 4:
                sim.abandon()
        # whatever happened, a last iteration of everything is complete
        for h in sim.hs:
            sim.iters = []
            sim.start(h)
            for _ in range(200):
                if not sim.iters:
                    break
                sim.step(sim.iters[0])
        while sim.items:
            sim.page_step(sim.items[0])
        if ctx.probes.get('overlap'):
            ctx.nontrivial = True
        check(not fs.open_handles(), 'handles', 'files left open: %s', fs.open_handles())
