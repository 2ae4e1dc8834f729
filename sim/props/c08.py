"""C08: a failing read is reported, never turned into missing content."""
import errno
import os

from sim import core, pdfgen, pdfsave, sut, observe, fs as simfs
from sim.sut import check
from sim.props import c05

ID = 'C08'
RUNS_QUICK = 7000
RUNS_THOROUGH = 240000
RULE = ('one run = one generated document and either (a) a seeded schedule of operations on lazily read documents (open, getobj, '
        'references, stream data, page walks, item iteration, outlines, destinations) or (b) whole-file operations (interpreter '
        'iteration, conversion) on the simulated file system, with a read made to fail at a drawn point of drawn operations, each '
        'followed by retries; non-trivial = at least one read failed inside an operation that was then retried to completion')
STATE_MEASURE = 'distinct (operation, how deep into its reads the failure came, error, previous operation, failures so far)'
REAL = ['pdfmajor.parser', 'pdfmajor.interpreter', 'pdfmajor.converters', 'Python buffered I/O layers (whole-file operations)']
STUB = ['input file object / raw file layer (simulated failures, short and interrupted reads)']
ASSUMPTIONS = ['a failed read consumes nothing', 'the file does not change', 'the error of a read is an OSError']
PROBES = ['rehearsed', 'apart', 'op-open', 'op-op_get', 'op-op_follow', 'op-op_pages', 'op-op_items', 'op-op_outline', 'op-op_dest', 'op-op_fallback',
          'fault-at-first-read', 'fault-later', 'retried', 'fault-not-reached', 'path-iterate', 'path-convert', 'path-open-fault', 'path-read-fault',
          'benign-reads', 'items-shared-fonts', 'damaged-xref', 'no-page-tree']

ERRNOS = [errno.EIO, errno.ESTALE, errno.ETIMEDOUT, errno.EBADF, errno.ENOENT, errno.EAGAIN]


class Run(c05.Run):
    """C05's operations; each may meet a failing read"""

    def __init__(self, *a):
        c05.Run.__init__(self, *a)
        self.fonts = {}
        self.nfail = 0
        self.first_pages = {}
        self.no_tree = False

    def attempt(self, d, op, name, *args):
        """op with a read failing somewhere inside it, then again without"""
        ch, ctx = self.ch, self.ctx
        inp = d.inp
        planned = ch.bool(55)
        depth = 0
        if planned:
            depth = ch.weighted([(5, 0), (3, 1), (2, ch.int(2, 6)), (1, ch.int(7, 40))])
            if d.reads and ch.bool(60):
                # of an operation rehearsed: anywhere in it, or near its end
                depth = ch.draw(d.reads) if ch.bool() else max(0, d.reads - 1 - ch.draw(6))
                ctx.probe('rehearsed')
            e = ch.choice(ERRNOS)
            inp.faults = {inp.nreads + 1 + depth: e}
        before = inp.fired
        try:
            op(d, *args)
        except core.Violation as v:
            fired = inp.fired > before
            inp.faults = {}
            if not fired:
                raise
            if not v.kind.startswith('exception:') or not self.same_error(v, e):
                raise core.Violation('masked:' + v.kind, '%s: a read failed (%s) but the operation answered: %s' % (name, os.strerror(e), v.message)) from None
            self.failed(d, name, depth, e)
            ctx.log('%s raised it' % name)
            # what was under way is over; the document itself goes on
            d.walk = d.owalk = d.iwalk = None
            if ch.bool(60):
                op(d, *args)
                ctx.probe('retried')
                ctx.nontrivial = True
        else:
            fired = inp.fired > before
            inp.faults = {}
            if fired:
                raise core.Violation('swallowed', '%s: a read failed (%s) inside it, yet it returned normally' % (name, os.strerror(e)))
            if planned:
                ctx.probe('fault-not-reached')

    def same_error(self, v, e):
        """the exception that came out is the one the read raised"""
        return os.strerror(e) in v.message

    def failed(self, d, name, depth, e):
        self.nfail += 1
        self.ctx.probe('op-' + name)
        self.ctx.probe('fault-at-first-read' if depth == 0 else 'fault-later')
        self.ctx.state((name, min(depth, 8), errno.errorcode[e], self.prev, min(self.nfail, 3)))

    def op_items(self, d):
        """interpret a page whose objects are read on the way"""
        from pdfmajor.interpreter import PageInterpreter
        from pdfmajor.parser.PDFPage import PDFPage
        ch = self.ch
        if d.iwalk is None:
            if not self.doc.pages:
                return
            i = ch.draw(len(self.doc.pages))
            pages = sut.call('create_pages', lambda: list(PDFPage.create_pages(d.sut)))
            ids, want = [p.pageid for p in pages], [m.num for m in self.doc.pages]
            if self.no_tree:
                ids, want = sorted(ids), sorted(want)
            check(ids == want, 'pages', 'pages are %r, expected %r', ids, want)
            m = [m for m in self.doc.pages if m.num == pages[i].pageid][0]
            if d.fonts:
                self.ctx.probe('items-shared-fonts')
            p = sut.call('PageInterpreter', PageInterpreter, pages[i], i, d.fonts)
            d.iwalk = (iter(p), m, [0])
            self.ctx.log('%s items of page %d' % (d.name, i))
        it, m, at = d.iwalk
        want = m.items
        for _ in range(ch.choice([1, 3, 200])):
            try:
                x = sut.call('page object %d: item %d' % (m.num, at[0]), next, it, allow=(StopIteration,))
            except sut.Expected:
                check(at[0] == len(want), 'items', 'page object %d: %d items, expected %d', m.num, at[0], len(want))
                d.iwalk = None
                break
            check(at[0] < len(want), 'items', 'page object %d: more than %d items', m.num, len(want))
            got = sut.call('page object %d: item %d' % (m.num, at[0]), observe.meaning, x)
            check(got == want[at[0]], 'items', 'page object %d: item %d is %s, expected %s', m.num, at[0], sut.short(got), sut.short(want[at[0]]))
            at[0] += 1
        self.note('items', None, d)


def lazy(ch, ctx, docs, saved, next_num, no_tree):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PSStackParser import PSBaseParser
    saved.next_num = next_num
    r = Run(ch, ctx, docs, saved)
    r.nums = sorted(docs[-1].objs)
    r.no_tree = no_tree
    knob = ch.choice([None, 512, 64, 256, 31])
    if knob and hasattr(PSBaseParser, 'BUFSIZ'):
        PSBaseParser.BUFSIZ = knob
        ctx.log('block size %d' % knob)
    data = saved.data
    if ch.bool(10) and saved.kinds == ['table'] and len(docs) == 1:
        # the section is found by scanning the file, which reads all of it
        i = data.rindex(b'startxref')
        data = data[:i] + b'startxref\n7\n%%EOF\n'
        ctx.probe('damaged-xref')
        r.fallback_only = True
    else:
        r.fallback_only = False

    def open_doc(name):
        caching = not ch.bool(35)
        mode = ch.choice(['full', 'full', 'half', 'random'])
        if mode != 'full':
            ctx.probe('benign-reads')
        inp = sut.SimInput(data, ch, ctx, mode)
        h = c05.Handle(name, None, caching)
        h.inp, h.iwalk, h.fonts, h.reads = inp, None, {}, None
        if ch.bool(60):
            other = sut.SimInput(data, ch, ctx, mode)
            sut.call('PDFDocument', PDFDocument, sut.call('PDFParser', PDFParser, other), caching=caching)
            h.reads = other.nreads

        def op_open(h):
            p = sut.call('PDFParser', PDFParser, inp)
            h.sut = sut.call('PDFDocument', PDFDocument, p, caching=caching)
            ctx.log('%s: open, caching=%s reads=%s' % (name, caching, mode))
        for _ in range(4):
            r.attempt(h, op_open, 'open' if not r.fallback_only else 'op_fallback')
            if h.sut is not None:
                break
        h.reads = None
        if h.sut is None:
            op_open(h)
        return h

    hs = [open_doc('A')]
    if ch.bool(15):
        hs.append(open_doc('B'))
    ops = [(4, r.op_get), (3, r.op_follow), (1, r.op_again), (3, r.op_pages), (4, r.op_items), (1, r.op_outline), (1, r.op_dest), (1, r.op_head), (1, r.op_missing)]
    for _ in range(ch.int(4, 24)):
        d = ch.choice(hs)
        op = ch.weighted(ops)
        r.attempt(d, op, op.__name__)
    if ch.bool(30):
        for num in (ch.shuffle(r.nums) if len(r.nums) < 60 else r.nums[:60]):
            r.op_get(hs[0], num)
    while hs[0].iwalk or hs[0].walk:
        r.op_items(hs[0]) if hs[0].iwalk else r.op_pages(hs[0])


def by_path(ch, ctx, docs, saved, no_tree):
    from pdfmajor.interpreter import PDFInterpreter
    from pdfmajor.converters import convert_file
    doc = docs[-1]
    with simfs.FS(ch, ctx) as fs:
        fs.read_unit = ch.choice([8192, 64, 512])
        path = fs.put('in.pdf', saved.data)
        caching = not ch.bool(30)
        preload = ch.bool(30)
        convert = ch.bool(35)
        out_type = ch.choice(['text', 'json', 'xml', 'html', 'yaml']) if convert else None

        def iterate(it):
            got = []
            for p in it:
                items = [observe.meaning(x) for x in p]
                got.append((p.page.pageid, tuple(items)))
            return got

        want = [(p.num, tuple(p.items)) for p in doc.pages]

        def whole():
            if convert:
                convert_file(path, fs.path('out.' + out_type), out_type=out_type, password='')
                return fs.get('out.' + out_type)
            if holder[0] is None:
                holder[0] = PDFInterpreter(path, password='', caching=caching, preload=preload)
            return iterate(holder[0])

        holder = [None]
        fs.arm()
        ref = sut.call('dry run', whole)
        if not convert:
            check((sorted(ref) == sorted(want)) if no_tree else ref == want, 'items', 'without any fault: %s, expected %s', sut.short(ref), sut.short(want))
        trace = list(fs.trace)
        ctx.probe('path-convert' if convert else 'path-iterate')
        nfail = 0
        keep = ch.bool(50)
        for k in range(ch.int(1, 5)):
            if not (keep and k):
                holder[0] = None
            only = lambda kind, rel: rel == 'in.pdf' and kind in ('open-r', 'read', 'seek')
            benign = ch.bool(20)
            f = fs.pick_fault(trace, benign, only)
            if f is None:
                return
            fs.always_short = ch.bool(20)
            fs.arm(f)
            ctx.log('attempt %d: %s%s' % (k, f, ' short reads' if fs.always_short else ''))
            try:
                got = sut.call('attempt %d' % k, whole, allow=(OSError,))
            except sut.Expected as e:
                check(fs.fired and not benign, 'exception:OSError', 'attempt %d: %s although nothing failed', k, core.describe_exc(e.exc))
                check(getattr(errno, f.kind.split('-')[-1]) == e.exc.errno, 'masked', '%s was answered by %s', f, core.describe_exc(e.exc))
                nfail += 1
                ctx.probe('path-open-fault' if f.kind.startswith('open') else 'path-read-fault')
                ctx.state(('path', convert, f.kind, min(f.at, 6), caching, preload, min(nfail, 3)))
            else:
                check(not fs.fired or benign, 'swallowed', '%s, yet the operation returned normally', f)
                check(got == ref, 'content', 'attempt %d gives %s, expected %s', k, sut.short(got), sut.short(ref))
            fs.disarm()
            check(not fs.open_handles(), 'handles', 'files left open: %s', fs.open_handles())
        got = sut.call('after the faults', whole)
        check(got == ref, 'content', 'after %d failures: %s, expected %s', nfail, sut.short(got), sut.short(ref))
        if nfail:
            ctx.nontrivial = True
            ctx.probe('retried')


def run(ch, ctx):
    o = pdfgen.Opts(apart=10, outlines=35, dests=35, misc=(0, 4), ops=(0, 3), images=(0, 1), forms=(0, 1), sparse=4)
    docs = [pdfgen.gen_doc(ch, o)]
    for k in docs[0].probes:
        ctx.probe(k) if k in ('apart', 'sibling-font') else None
    while len(docs) < 3 and ch.bool(30):
        docs.append(pdfgen.evolve(ch, docs[-1]))
    no_tree = ch.bool(8)
    if no_tree:
        pdfgen.drop_page_tree(docs[-1])
    style = pdfsave.Style()
    path_mode = ch.bool(25)
    s = pdfsave.Saver(ch, style)
    for d in docs:
        s.save(d)
    saved = s.finish()
    for l in saved.log:
        ctx.log(l)
    if path_mode:
        by_path(ch, ctx, docs, saved, no_tree)
    else:
        lazy(ch, ctx, docs, saved, s.next, no_tree)
