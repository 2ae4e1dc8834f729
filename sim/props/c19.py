"""C19: an operation that is interrupted can be repeated."""
import gc

from sim import core, crypt, pdfgen, pdfsave, sut, observe, interrupt, fs as simfs
from sim.sut import check
from sim.props import c05, c08

ID = 'C19'
RUNS_QUICK = 2500
RUNS_THOROUGH = 100000
RULE = ('one run = one generated document and either (a) a seeded schedule of operations on lazily read documents (open, getobj, references, stream '
        'data, page walks, item iteration, outlines, destinations) or (b) whole-file operations (interpreter iteration, conversion, image export) '
        'on the simulated file system, interrupted in front of a drawn line of the package, each followed by retries and other operations; '
        'non-trivial = at least one operation was interrupted and something was read from the same document afterwards')
STATE_MEASURE = 'distinct (operation, function that was interrupted, exception, previous operation)'
REAL = ['pdfmajor.parser', 'pdfmajor.interpreter', 'pdfmajor.converters', 'LTImage.save_image', 'Python buffered I/O layers']
STUB = ['input file object / raw file layer', 'the source of the interrupt']
ASSUMPTIONS = ['an interrupt comes up in front of a line of the package, not inside of logging, destructors or the import of a module',
               'iterators that were interrupted are over; documents, pages, interpreters and images go on']
PROBES = ['op-open', 'op-op_get', 'op-op_follow', 'op-op_again', 'op-op_pages', 'op-op_items', 'op-op_outline', 'op-op_dest', 'not-reached', 'retried',
          'other-first', 'no-caching', 'path-iterate', 'path-convert', 'path-image', 'no-page-tree', 'two-documents', 'KeyboardInterrupt', 'Cancelled', 'MemoryError', 'encrypted', 'predefined-cmaps']

LAZY = lambda m: not m.startswith(('converters', 'BMPWriter'))


class Irq:
    """arms, and keeps armed over several operations until it comes up"""

    def __init__(self, ch, only=None):
        self.ch, self.only = ch, only
        self.i = interrupt.Interrupter()
        self.cls, self.patience = None, 0

    def before(self, rehearsal=None, lines=None):
        if self.i.target is None or self.patience <= 0:
            self.cls = self.ch.choice(interrupt.EXCS)
            t = None
            if lines is None and rehearsal and self.ch.bool(40):
                self.off()
                lines = core.apart(lambda: self.i.rehearse(rehearsal))
            if lines and self.ch.bool(80):
                t = interrupt.draw_reached(self.ch, lines, self.only)
            if t is None:
                t = interrupt.draw_target(self.ch, self.only)
            self.i.arm(t, self.cls('simulated'))
            self.patience = self.ch.int(1, 5)
        self.patience -= 1

    def fired(self):
        """where it came up since before()"""
        f, self.i.fired = self.i.fired, None
        return f

    def off(self):
        self.i.disarm()


class Run(c08.Run):
    def attempt(self, d, op, name, *args):
        ch, ctx, irq = self.ch, self.ctx, self.irq
        if not ch.bool(70):
            irq.off()
            return op(d, *args)
        irq.before(lambda: op(d, *args))
        cls = irq.cls
        try:
            op(d, *args)
        except core.Violation as v:
            at = irq.fired()
            if not at:
                irq.off()
                raise
            where = '%s:%s' % at[:2]
            if v.kind != 'exception:' + cls.__name__:
                raise core.Violation('masked:' + v.kind, '%s: interrupted by %s in %s, but answered: %s' % (name, cls.__name__, where, v.message)) from None
            self.nfail += 1
            ctx.log('%s is interrupted by %s in %s' % (name, cls.__name__, where))
            ctx.fault('interrupt-' + cls.__name__)
            ctx.probe('op-' + name)
            ctx.probe(cls.__name__)
            ctx.state((name, at[1], cls.__name__, self.prev))
            # the iterator it came up in is over
            if name == 'op_pages':
                d.walk = None
            elif name == 'op_outline':
                d.owalk = None
            elif name == 'op_items':
                d.iwalk = None
            if ch.bool(60):
                op(d, *args)
                ctx.probe('retried')
            else:
                ctx.probe('other-first')
            ctx.nontrivial = True
        else:
            at = irq.fired()
            if at:
                raise core.Violation('swallowed', '%s: interrupted by %s in %s:%s, yet it returned normally' % ((name, cls.__name__) + at[:2]))
            ctx.probe('not-reached')


def lazy(ch, ctx, docs, saved, next_num, no_tree, irq):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    saved.next_num = next_num
    r = Run(ch, ctx, docs, saved)
    r.nums = sorted(docs[-1].objs)
    r.no_tree = no_tree
    r.irq = irq

    def open_doc(name):
        caching = not ch.bool(30)
        if not caching:
            ctx.probe('no-caching')
        inp = sut.SimInput(saved.data, ch, ctx, 'full')
        h = c05.Handle(name, None, caching)
        h.inp, h.iwalk, h.fonts = inp, None, {}

        def op_open(h):
            p = sut.call('PDFParser', PDFParser, inp)
            h.sut = sut.call('PDFDocument', PDFDocument, p, saved.password, caching=caching)
            ctx.log('%s: open, caching=%s' % (name, caching))
        r.attempt(h, op_open, 'open')
        if h.sut is None:
            op_open(h)
        return h

    hs = [open_doc('A')]
    if ch.bool(15):
        hs.append(open_doc('B'))
        ctx.probe('two-documents')
    ops = [(4, r.op_get), (3, r.op_follow), (2, r.op_again), (3, r.op_pages), (5, r.op_items), (1, r.op_outline), (1, r.op_dest), (1, r.op_head), (1, r.op_missing)]
    for _ in range(ch.int(4, 24)):
        d = ch.choice(hs)
        op = ch.weighted(ops)
        r.attempt(d, op, op.__name__)
    irq.off()
    if ch.bool(40):
        for num in (ch.shuffle(r.nums) if len(r.nums) < 60 else r.nums[:60]):
            r.op_get(hs[0], num)
    while hs[0].iwalk or hs[0].walk:
        r.op_items(hs[0]) if hs[0].iwalk else r.op_pages(hs[0])


def images_of(pages):
    out = []

    def walk(items):
        for x in items:
            k = observe.kind(x)
            if k == 'image':
                out.append(x)
            elif k == 'xobject':
                walk(x)
    for p in pages:
        walk(p)
    return out


def by_path(ch, ctx, docs, saved, no_tree, irq, fs):
    from pdfmajor.interpreter import PDFInterpreter
    from pdfmajor.converters import convert_file
    doc = docs[-1]
    path = fs.put('in.pdf', saved.data)
    caching = not ch.bool(30)
    if not caching:
        ctx.probe('no-caching')
    preload = ch.bool(30)
    what = ch.weighted([(4, 'iterate'), (4, 'convert'), (2, 'image')])
    out_type = ch.choice(['text', 'json', 'xml', 'html', 'yaml']) if what == 'convert' else None
    ctx.probe('path-' + what)
    want = [(p.num, tuple(p.items)) for p in doc.pages]
    holder = [None]
    pics = []

    def opened():
        if holder[0] is None:
            holder[0] = PDFInterpreter(path, password=saved.password, caching=caching, preload=preload, check_extractable=False)
        return holder[0]

    def whole():
        if what == 'convert':
            convert_file(path, fs.path('out.' + out_type), out_type=out_type, password=saved.password, check_extractable=False)
            return fs.get('out.' + out_type)
        if what == 'iterate':
            return [(p.page.pageid, tuple(observe.meaning(x) for x in p)) for p in opened()]
        if not pics:
            pics.extend(images_of(opened()))
        out = []
        for i, x in enumerate(pics):
            p = x.save_image(fs.path(''), 'pic%d' % i)
            out.append(fs.get(p[len(fs.path('')):].lstrip('/')) if p else None)
        return out

    def rehearsed():
        out = []
        lines = irq.i.rehearse(lambda: out.append(straight()))
        return (out[0] if out else straight(), lines)

    def straight():
        if what == 'image':
            # an image that cannot be written is not the subject here
            try:
                return sut.call('alone', whole, allow=(Exception,))
            except sut.Expected as e:
                raise core.Discard('images cannot be saved: %r' % e.exc)
        return sut.call('alone', whole)

    (ref, lines) = core.apart(rehearsed)
    if what == 'iterate':
        check((sorted(ref) == sorted(want)) if no_tree else ref == want, 'items', 'without interrupts: %s, expected %s', sut.short(ref), sut.short(want))
    n = 0
    for k in range(ch.int(1, 8)):
        if not ch.bool(50):
            holder[0] = None
            del pics[:]
        irq.before(lines=lines)
        cls = irq.cls
        try:
            got = sut.call('attempt %d' % k, whole, allow=(BaseException,))
        except sut.Expected as e:
            at = irq.fired()
            if not at:
                irq.off()
                raise core.Violation('exception:%s' % type(e.exc).__name__, 'attempt %d: %s although nothing was interrupted' % (k, core.describe_exc(e.exc))) from None
            where = '%s:%s' % at[:2]
            check(type(e.exc) is cls, 'masked', '%s in %s was answered by %s', cls.__name__, where, core.describe_exc(e.exc))
            n += 1
            ctx.log('attempt %d is interrupted by %s in %s' % (k, cls.__name__, where))
            ctx.fault('interrupt-' + cls.__name__)
            ctx.probe(cls.__name__)
            ctx.state((what, at[1], cls.__name__, caching, preload))
        else:
            at = irq.fired()
            check(not at, 'swallowed', 'attempt %d: %s in %s, yet it returned normally', k, cls.__name__, at)
            check(got == ref, 'content', 'attempt %d gives %s, expected %s', k, sut.short(got), sut.short(ref))
            ctx.probe('not-reached')
        if fs.open_handles():
            # in front of the end of a with block: closed when nobody refers to it any more
            gc.collect()
        check(not fs.open_handles(), 'handles', 'files left open: %s', fs.open_handles())
        check(fs.get('in.pdf') == saved.data, 'input', 'the input file changed')
    irq.off()
    got = sut.call('after the interrupts', whole)
    check(got == ref, 'content', 'after %d interrupts: %s, expected %s', n, sut.short(got), sut.short(ref))
    if n:
        ctx.nontrivial = True
        ctx.probe('retried')


def run(ch, ctx):
    path_mode = ch.bool(35)
    o = pdfgen.Opts(apart=10, outlines=35, dests=35, misc=(0, 4), ops=(0, 4), images=(0, 1), forms=(0, 1))
    if ch.bool(50):
        o.font_kinds = pdfgen.FONT_KINDS_CMAP
        ctx.probe('predefined-cmaps')
    docs = [pdfgen.gen_doc(ch, o)]
    while len(docs) < 3 and ch.bool(30):
        docs.append(pdfgen.evolve(ch, docs[-1]))
    no_tree = ch.bool(5)
    if no_tree:
        pdfgen.drop_page_tree(docs[-1])
        ctx.probe('no-page-tree')
    scheme = crypt.gen_scheme(ch) if ch.bool(20) else None
    if scheme:
        ctx.probe('encrypted')
    s = pdfsave.Saver(ch, crypt=scheme)
    for d in docs:
        s.save(d)
    saved = s.finish()
    saved.password = scheme.user if scheme else ''
    for l in saved.log:
        ctx.log(l)
    irq = Irq(ch.sub('irq'), None if path_mode else LAZY)
    with simfs.FS(ch.sub('fs'), ctx) as fs:
        simfs.install_cmaps(fs)
        if path_mode:
            by_path(ch, ctx, docs, saved, no_tree, irq, fs)
        else:
            lazy(ch, ctx, docs, saved, s.next, no_tree, irq)
