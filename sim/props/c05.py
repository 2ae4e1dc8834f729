"""C05: looking an object up does not depend on what was read before."""
import io

from sim import core, pdfgen, pdfsave, sut
from sim.syntax import Ref, expect
from sim.pdfgen import Stream
from sim.sut import check

ID = 'C05'
RUNS_QUICK = 9000
RUNS_THOROUGH = 300000
RULE = ('one run = one generated document of 1-4 revisions (tables, cross-reference streams, hybrids, object streams, indirect '
        'lengths and filters) and one seeded schedule of look-ups on one or two PDFDocument objects (caching on/off): getobj, '
        'following references, stream data, page walks, outline walks and named destinations, interleaved and abandoned; '
        'non-trivial = at least 5 operations and two storage forms or revisions touched')
STATE_MEASURE = 'distinct (operation, storage form and revision of its object, caching, previous operation)'
REAL = ['pdfmajor.parser (PDFParser, PDFDocument, PDFXRef*, PDFStream, PDFPage)', 'stream filters']
STUB = ['input file object (simulated: short reads)']
ASSUMPTIONS = ['documents are well formed; revisions append and name the previous section', 'object numbers are not reused for the file\'s own objects']
PROBES = ['sibling-font', 'apart', 'table', 'stream', 'hybrid', 'packed', 'rev-old', 'rev-new', 'stream-data', 'page-walk', 'outline', 'outline-long', 'dest', 'dest-missing',
          'missing-object', 'no-caching', 'no-fallback', 'walk-abandoned', 'inherited', 'two-documents', 'no-page-tree', 'short-read']


def pic_stream(obj, data=True):
    """attributes without the storage details, and the decoded data"""
    attrs = {k: v for k, v in obj.attrs.items() if k not in ('Length', 'Filter', 'DecodeParms')}
    return ('stream', sut.plain(attrs), obj.get_data() if data else None)


def want_obj(doc, n):
    v = doc.objs[n]
    if isinstance(v, Stream):
        a = {k: x for k, x in v.attrs.items() if k != '_listfilter'}
        return ('stream', expect(a), v.data)
    return expect(v)


def got_obj(o):
    from pdfmajor.parser.PDFStream import PDFStream
    if isinstance(o, PDFStream):
        return pic_stream(o)
    return sut.plain(o)


def add_long_outline(ch, doc):
    """siblings by the hundred: an index of a book"""
    n = ch.choice([40, 400, 1300])
    ids = [doc.reserve() for _ in range(n)]
    root = doc.reserve()
    exp = []
    for i, me in enumerate(ids):
        d = {'Title': b'E%d' % i, 'Dest': b'd%d' % i}
        if i + 1 < n:
            d['Next'] = Ref(ids[i + 1])
        doc.set(me, d)
        exp.append((1, 'E%d' % i, expect(b'd%d' % i), expect(None), expect(None)))
    doc.set(root, {'First': Ref(ids[0]), 'Last': Ref(ids[-1])})
    cat = dict(doc.objs[doc.root])
    cat['Outlines'] = Ref(root)
    doc.set(doc.root, cat)
    doc.outlines = exp


class Run:
    def __init__(self, ch, ctx, docs, saved):
        self.ch, self.ctx = ch, ctx
        self.doc, self.saved = docs[-1], saved
        self.revof = {}
        for i, d in enumerate(docs):
            for n in (d.objs if i == 0 else d.changed):
                self.revof[n] = i
        self.nrev = len(docs)
        self.held = []          # (document, object number, object) kept from earlier
        self.prev = 'open'
        self.forms = set()

    def form(self, n):
        r = self.revof[n]
        if n in self.saved.packed[r]:
            f = 'packed'
            self.ctx.probe('packed')
        else:
            f = 'plain'
        self.ctx.probe(self.saved.kinds[r])
        self.ctx.probe('rev-new' if r == self.nrev - 1 else 'rev-old')
        self.forms.add((f, r))
        return (f, self.saved.kinds[r], min(self.nrev - 1 - r, 2))

    def note(self, op, form, d):
        self.ctx.state((op, form, d.caching, self.prev))
        self.prev = op
        self.ctx.steps += 1

    def verify(self, what, n, obj):
        got = sut.call('%s: reading the value of object %d' % (what, n), got_obj, obj)
        want = want_obj(self.doc, n)
        if got != want:
            raise core.Violation('value', '%s: object %d is %s, newest saved value is %s' % (what, n, sut.short(got), sut.short(want)))
        check(sut.literal_ok(obj if not hasattr(obj, 'attrs') else obj.attrs), 'interning', '%s: object %d holds a name that is not the interned one', what, n)

    # ---- operations
    def op_get(self, d, pick=None):
        n = pick or self.ch.choice(self.nums)
        f = self.form(n)
        o = sut.call('getobj(%d)' % n, d.sut.getobj, n)
        self.ctx.log('%s getobj(%d) [%s]' % (d.name, n, f[0]))
        self.verify('getobj', n, o)
        self.note('get', f, d)
        self.held.append((d, n, o))

    def op_follow(self, d):
        """follow a reference found inside a value read earlier"""
        from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
        from pdfmajor.parser.PDFStream import resolve1
        cand = []
        for (dd, n, o) in self.held[-6:]:
            def walk(x, depth=0):
                if isinstance(x, PDFObjRef):
                    cand.append((dd, x))
                elif isinstance(x, dict):
                    for k in sorted(x):
                        walk(x[k])
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            walk(o if not hasattr(o, 'attrs') else o.attrs)
        cand = [(dd, r) for dd, r in cand if r.objid in self.doc.objs]
        if not cand:
            return self.op_get(d)
        dd, r = self.ch.choice(cand)
        f = self.form(r.objid)
        o = sut.call('resolve1(%d 0 R)' % r.objid, resolve1, r)
        self.ctx.log('%s follow %d 0 R' % (dd.name, r.objid))
        self.verify('reference', r.objid, o)
        self.note('follow', f, dd)
        self.held.append((dd, r.objid, o))

    def op_again(self, d):
        """a value read earlier is still what it was"""
        if not self.held:
            return self.op_get(d)
        dd, n, o = self.ch.choice(self.held)
        self.ctx.log('%s look again at object %d' % (dd.name, n))
        self.verify('kept object', n, o)
        if hasattr(o, 'get_data'):
            self.ctx.probe('stream-data')
            a, b = sut.call('get_data', o.get_data), sut.call('get_data', o.get_data)
            check(a == b == self.doc.objs[n].data, 'data', 'stream %d: repeated get_data differs', n)
        self.note('again', self.form(n), dd)

    def op_missing(self, d):
        from pdfmajor.execptions import PDFObjectNotFound
        n = self.saved.next_num + self.ch.choice([1, 5, 100000])
        try:
            o = sut.call('getobj(missing)', d.sut.getobj, n, allow=(PDFObjectNotFound,))
        except sut.Expected:
            o = None
        else:
            raise core.Violation('phantom', 'object %d was never written, getobj returned %s' % (n, sut.short(sut.plain(o))))
        self.ctx.probe('missing-object')
        self.note('missing', None, d)

    def op_pages(self, d):
        """start, continue or abandon a walk over the pages"""
        from pdfmajor.parser.PDFPage import PDFPage
        if d.walk is None:
            d.walk, d.at = PDFPage.create_pages(d.sut), 0
            d.seen = []
        k = self.ch.int(1, 3)
        self.ctx.log('%s pages %d..%d' % (d.name, d.at, d.at + k - 1))
        for _ in range(k):
            try:
                p = sut.call('create_pages', next, d.walk, allow=(StopIteration,))
            except sut.Expected:
                check(d.at == len(self.doc.pages), 'pages', 'page walk ended after %d of %d pages', d.at, len(self.doc.pages))
                d.walk = None
                break
            if self.no_tree:
                self.page_any(p, d)
            else:
                check(d.at < len(self.doc.pages), 'pages', 'page walk yields more than %d pages', len(self.doc.pages))
                self.page(p, self.doc.pages[d.at], d)
            d.at += 1
        else:
            if self.ch.bool(15):
                d.walk = None
                self.ctx.probe('walk-abandoned')
        self.ctx.probe('page-walk')
        self.note('pages', None, d)

    def page_any(self, p, d):
        """without a page tree: every page once, order unspecified"""
        check(p.pageid not in d.seen, 'pages', 'page %s is listed twice', p.pageid)
        d.seen.append(p.pageid)
        m = [q for q in self.doc.pages if q.num == p.pageid]
        check(len(m) == 1, 'pages', 'object %s is no page', p.pageid)
        self.ctx.probe('no-page-tree')
        self.page(p, m[0], d)

    def page(self, p, m, d):
        from pdfmajor.parser.PDFStream import PDFStream
        check(p.pageid == m.num, 'pages', 'page object is %r, expected %d', p.pageid, m.num)
        eq = lambda what, a, b: check(a == b, 'page-attr', 'page object %d: %s is %r, expected %r', m.num, what, a, b)
        eq('mediabox', list(p.mediabox), m.mediabox)
        eq('cropbox', list(p.cropbox), m.cropbox)
        eq('rotate', p.rotate, m.rotate)
        eq('resources', sut.call('resources', sut.plain, p.resources, apart=self.doc.apart), expect(m.res.dict))
        own = self.doc.objs[m.num]
        if 'MediaBox' not in own:
            self.ctx.probe('inherited')
        data = [sut.call('content data', lambda: PDFStream.validated_stream(c).get_data()) for c in p.contents]
        eq('content', data, [self.doc.objs[n].data for n in m.content_nums])
        eq('lastmod', sut.plain(p.lastmod), expect(pdfgen.in_place(self.doc, own.get('LastModified'))))

    def op_outline(self, d):
        from pdfmajor.execptions import PDFNoOutlines
        if not self.doc.outlines and 'Outlines' not in self.doc.objs[self.doc.root]:
            try:
                sut.call('get_outlines', d.sut.get_outlines, allow=(PDFNoOutlines,))
            except sut.Expected:
                return self.note('no-outline', None, d)
            raise core.Violation('outline', 'a document without outlines lists some')
        if d.owalk is None:
            d.owalk, d.oat = sut.call('get_outlines', d.sut.get_outlines), 0
        want = self.doc.outlines
        k = self.ch.choice([1, 2, 5, 2000])
        self.ctx.probe('outline')
        if len(want) > 1000:
            self.ctx.probe('outline-long')
        for _ in range(k):
            try:
                e = sut.call('outline entry %d' % d.oat, next, d.owalk, allow=(StopIteration,))
            except sut.Expected:
                check(d.oat == len(want), 'outline', 'outlines end after %d of %d entries', d.oat, len(want))
                d.owalk = None
                break
            check(d.oat < len(want), 'outline', 'more outline entries than the %d written', len(want))
            (level, title, dest, action, se) = e
            got = (level, title, sut.plain(dest), sut.plain(action), sut.plain(se))
            check(got == want[d.oat], 'outline', 'outline entry %d is %s, expected %s', d.oat, sut.short(got), sut.short(want[d.oat]))
            d.oat += 1
        else:
            if self.ch.bool(15):
                d.owalk = None
                self.ctx.probe('walk-abandoned')
        self.note('outline', None, d)

    def op_dest(self, d):
        from pdfmajor.execptions import PDFDestinationNotFound
        style = self.doc.dest_style
        key = b'name%d' % self.ch.int(0, 8) if not self.ch.bool(20) else self.ch.choice([b'', b'a', b'zz', b'name', b'name10'])
        k = key.decode() if style == 'old' else key
        try:
            v = sut.call('get_dest(%r)' % k, d.sut.get_dest, k, allow=(PDFDestinationNotFound,))
        except sut.Expected:
            check(key not in self.doc.dests, 'dest', 'destination %r exists but is not found', k)
            self.ctx.probe('dest-missing')
        else:
            check(key in self.doc.dests, 'dest', 'destination %r does not exist, got %s', k, sut.short(v))
            got, want = sut.plain(v), expect(self.doc.dests[key])
            check(got == want, 'dest', 'destination %r is %s, expected %s', k, sut.short(got), sut.short(want))
            self.ctx.probe('dest')
        self.note('dest', style, d)

    def op_head(self, d):
        got = sut.plain(d.sut.catalog)
        want = expect(self.doc.objs[self.doc.root])
        check(got == want, 'catalog', 'catalog is %s, expected %s', sut.short(got), sut.short(want))
        if self.doc.info:
            got = [sut.plain(i) for i in d.sut.info]
            want = expect(self.doc.objs[self.doc.info])
            check(got[:1] == [want], 'info', 'info is %s, expected %s', sut.short(got), sut.short(want))
        self.note('head', None, d)


class Handle:
    def __init__(self, name, d, caching):
        self.name, self.sut, self.caching = name, d, caching
        self.walk = self.owalk = None
        self.at = self.oat = 0


def run(ch, ctx):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PSStackParser import PSBaseParser
    o = pdfgen.Opts(apart=20, outlines=40, dests=45, misc=(1, 7), ops=(0, 2), images=(0, 1), forms=(0, 1), sparse=10)
    docs = [pdfgen.gen_doc(ch, o)]
    for k in docs[0].probes:
        ctx.probe(k) if k in ('apart', 'sibling-font') else None
    if ch.bool(3):
        add_long_outline(ch, docs[0])
    while len(docs) < 4 and ch.bool(45):
        docs.append(pdfgen.evolve(ch, docs[-1]))
    no_tree = False
    if ch.bool(4):
        pdfgen.drop_page_tree(docs[-1])
        no_tree = True
    s = pdfsave.Saver(ch)
    for d in docs:
        s.save(d)
    saved = s.finish()
    saved.next_num = s.next
    for l in saved.log:
        ctx.log(l)
    r = Run(ch, ctx, docs, saved)
    r.no_tree = no_tree
    r.nums = sorted(docs[-1].objs)
    knob = ch.choice([None, None, None, 1, 7, 64])
    if knob and len(saved.data) < 20000 and len(r.nums) < 100 and hasattr(PSBaseParser, 'BUFSIZ'):
        PSBaseParser.BUFSIZ = knob
        ctx.fault('tiny-block-size')

    def open_doc(name):
        # without caching every look-up parses the whole object stream again: quadratic for the long outlines
        caching = not ch.bool(35) or len(docs[-1].outlines or ()) > 100
        if not caching:
            ctx.probe('no-caching')
        mode = ch.choice(['full', 'full', 'half', 'random'])
        inp = sut.SimInput(saved.data, ch, ctx, mode)
        # without the fallback scan every object has to be found through the sections
        fallback = not ch.bool(40)
        if not fallback:
            ctx.probe('no-fallback')
        ctx.log('%s: open, caching=%s reads=%s fallback=%s' % (name, caching, mode, fallback))
        p = sut.call('PDFParser', PDFParser, inp)
        return Handle(name, sut.call('PDFDocument', PDFDocument, p, caching=caching, fallback=fallback), caching)

    hs = [open_doc('A')]
    if ch.bool(25):
        hs.append(open_doc('B'))
        ctx.probe('two-documents')
    ops = [r.op_get] * 4 + [r.op_follow] * 3 + [r.op_again] * 2 + [r.op_pages] * 3 + [r.op_outline, r.op_dest, r.op_head, r.op_missing]
    n = ch.int(4, 30)
    for _ in range(n):
        d = ch.choice(hs)
        ch.choice(ops)(d)
    # at the end everything is still there
    if ch.bool(30):
        for num in (ch.shuffle(r.nums) if len(r.nums) < 80 else r.nums[:80]):
            r.op_get(hs[0], num)
    if ctx.faults.get('short-read'):
        ctx.probe('short-read')
    ctx.nontrivial = n >= 5 and len(r.forms) >= 2
