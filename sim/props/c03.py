"""C03: an interrupted save never hides the last completed one."""
import re

from sim import core, pdfgen, pdfsave, sut
from sim.sut import check
from sim.props import c05

ID = 'C03'
RUNS_QUICK = 7000
RUNS_THOROUGH = 260000
RULE = ('one run = a document and a seeded history of incremental saves, each completed or cut off at a drawn byte with a drawn tail '
        '(missing, zero-filled, leftover bytes), later saves appended behind the wreck; the file is then opened and read by a seeded '
        'schedule of look-ups and compared with the last completed revision; non-trivial = the newest save was cut off after its '
        'first byte')
STATE_MEASURE = 'distinct (cross-reference form, where the cut fell, tail, form of the last completed revision, wrecks before)'
REAL = ['pdfmajor.parser', 'stream filters']
STUB = ['the writing application and its storage (model of an interrupted append)', 'input file object']
ASSUMPTIONS = ['bytes in front of the cut are intact', 'a save is complete once the line of its startxref value has ended',
               'leftover bytes do not happen to name a real older section', 'an interrupted first save promises nothing']
PROBES = ['apart', 'cut-objects', 'cut-stream-data', 'cut-table', 'cut-trailer', 'cut-xref-stream', 'cut-startxref', 'cut-digits', 'cut-eof', 'cut-nothing',
          'tail-missing', 'tail-zeros', 'tail-leftover', 'tail-stale-startxref', 'tail-own-fragment', 'append-after-wreck', 'two-wrecks',
          'complete-last', 'read-all', 'pages-read', 'new-number', 'by-path']


class Ambiguous(Exception):
    pass


def numbers_after_startxref(data):
    return [int(m.group(1)) for m in re.finditer(rb'startxref[\s\x00]+(\d{1,12})', data)]


def near_section(v, starts):
    """would a lenient reader find a section at this offset?"""
    return any(p - 4 <= v <= p + 14 for p in starts)


def stale(ch, data, room):
    """what a previous user of these disk blocks left behind"""
    k = ch.draw(6)
    if k == 5:
        words = [b'R', b'stream', b'endstream', b'endobj', b'obj', b'null', b'>>', b'<<', b']', b'[', b'(', b')', b'trailer', b'xref', b'/N', b'7', b'0', b'<', b'%', b'}']
        return b''.join(ch.choice(words) + ch.choice([b' ', b'\n', b'']) for _ in range(ch.int(1, 8))), 'leftover'
    if k == 0:
        return bytes(ch.draw(256) for _ in range(min(room, ch.int(1, 40)))), 'leftover'
    if k == 1:
        return (b'x' * 700 + b'\n')[:room], 'leftover'
    if k == 2:
        t = b'>>\nendobj\n7 0 obj\n<< /Type /Catalog /Pages 8 0 R >>\nendobj\nxref\n0 1\n0000000000 65535 f \ntrailer\n<< /Size 1 /Root 7 0 R >>\n'
        return t[ch.draw(len(t)):], 'leftover'
    if k == 3:
        v = ch.choice([0, 1, ch.draw(len(data)), len(data) + ch.draw(5000), 99999999])
        t = b'\n%s\nstartxref\n%d\n%%%%EOF\n' % (ch.choice([b'', b'0000000017 00000 n ', b'trailer\n<< /Size 4 >>']), v)
        return t, 'stale-startxref'
    a = ch.draw(len(data))
    return data[a:a + ch.int(1, 400)], 'own-fragment'


def region(saver, cut, start):
    s = saver.saved
    kind = s.kinds[-1]
    if cut <= start:
        return 'nothing'
    if cut > s.digits[-1]:
        return 'eof'
    digits = s.digits[-1] - len(b'%d' % s.xref_pos[-1])
    if cut > digits:
        return 'digits'
    xp = s.xref_pos[-1]
    if kind == 'stream':
        if cut > saver.xend:
            return 'startxref'
        if cut > xp:
            return 'xref-stream'
    else:
        if cut > s.tail_pos:
            return 'startxref'
        if cut > s.trailer_pos:
            return 'trailer'
        if cut > xp:
            return 'table'
    for a, b, w, n in s.spans:
        if a < cut < b:
            return 'stream-data'
    return 'objects'


def run(ch, ctx):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PSStackParser import PSBaseParser
    from pdfmajor.execptions import PDFObjectNotFound
    o = pdfgen.Opts(apart=8, outlines=25, dests=25, misc=(1, 6), ops=(0, 3), images=(0, 1), forms=(0, 1), sparse=5)
    docs = [pdfgen.gen_doc(ch, o)]
    for k in docs[0].probes:
        ctx.probe(k) if k in ('apart', 'sibling-font') else None
    sv = pdfsave.Saver(ch)
    sv.save(docs[0])
    while len(docs) < 3 and ch.bool(30):
        docs.append(pdfgen.evolve(ch, docs[-1]))
        sv.save(docs[-1])
    s = sv.saved
    wrecks = 0
    lost = None
    either = False
    last_torn = False
    keep_state = None
    for step in range(ch.weighted([(6, 1), (2, 2), (1, 3)])):
        either = False
        new = pdfgen.evolve(ch, docs[-1])
        mark = (len(sv.own), sv.next, sv.prev, len(sv.out))
        if wrecks:
            ctx.probe('append-after-wreck')
        sv.save(new)
        full = bytes(sv.out)
        start = mark[3]
        # the end of the section itself, in front of the word startxref
        sv.xend = full.rindex(b'startxref', 0, s.digits[-1])
        if ch.bool(12):
            docs.append(new)
            lost = None
            ctx.log('rev %d complete' % (len(s.ends) - 1))
            last_torn = False
            continue
        zone = ch.draw(9)
        if zone == 8:
            # behind a token near the end
            ends = [m.end() for m in re.finditer(rb'[^\s<>/()]+', full) if m.end() >= max(start, sv.xend - 150)]
            cut = ch.choice(ends)
        elif zone == 0:
            cut = start
        elif zone < 4:
            cut = ch.int(start, len(full))
        elif zone == 4:
            cut = ch.int(max(start, sv.xend - 60), len(full))
        elif zone == 5:
            cut = ch.int(min(s.xref_pos[-1], sv.xend), sv.xend)
        elif zone == 6:
            cut = ch.int(sv.xend, s.digits[-1])
        else:
            cut = ch.int(s.digits[-1] - len(b'%d' % s.xref_pos[-1]), len(full))
        where = region(sv, cut, start)
        room = len(full) - cut
        tail, how = b'', 'missing'
        if room:
            k = ch.draw(6)
            if k == 1 or k == 2:
                tail, how = b'\x00' * ch.choice([room, room, 1, max(1, room // 2), 512]), 'zeros'
            elif k > 3:
                tail, how = stale(ch, full[:cut] or b'%PDF', max(1, room))
        kind = s.kinds[-1]
        d_end = s.digits[-1]
        # the line of the startxref value has ended: nothing of the save is missing but the end-of-file mark
        complete = cut > d_end or (cut == d_end and tail[:1] in (b'\r', b'\n'))
        data = full[:cut] + tail
        sections = list(s.xref_pos) + [m.start() for m in re.finditer(rb'(?<![a-z])xref', data)] + \
            [m.start() for m in re.finditer(rb'\d+[\s\x00]+\d+[\s\x00]+obj[\s\x00]*<<(?:(?!endobj).){0,400}?/XRef', data, re.S)]
        good = s.xref_pos[-1] if complete else s.xref_pos[-2]
        # every startxref a reader may meet behind the last complete one
        back = data[(s.ends[-2] if not complete else d_end):]
        later = numbers_after_startxref(back)
        if not complete and cut <= d_end and where == 'digits':
            m = re.search(rb'startxref[\s\x00]+(\d+)[^\d]*', data[sv.xend:])
        for v in later:
            if v != good and near_section(v, sections):
                raise core.Discard('stale startxref names a real section')
            if v == good:
                break
        # digits cut short or continued by a leftover digit
        if complete:
            if tail and cut < len(full):
                # a torn %%EOF line; what is read is this revision, or the one before in full
                pass
            either = True if cut < len(full) else False
        if cut == d_end and not complete:
            if tail[:1].isdigit():
                either = False
            else:
                either = True      # all digits there, no line end
        ctx.fault('cut-' + where)
        ctx.fault('tail-' + how)
        ctx.probe('cut-' + where)
        ctx.probe('tail-' + how)
        ctx.log('rev %d (%s) cut at +%d of %d (%s), tail %s %d' % (len(s.ends) - 1, kind, cut - start, len(full) - start, where, how, len(tail)))
        ctx.state((kind, where, how, s.kinds[-2], min(wrecks, 2), complete))
        sv.out = bytearray(data)
        if either and not complete:
            complete_as = None
        last_torn = cut > start
        lost = new
        if complete or either:
            # what follows builds on the new revision (a later save would have read it)
            alt = docs[-1]
            docs.append(new)
            break
        wrecks += 1
        # undo the bookkeeping of the save that did not happen
        for lst in (s.starts, s.ends, s.kinds, s.xref_pos, s.digits, s.packed):
            lst.pop()
        s.spans = [x for x in s.spans if x[0] < start]
        sv.own = sv.own[:mark[0]]
        sv.next, sv.prev = mark[1], mark[2]
    if wrecks > 1:
        ctx.probe('two-wrecks')
    if not last_torn:
        ctx.probe('complete-last')
    s.own = set(sv.own)
    s.next_num = sv.next + 1000000
    s.data = bytes(sv.out)
    knob = ch.choice([None, None, None, 64, 31])
    if knob and len(s.data) < 20000 and hasattr(PSBaseParser, 'BUFSIZ'):
        PSBaseParser.BUFSIZ = knob
    ctx.nontrivial = last_torn

    views = [(docs, s)]
    if either:
        views.append((docs[:-1], older(s)))
    problem = None
    for i, (dd, ss) in enumerate(views):
        try:
            read(ch, ctx, dd, ss, lost if not either else None, PDFParser, PDFDocument, PDFObjectNotFound)
            return
        except core.Violation as v:
            if i + 1 < len(views):
                ctx.log('not the newest revision: %s' % v)
            problem = problem or v
    raise problem


def older(s):
    t = pdfsave.Saved()
    t.__dict__.update(s.__dict__)
    for k in ('starts', 'ends', 'kinds', 'xref_pos', 'digits', 'packed'):
        setattr(t, k, list(getattr(s, k))[:-1])
    return t


def read(ch, ctx, docs, saved, lost, PDFParser, PDFDocument, PDFObjectNotFound):
    r = c05.Run(ch, ctx, docs, saved)
    r.no_tree = False
    r.nums = sorted(docs[-1].objs)

    def open_doc(name):
        caching = not ch.bool(35)
        mode = ch.choice(['full', 'full', 'half', 'random'])
        inp = sut.SimInput(saved.data, ch, ctx, mode)
        ctx.log('%s: open, caching=%s reads=%s fallback=%s' % (name, caching, mode, fallback))
        return c05.Handle(name, sut.call('opening', lambda: PDFDocument(PDFParser(inp), caching=caching, fallback=fallback)), caching)

    # with the fallback scan, numbers no section knows are searched in the whole file (and in the wreck): not judged
    fallback = not ch.bool(40)
    d = open_doc('A')
    ops = [r.op_get] * 4 + [r.op_follow] * 2 + [r.op_pages] * 3 + [r.op_outline, r.op_dest, r.op_head]
    for _ in range(ch.int(0, 8)):
        ch.choice(ops)(d)
    # every object and page, as after the last completed save
    for n in (ch.shuffle(r.nums) if len(r.nums) < 60 else r.nums):
        r.op_get(d, n)
    ctx.probe('read-all')
    d.walk = None
    r.op_pages(d)
    while d.walk:
        r.op_pages(d)
    ctx.probe('pages-read')
    if lost is not None and not fallback:
        new = sorted(set(lost.objs) - set(docs[-1].objs) - saved.own)
        for n in new:
            try:
                o = sut.call('getobj(%d)' % n, d.sut.getobj, n, allow=(PDFObjectNotFound,))
            except sut.Expected:
                ctx.probe('new-number')
            else:
                raise core.Violation('mixed', 'object %d of the interrupted save is read as %s' % (n, sut.short(sut.plain(o))))
    if ch.bool(15):
        by_path(ch, ctx, docs[-1], saved)


def by_path(ch, ctx, doc, saved):
    """the whole way through the interpreter"""
    from sim import fs as simfs, observe
    from pdfmajor.interpreter import PDFInterpreter
    with simfs.FS(ch, ctx) as fs:
        path = fs.put('in.pdf', saved.data)
        got = sut.call('PDFInterpreter', lambda: [(p.page.pageid, tuple(observe.meaning(i) for i in p)) for p in PDFInterpreter(path, password='')])
        want = [(p.num, tuple(p.items)) for p in doc.pages]
        check(got == want, 'items', 'the interpreter gives %s, expected %s', sut.short(got, 300), sut.short(want, 300))
        ctx.probe('by-path')
