"""C04: a damaged cross-reference section does not lose the objects it described."""
import re

from sim import core, pdfgen, pdfsave, sut
from sim.sut import check
from sim.props import c05
from sim.props.c03 import by_path

ID = 'C04'
RUNS_QUICK = 8000
RUNS_THOROUGH = 300000
RULE = ('one run = one single-revision document with a classic table, one to four drawn storage faults in its cross-reference entries, '
        'counts, keywords, offsets, startxref, end-of-file mark or leading bytes, then a seeded schedule of look-ups and a full '
        'reading, compared with the model; non-trivial = at least one fault changed the file')
STATE_MEASURE = 'distinct (set of faults, whether the damaged section still parses, line end, caching)'
REAL = ['pdfmajor.parser', 'stream filters']
STUB = ['storage (model of damage to the cross-reference data)', 'input file object']
ASSUMPTIONS = ['objects (each starting a line) and the trailer with its keyword are intact', 'a wrong offset does not point in front of an object-like '
               'text of the same number inside of a stream', 'stream lengths are stored in the stream dictionary where stream data could '
               'be taken for objects']
PROBES = ['apart', 'entry-offset', 'entry-near', 'entry-swap', 'entry-free', 'entry-garbage', 'entry-lost', 'entry-repeated', 'entry-short', 'entry-zero', 'count-more', 'count-less',
          'count-garbage', 'count-lost', 'start-shift', 'keyword', 'startxref-value', 'startxref-near', 'startxref-garbage', 'startxref-keyword', 'startxref-lost', 'eof-lost',
          'table-lost', 'table-cut', 'table-garbage', 'table-zero', 'lead-junk', 'lead-lost', 'lead-garbage', 'trailing-junk', 'offsets-shifted',
          'hostile-data', 'indirect-length', 'by-path', 'pages-read', 'many-faults']


def run(ch, ctx):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PSStackParser import PSBaseParser
    hostile = ch.bool(40)
    o = pdfgen.Opts(apart=8, outlines=25, dests=25, misc=(1, 7), ops=(0, 3), images=(0, 1), forms=(0, 1), sparse=5, hostile=hostile)
    doc = pdfgen.gen_doc(ch, o)
    for k in doc.probes:
        ctx.probe(k) if k in ('apart', 'sibling-font') else None
    if not hostile:
        # nothing inside of streams that could be taken for objects or for their end
        for n, v in sorted(doc.objs.items()):
            if isinstance(v, pdfgen.Stream) and re.search(rb'obj|end|stream|trailer|xref|EOF', v.data):
                if n in doc.misc:
                    v.data = v.data.replace(b'o', b'0').replace(b'e', b'3')
    style = pdfsave.Style(kinds=('table',), objstm=0)
    risky = any(isinstance(v, pdfgen.Stream) and re.search(rb'obj|endstream|stream|trailer|xref', v.data) for n, v in doc.objs.items() if n in doc.misc)
    style.indirect_len = 0 if risky else 25
    if risky:
        ctx.probe('hostile-data')
    sv = pdfsave.Saver(ch, style)
    sv.save(doc)
    saved = sv.finish()
    if sv.own:
        ctx.probe('indirect-length')
    data = saved.data
    docs = [doc]
    table, trailer, tail = saved.xref_pos[0], saved.trailer_pos, saved.tail_pos
    heads = [p for k, p in saved.xent if k == 'head']
    ents = [(n, p) for n, p in saved.xent if n != 'head']
    true = {n: saved.objpos[(0, n)] for n, _ in ents if (0, n) in saved.objpos}
    elen = 20
    eol = sv.eol
    edits = []

    def near_same(n, off):
        """the next object-like text behind off has the same number but is not the object"""
        m = re.compile(rb'(\d+)[\s\x00]+(\d+)[\s\x00]+obj').search(data, max(0, off))
        return m is not None and int(m.group(1)[-10:]) == n and m.start() != true.get(n)

    def put(a, b, new, kind, label=None):
        if any(not (b <= x or y <= a) or (a == x and b == y) for x, y, _, _ in edits):
            return False
        edits.append((a, b, new, kind))
        ctx.fault(kind)
        ctx.probe(kind)
        ctx.log('%s: [%d:%d] -> %s' % (kind, a, b, sut.short(new, 60)))
        return True

    def entry_damage():
        n, p = ch.choice(ents)
        old = data[p:p + elen]
        k = ch.draw(9)
        off = int(old[:10])
        if k == 0:
            v = ch.choice([ch.draw(len(data)), 0, 1, len(data), len(data) + 50, 9999999999])
            if near_same(n, v):
                return
            put(p, p + 10, b'%010d' % v, 'entry-offset')
        elif k == 1:
            v = off + ch.choice([-1, 1, -2, 2, 3, 5, -9, 10, 20, -20, 100])
            if v < 0 or near_same(n, v):
                return
            put(p, p + 10, b'%010d' % v, 'entry-near')
        elif k == 2:
            n2, p2 = ch.choice(ents)
            put(p, p + elen, data[p2:p2 + elen], 'entry-swap')
        elif k == 3:
            put(p + 17, p + 18, b'f' if old[17:18] == b'n' else b'n', 'entry-free')
        elif k == 4:
            g = ch.choice([b'garbage...', b'          ', b'-000000010', b'0x00000010', b'\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8\xf7\xf6', b'00000000.5', b'((((((((((', b'<<<<<<<<<<'])
            put(p, p + 10, g, 'entry-garbage')
        elif k == 5:
            put(p, p + elen, b'', 'entry-lost')
        elif k == 6:
            put(p, p, old, 'entry-repeated')
        elif k == 7:
            a = ch.draw(18)
            put(p + a, p + a + ch.int(1, 18 - a), b'', 'entry-short')
        else:
            put(p, p + elen, b'\x00' * elen, 'entry-zero')

    def count_damage():
        h = ch.choice(heads)
        m = re.compile(rb'(\d+) (\d+)').match(data, h)
        s0, c0 = int(m.group(1)), int(m.group(2))
        k = ch.draw(5)
        a, b = m.span(2)
        if k == 0:
            put(a, b, b'%d' % (c0 + ch.choice([1, 2, 10, 1000, 10 ** 6])), 'count-more')
        elif k == 1:
            put(a, b, b'%d' % max(0, c0 - ch.choice([1, 2, c0])), 'count-less')
        elif k == 2:
            put(a, b, ch.choice([b'x', b'-3', b'1 2', b'3.5', b'', b'\x00', b'9' * 30]), 'count-garbage')
        elif k == 3:
            put(m.start(), m.end(), b'', 'count-lost')
        else:
            a, b = m.span(1)
            v = s0 + ch.choice([1, 1, -1, 3])
            if v < 0:
                v = s0 + 1
            put(a, b, b'%d' % v, 'start-shift')

    def table_damage():
        k = ch.draw(5)
        if k == 0:
            put(table, trailer, ch.choice([b'', b'xref' + eol]), 'table-lost')
        elif k == 1:
            a = ch.int(table, trailer - 1)
            put(a, ch.int(a + 1, trailer), eol, 'table-cut')
        elif k == 2:
            a = ch.int(table, trailer - 1)
            b = min(trailer, a + ch.int(1, 60))
            put(a, b, bytes(ch.choice(b'abc 0123456789\xff\x80(<[/%') for _ in range(b - a - len(eol))) + eol, 'table-garbage')
        elif k == 3:
            a = ch.int(table, trailer - 2)
            b = min(trailer - 1, a + ch.int(1, 60))
            put(a, b, b'\x00' * (b - a), 'table-zero')
        else:
            put(table, table + 4, ch.choice([b'xre', b'xrefs', b'XREF', b'ref', b'', b'x ref', b'\x00\x00\x00\x00']), 'keyword')

    def tail_damage():
        d_end = saved.digits[0]
        digits = b'%d' % table
        d0 = d_end - len(digits)
        k = ch.draw(7)
        if k == 0:
            v = ch.choice([0, 1, ch.draw(len(data)), len(data), len(data) + 9, 10 ** 12, ch.choice(sorted(true.values()))])
            put(d0, d_end, b'%d' % v, 'startxref-value')
        elif k == 1:
            put(d0, d_end, b'%d' % max(0, table + ch.choice([-1, 1, 2, -2, 3, 4, 5, 9, -7, 20, -40])), 'startxref-near')
        elif k == 2:
            put(d0, d_end, ch.choice([b'', b'abc', b'-5', b'12 34', b'\x00', b'0x10', b'1.5', b'9' * 40]), 'startxref-garbage')
        elif k == 3:
            put(tail, tail + 9, ch.choice([b'startxre', b'STARTXREF', b'', b'xref', b'start xref', b'R', b'st rt R', b'endobj', b'startx R']), 'startxref-keyword')
        elif k == 4:
            put(tail, len(data), ch.choice([b'', b'startx', b'%%EOF' + eol]), 'startxref-lost')
        elif k == 5:
            put(d_end, len(data), ch.choice([b'', eol, eol + b'%%E']), 'eof-lost')
        else:
            put(len(data), len(data), ch.choice([b'\x00' * 40, b'\r\n\r\n', b'garbage garbage\n' * 80, b'<html>\n</html>\n']), 'trailing-junk')

    def lead_damage():
        first = min(saved.objpos.values())
        k = ch.draw(4)
        if k == 0:
            j = ch.choice([b'\r\n', b'HTTP/1.1 200 OK\r\nContent-Type: application/pdf\r\n\r\n', b'\xef\xbb\xbf', b'x' * ch.int(1, 40) + b'\n', b'\x00' * ch.int(1, 30) + b'\n'])
            put(0, 0, j, 'lead-junk')
        elif k == 1:
            put(0, ch.int(1, first), b'', 'lead-lost')
        elif k == 2:
            b = ch.int(1, first - 1)
            put(0, b, bytes(ch.choice(b'ab%\x00\xff 7') for _ in range(b)), 'lead-garbage')
        else:
            # all offsets are wrong by the same amount
            d = ch.choice([1, -1, 7, 16, -5, 100])
            if any(near_same(n, p + d) for n, p in true.items()):
                return
            for n, p in ents:
                if data[p + 17:p + 18] == b'n':
                    put(p, p + 10, b'%010d' % max(0, int(data[p:p + 10]) + d), 'offsets-shifted')

    for _ in range(ch.weighted([(5, 1), (3, 2), (2, 3), (1, 5)])):
        ch.weighted([(4, entry_damage), (2, count_damage), (2, table_damage), (3, tail_damage), (2, lead_damage)])()
    out = bytearray(data)
    for a, b, new, kind in sorted(edits, reverse=True):
        out[a:b] = new
    saved.data = bytes(out)
    # leading damage must leave the first object at the start of a line
    shift = sum(len(new) - (b - a) for a, b, new, k in edits if b <= min(true.values()))
    fp = min(saved.objpos.values()) + shift
    if fp > 0 and saved.data[fp - 1:fp] not in (b'\n', b'\r'):
        raise core.Discard('the first object starts no line')
    if saved.data[:fp].count(b'(') or re.search(rb'obj|trailer', saved.data[:fp]):
        raise core.Discard('leading bytes look like objects')
    # a shifted entry must not point in front of a look-alike inside of a stream
    if hostile and re.search(rb'\d+[\s\x00]+\d+[\s\x00]+obj', b''.join(v.data for v in doc.objs.values() if isinstance(v, pdfgen.Stream))):
        n5 = [n for n in doc.objs if re.search(rb'(?<!\d)%d[\s\x00]+\d+[\s\x00]+obj' % n, b''.join(v.encoded() for v in doc.objs.values() if isinstance(v, pdfgen.Stream)))]
        if n5 and any(k not in ('startxref-value', 'startxref-near', 'startxref-garbage', 'startxref-keyword', 'startxref-lost', 'eof-lost', 'trailing-junk', 'keyword', 'table-lost')
                      for _, _, _, k in edits):
            raise core.Discard('an offset may point at a look-alike')
    kinds = tuple(sorted(set(k for _, _, _, k in edits)))
    if len(edits) > 1:
        ctx.probe('many-faults')
    if not edits:
        raise core.Discard('no fault')
    ctx.nontrivial = saved.data != data
    knob = ch.choice([None, None, None, 64, 31])
    if knob and len(saved.data) < 20000 and hasattr(PSBaseParser, 'BUFSIZ'):
        PSBaseParser.BUFSIZ = knob
    r = c05.Run(ch, ctx, docs, saved)
    r.no_tree = False
    r.nums = sorted(doc.objs)
    saved.next_num = sv.next

    def open_doc(name):
        caching = not ch.bool(35)
        mode = ch.choice(['full', 'full', 'half', 'random'])
        inp = sut.SimInput(saved.data, ch, ctx, mode)
        ctx.log('%s: open, caching=%s reads=%s' % (name, caching, mode))
        return c05.Handle(name, sut.call('opening', lambda: PDFDocument(PDFParser(inp), caching=caching)), caching)

    d = open_doc('A')
    ctx.state((kinds, len(d.sut.xrefs), eol, d.caching))
    ops = [r.op_get] * 4 + [r.op_follow] * 2 + [r.op_pages] * 3 + [r.op_outline, r.op_dest, r.op_head]
    for _ in range(ch.int(0, 8)):
        ch.choice(ops)(d)
    for n in (ch.shuffle(r.nums) if len(r.nums) < 60 else r.nums):
        r.op_get(d, n)
    d.walk = None
    r.op_pages(d)
    while d.walk:
        r.op_pages(d)
    ctx.probe('pages-read')
    if ch.bool(15):
        by_path(ch, ctx, doc, saved)
