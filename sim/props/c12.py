"""C12: damaged input cannot make reading hang."""
import os
import re
import resource
import sys

from sim import core, crypt, pdfgen, pdfsave, sut, observe, steps, fs as simfs
from sim.syntax import Name, Ref
from sim.sut import check

ID = 'C12'
RUNS_QUICK = 9000
RUNS_THOROUGH = 200000
RULE = ('one run = one generated document or unpacked sample file, damaged: stored bytes flipped, lost, repeated, shuffled, blanked, numbers and keywords '
        'replaced, brackets piled up, references and values rewired (page tree, outlines, names, forms, fonts, lengths, cross-reference chain), then '
        'opened, walked, interpreted and converted, with and without caching, under a budget of execution steps and memory; non-trivial = at least '
        'one operation got past opening')
STATE_MEASURE = 'distinct (damage, operation, what came of it)'
REAL = ['pdfmajor.parser', 'pdfmajor.interpreter', 'pdfmajor.converters']
STUB = ['file bytes (damaged in storage)', 'input file object and raw file layer', 'clock (execution steps counted instead)', 'memory limit']
ASSUMPTIONS = ['work is counted in calls and jumps executed by the package; the budget is %s',
               'acceptable ends: a result, or any Exception but RecursionError, MemoryError and SystemError']
PROBES = ['flip', 'lose', 'repeat', 'swap', 'blank', 'cut', 'number', 'keyword', 'pile', 'shuffle-blocks', 'rewire', 'cycle-pages', 'cycle-outlines', 'cycle-self', 'cycle-length',
          'cycle-prev', 'cycle-form', 'cycle-font', 'cycle-names', 'cycle-contents', 'cycle-parms', 'huge-range', 'deep', 'weird-value', 'corpus', 'encrypted', 'revisions', 'no-caching', 'no-fallback', 'open-ok', 'open-failed',
          'pages-ok', 'pages-failed', 'items-ok', 'items-failed', 'convert-ok', 'convert-failed', 'outlines-ok', 'objects', 'ccitt', 'lzw', 'fontfile', 'undamaged', 'short-read']

CORPUS = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'corpus')
BASE, PER_BYTE = 3_000_000, 1200
MEMORY = 2 << 30
STACK = 700                              # frames
OWN_STEPS = True
ASSUMPTIONS[0] %= '%d plus %d per byte' % (BASE, PER_BYTE)


# ------------------------------------------------------------ stored bytes
NUMBERS = [b'0', b'1', b'-1', b'2', b'7', b'65535', b'65536', b'99999999', b'2147483648', b'4294967296', b'999999999999', b'9' * 30, b'1.5', b'-0', b'00', b'+3', b'.']
WORDS = [b'obj', b'endobj', b'stream', b'endstream', b'R', b'xref', b'trailer', b'startxref', b'<<', b'>>', b'[', b']', b'(', b')', b'%%EOF', b'null', b'true',
         b'BT', b'ET', b'Do', b'q', b'Q', b'BI', b'ID', b'EI', b'Tj', b'/Kids', b'/Length', b'/Filter', b'/Type', b'/W', b'/N', b'/Prev', b'begincmap', b'endbfrange',
         b'/FlateDecode', b'/LZWDecode', b'/ASCII85Decode', b'/RunLengthDecode', b'/CCITTFaxDecode', b'/DCTDecode', b'~>', b'f', b're', b'\\', b'#']
PILES = [b'[', b'<<', b'(', b'[<<', b'<</A', b'q ', b'BT ', b'[1 0 R', b'1 0 R ', b'<', b'/', b'\\', b'BI ', b'{', b'%', b'9', b'-', b')', b'>>', b']', b'\0', b' ',
         b'\nstartxref\n1\n', b'\nxref\n', b'\ntrailer\n', b'1 0 obj ', b'stream\n', b'/Fm0 Do ', b'((', b'#', b'EI']


def at(ch, data):
    """a position, more often near something that matters"""
    if ch.bool(60):
        w = ch.choice([b'obj', b'stream', b'xref', b'trailer', b'startxref', b'/Kids', b'/Length', b'/Type', b'/W', b'BT', b'begin', b'/First', b'/Prev', b'/N ', b'/Contents',
                       b'/Font', b'/Encoding', b'/Index', b'/Size', b'/Resources'])
        hits = [m.start() for m in re.finditer(re.escape(w), data)][:400]
        if hits:
            return min(len(data), max(0, ch.choice(hits) + ch.int(-4, 14)))
    return ch.draw(len(data) + 1)


def span(ch, data, cap=400):
    a = at(ch, data)
    return a, min(len(data), a + 1 + ch.draw(ch.choice([1, 4, 20, cap])))


def damage(ch, data, ctx):
    k = ch.choice(['flip', 'flip', 'lose', 'repeat', 'swap', 'blank', 'cut', 'number', 'number', 'number', 'keyword', 'keyword', 'pile', 'shuffle-blocks', 'cycle-prev'])
    ctx.probe(k)
    ctx.fault('bytes-' + k)
    if k == 'flip':
        b = bytearray(data)
        for _ in range(ch.choice([1, 1, 3, 10, 100])):
            p = at(ch, data)
            if p < len(b):
                b[p] = b[p] ^ (1 << ch.draw(8)) if ch.bool() else ch.draw(256)
        return bytes(b), k
    if k == 'lose':
        a, e = span(ch, data)
        return data[:a] + data[e:], k
    if k == 'repeat':
        a, e = span(ch, data)
        p = at(ch, data) if ch.bool() else e
        return data[:p] + data[a:e] * ch.choice([1, 1, 2, 50]) + data[p:], k
    if k == 'swap':
        (a, b), (c, d) = sorted([span(ch, data), span(ch, data)])
        if b > c:
            return data, k
        return data[:a] + data[c:d] + data[b:c] + data[a:b] + data[d:], k
    if k == 'blank':
        a, e = span(ch, data, 2000)
        return data[:a] + ch.choice([b'\0', b'\xff', b' ', b'\n', b'0', b'E', b'/']) * (e - a) + data[e:], k
    if k == 'cut':
        a = at(ch, data)
        return (data[:a] if ch.bool(75) else data[a:]), k
    if k == 'number':
        hits = [m.span() for m in re.finditer(rb'(?<![\w#.])-?\d+(?![\w])', data)][:4000]
        if not hits:
            return data, k
        for _ in range(ch.choice([1, 1, 1, 3])):
            a, e = ch.choice(hits)
            if ch.bool(40):
                o = ch.choice(hits)
                new = data[o[0]:o[1]]
            else:
                new = ch.choice(NUMBERS)
            if ch.bool() and len(new) <= e - a:
                new = new.rjust(e - a, b'0')
            data = data[:a] + new + data[e:]
        return data, k
    if k == 'keyword':
        hits = [m.span() for m in re.finditer(rb'[A-Za-z]{1,15}|<<|>>|[\[\]()]', data)][:6000]
        if not hits:
            return data, k
        a, e = ch.choice(hits)
        if ch.bool(20):
            a = e
        return data[:a] + ch.choice(WORDS) + data[e:], k
    if k == 'pile':
        p = at(ch, data)
        n = ch.choice([3, 30, 300, 1200, 3000, 8000])
        return data[:p] + ch.choice(PILES) * n + data[p:], k
    if k == 'shuffle-blocks':
        n = ch.choice([16, 64, 512])
        blocks = [data[i:i + n] for i in range(0, len(data), n)]
        i = ch.draw(len(blocks))
        j = min(len(blocks), i + ch.int(2, 6))
        blocks[i:j] = ch.shuffle(blocks[i:j])
        return b''.join(blocks), k
    # the chain of cross-reference sections
    heads = [m.start() for m in re.finditer(rb'(?<!start)xref|\d+ \d+ obj(?=[^j]{0,400}/XRef)', data)]
    xs = [m.start() for m in re.finditer(rb'\d+ \d+ obj', data)] if not heads or ch.bool(20) else heads
    hits = [m.span(1) for m in re.finditer(rb'(?:/Prev|/XRefStm%s)\s+(\d+)' % (b'|startxref' if ch.bool(30) else b''), data)]
    dicts = [m.end() for m in re.finditer(rb'trailer\s*<<|/Type\s*/XRef(?=[\s/])', data)]
    if not xs or not hits and not dicts:
        return data, k
    if not hits or dicts and ch.bool(40):
        # a section that names another one, or itself, as the one before it
        p = dicts[-1] if ch.bool(60) else ch.choice(dicts)
        return data[:p] + b' /%s %d ' % (ch.choice([b'Prev', b'Prev', b'XRefStm']), ch.choice(xs)) + data[p:], k
    a, e = ch.choice(hits)
    return data[:a] + (b'%d' % ch.choice(xs)).rjust(e - a, b'0') + data[e:], k


# --------------------------------------------------------------- structure
def slots(doc):
    out = []

    def walk(v, num, depth):
        if isinstance(v, pdfgen.Stream):
            v = v.attrs
        if depth > 6:
            return
        if isinstance(v, dict):
            for k in list(v):
                out.append((v, k, num))
                walk(v[k], num, depth + 1)
        elif isinstance(v, list):
            for i in range(len(v)):
                out.append((v, i, num))
                walk(v[i], num, depth + 1)

    for n in sorted(doc.objs):
        out.append((doc.objs, n, n))
        walk(doc.objs[n], n, 0)
    return out


def weird(ch):
    k = ch.draw(16)
    return [None, 0, -1, 10 ** 9, 1 << 40, 1.5, True, b'', b'xyz', Name('Page'), Name('Pages'), Name('Identity-H'), [], {}, [0, 0, 0, 0], [[], {}, [[]]]][k]


class Rewire:
    def __init__(self, ch, doc, ctx):
        self.ch, self.doc, self.ctx = ch, doc, ctx
        self.lengths = {}

    def objs(self, pred):
        return [n for n in sorted(self.doc.objs) if pred(self.attrs(n))]

    def attrs(self, n):
        v = self.doc.objs[n]
        return v.attrs if isinstance(v, pdfgen.Stream) else v if isinstance(v, dict) else {}

    def own(self, n):
        """a private copy of an object's dictionary"""
        v = self.doc.objs[n]
        if isinstance(v, dict):
            v = self.doc.objs[n] = dict(v)
            return v
        if not isinstance(v, pdfgen.Stream):
            v = self.doc.objs[n] = {}
            return v
        v.attrs = dict(v.attrs)
        return v.attrs

    def apply(self):
        ch, doc = self.ch, self.doc
        k = ch.choice(['rewire', 'rewire', 'rewire', 'weird-value', 'weird-value', 'cycle-pages', 'cycle-outlines', 'cycle-self', 'cycle-length', 'cycle-form', 'cycle-font', 'cycle-names',
                       'cycle-contents', 'cycle-parms', 'huge-range', 'deep'])
        self.ctx.probe(k)
        self.ctx.fault('wiring-' + k)
        nums = sorted(doc.objs)
        any_ref = lambda: Ref(ch.choice(nums))
        if k in ('rewire', 'weird-value'):
            for _ in range(ch.choice([1, 1, 2, 6])):
                c, key, num = ch.choice(slots(doc))
                if k == 'weird-value':
                    v = weird(ch)
                elif ch.bool(30):
                    v = Ref(num)
                elif ch.bool(60):
                    v = any_ref()
                else:
                    c2, k2, num2 = ch.choice(slots(doc))
                    v = c2[k2]
                    if isinstance(v, pdfgen.Stream) and c is not doc.objs:
                        v = Ref(num2)
                    if contains(v, c):
                        v = Ref(num)
                c[key] = v
        elif k == 'cycle-self':
            n = ch.choice(nums)
            m = ch.choice(nums)
            doc.objs[n] = Ref(m)
            if ch.bool():
                doc.objs[m] = Ref(n) if ch.bool() else [Ref(n), Ref(m)]
        elif k == 'cycle-pages':
            nodes = self.objs(lambda a: 'Kids' in a)
            n = ch.choice(nodes) if nodes else doc.pages_root
            a = self.own(n) if isinstance(doc.objs[n], (dict, pdfgen.Stream)) else {}
            if ch.bool(70):
                kids = a.get('Kids')
                kids = list(kids) if isinstance(kids, list) else []
                for _ in range(ch.choice([1, 2, 5, 20])):
                    kids.insert(ch.draw(len(kids) + 1), Ref(ch.choice(nodes)) if ch.bool(80) and nodes else any_ref())
                if ch.bool(20):
                    m = doc.add(kids)
                    kids.append(Ref(m))
                    kids = Ref(m)
                a['Kids'] = kids
            else:
                a[ch.choice(['Parent', 'Type', 'MediaBox', 'Resources', 'Rotate', 'Count'])] = Ref(n)
        elif k == 'cycle-outlines':
            nodes = self.objs(lambda a: 'Title' in a or 'First' in a)
            if not nodes:
                r = doc.add({'Title': b'o', 'A': {}})
                cat = self.own(doc.root) if isinstance(doc.objs[doc.root], dict) else {}
                cat['Outlines'] = Ref(r)
                nodes = [r]
            for _ in range(ch.choice([1, 1, 3])):
                a = self.own(ch.choice(nodes))
                a[ch.choice(['First', 'Next', 'Last', 'Prev', 'Parent', 'Dest', 'Title'])] = Ref(ch.choice(nodes))
                if ch.bool():
                    a.setdefault('Last', Ref(nodes[0]))
                    a.setdefault('First', Ref(ch.choice(nodes)))
        elif k == 'cycle-length':
            st = [n for n in nums if isinstance(doc.objs[n], pdfgen.Stream)]
            for _ in range(ch.int(1, 3)):
                if st:
                    n = ch.choice(st)
                    self.lengths[n] = Ref(ch.choice([n, ch.choice(st), ch.choice(nums)]))
        elif k == 'cycle-form':
            forms = self.objs(lambda a: a.get('Subtype') == Name('Form'))
            if not forms:
                s = pdfgen.Stream(b'/Fm0 Do /Fm1 Do', {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, 9, 9]})
                forms = [doc.add(s)]
            if ch.bool(40):
                s = pdfgen.Stream(b'/Fm1 Do /Fm0 Do', {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, 9, 9]})
                forms.append(doc.add(s))
            xo = {'Fm0': Ref(ch.choice(forms)), 'Fm1': Ref(ch.choice(forms))}
            res = {'XObject': xo}
            if ch.bool(20):
                xo = Ref(doc.add(xo))
            for n in forms:
                a = self.own(n)
                if ch.bool(70):
                    a['Resources'] = res if ch.bool(70) else Ref(doc.add(dict(res)))
                s = doc.objs[n]
                if isinstance(s, pdfgen.Stream) and ch.bool(80):
                    s.data = s.data + ch.choice([b'\n/Fm0 Do', b'\n/Fm1 Do', b'\nq /Fm0 Do Q /Fm1 Do', b'\n/Fm0 Do /Fm0 Do'])
                    s.predictor = None
                    if s.ccitt:
                        s.ccitt, s.filters = None, []
            for p in doc.pages:
                if isinstance(doc.objs.get(p.num), dict) and ch.bool(80):
                    a = self.own(p.num)
                    a['Resources'] = dict(res, Font={})
                    c = pdfgen.Stream(ch.choice([b'/Fm0 Do', b'/Fm1 Do /Fm0 Do']))
                    a['Contents'] = Ref(doc.add(c))
        elif k == 'cycle-font':
            fonts = self.objs(lambda a: a.get('Type') == Name('Font') or 'FontName' in a)
            if fonts:
                for _ in range(ch.int(1, 3)):
                    n = ch.choice(fonts)
                    a = self.own(n)
                    key = ch.choice(['DescendantFonts', 'Encoding', 'ToUnicode', 'FontDescriptor', 'Widths', 'W', 'FontFile', 'FontFile2', 'FontFile3', 'Subtype', 'DW', 'CIDSystemInfo', 'BaseFont',
                                     'FontBBox', 'FirstChar'])
                    a[key] = ch.choice([Ref(n), [Ref(n)], Ref(ch.choice(fonts)), {'Differences': Ref(n), 'BaseEncoding': Ref(n)}, any_ref()])
                    if key == 'DescendantFonts':
                        a['Subtype'] = Name('Type0')
        elif k == 'cycle-names':
            nodes = self.objs(lambda a: 'Names' in a or 'Kids' in a or 'Limits' in a)
            cat = self.own(doc.root) if isinstance(doc.objs[doc.root], dict) else {}
            n = doc.add({'Kids': []})
            nodes.append(n)
            a = self.own(ch.choice(nodes))
            a['Kids'] = [Ref(ch.choice(nodes)) for _ in range(ch.choice([1, 2, 9]))]
            if ch.bool():
                a.pop('Names', None)
            cat['Names'] = {'Dests': Ref(ch.choice(nodes))}
        elif k == 'cycle-contents':
            for p in doc.pages:
                if isinstance(doc.objs.get(p.num), dict):
                    a = self.own(p.num)
                    n = doc.add([])
                    doc.objs[n] = [Ref(ch.choice([n, p.num, ch.choice(nums)])) for _ in range(ch.int(1, 4))]
                    a[ch.choice(['Contents', 'Contents', 'Resources', 'MediaBox', 'Annots'])] = Ref(n)
        elif k == 'deep':
            what = ch.choice(['value', 'value', 'forms', 'pages', 'outlines', 'refs', 'names', 'content', 'lzw'])
            n = ch.choice([40, 150, 1100, 3000] if what in ('value', 'content') else [40, 150, 400])
            if what == 'value':
                v = b'deep'
                for i in range(n):
                    v = [v] if ch.bool() else {'A': v}
                doc.objs[ch.choice(nums)] = v if ch.bool() else {'V': v, 'Type': Name('Page'), 'Contents': v, 'Resources': v}
            elif what == 'forms':
                last = doc.add(pdfgen.Stream(b'0 0 m 1 1 l S', {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, 9, 9]}))
                for i in range(n):
                    last = doc.add(pdfgen.Stream(b'/F Do', {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, 9, 9], 'Resources': {'XObject': {'F': Ref(last)}}}))
                for p in doc.pages[:1]:
                    a = self.own(p.num)
                    a['Resources'] = {'XObject': {'F': Ref(last)}}
                    a['Contents'] = Ref(doc.add(pdfgen.Stream(b'/F Do')))
            elif what == 'pages':
                last = Ref(doc.pages[0].num) if doc.pages else Ref(doc.root)
                for i in range(n):
                    last = Ref(doc.add({'Type': Name('Pages'), 'Kids': [last], 'Count': 1}))
                self.own(doc.pages_root)['Kids'] = [last]
            elif what in ('outlines', 'names'):
                last = Ref(doc.add({'Title': b'x', 'Dest': [], 'Names': [b'd1', [1]]}))
                for i in range(n):
                    if what == 'names':
                        last = Ref(doc.add({'Kids': [last]}))
                    else:
                        last = Ref(doc.add({'Title': b'x', 'Dest': [], 'Next' if ch.bool() else 'First': last, 'Last': last}))
                cat = self.own(doc.root)
                cat['Outlines'] = last
                cat['Names'] = {'Dests': last}
            elif what == 'lzw':
                self.ctx.probe('lzw')
                s = pdfgen.Stream(lzw_growing(ch.choice([300, 3800])), {'Filter': Name('LZWDecode')})
                for p in doc.pages[:1]:
                    self.own(p.num)['Contents'] = Ref(doc.add(s))
            elif what == 'refs':
                last = doc.add(5)
                for i in range(n):
                    last = doc.add(Ref(last))
                self.own(doc.root)[ch.choice(['Pages', 'Outlines', 'Names'])] = Ref(last)
                st = [x for x in nums if isinstance(doc.objs[x], pdfgen.Stream)]
                if st:
                    self.lengths[ch.choice(st)] = Ref(last)
            else:
                for p in doc.pages[:1]:
                    c = ch.choice([b'[', b'<<', b'q ', b'BT ', b'(', b'{', b'1 ', b'[(', b'<< /A', b'BX ', b'/P BMC '])
                    self.own(p.num)['Contents'] = Ref(doc.add(pdfgen.Stream(c * n + ch.choice([b'', b' TJ', b']' * n + b' TJ', b'>>' * n, b')' * n + b'Tj', b'Q ' * n]))))
        elif k == 'huge-range':
            big = lambda: ch.choice([0, 1, 255, 65535, 70000, 10 ** 6, 2 ** 31 - 1, 10 ** 12, -1, -10 ** 9])
            hx = lambda w: b'<' + ch.choice([b'00', b'01', b'ff', b'7f'])[:2] + b'00' * (w - 1) + b'>' if ch.bool() else b'<' + b'ff' * w + b'>'
            for n in self.objs(lambda a: a.get('Type') == Name('Font')):
                a = self.own(n)
                if ch.bool(60):
                    w = ch.choice([1, 2, 4, 4, 5, 8])
                    kind = ch.choice([b'bfrange', b'bfrange', b'cidrange', b'notdefrange', b'codespacerange'])
                    body = b''.join(b'%s %s %s\n' % (hx(w), hx(w), ch.choice([b'<0041>', b'[<0041> <0042>]', b'<00>', b'5', b'<D800DC00>', b'<>'])) for _ in range(ch.int(1, 4)))
                    st = pdfgen.Stream(b'/CIDInit /ProcSet findresource begin begincmap\n1 begin%s\n%send%s\nendcmap' % (kind, body, kind), {}, pdfgen.gen_filters(ch))
                    a['ToUnicode' if ch.bool(70) else 'Encoding'] = Ref(doc.add(st))
                if ch.bool(60):
                    if 'Widths' in a or ch.bool(30):
                        a['FirstChar'], a['LastChar'] = big(), big()
                    w = []
                    for _ in range(ch.int(1, 3)):
                        w += [big(), big(), 500] if ch.bool(70) else [big(), [500] * 3]
                    w2 = [big(), big(), -1000, 500, 880]
                    for m in ([n] if ch.bool() else self.objs(lambda a: 'CIDSystemInfo' in a or 'W' in a)):
                        a = self.own(m)
                        a['W'] = w
                        a['W2'] = w2
                        a['DW2'] = [880, big()]
        else:
            st = [n for n in nums if isinstance(doc.objs[n], pdfgen.Stream)]
            for _ in range(ch.int(1, 4)):
                if st:
                    a = self.own(ch.choice(st))
                    f = ch.choice(['CCITTFaxDecode', 'LZWDecode', 'FlateDecode', 'ASCII85Decode', 'ASCIIHexDecode', 'RunLengthDecode', 'Crypt', 'JBIG2Decode'])
                    if f == 'CCITTFaxDecode':
                        self.ctx.probe('ccitt')
                    if f == 'LZWDecode':
                        self.ctx.probe('lzw')
                    big = lambda: ch.choice([0, 1, 8, 100, -1, 1728, 1 << 20, 10 ** 9, 1 << 40])
                    p = {'K': ch.choice([-1, 0, 4]), 'Columns': big(), 'Rows': big(), 'Predictor': ch.choice([1, 2, 10, 12, 15, 99]), 'Colors': big(), 'BitsPerComponent': ch.choice([8, 8, 1, 16]),
                         'BlackIs1': ch.bool(), 'EncodedByteAlign': ch.bool()}
                    p = {x: p[x] for x in ch.sample(sorted(p), ch.int(1, 8))}
                    a['Filter'] = [Name(f)] * ch.choice([1, 1, 2, 30])
                    a['DecodeParms'] = ch.choice([p, [p] * len(a['Filter']), Ref(ch.choice(st))])
        return k


def contains(v, c, depth=0):
    if v is c:
        return True
    if depth > 40:
        return True
    if isinstance(v, pdfgen.Stream):
        v = v.attrs
    if isinstance(v, dict):
        return any(contains(x, c, depth + 1) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(contains(x, c, depth + 1) for x in v)
    return False


def lzw_growing(n):
    """n codes, each for what the one before it means and one byte more"""
    bits, count = 256 << 9 | 32, 18
    for size in range(258, 258 + n):
        w = 9 if size < 511 else 10 if size < 1023 else 11 if size < 2047 else 12
        bits = bits << w | size
        count += w
    pad = -count % 8
    return (bits << pad).to_bytes((count + pad) // 8, 'big')


def add_fontfiles(ch, doc, ctx):
    """font programs, valid and not"""
    for n in sorted(doc.objs):
        v = doc.objs[n]
        if not (isinstance(v, dict) and 'FontName' in v and ch.bool(50)):
            continue
        v = doc.objs[n] = dict(v)
        ctx.probe('fontfile')
        if ch.bool():
            text = b'%!FontType1\n/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} for\n' + b''.join(b'dup %d /%s put\n' % (ch.draw(300), ch.choice([b'A', b'uni0041', b'x', b'g1']))
                                                                                                        for _ in range(ch.int(0, 20))) + b'readonly def\n'
            v['FontFile'] = Ref(doc.add(pdfgen.Stream(text, {'Length1': ch.choice([len(text), 0, 10 ** 9, -1])})))
        else:
            import struct
            cm = struct.pack('>HH', 0, 1) + struct.pack('>HHL', 3, 1, 12)
            seg = ch.choice([1, 3, 0, 0x7fff])
            cm += struct.pack('>HHH', ch.choice([0, 2, 4, 6]), 32, 0) + struct.pack('>HHHH', seg * 2, 4, 1, 0)
            cm += bytes(ch.draw(256) for _ in range(24)) + b'\xff\xff' * 8
            ttf = b'\0\1\0\0' + struct.pack('>HHHH', 1, 16, 0, 0) + struct.pack('>4sLLL', b'cmap', 0, 28, len(cm)) + cm
            v['FontFile2'] = Ref(doc.add(pdfgen.Stream(ttf, {'Length1': len(ttf)})))


# -------------------------------------------------------------- operations
BAD_ENDS = (RecursionError, MemoryError, SystemError)


class Run:
    def __init__(self, ch, ctx, data, what):
        self.ch, self.ctx, self.data, self.what = ch, ctx, data, what
        self.budget = BASE + PER_BYTE * len(data)
        self.most = 0

    def do(self, op, fn):
        """one operation under its own budget"""
        if steps.limit is None:
            steps.install(self.budget)
        steps.limit = self.budget
        steps.reset()
        try:
            r = sut.call(op, fn, allow=(Exception,))
        except sut.Expected as e:
            steps.limit = 1 << 60
            if isinstance(e.exc, BAD_ENDS):
                raise core.Violation('exception:%s' % type(e.exc).__name__, '%s: %s' % (op, core.describe_exc(e.exc))) from None
            self.note(op, type(e.exc).__name__)
            return False, e.exc
        steps.limit = 1 << 60
        self.note(op, 'ok')
        return True, r

    def note(self, op, outcome):
        self.ctx.steps += 1
        self.most = max(self.most, steps.count)
        self.ctx.log('%s: %s' % (op, outcome))
        op = op.split(' ')[0]
        self.ctx.state((self.what, op, outcome))
        if op in ('open', 'pages', 'items', 'convert', 'outlines'):
            self.ctx.probe('%s-%s' % (op, 'ok' if outcome == 'ok' else 'failed'))
        if outcome == 'ok' and op != 'open':
            self.ctx.nontrivial = True

    def document(self, pw):
        from pdfmajor.parser.PDFParser import PDFParser
        from pdfmajor.parser.PDFDocument import PDFDocument
        from pdfmajor.parser.PDFPage import PDFPage
        from pdfmajor.parser.PDFStream import PDFStream
        ch = self.ch
        caching, fallback = not ch.bool(35), not ch.bool(35)
        if not caching:
            self.ctx.probe('no-caching')
        if not fallback:
            self.ctx.probe('no-fallback')
        mode = ch.choice(['full', 'full', 'full', 'half'])
        inp = sut.SimInput(self.data, ch, self.ctx, mode)
        if mode != 'full':
            self.ctx.probe('short-read')
        ok, d = self.do('open caching=%s fallback=%s' % (caching, fallback), lambda: PDFDocument(PDFParser(inp), pw, caching=caching, fallback=fallback))
        if not ok:
            return
        for op in ch.shuffle(['pages', 'outlines', 'dests', 'objects', 'pages'])[:ch.int(1, 5)]:
            if op == 'pages':
                self.do('pages of the document', lambda: [(p.mediabox, p.contents) for p in PDFPage.create_pages(d)])
            elif op == 'outlines':
                self.do('outlines', lambda: list(d.get_outlines()))
            elif op == 'dests':
                for name in (b'dest', b'a', b'd1'):
                    self.do('dest', lambda: d.get_dest(name))
            else:
                ok, nums = self.do('numbers', lambda: [n for x in d.xrefs for n in x.get_objids()])
                nums = sorted(set(n for n in nums if isinstance(n, int)))[:400] if ok else list(range(1, 30))
                nums = ch.shuffle(nums)[:60]
                self.ctx.probe('objects')

                def one(n):
                    o = d.getobj(n)
                    if isinstance(o, PDFStream):
                        o.get_data()
                for n in nums:
                    if n:
                        self.do('object', lambda: one(n))

    def interpret(self, path, pw):
        from pdfmajor.interpreter import PDFInterpreter
        caching = not self.ch.bool(30)
        it = []

        def walk(items, depth=0):
            n = 0
            for i in items:
                n += 1
                k = observe.kind(i)
                if k == 'xobject':
                    if depth > 300:
                        raise core.Violation('no-termination', 'forms nested without end')
                    walk(i, depth + 1)
                elif k == 'image':
                    i.stream.get_data()
                elif k == 'text':
                    for b in i:
                        b.get_text()
                        for c in b:
                            c.get_text()
            return n

        def pages():
            for p in PDFInterpreter(path, caching=caching, password=pw, check_extractable=False, ignore_bad_chars=self.ch.bool()):
                it.append(p)
                if len(it) > 300:
                    break
        self.do('pages caching=%s' % caching, pages)
        for p in it[:12]:
            self.do('items', lambda: walk(p))

    def convert(self, fs, path, pw):
        from pdfmajor.converters import convert_file
        fmt = self.ch.choice(['text', 'json', 'xml', 'html', 'yaml'])
        self.do('convert %s' % fmt, lambda: convert_file(path, fs.path('o.' + fmt), out_type=fmt, password=pw, check_extractable=False, ignore_bad_chars=self.ch.bool(),
                                                         caching=not self.ch.bool(30)))

    def go(self, fs, path, pw):
        ch = self.ch
        for op in ch.shuffle(['document', 'interpret', 'convert'])[:ch.int(1, 3)]:
            if op == 'document':
                self.document(pw)
            elif op == 'interpret':
                self.interpret(path, pw)
            else:
                self.convert(fs, path, pw)


def run(ch, ctx):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    pw = None
    what = []
    sys.setrecursionlimit(60000)         # the damage is built by recursive code
    names = sorted(n for n in os.listdir(CORPUS) if n.endswith('.pdf'))
    if ch.bool(20):
        name = ch.choice(names)
        ctx.probe('corpus')
        with open(os.path.join(CORPUS, name), 'rb') as fp:
            data = fp.read()
        ctx.log('sample file %s' % name)
    else:
        o = pdfgen.Opts(apart=15, outlines=35, dests=35, misc=(0, 4), ops=(0, 3), pages=(1, 3), images=(0, 2), forms=(0, 2), tree=True)
        docs = [pdfgen.gen_doc(ch, o)]
        if ch.bool(30):
            add_fontfiles(ch, docs[0], ctx)
        style = pdfsave.Style()
        if ch.bool(65):
            rw = Rewire(ch.sub('rewire'), docs[0], ctx)
            for _ in range(rw.ch.choice([1, 1, 1, 2, 3])):
                what.append(rw.apply())
            if rw.lengths:
                def length(num, attrs, v):
                    if num in rw.lengths:
                        attrs['Length'] = rw.lengths[num]
                style.stream_hook = length
        scheme = None
        if ch.bool(12):
            scheme = crypt.gen_scheme(ch)
            pw = scheme.user
            ctx.probe('encrypted')
        if not what and ch.bool(30):
            docs.append(pdfgen.evolve(ch, docs[-1]))
            ctx.probe('revisions')
        s = pdfsave.Saver(ch, style, scheme)
        for d in docs:
            s.save(d)
        data = s.finish().data
    dch = ch.sub('damage')
    if not what or dch.bool(35):
        for _ in range(dch.choice([0, 1, 1, 1, 2, 2, 3, 5])):
            if data:
                data, k = damage(dch.sub('one'), data, ctx)
                what.append(k)
    if not what:
        ctx.probe('undamaged')
    ctx.log('%d bytes, damage: %s' % (len(data), ', '.join(what)))
    sys.setrecursionlimit(STACK)
    with simfs.FS(ch.sub('fs'), ctx) as fs:
        path = fs.put('in.pdf', data)
        if os.environ.get('VSIM_DUMP'):
            with simfs.REAL_OPEN(os.environ['VSIM_DUMP'], 'wb') as fp:
                fp.write(data)
        r = Run(ch.sub('ops'), ctx, data, '+'.join(sorted(set(what)))[:60])
        r.go(fs, path, pw)
        ctx.log('most steps %d of %d' % (r.most, r.budget))
