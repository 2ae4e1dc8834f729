"""Model documents: what a PDF means, generated together with what must be read.

A `Doc` is a map from object numbers to model values plus the pages it means.
Nothing here imports the code under test.
"""
import base64
import copy
import zlib

from . import ccitt
from .syntax import Name, Kw, Ref, Num, Writer, gen_value, gen_dict, gen_string, expect


# ------------------------------------------------------------------ streams
def enc_flate(d, v=0):
    return zlib.compress(d, (v + 6) % 10)


def spread(d, v):
    """white space put into ASCII data at places named by v"""
    if not v:
        return d
    out = bytearray()
    i = 0
    while i < len(d):
        v = (v * 1103515245 + 12345) & 0x7fffffff
        n = 1 + (v >> 8) % 40
        out += d[i:i + n] + (b'\n', b' ', b'\r\n', b'\t', b'\0', b'  ')[(v >> 16) % 6]
        i += n
    return bytes(out)


def enc_ahx(d, v=0):
    h = d.hex()
    if v & 1:
        h = h.upper()
    if v & 2 and d and d[-1] & 15 == 0:
        h = h[:-1]                       # a last digit 0 may be left out
    return spread(h.encode() + b'>', v >> 2)


def enc_a85(d, v=0):
    e = base64.a85encode(d)
    if v & 1:
        e = e.replace(b'z', b'!!!!!')
    return spread(e, v >> 2).rstrip(b'\n\r\t \0') + (b'\n' if v & 2 else b'') + b'~>'


def enc_lzw(d, v=0):
    """v: also start over before the table is full"""
    bits, n = 0, 0
    width = 9
    table = {bytes([i]): i for i in range(256)}
    full = 4093 if v % 3 == 0 else 300 + v % 300

    def put(code):
        nonlocal bits, n
        bits = bits << width | code
        n += width

    put(256)
    size = 258
    cur = b''
    for i in range(len(d)):
        b = d[i:i + 1]
        if cur + b in table:
            cur += b
            continue
        put(table[cur])
        table[cur + b] = size
        size += 1
        width = 9 if size < 512 else 10 if size < 1024 else 11 if size < 2048 else 12
        if size >= full:
            put(256)
            table = {bytes([i]): i for i in range(256)}
            size, width = 258, 9
        cur = b
    if cur:
        put(table[cur])
        size += 1
        width = 9 if size < 512 else 10 if size < 1024 else 11 if size < 2048 else 12
    put(257)
    pad = -n % 8
    return (bits << pad).to_bytes((n + pad) // 8, 'big')


def enc_rl(d, v=0):
    if v & 1:
        return b''.join(bytes([len(d[i:i + 128]) - 1]) + d[i:i + 128] for i in range(0, len(d), 128)) + b'\x80'
    out = bytearray()
    i = 0
    while i < len(d):
        j = i
        while j + 1 < len(d) and d[j + 1] == d[i] and j - i < 126:
            j += 1
        if j > i:
            out += bytes([257 - (j - i + 1), d[i]])
            i = j + 1
        else:
            k = i
            while k + 1 < len(d) and d[k + 1] != d[k] and k - i < 126:
                k += 1
            out += bytes([k - i]) + d[i:k + 1]
            i = k + 1
    return bytes(out) + b'\x80'


def enc_png_up(d, columns):
    out = bytearray()
    prev = bytes(columns)
    for i in range(0, len(d), columns):
        row = d[i:i + columns]
        out += b'\x02' + bytes((a - b) & 255 for a, b in zip(row, prev))
        prev = row
    return bytes(out)


def enc_png(d, columns, colors, types):
    out = bytearray()
    n = columns * colors
    prev = bytes(n)
    for k, i in enumerate(range(0, len(d), n)):
        row = d[i:i + n]
        t = types[k % len(types)]
        left = bytes(colors) + row
        out.append(t)
        for j, b in enumerate(row):
            out.append((b - (0, left[j], prev[j], (left[j] + prev[j]) // 2)[t]) & 255)
        prev = row
    return bytes(out)


FILTERS = {'LZWDecode': enc_lzw, 'FlateDecode': enc_flate, 'ASCIIHexDecode': enc_ahx, 'ASCII85Decode': enc_a85, 'RunLengthDecode': enc_rl}
SHORT = {'LZWDecode': 'LZW', 'FlateDecode': 'Fl', 'ASCIIHexDecode': 'AHx', 'ASCII85Decode': 'A85', 'RunLengthDecode': 'RL'}


LONG = {'W': 'Width', 'H': 'Height', 'BPC': 'BitsPerComponent', 'CS': 'ColorSpace', 'F': 'Filter', 'IM': 'ImageMask'}
LONGF = {Name(v): Name(k) for k, v in SHORT.items()}
LONGF[Name('DCT')] = Name('DCTDecode')


class Stream:
    """attrs: model dict without Length/Filter/DecodeParms"""

    def __init__(self, data, attrs=None, filters=(), parms=None, dct=False):
        self.data = bytes(data)
        self.attrs = attrs or {}
        self.filters = list(filters)
        self.predictor = parms        # columns, or (columns, colours, row types) for a PNG predictor
        self.ccitt = None             # (columns, black is 1, byte align, end mark), with CCITTFaxDecode the last filter
        self.variant = 0              # which of the spellings of the filters
        self.dct = dct                # data is a JPEG body, kept as stored

    def encoded(self):
        d = self.data
        if self.predictor:
            d = enc_png(d, *self.predictor) if isinstance(self.predictor, tuple) else enc_png_up(d, self.predictor)
        for f in reversed(self.filters):
            if f == 'CCITTFaxDecode':
                d = ccitt.encode(d, *self.ccitt)
            elif f != 'DCTDecode':
                d = FILTERS[f](d, self.variant)
        return d

    def full_attrs(self, length):
        a = dict(self.attrs)
        if self.filters:
            if len(self.filters) == 1 and not a.pop('_listfilter', False):
                a['Filter'] = Name(self.filters[0])
            else:
                a.pop('_listfilter', None)
                a['Filter'] = [Name(f) for f in self.filters]
        else:
            a.pop('_listfilter', None)
        if self.predictor:
            p = {'Predictor': 12, 'Columns': self.predictor}
            if isinstance(self.predictor, tuple):
                cols, colors, types = self.predictor
                p = {'Predictor': 10 + types[0] if len(types) == 1 else 15, 'Columns': cols, 'Colors': colors, 'BitsPerComponent': 8}
                if colors == 1:
                    del p['Colors']
        if self.ccitt:
            p = {'K': -1, 'Columns': self.ccitt[0]}
            for k, v in zip(('BlackIs1', 'EncodedByteAlign', 'EndOfBlock'), self.ccitt[1:]):
                if v != (k == 'EndOfBlock'):
                    p[k] = bool(v)
            if p['Columns'] == 1728:
                del p['Columns']
        if self.predictor or self.ccitt:
            a['DecodeParms'] = p if not isinstance(a.get('Filter'), list) else [None] * (len(self.filters) - 1) + [p]
        a['Length'] = length
        return a

    def __repr__(self):
        return 'Stream(%d bytes, %s)' % (len(self.data), self.filters)


def gen_filters(ch, pct=60):
    if not ch.bool(pct):
        return []
    k = ch.choice(['FlateDecode', 'FlateDecode', 'ASCIIHexDecode', 'ASCII85Decode', 'RunLengthDecode', 'LZWDecode'])
    if ch.bool(15):
        return [ch.choice(['ASCIIHexDecode', 'ASCII85Decode']), k]
    return [k]


def gen_bytes(ch, cap=60):
    k = ch.draw(6)
    n = ch.int(0, cap)
    if k == 0:
        return bytes((i * 7 + n) & 255 for i in range(n))
    if k == 1:
        return b'\x00' * n
    if k == 2:
        return b'line\r\nline\n' * (n // 10) + b'\r'
    if k == 3:
        return ch.choice([b'endstream', b'endobj', b'1 0 obj', b'trailer\n<<>>', b'xref', b'\nendstream\n', b'stream\n',
                          b'%%EOF', b'\n5 0 obj\n<< /Type /Page >>\nendobj\n', b'\rendstream\rendobj\r']) + b'x' * (n // 4)
    if k == 4:
        return bytes(ch.draw(256) for _ in range(min(n, 16)))
    return b'x' * n


# -------------------------------------------------------------------- fonts
class Font:
    """codes: list of (bytes code, text) the font can show"""

    def __init__(self, key, objs, codes, num):
        self.key, self.objs, self.codes, self.num = key, objs, codes, num


STD_SAFE = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,:;!?()[]{}<>&%$#@*+-/=_"|~^'
STD_MAP = {}


GLYPHS = [('quotedbl', '"'), ('ampersand', '&'), ('less', '<'), ('greater', '>'), ('backslash', '\\'), ('quotesingle', "'"),
          ('colon', ':'), ('hyphen', '-'), ('numbersign', '#'), ('at', '@'), ('percent', '%'), ('bar', '|'), ('space', ' '),
          ('eacute', '\xe9'), ('Euro', '\u20ac'), ('fi', '\ufb01'), ('bracketleft', '['), ('braceleft', '{'), ('exclam', '!'),
          ('asterisk', '*'), ('grave', '`'), ('A', 'A'), ('z', 'z'), ('zero', '0'), ('asciitilde', '~'), ('question', '?'),
          ('comma', ','), ('period', '.'), ('bracketright', ']'), ('braceright', '}'), ('equal', '='), ('yen', '\xa5')]

UNI = ['A', 'b', ' ', '"', "'", '<', '&', '>', '\\', ':', '-', '#', '\xe9', '\u4e2d', '\u05d0', '\U0001f600', '\u2028', '\u00a0',
       ']]>', '<!--', '&amp;', '\\n', '{}', '- ', ': ', '%', '\u200b', '\x85', '\ufeff', 'null', 'true', '~', '*', '!', '\u0301', 'yes',
       '0x1', '\t']
UNI_CTRL = ['\x01', '\x00', '\x0b', '\n', '\r', '\x1b', '\x7f', '\ufffe']


def utf16(s):
    return s.encode('utf-16-be', 'surrogatepass')


def to_unicode_cmap(pairs, width):
    out = [b'/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CMapName /X def\n1 begincodespacerange\n<%s> <%s>\nendcodespacerange\n'
           % (b'00' * width, b'FF' * width)]
    for i in range(0, len(pairs), 100):
        part = pairs[i:i + 100]
        out.append(b'%d beginbfchar\n' % len(part))
        for code, text in part:
            out.append(b'<%s> <%s>\n' % (code.hex().encode(), utf16(text).hex().encode()))
        out.append(b'endbfchar\n')
    out.append(b'endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n')
    return b''.join(out)


FONT_KINDS_CMAP = ['base14', 'diff', 'diff', 'type0', 'truetype', 'tounicode', 'cmap', 'cmap', 'cmap']
CMAP_TEXT = ['A', 'b', ' ', '<', '&', '\xe9', '\u4e2d', '\u05d0', '\U0001f600', 'fi', '"', '0', '-']


def cmap_tables():
    """predefined CMaps of the simulated installation: name -> dict to be pickled"""
    out = {}
    for k, o in enumerate(['VSimA', 'VSimB']):
        n = len(CMAP_TEXT)
        c2c = {0x41 + i: 1 + i + 20 * k for i in range(n)}
        c2c[0x8e] = {0x61 + i: 101 + i for i in range(n)}
        out[o + '-H'] = dict(CODE2CID=c2c, IS_VERTICAL=False)
        out[o + '-V'] = dict(CODE2CID=dict(c2c), IS_VERTICAL=True)
        uni = {}
        for i in range(n):
            uni[1 + i + 20 * k] = CMAP_TEXT[i]
            uni[101 + i] = CMAP_TEXT[-1 - i] + str(k)
        out['to-unicode-Adobe-' + o] = dict(CID2UNICHR_H=uni, CID2UNICHR_V=dict(uni))
    return out


def cmap_files():
    import gzip
    import pickle
    return {n + '.pickle.gz': gzip.compress(pickle.dumps(d, 2), mtime=0) for n, d in cmap_tables().items()}


def gen_font(ch, doc, key, ctrl=False, kinds=None):
    ch = ch.sub('font')
    fdd = None
    k = ch.choice(kinds or ['base14', 'diff', 'type0', 'truetype', 'tounicode'])
    objs = {}
    if k == 'base14':
        base = ch.choice(['Helvetica', 'Times-Roman', 'Courier', 'Helvetica-Bold'])
        d = {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name(base)}
        codes = [(bytes([c]), chr(c)) for c in STD_SAFE]
    elif k == 'diff':
        gl = ch.sample(GLYPHS, ch.int(3, 12))
        first = ch.int(1, 120)
        fdd = {'Type': Name('FontDescriptor'), 'FontName': Name('Fx' + key), 'Flags': 4, 'Ascent': 800, 'Descent': -200,
               'FontBBox': [0, -200, 1000, 800], 'ItalicAngle': 0, 'MissingWidth': 250}
        fd = doc.add(fdd)
        d = {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name('Fx' + key), 'FirstChar': first,
             'LastChar': first + len(gl) - 1, 'Widths': [200 + 37 * i for i in range(len(gl))], 'FontDescriptor': Ref(fd),
             'Encoding': {'Type': Name('Encoding'), 'Differences': [first] + [Name(g) for g, _ in gl]}}
        codes = [(bytes([first + i]), u) for i, (g, u) in enumerate(gl)]
        if ch.bool():
            d['Encoding'] = Ref(doc.add(d['Encoding']))
        if ch.bool():
            d['Widths'] = Ref(doc.add(d['Widths']))
    elif k == 'truetype':
        fdd = {'Type': Name('FontDescriptor'), 'FontName': Name('TT' + key), 'Flags': 32, 'Ascent': 750, 'Descent': -250,
               'FontBBox': [-10, -250, 900, 750], 'ItalicAngle': -5, 'FontWeight': 400}
        fd = doc.add(fdd)
        d = {'Type': Name('Font'), 'Subtype': Name('TrueType'), 'BaseFont': Name('TT' + key), 'FirstChar': 32, 'LastChar': 126,
             'Widths': [300 + (i * 13) % 400 for i in range(95)], 'FontDescriptor': Ref(fd), 'Encoding': Name('WinAnsiEncoding')}
        codes = [(bytes([c]), chr(c)) for c in range(33, 127)]
    elif k == 'tounicode':
        texts = ch.sample(UNI + (UNI_CTRL if ctrl else []), ch.int(3, 12))
        pairs = [(bytes([65 + i]), t) for i, t in enumerate(texts)]
        tu = doc.add(Stream(to_unicode_cmap(pairs, 1), filters=gen_filters(ch)))
        d = {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name('Courier'), 'ToUnicode': Ref(tu)}
        codes = pairs
    elif k == 'cmap':
        o = ch.choice(['VSimA', 'VSimB'])
        enc = o + ch.choice(['-H', '-H', '-V'])
        t = cmap_tables()
        uni = t['to-unicode-Adobe-' + o]['CID2UNICHR_H']
        codes = []
        for a, c in sorted(t[enc]['CODE2CID'].items()):
            if isinstance(c, dict):
                codes += [(bytes([a, b]), uni[d]) for b, d in sorted(c.items())]
            else:
                codes.append((bytes([a]), uni[c]))
        codes = ch.sample(codes, ch.int(3, 12))
        cid = doc.add({'Type': Name('Font'), 'Subtype': Name('CIDFontType0'), 'BaseFont': Name('CM' + key),
                       'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': o.encode(), 'Supplement': 0}, 'DW': 900})
        d = {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('CM' + key), 'Encoding': Name(enc),
             'DescendantFonts': [Ref(cid)]}
    else:
        texts = ch.sample(UNI + (UNI_CTRL if ctrl else []), ch.int(3, 14))
        base = ch.choice([1, 40, 0x1200])
        pairs = [((base + i).to_bytes(2, 'big'), t) for i, t in enumerate(texts)]
        tu = doc.add(Stream(to_unicode_cmap(pairs, 2), filters=gen_filters(ch)))
        fdd = {'Type': Name('FontDescriptor'), 'FontName': Name('CID' + key), 'Flags': 4, 'Ascent': 880, 'Descent': -120,
               'FontBBox': [0, -120, 1000, 880]}
        fd = doc.add(fdd)
        cid = doc.add({'Type': Name('Font'), 'Subtype': Name('CIDFontType2'), 'BaseFont': Name('CID' + key),
                       'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
                       'FontDescriptor': Ref(fd), 'DW': 1000, 'W': [base, [400 + 10 * i for i in range(len(texts))]]})
        d = {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('CID' + key), 'Encoding': Name('Identity-H'),
             'DescendantFonts': [Ref(cid)], 'ToUnicode': Ref(tu)}
        codes = pairs
    num = doc.add(d)
    f = Font(key, objs, codes, num)
    f.kind, f.fd = k, fdd
    f.cid = cid if k == 'type0' else None
    return f


def gen_sibling(ch, doc, key, f, ctrl=False):
    """another font with the same descendant, whose codes mean something else"""
    ch = ch.sub('sibling')
    texts = UNI + (UNI_CTRL if ctrl else [])
    k = ch.int(1, len(texts) - 1)
    pairs = [(c, texts[(texts.index(t) + k) % len(texts)]) for c, t in f.codes]
    tu = doc.add(Stream(to_unicode_cmap(pairs, 2), filters=gen_filters(ch)))
    d = dict(doc.objs[f.num], ToUnicode=Ref(tu))
    g = Font(key, {}, pairs, doc.add(d))
    g.kind, g.fd, g.cid = f.kind, f.fd, f.cid
    doc.probes['sibling-font'] = 1
    return g


# ------------------------------------------------------------------ content
class Inline:
    """an inline image, one indivisible stretch of content"""

    def __init__(self, attrs, stored, data, w, h):
        self.attrs, self.stored, self.data, self.w, self.h = attrs, stored, data, w, h


def num(ch):
    k = ch.draw(6)
    if k < 3:
        return Num(b'%d' % ch.int(0, 600))
    if k == 3:
        return Num(b'-%d' % ch.int(1, 90))
    if k == 4:
        return Num(b'%d.%d' % (ch.int(0, 99), ch.int(0, 99)))
    return Num(b'.%d' % ch.int(1, 9))


def gen_image_bytes(ch, w, h, comps):
    n = w * h * comps
    k = ch.draw(4)
    if k == 0:
        return bytes((i * 31 + w) & 255 for i in range(n))
    if k == 1:
        return bytes([ch.choice([0, 10, 13, 32, 69, 73, 255])] * n)
    return bytes(ch.choice([0, 1, 10, 13, 32, 40, 41, 69, 73, 47, 60, 62, 81, 255]) for _ in range(n))


def inline_ok(stored, sep):
    import re
    if re.search(rb'EI[\x00\s]', stored) or re.search(rb'EI$', stored) or stored.endswith(b'E'):
        return False
    if stored.endswith(b'\r') and sep == b'\n':
        return False
    return True


BAD = '\uf8ffBAD\uf8ff'      # stands for a character the font gives no meaning


def without_bad(item):
    if isinstance(item, str):
        return item.replace(BAD, '')
    if isinstance(item, tuple):
        return tuple(without_bad(x) for x in item)
    return item


class ContentGen:
    """Generates operators together with the layout items they mean.

    expected items:
      ('text', (string per show operation, ...))
      ('curve', methods)           path methods, e.g. 'mlllh'
      ('image', data, w, h)
      ('xobject', (items...))
    """

    def __init__(self, ch, doc, fonts, images, forms, colorspaces=(), inline=True, probes=None):
        self.ch, self.doc = ch, doc
        self.fonts, self.images, self.forms = fonts, images, forms
        self.colorspaces = colorspaces
        self.inline = inline
        self.toks = []
        self.items = []
        self.probes = probes if probes is not None else {}
        o = getattr(doc, 'opts', None)
        self.empties = o.empties if o else 0
        self.bad = o.bad if o else 0
        self.inline_maker = o.inline_maker if o else None
        self.image_ops = o.image_ops if o else 0

    def op(self, name, *args):
        self.toks.extend(args)
        self.toks.append(Kw(name))

    def hit(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    def color(self):
        ch = self.ch
        k = ch.draw(8)
        f = lambda: Num(b'%d.%d' % (0, ch.int(0, 9))) if ch.bool(80) else Num(ch.choice([b'0', b'1']))
        if k < 2:
            self.op(b'g', f())
        elif k == 2:
            self.op(b'G', f())
        elif k < 5:
            self.op(b'rg', f(), f(), f())
        elif k == 5:
            self.op(b'RG', f(), f(), f())
        elif k == 6:
            self.op(b'K', f(), f(), f(), f())
        elif k == 7 and ch.bool(12):
            (a, b) = ch.choice([(b'cs', b'scn'), (b'CS', b'SCN')])
            self.op(a, Name('Pattern'))
            self.op(b, Name('P0' + ch.choice([''] + ODD_NAMES)))
            self.hit('pattern')
        elif self.colorspaces:
            key, n = ch.choice(self.colorspaces)
            self.op(ch.choice([b'cs', b'CS']), Name(key))
            if self.toks[-1].raw == b'cs':
                self.op(ch.choice([b'sc', b'scn']), *[f() for _ in range(n)])
            else:
                self.op(ch.choice([b'SC', b'SCN']), *[f() for _ in range(n)])
        else:
            self.op(b'w', num(ch))

    def gstate(self):
        ch = self.ch
        k = ch.draw(6)
        if k == 0:
            self.op(b'w', num(ch))
        elif k == 1:
            self.op(b'J', Num(b'%d' % ch.int(0, 2)))
        elif k == 2:
            self.op(b'd', [num(ch) for _ in range(ch.int(0, 3))], Num(b'0'))
        elif k == 3:
            self.op(b'cm', *[Num(x) for x in ch.choice([(b'1', b'0', b'0', b'1', b'10', b'20'), (b'2', b'0', b'0', b'.5', b'0', b'0'),
                                                        (b'0', b'1', b'-1', b'0', b'100', b'0'), (b'1', b'.25', b'0', b'1', b'-3', b'7')])])
        elif k == 4:
            self.color()
        else:
            self.op(b'i', num(ch))

    def unknown(self):
        """operators that mean nothing to layout"""
        ch = self.ch
        k = ch.draw(5)
        if k == 0:
            self.op(b'BMC', Name('Span'))
            self.op(b'EMC')
        elif k == 1:
            self.op(b'BDC', Name('P'), {'MCID': Num(b'%d' % ch.int(0, 9)), 'ActualText': gen_string(ch)})
            self.op(b'EMC')
        elif k == 2:
            self.op(b'gs', Name('GS0'))
        elif k == 3:
            self.op(b'BX')
            self.op(b'foo', num(ch), gen_string(ch))
            self.op(b'EX')
        else:
            self.op(b'MP', Name('Mark'))

    def path(self):
        ch = self.ch
        k = ch.draw(7)
        if k == 0:
            self.op(b're', *[num(ch) for _ in range(4)])
            m = 'mlllh'
        elif k == 1:
            x, y = num(ch), num(ch)
            self.op(b'm', x, y)
            self.op(b'l', num(ch), y)
            m = 'ml'
        elif k == 2:
            self.op(b'm', num(ch), num(ch))
            self.op(b'l', num(ch), num(ch))
            m = 'ml'
        else:
            self.op(b'm', num(ch), num(ch))
            m = 'm'
            for _ in range(ch.int(1, 4)):
                j = ch.draw(4)
                if j == 0:
                    self.op(b'c', *[num(ch) for _ in range(6)])
                    m += 'c'
                elif j == 1:
                    self.op(b'v', *[num(ch) for _ in range(4)])
                    m += 'v'
                elif j == 2:
                    self.op(b'y', *[num(ch) for _ in range(4)])
                    m += 'y'
                else:
                    self.op(b'l', num(ch), num(ch))
                    m += 'l'
        end = ch.weighted([(3, b'S'), (3, b'f'), (1, b'F'), (1, b'B'), (1, b'f*'), (1, b'B*'), (1, b's'), (1, b'b'), (1, b'b*'), (1, b'n')])
        if end == b'n':
            self.op(b'n')
            return
        self.op(end)
        if end in (b's', b'b', b'b*'):
            m += 'h'
        self.items.append(('curve', m))

    def codes(self, font, n):
        ch = self.ch
        bs, text = b'', ''
        if self.empties and ch.bool(self.empties):
            self.hit('empty-string')
            return bs, text
        for _ in range(n):
            if self.bad and font.kind == 'type0' and ch.bool(self.bad):
                bs += b'\xff\xfe'
                text += BAD
                continue
            c, u = ch.choice(font.codes)
            bs += c
            text += u
        return bs, text

    def text(self):
        ch = self.ch
        if not self.fonts:
            return self.path()
        self.op(b'BT')
        shown = []
        font = None
        n = ch.int(1, 5)
        if self.empties and ch.bool(self.empties):
            n = 0
            self.hit("empty-text")
        for i in range(n):
            if font is None or ch.bool(20):
                font = ch.choice(self.fonts)
                self.op(b'Tf', Name(font.key), Num(b'%d' % ch.int(4, 30)))
            k = ch.draw(12)
            if k == 0:
                self.op(b'Td', num(ch), num(ch))
            elif k == 1:
                self.op(b'TD', num(ch), num(ch))
            elif k == 2:
                self.op(b'Tm', Num(b'1'), Num(b'0'), Num(b'0'), Num(b'1'), num(ch), num(ch))
            elif k == 3:
                self.op(b'T*')
            elif k == 4:
                self.op(ch.choice([b'Tc', b'Tw', b'TL', b'Ts']), num(ch))
            elif k == 5:
                self.op(b'Tz', Num(b'%d' % ch.int(50, 150)))
            elif k == 6:
                self.color()
            elif k == 7:
                self.op(b'Tr', Num(b'0'))
            j = ch.draw(6)
            if j < 3:
                bs, t = self.codes(font, ch.int(1, 8))
                self.op(b'Tj', bs)
            elif j == 3:
                arr, t = [], ''
                for _ in range(ch.int(1, 4)):
                    bs, u = self.codes(font, ch.int(1, 4))
                    arr.append(bs)
                    t += u
                    if ch.bool():
                        arr.append(num(ch))
                self.op(b'TJ', arr)
            elif j == 4:
                bs, t = self.codes(font, ch.int(1, 5))
                self.op(b"'", bs)
                self.hit('quote')
            else:
                bs, t = self.codes(font, ch.int(1, 5))
                self.op(b'"', num(ch), num(ch), bs)
                self.hit('quote')
            if t:
                shown.append(t)
        self.op(b'ET')
        if shown:
            self.items.append(('text', tuple(shown)))

    def image(self):
        ch = self.ch
        if self.inline and (not self.images or ch.bool(60)):
            if self.inline_maker:
                attrs, data, w, h, dct = self.inline_maker(ch)
            else:
                w, h, comps = ch.int(1, 6), ch.int(1, 5), ch.choice([1, 1, 3])
                data, dct = gen_image_bytes(ch, w, h, comps), False
                attrs = {'W': w, 'H': h, 'BPC': 8, 'CS': Name('G' if comps == 1 else 'RGB')}
                if ch.bool(30):
                    attrs = {'W': w, 'H': h, 'BPC': 8, 'CS': Name('DeviceGray' if comps == 1 else 'DeviceRGB')}
            stored = data
            f = ch.choice(['', '', 'AHx', 'Fl', 'RL', 'A85']) if not dct else ''
            if dct:
                attrs['F'] = Name('DCT')
            if f:
                long = {v: k for k, v in SHORT.items()}[f]
                stored = FILTERS[long](data)
                attrs['F'] = Name(f)
            sep = ch.choice([b'\n', b'\r\n', b'\r'])
            if not inline_ok(stored, sep):
                stored = enc_ahx(data)
                attrs['F'] = [Name('AHx'), Name('DCT')] if dct else Name('AHx')
            if ch.bool(15):
                # the names need not be abbreviated
                attrs = {LONG[k]: v for k, v in attrs.items()}
                if ch.bool() and 'Filter' in attrs:
                    v = attrs['Filter']
                    attrs['Filter'] = [LONGF[x] for x in v] if isinstance(v, list) else LONGF[v]
                self.hit('inline-long-names')
            im = Inline(attrs, stored, data, w, h)
            im.sep = sep
            im.idsep = ch.choice([b' ', b'\n', b' '])
            im.after = ch.choice([b'\n', b' ', b'\r\n', b''])
            self.toks.append(im)
            self.items.append(('image', data, w, h))
            self.hit('inline-image')
        elif self.images:
            key, img = ch.choice(self.images)
            self.op(b'q')
            self.op(b'cm', num(ch), Num(b'0'), Num(b'0'), num(ch), num(ch), num(ch))
            self.op(b'Do', Name(key))
            self.op(b'Q')
            w, h = getattr(img, 'size', None) or (img.attrs['Width'], img.attrs['Height'])
            self.items.append(('image', img.data, w, h))
            self.hit('xobject-image')
        else:
            self.path()

    def form(self, last=False):
        if not self.forms:
            return self.path()
        key, items = self.forms[-1] if last else self.ch.choice(self.forms)
        self.op(b'Do', Name(key))
        self.items.append(('xobject', items))
        self.hit('form')

    def run(self, n, depth=0):
        outer = self.ch
        for _ in range(n):
            # each operator has choices of its own, so that one can go without the others changing
            self.ch = ch = outer.sub('op')
            self.one(ch, depth)
        self.ch = outer
        return self

    def one(self, ch, depth):
            k = ch.draw(14)
            if self.image_ops and ch.bool(self.image_ops):
                k = ch.choice([8, 8, 9])
            if k < 5:
                self.text()
            elif k < 8:
                self.path()
            elif k == 8:
                self.image()
            elif k == 9:
                self.form()
            elif k == 10:
                self.gstate()
            elif k == 11:
                self.unknown()
            elif k == 12:
                self.color()
            elif depth < 3:
                self.op(b'q')
                self.run(ch.int(0, 3), depth + 1)
                self.op(b'Q')


def write_content(ch, toks, plain=False):
    """-> (bytes, cut positions): where a stream boundary may legally fall"""
    ch = ch.sub('spell')
    w = Writer(ch, plain)
    cuts = []
    for k, t in enumerate(toks):
        if isinstance(t, Inline):
            w.sep(force=w.need)
            w.kw(b'BI')
            for key, v in t.attrs.items():
                w.name(Name(key))
                w.value(v)
            w.sep(force=w.need)
            w.tok(b'ID', Kw(b'ID'))
            inner0 = len(w.ends)
            w.raw(t.idsep + t.stored + t.sep + b'EI')
            lo, hi = w.ends[-1], len(w.out)
            w.starts.append((hi - 2, Kw(b'EI')))
            w.ends.append(hi)
            w.need = True
            cuts.append(('hole', lo, hi))
            if t.after:
                w.raw(t.after)
            elif k + 1 < len(toks):
                w.raw(b' ')     # EI ends at white space or with the stream
        else:
            w.value(t)
    holes = [(a, b) for k, a, b in cuts]
    pos = []
    st = [p for p, _ in w.starts]
    for i in range(len(w.ends)):
        p = w.ends[i]
        nxt = st[i + 1] if i + 1 < len(st) else len(w.out)
        for q in (p, nxt):
            if any(a <= q < b for a, b in holes):
                continue
            if q not in pos[-2:]:
                pos.append(q)
    tail = bytes(w.out)
    return tail, pos


# ---------------------------------------------------------------------- doc
class Page:
    def __init__(self):
        self.num = None
        self.mediabox = None
        self.cropbox = None
        self.rotate = 0
        self.items = ()
        self.toks = ()
        self.content_nums = []


class Doc:
    """one revision of a document"""

    def __init__(self):
        self.objs = {}
        self.gens = {}
        self.root = None
        self.info = None
        self.pages = []
        self.next = 1
        self.changed = set()       # numbers written by the newest revision
        self.freed = set()
        self.misc = []             # numbers of objects nothing refers to
        self.outlines = []         # expected (level, title, dest picture, action picture, se)
        self.dests = {}            # name -> model value
        self.dest_style = self.old_dests = None
        self.fonts = []
        self.probes = {}
        self.stm_only = set()      # numbers that must stay plain (never in an object stream)
        self.apart = set()         # numbers of objects that would usually be written where they are used

    def add(self, value, gen=0):
        n = self.next
        self.next += 1
        self.objs[n] = value
        if gen:
            self.gens[n] = gen
        self.changed.add(n)
        return n

    def reserve(self):
        n = self.next
        self.next += 1
        return n

    def set(self, n, value):
        self.objs[n] = value
        self.changed.add(n)
        self.freed.discard(n)

    def ref(self, n):
        return Ref(n, self.gens.get(n, 0))

    def clone(self):
        d = Doc()
        d.objs = dict(self.objs)
        d.gens = dict(self.gens)
        d.root, d.info = self.root, self.info
        d.pages = list(self.pages)
        d.next = self.next
        d.misc = list(self.misc)
        d.outlines = list(self.outlines)
        d.dests = dict(self.dests)
        d.dest_style, d.old_dests = self.dest_style, self.old_dests
        d.fonts = list(self.fonts)
        d.probes = self.probes
        d.stm_only = set(self.stm_only)
        d.apart = set(self.apart)
        d.res = self.res
        d.opts = self.opts
        d.pages_root = self.pages_root
        return d


class Opts:
    """what kind of document to generate"""

    def __init__(self, **kw):
        self.pages = (1, 4)
        self.ops = (1, 5)
        self.fonts = (1, 3)
        self.images = (0, 2)
        self.forms = (0, 2)
        self.misc = (0, 5)
        self.tree = True
        self.outlines = 0          # percent
        self.dests = 0
        self.ctrl = False
        self.inline = True
        self.empty_pages = 10
        self.font_kinds = None
        self.big = 0
        self.hostile_streams = False
        self.empties = 4           # percent of shown strings that are empty
        self.odd_names = 6         # percent of resources with a name out of the ordinary
        self.sparse = 0            # percent of documents whose object numbers do not start at 1
        self.odd_fonts = 0         # percent of font descriptors with entries out of the ordinary
        self.bad = 0               # percent of characters without a meaning
        self.image_ops = 8         # percent of operators that place an image or a form
        self.chain = 0             # percent of resources whose forms each draw the one before
        self.image_maker = None    # (ch, doc) -> Stream with a size
        self.siblings = 30         # percent of composite fonts with one that shares its descendant
        self.apart = 0             # percent of documents with values that are objects of their own
        self.inline_maker = None   # ch -> (attributes, data, width, height, is it a JPEG)
        self.__dict__.update(kw)


def use_ccitt(ch, s, columns):
    s.attrs.pop('_listfilter', None)
    s.filters = (['ASCIIHexDecode'] if s.filters and ch.bool() else []) + ['CCITTFaxDecode']
    s.ccitt = (columns, ch.bool(), ch.bool(30), ch.bool(70))


def gen_stream(ch, data, attrs=None, pct=60):
    s = Stream(data, attrs, gen_filters(ch, pct))
    if s.filters and ch.bool(15):
        s.attrs['_listfilter'] = True
    if s.filters and s.filters[-1] in ('FlateDecode', 'LZWDecode') and data and ch.bool(20):
        for c in (8, 4, 5, 3, 2, 1):
            if len(data) % c == 0:
                colors = ch.choice([x for x in (1, 2, 3, 4) if c % x == 0])
                s.predictor = (c // colors, colors, tuple(ch.draw(4) for _ in range(ch.int(1, 4))))
                break
    if not s.predictor and len(s.filters) <= 1 and data and ch.bool(8):
        use_ccitt(ch, s, ch.choice([c for c in (1, 2, 3, 5, 216, len(data)) if len(data) % c == 0]) * 8)
    if s.filters and ch.bool(50):
        s.variant = ch.int(1, 10 ** 6)
    return s


ODD_NAMES = ['&<1>', '&amp;', '"q"', "'s", ' b', '\xe9', '#', '(', '\u4e2d', ': ', '- x', 'a/b', '%', ']]>', '\\', '1', ', {', '{0}', '%s']


def res_name(ch, doc, o, base):
    if o.odd_names and ch.bool(o.odd_names):
        doc.probes['odd-name'] = doc.probes.get('odd-name', 0) + 1
        return base + ch.choice(ODD_NAMES)
    return base


def odd_entries(ch, doc, fd):
    """entries any font descriptor may hold besides the usual ones"""
    doc.probes['odd-font'] = doc.probes.get('odd-font', 0) + 1
    for _ in range(ch.int(1, 3)):
        k = ch.choice(['FontFamily', 'FontStretch', 'Lang', 'Style', 'CIDSet', 'text', 'size', 'x0', 'Size', 'Text', 'color', 'Color', 'X0', 'color-type', 'A B', '1st', 'a<b', 'a"b',
                       "a'b", 'a=b', 'a:b', 'caf\xe9', '-', '', '#', '\n', 'xml:lang', 'FontWeight', 'a&b', '\u4e2d'])
        if k == 'FontWeight':
            v = ch.choice([400, 700])
        elif k == 'CIDSet':
            v = Ref(doc.add(Stream(b'\xff')))
        else:
            v = ch.choice([b'Ab <c> & "d"', Name('N&m'), 7, Num(b'-.5'), True, [1, Name('a'), b'b: c'], {'Panose': b'\x00\x01'}, b'\xff\x00', b'', None])
        fd[k] = v


class Resources:
    pass


def other_names(ch, base, fd, xo, cs, tell):
    """resources in which the names of each kind are given to one another"""
    (fonts, images, forms, colorspaces) = tell
    rr = dict(base)

    def turn(d):
        old = list(d)
        return dict(zip(old, ch.shuffle(old)))

    m = turn(fd)
    if fd:
        rr['Font'] = {m[k]: v for k, v in fd.items()}
    fonts = [copy.copy(f) for f in fonts]
    for f in fonts:
        f.key = m[f.key]
    m = turn(xo)
    if xo:
        rr['XObject'] = {m[k]: v for k, v in xo.items()}
    images = [(m[k], x) for k, x in images]
    forms = [(m[k], x) for k, x in forms]
    m = turn(cs)
    if cs:
        rr['ColorSpace'] = {m[k]: v for k, v in cs.items()}
    return (fonts, images, forms, [(m[k], n) for k, n in colorspaces]), rr


def gen_resources(ch, doc, o):
    ch = ch.sub('res')
    r = Resources()
    r.fonts = [gen_font(ch, doc, res_name(ch, doc, o, 'F%d' % i), o.ctrl, o.font_kinds) for i in range(ch.int(*o.fonts))]
    for f in list(r.fonts):
        if f.cid is not None and ch.bool(o.siblings):
            r.fonts.append(gen_sibling(ch, doc, res_name(ch, doc, o, 'F%d' % len(r.fonts)), f, o.ctrl))
    for f in r.fonts:
        if f.fd is not None and o.odd_fonts and ch.bool(o.odd_fonts):
            odd_entries(ch, doc, f.fd)
    r.images = []
    for i in range(ch.int(*o.images)):
        if o.image_maker:
            s = o.image_maker(ch, doc)
            s.num = doc.add(s)
            r.images.append((res_name(ch, doc, o, 'Im%d' % i), s))
            continue
        w, h = ch.int(1, 9), ch.int(1, 7)
        comps = ch.choice([1, 3])
        a = {'Type': Name('XObject'), 'Subtype': Name('Image'), 'Width': w, 'Height': h, 'BitsPerComponent': 8,
             'ColorSpace': Name('DeviceGray' if comps == 1 else 'DeviceRGB')}
        if ch.bool(30):
            s = Stream(b'\xff\xd8\xff\xe0' + gen_image_bytes(ch, w, h, comps) + b'\xff\xd9', a, ['DCTDecode'], dct=True)
        else:
            s = gen_stream(ch, gen_image_bytes(ch, w, h, comps), a)
        n = doc.add(s)
        s.num = n
        r.images.append((res_name(ch, doc, o, 'Im%d' % i), s))
    r.colorspaces = []
    cs = {}
    if ch.bool(30):
        icc = doc.add(Stream(b'icc', {'N': 3}))
        (a, b) = (res_name(ch, doc, o, 'CsI'), res_name(ch, doc, o, 'CsG'))
        cs[a] = [Name('ICCBased'), Ref(icc)]
        cs[b] = Name('DeviceGray')
        r.colorspaces = [(a, 3), (b, 1)]
    base = {}
    fd = {f.key: doc.ref(f.num) for f in r.fonts}
    if fd:
        base['Font'] = Ref(doc.add(fd)) if ch.bool(30) else fd
    if cs:
        base['ColorSpace'] = cs
    xo = {k: doc.ref(s.num) for k, s in r.images}
    r.forms, bare = [], set()
    r.chain = ch.bool(o.chain)
    for i in range(ch.int(3, 5) if r.chain else ch.int(*o.forms)):
        own = ch.bool(60)
        tell = (r.fonts, r.images, list(r.forms), r.colorspaces)
        rr = None
        if own:
            rr = dict(base)
            if xo:
                rr['XObject'] = dict(xo)
            if ch.bool(40):
                # in its own resources the names mean something else than in those of the page
                # (a form without resources of its own uses those of the page, so it cannot be drawn here)
                tell = tell[:2] + ([f for f in r.forms if f[0] not in bare],) + tell[3:]
                tell, rr = other_names(ch, base, fd, xo, cs, tell)
                doc.probes['other-names'] = 1
        g = ContentGen(ch, doc, *tell, o.inline, doc.probes)
        g.run(ch.int(0, 2 if r.chain else 3))
        if r.chain:
            g.form(last=True)
            g.text()
            doc.probes['chain'] = 1
        data, _ = write_content(ch, g.toks)
        a = {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, ch.int(1, 200), ch.int(1, 200)]}
        if ch.bool(30):
            a['Matrix'] = [1, 0, 0, 1, ch.int(0, 20), ch.int(0, 20)]
        if own:
            a['Resources'] = rr
        s = gen_stream(ch, data, a)
        s.toks, s.is_form = g.toks, True
        n = doc.add(s)
        key = res_name(ch, doc, o, 'Fm%d' % i)
        xo[key] = Ref(n)
        r.forms.append((key, tuple(g.items)))
        if not own:
            bare.add(key)
    if xo:
        base['XObject'] = xo
    if ch.bool(40):
        base['ProcSet'] = [Name('PDF'), Name('Text')]
    r.dict = base
    r.value = Ref(doc.add(base)) if ch.bool(50) else base
    return r


def gen_page_content(ch, doc, o, res):
    ch = ch.sub('page')
    g = ContentGen(ch, doc, res.fonts, res.images, res.forms, res.colorspaces, o.inline, doc.probes)
    g.run(ch.int(*o.ops))
    if res.chain:
        g.form(last=True)
    return g


def set_content(ch, doc, page, g, reuse=None):
    """store a page's content; returns the /Contents value (or None)"""
    ch = ch.sub('content')
    data, cuts = write_content(ch, g.toks)
    page.items = tuple(g.items)
    page.toks = g.toks
    if not g.toks and ch.bool():
        page.content_nums = []
        return None
    parts = [data]
    if ch.bool(30) and cuts:
        k = ch.int(1, 3)
        at = sorted(set(ch.sample(cuts, k)))
        parts = [data[a:b] for a, b in zip([0] + at, at + [len(data)])]
    nums = []
    for i, p in enumerate(parts):
        s = gen_stream(ch, p)
        if reuse and i < len(reuse):
            doc.set(reuse[i], s)
            nums.append(reuse[i])
        else:
            nums.append(doc.add(s))
    page.content_nums = nums
    if len(nums) == 1 and ch.bool(70):
        return Ref(nums[0])
    arr = [Ref(n) for n in nums]
    if ch.bool(30):
        return Ref(doc.add(arr))
    return arr


BOXES = [[0, 0, 612, 792], [0, 0, 200, 100], [10, 20, 310, 420], [-50, -50, 550, 742], [0, 0, 595, 842]]


def drop_page_tree(doc):
    """a document whose catalog lost its page tree: pages are found by their type"""
    for p in doc.pages:
        d = dict(doc.objs[p.num])
        d.update(MediaBox=p.mediabox, CropBox=p.cropbox, Rotate=p.rotate, Resources=p.res.value)
        doc.set(p.num, d)
    cat = dict(doc.objs[doc.root])
    del cat['Pages']
    doc.set(doc.root, cat)


# values that are compared as they stand, or may not be references
IN_PLACE = ('Dest', 'A', 'SE', 'Dests', 'Names', 'Parent', '_listfilter')


def set_apart(ch, doc):
    """any value may be an object of its own, and a reference stand in its place"""
    ch = ch.sub('apart')
    pct = ch.choice([1, 2, 5, 15])
    skip = set(doc.misc + [doc.old_dests])

    def inside(v):
        if isinstance(v, dict):
            return {k: v2 if k in IN_PLACE else one(v2) for k, v2 in v.items()}
        if isinstance(v, list):
            return [one(x) for x in v]
        return v

    def one(v):
        v = inside(v)
        if isinstance(v, (Ref, Stream)) or v is None or not ch.bool(pct):
            return v
        n = doc.add(v)
        doc.apart.add(n)
        return Ref(n)

    for n in sorted(doc.objs):
        v = doc.objs[n]
        if n in skip:
            continue
        if isinstance(v, Stream):
            s = copy.copy(v)
            s.attrs = inside(v.attrs)
            doc.objs[n] = s
        else:
            doc.objs[n] = inside(v)
    doc.probes['apart'] = len(doc.apart)


def deref(doc, v):
    while isinstance(v, Ref) and v.num in doc.apart:
        v = doc.objs[v.num]
    return v


def in_place(doc, v):
    """the value as if nothing of it had been set apart"""
    v = deref(doc, v)
    if isinstance(v, dict):
        return {k: in_place(doc, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [in_place(doc, x) for x in v]
    return v


def gen_doc(ch, o=None):
    ch = ch.sub('doc')
    o = o or Opts()
    doc = Doc()
    doc.opts = o
    if o.sparse and ch.bool(o.sparse):
        doc.next = ch.choice([9, 250, 65530, 65536, 70000, 100000])
        doc.probes['high-numbers'] = 1
    doc.root = doc.reserve()
    doc.pages_root = doc.reserve()
    n_pages = ch.int(*o.pages)
    doc.res = [gen_resources(ch, doc, o) for _ in range(ch.int(1, 2) if n_pages > 1 else 1)]
    inh = {'MediaBox': ch.choice(BOXES)}
    if ch.bool(20):
        inh['Rotate'] = ch.choice([0, 90, 180, 270])
    if ch.bool(15):
        inh['CropBox'] = [5, 5, 100, 100]
    root_res = doc.res[0] if ch.bool(40) else None
    if root_res:
        inh['Resources'] = root_res.value

    def build(parent, count, inherited, res_in, depth):
        kids = []
        total = 0
        while total < count:
            left = count - total
            if o.tree and depth < 3 and left >= 1 and ch.bool(30):
                k = ch.int(0 if depth else 1, left)
                node = doc.reserve()
                inh2 = {}
                r2 = res_in
                if ch.bool(30):
                    inh2['MediaBox'] = ch.choice(BOXES)
                if ch.bool(15):
                    inh2['Rotate'] = ch.choice([0, 90, 180, 270])
                if ch.bool(10):
                    inh2['CropBox'] = [1, 1, 50, 60]
                if ch.bool(30):
                    r2 = ch.choice(doc.res)
                    inh2['Resources'] = r2.value
                d = {'Type': Name('Pages'), 'Parent': Ref(parent), 'Count': k}
                d.update(inh2)
                sub = build(node, k, dict(inherited, **inh2), r2, depth + 1)
                d['Kids'] = Ref(doc.add(sub)) if ch.bool(20) else sub
                doc.set(node, d)
                kids.append(Ref(node))
                total += k
                if k == 0:
                    # never a run of empty nodes
                    kids.append(gen_page(parent, inherited, res_in))
                    total += 1
            else:
                kids.append(gen_page(parent, inherited, res_in))
                total += 1
        return kids

    def gen_page(parent, inherited, res_in):
        p = Page()
        p.num = doc.reserve()
        d = {'Type': Name('Page'), 'Parent': Ref(parent)}
        own = {}
        if ch.bool(30):
            own['MediaBox'] = ch.choice(BOXES)
        if ch.bool(15):
            own['Rotate'] = ch.choice([0, 90, 180, 270, -90])
        if ch.bool(10):
            own['CropBox'] = [2, 3, 44, 55]
        res = res_in
        if res is None or ch.bool(30):
            res = ch.choice(doc.res)
            own['Resources'] = res.value
        eff = dict(inherited, **own)
        p.mediabox = eff['MediaBox']
        p.cropbox = eff.get('CropBox', p.mediabox)
        p.rotate = (eff.get('Rotate', 0) + 360) % 360
        p.res = res
        if ch.bool(o.empty_pages):
            g = ContentGen(ch, doc, [], [], [])
        else:
            g = gen_page_content(ch, doc, o, res)
        c = set_content(ch, doc, p, g)
        for k, v in own.items():
            if k in ('MediaBox', 'Rotate') and ch.bool(15):
                v = Ref(doc.add(v))
            d[k] = v
        if c is not None:
            d['Contents'] = c
        d['LastModified'] = b'D:2020'
        doc.set(p.num, d)
        doc.pages.append(p)
        return Ref(p.num)

    kids = build(doc.pages_root, n_pages, inh, root_res, 0)
    d = {'Type': Name('Pages'), 'Count': n_pages, 'Kids': kids}
    d.update(inh)
    doc.set(doc.pages_root, d)
    cat = {'Type': Name('Catalog'), 'Pages': Ref(doc.pages_root)}
    for _ in range(ch.int(*o.misc)):
        gen_misc(ch, doc)
    if ch.bool(o.outlines):
        gen_outlines(ch, doc, cat)
    if ch.bool(o.dests):
        gen_dests(ch, doc, cat)
    doc.set(doc.root, cat)
    if ch.bool(50):
        doc.info = doc.add({'Title': gen_string(ch), 'Producer': b'vsim', 'N': ch.int(0, 9)})
    if o.apart and ch.bool(o.apart):
        set_apart(ch, doc)
    return doc


def gen_misc(ch, doc):
    ch = ch.sub('misc')
    refs = doc.misc[-4:]
    if ch.bool(40):
        data = gen_bytes(ch)
        v = gen_stream(ch, data, gen_dict(ch, refs=refs, allow_null=False))
        for k in ('F', 'Type', 'N', 'Filter', 'DP'):
            v.attrs.pop(k, None)
    else:
        v = gen_value(ch, 0, refs, True)
        if isinstance(v, Ref):
            v = [v]
    n = doc.add(v, gen=ch.choice([1, 2, 7]) if ch.bool(8) else 0)
    doc.misc.append(n)
    return n


def gen_outlines(ch, doc, cat):
    ch = ch.sub('outlines')
    root = doc.reserve()
    exp = []

    def level(parent, lv, budget):
        nums = []
        n = ch.int(1, 3)
        ids = [doc.reserve() for _ in range(n)]
        for i, me in enumerate(ids):
            kind = ch.draw(4)
            raw = ch.choice([b'Chapter', b'A (b)', b'\xfe\xff\x00A\x4e\x2d', b'', b'x\\y', b'T%d' % me])
            d = {'Title': raw, 'Parent': Ref(parent)}
            dest = action = se = None
            if kind == 0:
                dest = [Ref(ch.choice(doc.pages).num), Name('Fit')]
                d['Dest'] = dest
            elif kind == 1:
                dest = b'name%d' % ch.int(0, 3)
                d['Dest'] = dest
            elif kind == 2:
                action = {'S': Name('URI'), 'URI': b'http://x/%d' % me}
                if ch.bool():
                    action = Ref(doc.add(action))
                d['A'] = action
            title = raw[2:].decode('utf-16-be') if raw.startswith(b'\xfe\xff') else raw.decode('ascii')
            if kind != 3:
                exp.append((lv, title, expect(dest), expect(action), expect(se)))
            if lv < 2 and budget > 0 and ch.bool(35):
                f, l = level(me, lv + 1, budget - 1)
                d['First'], d['Last'] = Ref(f), Ref(l)
                d['Count'] = -1
            if i + 1 < n:
                d['Next'] = Ref(ids[i + 1])
            if i:
                d['Prev'] = Ref(ids[i - 1])
            doc.set(me, d)
        return ids[0], ids[-1]

    f, l = level(root, 1, 2)
    # children are listed before the following sibling: rebuild in walk order
    doc.set(root, {'Type': Name('Outlines'), 'First': Ref(f), 'Last': Ref(l), 'Count': 1})
    cat['Outlines'] = Ref(root)
    doc.outlines = exp


def gen_dests(ch, doc, cat):
    ch = ch.sub('dests')
    names = [b'name%d' % i for i in range(ch.int(1, 7))]
    vals = {}
    for n in names:
        v = [Ref(ch.choice(doc.pages).num), Name('XYZ'), 0, ch.int(0, 99), None]
        k = ch.draw(3)
        vals[n] = v if k == 0 else ({'D': v} if k == 1 else Ref(doc.add(v)))
    doc.dests = vals
    if ch.bool(35):
        # PDF 1.1 style dictionary in the catalog
        d = {n.decode(): v for n, v in vals.items()}
        if ch.bool():
            cat['Dests'] = Ref(doc.add(d))
            doc.old_dests = cat['Dests'].num
        else:
            cat['Dests'] = d
        doc.dest_style = 'old'
        return
    doc.dest_style = 'tree'

    def leaf(part, top):
        d = {'Names': [x for n in part for x in (n, vals[n])]}
        if not top:
            d['Limits'] = [part[0], part[-1]]
        return d

    def tree(part, depth, top):
        if len(part) <= 2 or depth >= 2 or (len(part) < 5 and ch.bool(50)):
            return leaf(part, top)
        k = ch.int(2, min(3, len(part)))
        step = -(-len(part) // k)
        kids = [part[i:i + step] for i in range(0, len(part), step)]
        d = {'Kids': [Ref(doc.add(tree(p, depth + 1, False))) for p in kids]}
        if not top:
            d['Limits'] = [part[0], part[-1]]
        return d

    t = tree(sorted(names), 0, True)
    nm = {'Dests': Ref(doc.add(t)) if ch.bool() else t}
    cat['Names'] = Ref(doc.add(nm)) if ch.bool() else nm


# ---------------------------------------------------------------- revisions
def evolve(ch, old):
    """a later revision: changes to pages, new and replaced and freed objects"""
    ch = ch.sub('evolve')
    doc = old.clone()
    doc.next += 200         # the file itself took numbers behind the old ones
    o = doc.opts
    for _ in range(ch.int(1, 3)):
        k = ch.draw(6)
        if k < 2 and doc.pages:
            i = ch.draw(len(doc.pages))
            p0 = doc.pages[i]
            p = Page()
            p.__dict__.update(p0.__dict__)
            g = gen_page_content(ch, doc, o, p.res)
            if p0.content_nums and len(p0.content_nums) == 1 and ch.bool(60):
                data, _ = write_content(ch, g.toks)
                doc.set(p0.content_nums[0], gen_stream(ch, data))
                p.items, p.toks = tuple(g.items), g.toks
            else:
                c = set_content(ch, doc, p, g)
                d = dict(doc.objs[p.num])
                d.pop('Contents', None)
                if c is not None:
                    d['Contents'] = c
                doc.set(p.num, d)
            doc.pages[i] = p
        elif k == 2:
            # a new page appended at the root
            p = Page()
            p.res = ch.choice(doc.res)
            p.num = doc.reserve()
            g = gen_page_content(ch, doc, o, p.res)
            d = {'Type': Name('Page'), 'Parent': Ref(doc.pages_root), 'MediaBox': ch.choice(BOXES), 'Resources': p.res.value, 'Rotate': 0,
                 'CropBox': [0, 0, 10, 10]}
            c = set_content(ch, doc, p, g)
            if c is not None:
                d['Contents'] = c
            p.mediabox, p.cropbox, p.rotate = d['MediaBox'], d['CropBox'], 0
            doc.set(p.num, d)
            r = dict(doc.objs[doc.pages_root])
            r['Kids'] = list(deref(doc, r['Kids'])) + [Ref(p.num)]
            r['Count'] = deref(doc, r['Count']) + 1
            doc.set(doc.pages_root, r)
            doc.pages.append(p)
        elif k == 3 and doc.misc:
            n = ch.choice(doc.misc)
            if ch.bool(40):
                v = gen_stream(ch, gen_bytes(ch))
            else:
                v = gen_value(ch, 0, [m for m in doc.misc if m < n][-3:], True)
                if isinstance(v, Ref):
                    v = [v]
            doc.set(n, v)
        elif k == 4:
            gen_misc(ch, doc)
        elif k == 5 and doc.info:
            doc.set(doc.info, {'Title': gen_string(ch), 'Rev': len(doc.objs)})
        else:
            gen_misc(ch, doc)
    return doc
