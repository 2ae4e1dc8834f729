"""C11: exporting an image writes exactly its bytes, or fails."""
import base64
import io
import json
import os
import struct

from sim import core, crypt, pdfgen, pdfsave, sut, observe, fs as simfs
from sim.syntax import Name
from sim.sut import check

ID = 'C11'
RUNS_QUICK = 12000
RUNS_THOROUGH = 200000
RULE = ('one run = one generated document with JPEG, raw and one-bit images (stored and inline, filtered, sometimes encrypted) and a seeded history '
        'of data accesses, saves under drawn names, reopening and re-reading, with failing, torn, short and interrupted writes and a full disk; '
        'after every operation the whole scratch directory is compared with the model; non-trivial = at least two saves of at least one image')
STATE_MEASURE = 'distinct (image kind, filters, encrypted, operation, was its data used before, was it saved before, caching)'
REAL = ['LTImage.save_image', 'BMPWriter', 'pdfmajor.interpreter', 'pdfmajor.parser (PDFStream, security handlers)', 'PIL', 'Python buffered I/O layers']
STUB = ['raw file layer (failing, torn, short and interrupted writes, full disk)']
ASSUMPTIONS = ['CMYK JPEG images are written as RGB JPEG (compared within the loss of JPEG)', 'one-bit images may be written as BMP holding the samples; other raw images as their samples',
               'a file whose writing failed has unspecified content until it is saved again']
PROBES = ['ccitt', 'jpeg', 'jpeg-real', 'jpeg-filtered', 'cmyk', 'raw8', 'raw-deep', 'one-bit', 'mask', 'indexed', 'no-bits', 'indirect', 'inline', 'inline-mask', 'inline-jpeg', 'in-form',
          'same-image-twice', 'same-name', 'overwrite-longer', 'data-before', 'data-after', 'reopened', 'reread', 'no-caching', 'encrypted-rc4', 'encrypted-aes', 'encrypted-aes256',
          'fault', 'retry', 'disk-full', 'short-writes', 'interrupted', 'missing-dir', 'default-name', 'default-names', 'name-path', 'many-filters', 'all']

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'jpegs.json')) as fp:
    JPEGS = json.load(fp)

NAMES = ['a', 'b', 'img 1', 'a.b8', '\xfcml', '.hidden', 'a.w1h1', 'A', 'x' * 120, 'img_p1i2', '%d', 'a.jpg', '-', '\u4e2d', "it's", '0']


def jpeg(ch, mode):
    """(data, width, height, CMYK samples): one of the pictures of jpegs.json;
    made before, so that what saving needs of PIL is not loaded by the check"""
    t = [j for j in JPEGS if j['mode'] == mode]
    j = ch.choice(t)
    return base64.b64decode(j['data']), j['w'], j['h'], j['cmyk'] and tuple(j['cmyk'])


class Spec:
    def __init__(self, kind, data, w, h, cmyk=None, note=''):
        self.kind, self.data, self.w, self.h, self.cmyk, self.note = kind, data, w, h, cmyk, note


class Maker:
    """makes the images of a document, and remembers what saving each must write"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.specs = {}
        self.count = 0

    def register(self, spec):
        key = (spec.data, spec.w, spec.h)
        old = self.specs.setdefault(key, spec)
        return old is spec or (old.kind == spec.kind and old.cmyk == spec.cmyk)

    def stored(self, ch, doc):
        for _ in range(6):
            s, spec = self.one(ch.sub('image'), doc)
            if self.register(spec):
                return s
        raise core.Discard('images alike')

    def one(self, ch, doc):
        p = self.ctx.probe
        kind = ch.choice(['jpeg', 'jpeg', 'jpeg-real', 'cmyk', 'raw8', 'raw8', 'one-bit', 'mask', 'deep', 'indexed', 'no-bits'])
        w, h = ch.int(1, 40), ch.int(1, 12)
        a = {'Type': Name('XObject'), 'Subtype': Name('Image'), 'Width': w, 'Height': h, 'BitsPerComponent': 8}
        filters = pdfgen.gen_filters(ch, 60)
        if len(filters) > 1:
            p('many-filters')
        self.count += 1
        form, cmyk, dct, pred = 'raw', None, False, False
        if kind in ('jpeg', 'jpeg-real', 'cmyk'):
            dct = True
            mode = ch.choice(['RGB', 'L'])
            a['ColorSpace'] = Name('DeviceRGB' if mode == 'RGB' else 'DeviceGray')
            if kind == 'jpeg':
                data = b'\xff\xd8\xff\xe0' + b'%d' % self.count + pdfgen.gen_image_bytes(ch, w, h, 1) + b'\xff\xd9'
                if ch.bool(30):
                    data += ch.choice([b'\n', b'\0\0', b'\r\n', b' '])
            elif kind == 'jpeg-real':
                data, w, h, _ = jpeg(ch, mode)
            else:
                data, w, h, cmyk = jpeg(ch, 'CMYK')
                a['ColorSpace'] = Name('DeviceCMYK')
                form = 'cmyk'
            a.update(Width=w, Height=h)
            if ch.bool(20) and kind == 'jpeg':
                del a['BitsPerComponent']
            if filters and ch.bool(50):
                filters = filters + ['DCTDecode']
                p('jpeg-filtered')
                form = 'raw'
                if 'BitsPerComponent' not in a:
                    a['BitsPerComponent'] = 8
            else:
                filters = ['DCTDecode']
                p(kind)
        else:
            bits, comps = 8, 1
            if kind == 'raw8':
                name, comps = ch.choice([('DeviceGray', 1), ('DeviceRGB', 3), ('DeviceCMYK', 4), ('CalRGB', 3)])
                a['ColorSpace'] = Name(name) if name != 'CalRGB' else [Name('CalRGB'), {'WhitePoint': [1, 1, 1]}]
            elif kind == 'indexed':
                n = ch.int(1, 20)
                a['ColorSpace'] = [Name('Indexed'), Name('DeviceRGB'), n - 1, bytes(ch.draw(256) for _ in range(3)) * n]
                bits = ch.choice([8, 4, 2])
            elif kind == 'deep':
                a['ColorSpace'] = Name('DeviceRGB')
                comps, bits = 3, ch.choice([2, 4, 16])
            elif kind == 'mask':
                del a['BitsPerComponent']
                a['ImageMask'] = True
                bits = 1
                if ch.bool():
                    a['BitsPerComponent'] = 1
            else:
                bits = 1
                a['ColorSpace'] = ch.choice([Name('DeviceGray'), Name('DeviceGray'), [Name('Indexed'), Name('DeviceRGB'), 1, b'abcdef']])
            if kind == 'no-bits':
                del a['BitsPerComponent']
            elif 'BitsPerComponent' in a:
                a['BitsPerComponent'] = bits
            row = (w * comps * bits + 7) // 8
            data = pdfgen.gen_image_bytes(ch, row, h, 1)
            data = (b'%d' % self.count)[:len(data)] + data[len(b'%d' % self.count):]
            if bits == 1:
                form = 'bmp'
            p({'deep': 'raw-deep'}.get(kind, kind))
            pred = ch.bool(20)
        if ch.bool(25):
            for k in ch.sample(['Width', 'Height', 'BitsPerComponent', 'ColorSpace', 'ImageMask'], ch.int(1, 4)):
                if k in a:
                    a[k] = pdfgen.Ref(doc.add(a[k]))
            p('indirect')
        fax = form == 'bmp' and ch.bool(25)
        if fax:
            # what does not belong to the picture is not stored
            keep = bytes([255] * (row - 1) + [255 << (-w % 8) & 255])
            data = bytes(b & keep[i % row] for i, b in enumerate(data))
        s = pdfgen.Stream(data, a, filters, dct=dct)
        if fax:
            pdfgen.use_ccitt(ch, s, w)
            filters = s.filters
            p('ccitt')
        elif pred and filters == ['FlateDecode']:
            s.predictor = row
        elif ch.bool(15) and len(filters) == 1:
            s.attrs['_listfilter'] = True
        s.size = (w, h)
        spec = Spec(form, data, w, h, cmyk, '%s %s' % (kind, filters))
        return s, spec

    def inline(self, ch):
        for _ in range(6):
            c = ch.sub('inline')
            w, h = c.int(1, 20), c.int(1, 6)
            k = c.choice(['raw', 'raw', 'bit', 'mask', 'jpeg'])
            self.count += 1
            tag = b'%d' % self.count
            a = {'W': w, 'H': h}
            if k == 'jpeg':
                data = b'\xff\xd8' + tag + pdfgen.gen_image_bytes(c, w, h, 1) + b'\xff\xd9'
                a.update(BPC=8, CS=Name('G'))
                self.ctx.probe('inline-jpeg')
                spec = Spec('raw', data, w, h, note='inline jpeg')
            elif k == 'raw':
                data = pdfgen.gen_image_bytes(c, w, h, 3)
                a.update(BPC=8, CS=Name(c.choice(['RGB', 'DeviceRGB'])))
                spec = Spec('raw', data, w, h, note='inline raw')
            else:
                data = pdfgen.gen_image_bytes(c, (w + 7) // 8, h, 1)
                spec = Spec('bmp', data, w, h, note='inline one-bit')
                if k == 'mask':
                    a['IM'] = True
                    self.ctx.probe('inline-mask')
                else:
                    a.update(BPC=1, CS=Name('G'))
            self.ctx.probe('inline')
            if self.register(spec):
                return a, data, w, h, k == 'jpeg'
        raise core.Discard('images alike')


# ----------------------------------------------------------------- contents
def bmp_rows(b):
    """rows (top first) of 0/1 samples of a one-bit BMP, or None"""
    if len(b) < 54 or b[:2] != b'BM':
        return None
    size, _, off = struct.unpack('<III', b[2:14])
    hs, w, h, planes, bits, comp, dsize, _, _, ncol, _ = struct.unpack('<IiiHHIIIIII', b[14:54])
    if bits != 1 or comp or planes != 1 or size != len(b) or w <= 0 or h == 0:
        return None
    pal = [b[14 + hs + 4 * i:14 + hs + 4 * i + 3] for i in range(2)]
    if sorted(pal) != [b'\0\0\0', b'\xff\xff\xff']:
        return None
    val = [int(c == b'\xff\xff\xff') for c in pal]
    line = (w + 31) // 32 * 4
    if off + line * abs(h) > len(b):
        return None
    rows = []
    for y in range(abs(h)):
        r = b[off + y * line:off + (y + 1) * line]
        rows.append([val[(r[x >> 3] >> (7 - (x & 7))) & 1] for x in range(w)])
    return rows[::-1] if h > 0 else rows


def wrong(spec, got):
    """what is wrong with a file's content, or None"""
    if got is None:
        return 'is missing'
    if spec.kind == 'raw' or got == spec.data and spec.kind != 'cmyk':
        if got != spec.data:
            return 'holds %d bytes %s, the image %d bytes %s' % (len(got), sut.short(got, 80), len(spec.data), sut.short(spec.data, 80))
        return None
    if spec.kind == 'bmp':
        rows = bmp_rows(got)
        if rows is None:
            return 'is no picture with one bit per sample: %s' % sut.short(got, 120)
        n = (spec.w + 7) // 8
        want = [[(spec.data[y * n + (x >> 3)] >> (7 - (x & 7))) & 1 for x in range(spec.w)] for y in range(spec.h)]
        if rows != want:
            return 'shows %s, the image %s' % (sut.short(rows, 120), sut.short(want, 120))
        return None
    from PIL import Image
    try:
        im = Image.open(io.BytesIO(got))
        im.load()
    except Exception as e:
        return 'is no image: %s' % e
    if im.size != (spec.w, spec.h):
        return 'is %s in size, the image %s' % (im.size, (spec.w, spec.h))
    if not got.endswith(b'\xff\xd9'):
        return 'is cut short'
    c, m, y, k = spec.cmyk
    want = [(255 - v) * (255 - k) / 255 for v in (c, m, y)]
    px = im.convert('RGB').getpixel((spec.w // 2, spec.h // 2))
    if max(abs(a - b) for a, b in zip(px, want)) > 40:
        return 'shows the colour %s, the image %s' % (px, want)
    return None


class Shot:
    """an image item of some reading, with what it must save"""

    def __init__(self, item, spec, encrypted, caching):
        self.item, self.spec, self.caching = item, spec, caching
        self.encrypted = encrypted
        self.used = self.saved = False


class Run:
    def __init__(self, ch, ctx, doc, maker, fs, path, scheme):
        self.ch, self.ctx, self.doc, self.maker, self.fs, self.path, self.scheme = ch, ctx, doc, maker, fs, path, scheme
        self.shots = []
        self.readers = []
        self.files = dict(fs.listing())          # path -> bytes | Spec | None (unspecified)
        self.by_name = {}                        # path -> (dir, name)
        self.dirs = ['out', 'other']
        for d in self.dirs:
            os.mkdir(fs.path(d))
        self.saves = 0

    # ------------------------------------------------------------- reading
    def read(self, it, caching, again=False):
        pages = sut.call('reading', lambda: [list(p) for p in it])
        check(len(pages) == len(self.doc.pages), 'pages', '%d pages, expected %d', len(pages), len(self.doc.pages))
        for items, p in zip(pages, self.doc.pages):
            self.walk(items, p.items, caching)

    def walk(self, items, want, caching, depth=0):
        check(len(items) == len(want), 'items', '%d items, expected %d', len(items), len(want))
        for i, w in zip(items, want):
            check(observe.kind(i) == w[0], 'items', 'item is %s, expected %s', observe.kind(i), w[0])
            if w[0] == 'image':
                spec = self.maker.specs[(w[1], w[2], w[3])]
                if depth:
                    self.ctx.probe('in-form')
                self.shots.append(Shot(i, spec, self.scheme is not None, caching))
            elif w[0] == 'xobject':
                self.walk(list(i), w[1], caching, depth + 1)

    def op_open(self, s=None):
        from pdfmajor.interpreter import PDFInterpreter
        caching = not self.ch.bool(35)
        if not caching:
            self.ctx.probe('no-caching')
        if self.readers:
            self.ctx.probe('reopened')
        self.ctx.log('open, caching=%s' % caching)
        pw = self.scheme.user if self.scheme else None
        it = sut.call('PDFInterpreter', PDFInterpreter, self.path, caching=caching, password=pw, check_extractable=False)
        self.readers.append((it, caching))
        if self.ch.bool(50):
            self.shots = self.shots[-8:]
        self.read(it, caching)

    def op_reread(self, s):
        it, caching = self.ch.choice(self.readers)
        self.ctx.log('read again')
        self.ctx.probe('reread')
        self.read(it, caching)

    # -------------------------------------------------------------- history
    def op_data(self, s):
        self.ctx.log('data of %s' % s.spec.note)
        got = sut.call('get_data', s.item.stream.get_data)
        check(got == s.spec.data, 'data', 'data of %s is %s, expected %s', s.spec.note, sut.short(got), sut.short(s.spec.data))
        check(tuple(s.item.srcsize) == (s.spec.w, s.spec.h), 'size', 'size of %s is %s, expected %s', s.spec.note, s.item.srcsize, (s.spec.w, s.spec.h))
        self.ctx.probe('data-after' if s.saved else 'data-before')
        s.used = True
        self.note('data', s)

    def note(self, op, s):
        self.ctx.steps += 1
        self.ctx.state((s.spec.note, s.encrypted, op, s.used, s.saved, s.caching))

    def target(self):
        d = self.ch.choice(self.dirs)
        name = self.ch.choice(NAMES)
        return d, name

    def save(self, s, d, name, allow=()):
        outdir = self.fs.path(d) if self.ch.bool(70) else d
        if not os.path.isabs(outdir):
            self.ctx.probe('name-path')
        return sut.call('save_image(%r, %r) of %s' % (d, name, s.spec.note), s.item.save_image, outdir, name, allow=allow)

    def changes(self):
        now = self.fs.listing()
        new = [p for p in now if p not in self.files]
        gone = [p for p in self.files if p not in now]
        changed = [p for p in now if p in self.files and self.differs(self.files[p], now[p])]
        return now, new, changed, gone

    @staticmethod
    def differs(want, got):
        if want is None:
            return False
        if isinstance(want, Spec):
            return wrong(want, got) is not None
        return want != got

    def settle(self, s, d, name, got_path, what):
        """one save has succeeded: its file holds the image, nothing else changed"""
        now = self.fs.listing()
        check(isinstance(got_path, (str, os.PathLike)), 'path', '%s answers %r', what, got_path)
        rel = self.fs.rel(got_path)
        check(rel in now, 'missing', '%s answers the path %r, where there is no file', what, rel)
        check(os.path.dirname(rel) == d, 'outside', '%s writes %r', what, rel)
        if name is not None:
            check(os.path.basename(rel).startswith(name), 'name', '%s writes %r', what, rel)
        owner = self.by_name.get(rel)
        if name is not None:
            check(owner is None or owner == (d, name), 'collision', '%s writes %r, which the name %r was saved to', what, rel, owner)
            self.by_name[rel] = (d, name)
        else:
            old = self.files.get(rel)
            check(not isinstance(old, Spec) or old is s.spec, 'overwritten', '%s writes %r over another image', what, rel)
        w = wrong(s.spec, now[rel])
        check(w is None, 'content', '%s: the file %r %s', what, rel, w)
        self.files[rel] = s.spec
        self.quiet(what)
        s.saved = True
        self.saves += 1

    def quiet(self, what):
        _, new, changed, gone = self.changes()
        check(not (new or changed or gone), 'touched', '%s also leaves new %s, changed %s, removed %s', what, new, changed, gone)
        check(not self.fs.open_handles(), 'handles', '%s leaves files open: %s', what, self.fs.open_handles())

    def op_save(self, s, d=None, name=None, how=''):
        if d is None:
            d, name = self.target()
        self.ctx.log('save %s as %s/%s %s' % (s.spec.note, d, name, how))
        if s.saved:
            self.ctx.probe('same-image-twice')
        old = [p for p, o in self.by_name.items() if o == (d, name)]
        if old:
            self.ctx.probe('same-name')
        p = self.save(s, d, name)
        self.settle(s, d, name, p, 'saving %s as %s/%s %s' % (s.spec.note, d, name, how))
        self.note('save', s)
        return p

    def op_default(self, s, d=None):
        if d is None:
            d = 'auto%d' % len(self.dirs)
            self.dirs.append(d)
            os.mkdir(self.fs.path(d))
        self.ctx.probe('default-name')
        p = sut.call('save_image of %s' % s.spec.note, s.item.save_image, self.fs.path(d))
        self.settle(s, d, None, p, 'saving %s without a name' % s.spec.note)
        self.note('default', s)

    def op_defaults(self, s):
        """every image without a name, while the pages are read, keeping none of them"""
        from pdfmajor.interpreter import PDFInterpreter
        self.ctx.probe('default-names')
        d = 'auto%d' % len(self.dirs)
        self.dirs.append(d)
        os.mkdir(self.fs.path(d))
        pw = self.scheme.user if self.scheme else None
        caching = not self.ch.bool(50)
        it = sut.call('PDFInterpreter', PDFInterpreter, self.path, caching=caching, password=pw, check_extractable=False)
        kept, self.shots = self.shots, []

        def walk(items, want, depth=0):
            for n, w in enumerate(want):
                item = sut.call('item', next, items)
                if w[0] == 'image':
                    self.walk([item], [w], caching, depth)
                    self.op_default(self.shots.pop(), d)
                elif w[0] == 'xobject':
                    walk(iter(item), w[1], depth + 1)
                item = None
            sut.call('the end', list, items)
        pages = sut.call('iter', iter, it)
        for p in self.doc.pages:
            page = sut.call('page', next, pages)
            walk(sut.call('iter page', iter, page), p.items)
            page = None
        sut.call('the end', list, pages)
        self.shots = kept

    def op_longer(self, s):
        """over a longer file"""
        d, name = self.target()
        rel = self.fs.rel(self.op_save(s, d, name))
        junk = b'J' * (len(self.fs.get(rel)) + self.ch.int(1, 3000))
        self.fs.put(rel, junk)
        self.ctx.probe('overwrite-longer')
        self.op_save(s, d, name, 'over a longer file')

    def op_missing(self, s):
        self.ctx.probe('missing-dir')
        try:
            self.save(s, 'nowhere', 'a', allow=(OSError,))
        except sut.Expected:
            pass
        else:
            raise core.Violation('swallowed', 'saving to a directory that does not exist goes unnoticed')
        self.quiet('saving to a directory that does not exist')
        self.note('missing', s)

    def attempt(self, s, d, name, how):
        """a save that may fail; True when it raised"""
        before = self.fs.listing()
        try:
            p = self.save(s, d, name, allow=(OSError,))
        except sut.Expected as e:
            failed = e.exc
        else:
            failed = None
        fired = list(self.fs.fired)
        self.fs.disarm()
        if failed is None:
            return False, p, fired
        _, new, changed, gone = self.changes()
        for rel in new + changed + gone:
            check(os.path.dirname(rel) == d and os.path.basename(rel).startswith(name), 'touched', 'a failed save as %s/%s leaves %r', d, name, rel)
            owner = self.by_name.setdefault(rel, (d, name))
            check(owner == (d, name), 'collision', 'a failed save as %s/%s changes %r of %s', d, name, rel, owner)
            if rel in gone:
                del self.files[rel]
            else:
                self.files[rel] = None
        check(not self.fs.open_handles(), 'handles', 'a failed save leaves files open: %s', self.fs.open_handles())
        return True, failed, fired

    def op_fault(self, s):
        """a save that fails somewhere, then again"""
        ch = self.ch
        d, name = self.target()
        self.fs.arm()
        self.op_save(s, d, name)
        trace, size = list(self.fs.trace), self.fs.written
        s2 = ch.choice(self.shots) if ch.bool(20) else s
        if s2 is not s:
            self.op_save(s2, d, name)
        for _ in range(ch.int(1, 3)):
            if ch.bool(20) and size:
                self.fs.arm()
                self.fs.capacity = ch.draw(size) if ch.bool(70) else max(0, size - 1 - ch.draw(3))
                what = 'a disk with room for %d of %d bytes' % (self.fs.capacity, size)
                must = True
            else:
                f = self.fs.pick_fault(trace)
                self.fs.arm(f)
                what, must = str(f), False
            self.ctx.log('save %s as %s/%s with %s' % (s.spec.note, d, name, what))
            raised, got, fired = self.attempt(s, d, name, what)
            self.note('fault-' + what.split('@')[0].split(' ')[0], s)
            if raised:
                self.ctx.probe('disk-full' if must else 'fault')
                check(fired or must, 'exception:OSError', 'saving raised %s although nothing failed', core.describe_exc(got))
            else:
                check(not fired and not must, 'swallowed', 'saving %s as %s/%s succeeds although %s', s.spec.note, d, name, what)
                self.settle(s, d, name, got, 'saving with %s' % what)
        self.op_save(s, d, name, 'again after failures')
        self.ctx.probe('retry')

    def op_slow(self, s):
        """short and interrupted writes change nothing"""
        ch = self.ch
        d, name = self.target()
        self.fs.arm()
        if ch.bool():
            self.fs.always_short = True
            self.ctx.probe('short-writes')
            self.ctx.fault('write-short')
        else:
            self.op_save(s, d, name)
            f = self.fs.pick_fault(self.fs.trace, benign=True)
            self.fs.arm(*([f] if f else []))
            self.ctx.probe('interrupted')
        self.op_save(s, d, name, 'with short or interrupted writes')
        self.fs.disarm()

    def op_all(self, s):
        """every image under a name of its own, in some order"""
        self.ctx.probe('all')
        d = 'all%d' % len(self.dirs)
        self.dirs.append(d)
        os.mkdir(self.fs.path(d))
        order = self.ch.shuffle(range(len(self.shots)))[:12]
        for k in order:
            self.op_save(self.shots[k], d, 'i%d' % k)
        if self.ch.bool():
            for k in self.ch.shuffle(order)[:6]:
                self.op_data(self.shots[k])

    def go(self):
        ch, ctx = self.ch, self.ctx
        self.op_open()
        if not self.shots:
            return
        ops = [self.op_save] * 8 + [self.op_data] * 5 + [self.op_fault] * 4 + [self.op_slow] * 2 + [self.op_longer] * 2
        ops += [self.op_open, self.op_reread, self.op_missing, self.op_default, self.op_defaults, self.op_all]
        outer = ch
        for _ in range(outer.int(2, 14)):
            self.ch = ch = outer.sub('op')
            s = ch.choice(self.shots)
            if ch.bool(30):
                s = self.shots[-1]
            ch.choice(ops)(s)
            self.quiet('the last operation')
        self.ch = outer
        ctx.nontrivial = self.saves >= 2


def run(ch, ctx):
    maker = Maker(ctx)
    o = pdfgen.Opts(chain=8, ops=(1, 5), pages=(1, 2), images=(1, 4), forms=(0, 2), fonts=(0, 1), misc=(0, 1), empty_pages=0, image_ops=70,
                    image_maker=maker.stored, inline_maker=maker.inline)
    doc = pdfgen.gen_doc(ch, o)
    scheme = crypt.gen_scheme(ch) if ch.bool(35) else None
    if scheme:
        ctx.probe('encrypted-' + str(scheme.method))
    s = pdfsave.Saver(ch, crypt=scheme) if scheme else pdfsave.Saver(ch)
    s.save(doc)
    saved = s.finish()
    with simfs.FS(ch.sub('fs'), ctx) as fs:
        fs.fileno = False
        path = fs.put('in.pdf', saved.data)
        r = Run(ch.sub('ops'), ctx, doc, maker, fs, path, scheme)
        r.go()
        check(fs.get('in.pdf') == saved.data, 'touched', 'the document was changed')
