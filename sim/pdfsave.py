"""Writing model documents to bytes: revisions, cross-reference forms, object
streams, spellings, encryption.  Every choice is drawn; nothing here imports
the code under test."""
import zlib

from .pdfgen import Stream, enc_png_up
from .syntax import Name, Ref, Writer


class Style:
    """how one file is spelled"""

    def __init__(self, **kw):
        self.plain = False          # canonical spelling, no choices
        self.kinds = ('table', 'stream', 'hybrid')
        self.objstm = 60            # percent chance that a revision packs objects
        self.indirect_len = 20
        self.indirect_filter = 12
        self.line_objs = True       # every object header starts a line
        self.junk_comments = True
        self.true_length = True
        self.eols = (b'\n', b'\r\n', b'\r')
        self.header_junk = 0
        self.stream_hook = None     # (number, attributes, stream), before a stream is written
        self.trailer_hook = None    # (trailer, saver)
        self.__dict__.update(kw)


class Saved:
    """what was written where"""

    def __init__(self):
        self.data = b''
        self.ends = []        # file length after each revision
        self.digits = []      # position just behind the last digit of startxref, per revision
        self.starts = []      # where each revision starts
        self.kinds = []
        self.xref_pos = []
        self.objpos = {}      # (rev, num) -> header offset
        self.spans = []       # (start, end, what)
        self.packed = []      # numbers in object streams, per revision
        self.log = []


class Plain:
    """no encryption"""
    encrypt_dict = None
    ident = None

    def string(self, num, gen, s):
        return s

    def stream(self, num, gen, data, attrs):
        return data


def map_strings(v, f):
    if isinstance(v, bytes):
        return f(v)
    if isinstance(v, (list, tuple)):
        return [map_strings(x, f) for x in v]
    if isinstance(v, dict):
        return {k: map_strings(x, f) for k, x in v.items()}
    return v


class Saver:
    def __init__(self, ch, style=None, crypt=None, version=b'1.7'):
        self.ch = ch = ch.sub('save')
        self.st = style or Style()
        self.crypt = crypt or Plain()
        self.out = bytearray()
        self.saved = Saved()
        self.next = 1            # for numbers the file itself needs (object streams, lengths)
        self.own = []
        self.prev = None
        ch_ = ch
        self.eol = b'\n' if self.st.plain else ch_.choice(self.st.eols)
        if self.st.header_junk:
            self.out += b'junk before the header\n'
        self.out += b'%PDF-' + version + self.eol + b'%\xe2\xe3\xcf\xd3' + self.eol
        self.encrypt_num = None
        self.ident = self.crypt.ident
        self.where = {}

    # ------------------------------------------------------------ one object
    def spell(self, v):
        w = Writer(self.ch.sub('spell'), self.st.plain)
        w.value(v)
        return bytes(w.out)

    def write_obj(self, num, gen, v, rev, crypt=True, quiet=False):
        ch, st = self.ch, self.st
        c = self.crypt if crypt else Plain()
        if st.line_objs or not self.out.endswith((b' ', b'\n', b'\r')):
            if not self.out.endswith((b'\n', b'\r')):
                self.out += self.eol
        if st.junk_comments and not quiet and not st.plain and ch.bool(8):
            self.out += b'% ' + ch.choice([b'comment', b'a (note', b'<<']) + self.eol
        pos = len(self.out)
        self.saved.objpos[(rev, num)] = pos
        sp = b' ' if st.plain else ch.choice([b' ', b' ', self.eol])
        if isinstance(v, Stream):
            data = v.encoded()
            lnum = None
            if not st.plain and v.attrs.get('Type') != Name('XRef') and ch.bool(st.indirect_len):
                lnum = self.alloc()
            attrs = v.full_attrs(0)
            attrs = map_strings(attrs, lambda s: c.string(num, gen, s))
            data = c.stream(num, gen, data, v.attrs)
            attrs['Length'] = Ref(lnum) if lnum else len(data)
            if st.stream_hook:
                st.stream_hook(num, attrs, v)
            extra = []
            if not st.plain and v.attrs.get('Type') != Name('XRef') and ch.bool(st.indirect_filter):
                def apart(x, pct):
                    # one value of the dictionary, or of what is in it, as an object of its own
                    if isinstance(x, list):
                        x = [apart(y, 20) for y in x]
                    elif isinstance(x, dict):
                        x = {k: apart(y, 20) for k, y in x.items()}
                    if x is None or not ch.bool(pct):
                        return x
                    fn = self.alloc()
                    extra.append((fn, x))
                    return Ref(fn)

                for k in ('Filter', 'DecodeParms') + (('N', 'First') if attrs.get('Type') == Name('ObjStm') else ()):
                    if k in attrs:
                        attrs[k] = apart(attrs[k], 50)
            self.out += b'%d %d obj' % (num, gen) + sp
            self.out += self.spell(attrs)
            if not st.plain and ch.bool(30):
                self.out += self.eol
            self.out += b'stream' + (b'\n' if st.plain else ch.choice([b'\n', b'\r\n']))
            d0 = len(self.out)
            self.out += data
            self.saved.spans.append((d0, len(self.out), 'stream', num))
            # an end-of-line marker before endstream is usual; without it only when the data leaves no doubt
            self.out += self.eol + b'endstream' + self.eol + b'endobj' + self.eol
            self.where[num] = (1, pos, gen)
            if lnum:
                self.write_obj(lnum, 0, len(data), rev)
            for fn, x in extra:
                self.write_obj(fn, 0, x, rev)
            return
        v = map_strings(v, lambda s: c.string(num, gen, s))
        self.out += b'%d %d obj' % (num, gen) + sp + self.spell(v)
        self.out += (self.eol if st.plain or ch.bool(70) else b' ') + b'endobj' + self.eol
        self.where[num] = (1, pos, gen)

    def alloc(self):
        n = self.next
        self.next += 1
        self.own.append(n)
        return n

    # ------------------------------------------------------------ a revision
    def save(self, doc, first=False):
        """append the objects of doc.changed as one revision"""
        ch, st = self.ch, self.st
        rev = len(self.saved.ends)
        first = rev == 0
        self.saved.starts.append(len(self.out))
        kind = 'table' if st.plain and 'table' in st.kinds else ch.choice(st.kinds)
        self.saved.kinds.append(kind)
        if any(n in doc.objs for n in self.own):
            raise AssertionError('object number taken by the file itself')
        self.next = max(self.next, doc.next)
        self.where = {}
        nums = sorted(doc.objs) if first else sorted(doc.changed)
        nums = [n for n in nums if n in doc.objs]
        order = nums if st.plain else (ch.shuffle(nums) if ch.bool(50) else nums)
        pack = []
        if kind != 'table' and ch.bool(st.objstm):
            for n in order:
                v = doc.objs[n]
                if isinstance(v, Stream) or doc.gens.get(n, 0) or n in doc.stm_only:
                    continue
                if n == self.encrypt_num:
                    continue
                if ch.bool(60):
                    pack.append(n)
        packset = set(pack)
        if first and self.crypt.encrypt_dict is not None:
            self.encrypt_num = self.alloc()
        for n in order:
            if n not in packset:
                self.write_obj(n, doc.gens.get(n, 0), doc.objs[n], rev)
        if first and self.encrypt_num and self.crypt.encrypt_indirect:
            self.write_obj(self.encrypt_num, 0, self.crypt.encrypt_dict, rev, crypt=False)
        plain_where = dict(self.where)
        stm_where = {}
        while pack:
            k = ch.int(1, len(pack))
            part, pack = pack[:k], pack[k:]
            sn = self.alloc()
            body = bytearray()
            heads = []
            for n in part:
                heads.append((n, len(body)))
                body += self.spell(doc.objs[n]) + b'\n'
            head = b' '.join(b'%d %d' % h for h in heads) + b'\n'
            s = Stream(head + bytes(body), {'Type': Name('ObjStm'), 'N': len(part), 'First': len(head)},
                       ['FlateDecode'] if ch.bool(60) else [])
            self.write_obj(sn, 0, s, rev)
            for i, n in enumerate(part):
                stm_where[n] = (2, sn, i)
        self.saved.packed.append(sorted(packset))
        where = dict(self.where)
        free = {n: None for n in doc.freed}
        if kind == 'table':
            self.table(doc, where, free, first, None, rev)
        elif kind == 'hybrid':
            xpos = None
            if stm_where:
                xpos = self.xref_stream(doc, stm_where, {}, rev, hidden=True)
                where = dict(where)
            hidden = dict.fromkeys(stm_where)
            # the cross-reference stream object itself is listed in the table
            where.update(self.where)
            hidden.update(free)
            self.table(doc, where, hidden, first, xpos, rev)
        else:
            where.update(stm_where)
            self.xref_stream(doc, where, free, rev, hidden=False, first=first)
        self.saved.ends.append(len(self.out))
        self.saved.log.append('rev %d %s objs=%d packed=%d' % (rev, kind, len(nums), len(packset)))
        return self

    def trailer(self, doc):
        t = {'Root': Ref(doc.root), 'Size': self.next}
        if doc.info:
            t['Info'] = Ref(doc.info)
        if self.prev is not None:
            t['Prev'] = self.prev
        if self.crypt.encrypt_dict is not None:
            t['Encrypt'] = Ref(self.encrypt_num) if self.crypt.encrypt_indirect else self.crypt.encrypt_dict
        if self.ident is not None:
            t['ID'] = list(self.ident)
        if self.st.trailer_hook:
            self.st.trailer_hook(t, self)
        return t

    def end(self, pos):
        self.out += b'startxref' + self.eol + b'%d' % pos
        self.saved.digits.append(len(self.out))
        self.out += self.eol + b'%%EOF' + self.eol
        self.prev = pos
        self.saved.xref_pos.append(pos)

    def line_start(self):
        if not self.out.endswith((b'\n', b'\r')):
            self.out += self.eol

    def table(self, doc, where, free, first, xpos, rev):
        self.line_start()
        self.cur = pos = len(self.out)
        ents = {n: b'%010d %05d n' % (w[1], w[2]) for n, w in where.items()}
        for n in free:
            ents.setdefault(n, b'%010d %05d f' % (0, 1))
        if first:
            ents[0] = b'%010d %05d f' % (0, 65535)
            if max(ents) < 2000:        # else in several sections
                for n in range(max(ents) + 1):
                    ents.setdefault(n, b'%010d %05d f' % (0, 0))
        e2 = {b'\n': b' \n', b'\r': b' \r', b'\r\n': b'\r\n'}[self.eol]
        self.out += b'xref' + self.eol
        ns = sorted(ents)
        i = 0
        self.xent = []
        while i < len(ns):
            j = i
            while j + 1 < len(ns) and ns[j + 1] == ns[j] + 1:
                j += 1
            self.xent.append(('head', len(self.out)))
            self.out += b'%d %d' % (ns[i], j - i + 1) + self.eol
            for n in ns[i:j + 1]:
                self.xent.append((n, len(self.out)))
                self.out += ents[n] + e2
            i = j + 1
        if not ns:
            self.out += b'0 0' + self.eol
        self.saved.table_span = (pos, len(self.out))
        self.saved.xent = list(self.xent)
        t = self.trailer(doc)
        if xpos is not None:
            t['XRefStm'] = xpos
        self.saved.trailer_pos = len(self.out)
        self.out += b'trailer' + self.eol + self.spell(t)
        self.line_start()
        self.saved.tail_pos = len(self.out)
        self.end(pos)

    def xref_stream(self, doc, where, free, rev, hidden, first=False):
        ch = self.ch
        self.line_start()
        num = self.alloc()
        self.cur = pos = len(self.out)
        ents = dict(where)
        if not hidden:
            ents[num] = (1, pos, 0)
            for n in free:
                ents.setdefault(n, (0, 0, 1))
            if first:
                ents[0] = (0, 0, 65535)
        ns = sorted(ents)
        w2 = ch.choice([2, 3, 4, 8, 5, 6]) if not self.st.plain else 4
        big = max([pos] + [e[1] for e in ents.values()])
        while big >= 256 ** w2:
            w2 += 1
        w3 = ch.choice([1, 2]) if max([e[2] for e in ents.values() if e[0]] or [0]) < 256 else 2
        w1 = 1
        if not hidden and all(e[0] == 1 for e in ents.values()) and ch.bool(20):
            w1 = 0
        rows = b''
        for n in ns:
            t, a, b = ents[n]
            rows += t.to_bytes(w1, 'big') if w1 else b''
            rows += a.to_bytes(w2, 'big') + min(b, 256 ** w3 - 1).to_bytes(w3, 'big')
        ranges = []
        i = 0
        while i < len(ns):
            j = i
            while j + 1 < len(ns) and ns[j + 1] == ns[j] + 1:
                j += 1
            ranges += [ns[i], j - i + 1]
            i = j + 1
        a = {'Type': Name('XRef'), 'W': [w1, w2, w3]}
        if hidden:
            a['Size'] = self.next
        else:
            a.update(self.trailer(doc))
            a['Size'] = self.next
        if not (ranges[:1] == [0] and len(ranges) == 2 and ranges[1] == self.next and ch.bool(50)):
            a['Index'] = ranges
        s = Stream(rows, a, ['FlateDecode'] if ch.bool(60) else [])
        if s.filters and ch.bool(50):
            s.predictor = w1 + w2 + w3
        saved, self.st.indirect_len = self.st.indirect_len, 0
        self.write_obj(num, 0, s, rev, crypt=False, quiet=True)
        self.st.indirect_len = saved
        # write_obj may have put a comment first
        pos2 = self.saved.objpos[(rev, num)]
        if pos2 != pos:
            raise AssertionError('xref stream moved')
        if not hidden:
            self.end(pos)
        return pos

    def finish(self):
        self.saved.data = bytes(self.out)
        return self.saved


def save_doc(ch, docs, style=None, crypt=None):
    """docs: revisions in order"""
    s = Saver(ch, style, crypt)
    for d in docs:
        s.save(d)
    return s.finish()
