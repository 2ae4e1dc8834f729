"""C10: encryption changes nothing about what is read."""
import re

from sim import core, crypt, pdfgen, pdfsave, sut, observe, fs as simfs
from sim.props import c05
from sim.syntax import Name
from sim.sut import check

ID = 'C10'
RUNS_QUICK = 6000
RUNS_THOROUGH = 200000
RULE = ('one run = one generated document of 1-3 revisions saved twice, encrypted (drawn scheme, key length, passwords, permissions) and plain, '
        'and a seeded schedule over both: opening with right and wrong passwords, object look-ups, references, page, outline and destination '
        'walks, interpreting and converting, with and without caching, with short and failing reads; non-trivial = something was deciphered '
        'and at least 5 operations ran')
STATE_MEASURE = 'distinct (scheme, key length, operation, caching, which password, previous operation)'
REAL = ['pdfmajor.parser (PDFSecurityHandler, PDFDocument, PDFParser, PDFStream)', 'pdfmajor.interpreter', 'pdfmajor.converters', 'Crypto ciphers']
STUB = ['input file object and raw file layer (short and failing reads)']
ASSUMPTIONS = ['the schemes the package supports: V1/V2 (RC4), V4 (RC4, AES-128, identity), V5 revision 5 (AES-256); one filter for strings and streams',
               'permissions are asserted for the user password only; passwords are compared as the algorithm sees them (32 bytes, 127 for V5)',
               'the names images are given in the output are not part of what is read']
PROBES = crypt.KINDS + ['user', 'owner', 'empty-password', 'no-password', 'wrong', 'wrong-close', 'wrong-not-encodable', 'long-password', 'refused-extraction',
          'unchecked-extraction', 'allowed-extraction', 'metadata-plain', 'metadata-encrypted', 'read', 'convert', 'convert-directly', 'password-left-out', 'revisions', 'high-numbers', 'packed', 'stream-data',
          'no-caching', 'encrypt-direct', 'encrypt-indirect', 'unsigned-permissions', 'generation', 'again-after-wrong', 'long-key', 'short-read', 'failing-read']


def mask(data):
    """images are named by what is stored, which is another thing when encrypted"""
    return None if data is None else re.sub(rb'(s\x00?r\x00?c\x00?"?\x00?[:=]\x00? ?\x00?["\']?\x00?)(?:[0-9a-f-]\x00?)+', rb'\1NAME', data)


class Run(c05.Run):
    def __init__(self, ch, ctx, docs, saved, scheme, fs, paths):
        c05.Run.__init__(self, ch, ctx, docs, saved)
        self.scheme, self.fs, self.paths = scheme, fs, paths
        self.pw = 'user'
        self.twin = {}

    def note(self, op, form, d):
        self.ctx.state((self.scheme.kind, self.scheme.length, op, d.caching if d else None, self.pw, self.prev))
        self.prev = op
        self.ctx.steps += 1

    # ------------------------------------------------------------ passwords
    def right(self):
        s = self.scheme
        which = self.ch.choice(['user', 'user', 'owner'])
        pw = s.user if which == 'user' else s.owner
        self.pw = which
        self.ctx.probe(which)
        if not pw:
            self.ctx.probe('empty-password')
            if self.ch.bool():
                self.ctx.probe('no-password')
                pw = None
        elif len(pw) > 32:
            self.ctx.probe('long-password')
        return pw

    def wrong(self):
        s, ch = self.scheme, self.ch
        base = ch.choice([s.user, s.owner])
        for _ in range(20):
            k = ch.draw(8)
            pw = [lambda: base[:-1], lambda: base + 'x', lambda: 'x' + base, lambda: base.swapcase(), lambda: ch.choice(['wrong', '', 'user', 'owner']),
                  lambda: base[1:], lambda: base + ' ', lambda: ch.choice(['\u4e2d', '\u20ac' + base])][k]()
            if not s.opens(pw):
                if s.spell(pw) is None:
                    self.ctx.probe('wrong-not-encodable')
                if k < 7 and k != 4 and base:
                    self.ctx.probe('wrong-close')
                return pw if pw or ch.bool() else None
        return 'surely not this one'

    # ------------------------------------------------------------ operations
    def op_wrong(self, d):
        from pdfmajor.parser.PDFParser import PDFParser
        from pdfmajor.parser.PDFDocument import PDFDocument
        from pdfmajor.interpreter import PDFInterpreter
        from pdfmajor.converters import convert_file
        from pdfmajor.execptions import PDFPasswordIncorrect
        pw = self.wrong()
        how = self.ch.draw(4)
        self.ctx.log('wrong password %r (%s)' % (pw, ['document', 'document', 'interpreter', 'conversion'][how]))
        try:
            if how < 2:
                sut.call('PDFDocument with the password %r' % pw, lambda: PDFDocument(PDFParser(sut.SimInput(self.saved.data)), pw, caching=self.ch.bool()),
                         allow=(PDFPasswordIncorrect,))
            elif how == 2:
                it = sut.call('PDFInterpreter', PDFInterpreter, self.paths[0], password=pw, check_extractable=False)
                sut.call('iterating with the password %r' % pw, lambda: next(iter(it)), allow=(PDFPasswordIncorrect,))
            else:
                sut.call('converting with the password %r' % pw, convert_file, self.paths[0], self.fs.path('w.text'), out_type='text', password=pw,
                         check_extractable=False, allow=(PDFPasswordIncorrect,))
        except sut.Expected:
            pass
        else:
            raise core.Violation('wrong-password', 'the document opens with %r; its passwords are %r and %r' % (pw, self.scheme.user, self.scheme.owner))
        self.ctx.probe('wrong')
        self.note('wrong', None, d)
        self.wronged = True

    def extraction(self):
        """(check_extractable, is it refused: True, False or None for unspecified)"""
        s = self.scheme
        checked = not self.ch.bool(40)
        if not checked:
            self.ctx.probe('unchecked-extraction')
            return False, False
        if s.p & 16:
            self.ctx.probe('allowed-extraction')
            return True, False
        if self.pw == 'owner' and s.owner != s.user:
            return True, None
        return True, True

    def op_read(self, d):
        from pdfmajor.interpreter import PDFInterpreter
        from pdfmajor.execptions import PDFTextExtractionNotAllowed
        pw = self.right()
        checked, refused = self.extraction()
        kw = dict(caching=self.ch.bool(70), check_extractable=checked)
        self.ctx.log('read with password %r %s' % (pw, kw))
        try:
            it = sut.call('PDFInterpreter', PDFInterpreter, self.paths[0], password=pw, **kw)
            pages = sut.call('reading', lambda: [(observe.page_head(p), list(p)) for p in it], allow=(PDFTextExtractionNotAllowed,))
        except sut.Expected as e:
            check(refused is not False, 'extraction', '%s although extraction is allowed or not checked (P=%d)', core.describe_exc(e.exc), self.scheme.p)
            self.ctx.probe('refused-extraction')
            return self.note('refused', None, d)
        check(refused is not True, 'extraction', 'the document forbids extraction (P=%d), and is read', self.scheme.p)
        got = [(h, [(observe.meaning(i), observe.detail(i)) for i in its]) for h, its in pages]
        if 'read' not in self.twin:
            self.twin['read'] = [(observe.page_head(p), [(observe.meaning(i), observe.detail(i)) for i in p]) for p in PDFInterpreter(self.paths[1])]
        check([[m for m, _ in its] for _, its in got] == [list(p.items) for p in self.doc.pages], 'items', 'pages hold %s, the document says %s',
              sut.short([[m for m, _ in its] for _, its in got]), sut.short([list(p.items) for p in self.doc.pages]))
        check(got == self.twin['read'], 'twin', 'reads as %s, unencrypted as %s', sut.short(got), sut.short(self.twin['read']))
        self.ctx.probe('read')
        self.note('read', None, d)

    def op_convert(self, d):
        from pdfmajor import converters
        from pdfmajor.execptions import PDFTextExtractionNotAllowed
        convert_file = converters.convert_file
        fmt = self.ch.choice(['text', 'json', 'xml', 'html', 'yaml'])
        pw = self.right()
        checked, refused = self.extraction()
        out = self.fs.path('e.' + fmt)
        self.ctx.log('convert to %s with password %r' % (fmt, pw))
        try:
            kw = dict(password=pw, check_extractable=checked, caching=self.ch.bool(70))
            if not pw and self.ch.bool():
                del kw['password']
                self.ctx.probe('password-left-out')
            if self.ch.bool():
                sut.call('converting', convert_file, self.paths[0], out, out_type=fmt, allow=(PDFTextExtractionNotAllowed,), **kw)
            else:
                self.ctx.probe('convert-directly')
                sut.call('convert_to_%s' % fmt, getattr(converters, 'convert_to_' + fmt), self.paths[0], out, allow=(PDFTextExtractionNotAllowed,), **kw)
        except sut.Expected as e:
            check(refused is not False, 'extraction', '%s although extraction is allowed or not checked (P=%d)', core.describe_exc(e.exc), self.scheme.p)
            self.ctx.probe('refused-extraction')
            return self.note('refused', None, d)
        check(refused is not True, 'extraction', 'the document forbids extraction (P=%d), and is converted', self.scheme.p)
        got = mask(self.fs.get('e.' + fmt))
        if fmt not in self.twin:
            convert_file(self.paths[1], self.fs.path('p.' + fmt), out_type=fmt)
            self.twin[fmt] = mask(self.fs.get('p.' + fmt))
        check(got == self.twin[fmt], 'twin', 'converts to %s, unencrypted to %s', sut.short(got), sut.short(self.twin[fmt]))
        self.ctx.probe('convert')
        self.note('convert', None, d)

    def op_failing(self, d):
        """an interrupted attempt, then again"""
        from pdfmajor.interpreter import PDFInterpreter
        pw = self.right()
        f = simfs.Fault(self.ch.choice(['open-EACCES', 'read-EIO']), self.ch.draw(3))
        if f.kind.startswith('open'):
            f.at = 0
        self.fs.arm(f)
        try:
            sut.call('reading with %s' % f, lambda: list(PDFInterpreter(self.paths[0], password=pw, check_extractable=False)), allow=(OSError,))
        except sut.Expected:
            check(self.fs.fired, 'exception:OSError', 'OSError although nothing failed')
            self.ctx.probe('failing-read')
        else:
            check(not self.fs.fired, 'swallowed', 'no error although %s', f)
        self.fs.disarm()
        self.note('failing', None, d)


def run(ch, ctx):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    o = pdfgen.Opts(apart=12, outlines=35, dests=35, misc=(1, 7), ops=(0, 2), pages=(1, 3), images=(0, 1), forms=(0, 1), sparse=25)
    docs = [pdfgen.gen_doc(ch, o)]
    first = docs[0]
    if first.probes.get('high-numbers'):
        ctx.probe('high-numbers')
    if ch.bool(40):
        m = first.add(pdfgen.Stream(b'<x:xmpmeta xmlns:x="adobe:ns:meta/">%d</x:xmpmeta>' % ch.draw(100), {'Type': Name('Metadata'), 'Subtype': Name('XML'), 'Note': b'(a)'}))
        cat = dict(first.objs[first.root])
        cat['Metadata'] = pdfgen.Ref(m)
        first.set(first.root, cat)
        meta = m
    else:
        meta = None
    if ch.bool(30):
        for n in ch.sample(sorted(first.objs), ch.int(1, 4)):
            first.gens[n] = ch.choice([1, 2, 300])
            ctx.probe('generation')
    while len(docs) < 3 and ch.bool(35):
        docs.append(pdfgen.evolve(ch, docs[-1]))
        ctx.probe('revisions')
    scheme = crypt.gen_scheme(ch)
    s = pdfsave.Saver(ch, crypt=scheme)
    for d in docs:
        s.save(d)
    saved = s.finish()
    saved.next_num = s.next
    plain = pdfsave.save_doc(ch.sub('twin'), docs)
    ctx.probe(scheme.kind)
    ctx.log('%s, %d bit, user %r owner %r P=%r, metadata %s' % (scheme.kind, scheme.length, scheme.user, scheme.owner, scheme.encrypt_dict['P'], scheme.encrypt_metadata))
    ctx.probe('encrypt-indirect' if scheme.encrypt_indirect else 'encrypt-direct')
    if scheme.encrypt_dict['P'] > 0:
        ctx.probe('unsigned-permissions')
    if 40 < scheme.length < 128:
        ctx.probe('long-key')
    if meta and meta in docs[-1].objs and scheme.kind[:2] in ('v4', 'v5'):
        ctx.probe('metadata-encrypted' if scheme.encrypt_metadata else 'metadata-plain')
    with simfs.FS(ch.sub('fs'), ctx) as fs:
        paths = [fs.put('enc.pdf', saved.data), fs.put('plain.pdf', plain.data)]
        r = Run(ch.sub('ops'), ctx, docs, saved, scheme, fs, paths)
        ch = r.ch
        r.no_tree = False
        r.wronged = False
        r.nums = sorted(docs[-1].objs)

        def open_doc(name):
            caching = not ch.bool(35)
            if not caching:
                ctx.probe('no-caching')
            mode = ch.choice(['full', 'full', 'half', 'random'])
            pw = r.right()
            fallback = not ch.bool(40)
            inp = sut.SimInput(saved.data, ch, ctx, mode)
            ctx.log('%s: open with %r, caching=%s reads=%s fallback=%s' % (name, pw, caching, mode, fallback))
            p = sut.call('PDFParser', PDFParser, inp)
            d = sut.call('PDFDocument with the password %r' % pw, PDFDocument, p, pw, caching=caching, fallback=fallback)
            if r.pw == 'user':
                for what, bit in (('is_printable', 4), ('is_modifiable', 8), ('is_extractable', 16)):
                    check(bool(getattr(d, what)) == bool(scheme.p & bit), 'permission', '%s is %r, permissions are %d', what, getattr(d, what), scheme.p)
            if r.wronged:
                ctx.probe('again-after-wrong')
            return c05.Handle(name, d, caching)

        if ch.bool(30):
            r.op_wrong(None)
        hs = [open_doc('A')]
        ops = [r.op_get] * 5 + [r.op_follow] * 3 + [r.op_again] * 2 + [r.op_pages] * 3 + [r.op_outline, r.op_dest, r.op_head, r.op_missing]
        ops += [r.op_wrong, r.op_wrong, r.op_read, r.op_read, r.op_convert, r.op_failing]
        n = ch.int(4, 25)
        for _ in range(n):
            if len(hs) < 3 and ch.bool(7):
                hs.append(open_doc('ABC'[len(hs)]))
            ch.choice(ops)(ch.choice(hs))
        if meta and meta in docs[-1].objs and ch.bool(60):
            r.op_get(hs[0], meta)
        if ch.bool(30):
            for num in (ch.shuffle(r.nums) if len(r.nums) < 80 else r.nums[:80]):
                r.op_get(hs[0], num)
        if ctx.faults.get('short-read'):
            ctx.probe('short-read')
        ctx.nontrivial = n >= 5 and scheme.method is not None
        check(not fs.open_handles(), 'handles', 'files left open: %s', fs.open_handles())
