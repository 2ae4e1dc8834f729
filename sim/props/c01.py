"""C01: what the object reader yields, and where, does not depend on delivery."""
import errno

from sim import core, sut, syntax
from sim.syntax import Kw

ID = 'C01'
RUNS_QUICK = 14000
RUNS_THOROUGH = 400000
RULE = ('one run = one generated token/object text (random legal spellings, comments, white space, padding that puts '
        'tokens on block edges) read through a simulated input whose every read size and transient failure the seed '
        'decides, under a random schedule of next/seek/readline/tell operations; non-trivial = at least 3 tokens and '
        'at least one read ended inside a token, was short, failed, or a seek abandoned a half-read token')
STATE_MEASURE = 'distinct (kind of token, byte offset inside its spelling where a read ended or failed)'
REAL = ['pdfmajor.parser.PSStackParser (tokenizer, stack parser)', 'pdfmajor.parser.PDFParser']
STUB = ['input file object (simulated: short reads, transient errors)']
ASSUMPTIONS = ['reads return at least one byte before end of input', 'a failed read consumes nothing']
PROBES = ['mode-tokens', 'mode-objects', 'mode-lines', 'mode-revlines', 'no-trailing-delimiter', 'seek', 'retry-after-error', 'elsewhere-after-error',
          'cut-in-string', 'cut-in-hex', 'cut-in-number', 'cut-in-name', 'cut-in-keyword', 'cut-in-comment-or-space']


def kindof(m):
    if isinstance(m, Kw):
        return 'keyword'
    if isinstance(m, bytes):
        return 'string'
    if isinstance(m, syntax.Name):
        return 'name'
    if isinstance(m, bool):
        return 'keyword'
    return 'number'


def tokpic(m):
    return syntax.expect(m)


class NoteCuts(sut.SimInput):
    """records where read boundaries fall relative to the written tokens"""

    def note(self, spans, ctx):
        self.spans, self.ctx2 = spans, ctx

    def read(self, n=-1):
        try:
            out = sut.SimInput.read(self, n)
        finally:
            p = self.pos
            if 0 < p < len(self.data):
                import bisect
                i = bisect.bisect_right(self.spans[0], p) - 1
                if i >= 0 and self.spans[0][i] < p < self.spans[1][i]:
                    k = self.spans[2][i]
                    self.ctx2.probe('cut-in-' + k)
                    self.ctx2.state((k, min(p - self.spans[0][i], 40)))
                    self.ctx2.nontrivial = True
                else:
                    self.ctx2.probe('cut-in-comment-or-space')
        return out


def open_input(ch, ctx, data, starts, ends, faults=True, nread_hint=40, hexes=()):
    mode = ch.choice(['full', 'one', 'small', 'half', 'random', 'cuts'])
    cuts = []
    if mode == 'cuts':
        for _ in range(ch.int(1, 6)):
            i = ch.draw(max(1, len(starts)))
            if starts:
                a = starts[i][0]
                b = ends[i]
                cuts.append(a + ch.draw(max(1, b - a + 2)))
        cuts.sort()
    fl = {}
    if faults and ch.bool(40):
        for _ in range(ch.int(1, 3)):
            fl[1 + ch.draw(nread_hint)] = ch.choice([errno.EIO, errno.ETIMEDOUT, errno.EAGAIN])
    inp = NoteCuts(data, ch, ctx, mode, cuts, fl)
    inp.note(([s for s, _ in starts], ends,
              [('hex' if p in hexes else kindof(m)) for p, m in starts]), ctx)
    ctx.log('delivery %s cuts=%s failing reads=%s' % (mode, cuts, sorted(fl)))
    return inp


def knob(ch, ctx):
    """block size: a tuning knob the code exposes on the class"""
    from pdfmajor.parser.PSStackParser import PSBaseParser
    size = ch.choice([None, None, 1, 2, 3, 5, 7, 16, 64, 257])
    if size is not None and hasattr(PSBaseParser, 'BUFSIZ'):
        PSBaseParser.BUFSIZ = size
        ctx.log('block size %d' % size)
        ctx.fault('tiny-block-size')
    else:
        size = 4096
    return size


def pad(ch, w, size):
    """white space / comment filler so a later token sits near a block edge"""
    if ch.bool(50):
        target = ch.choice([4096, 8192]) - ch.int(0, 24)
        n = target - w.pos()
        if n > 0:
            if ch.bool():
                w.raw(b'%' + b'x' * (n - 2) + b'\n' if n >= 2 else b' ' * n)
            else:
                w.raw(b' ' * n)


class GaveUp(Exception):
    """a read failed, and the caller went elsewhere instead of trying again"""


def retrying(ctx, inp, what, fn, eof, tries=12, give_up=None, failed=None):
    """call fn; an injected read failure must surface as is, and retrying must work"""
    for _ in range(tries):
        before = inp.fired
        try:
            return fn()
        except OSError as e:
            if inp.fired == before:
                raise core.Violation('exception:OSError', '%s raised %s although no read failed' % (what, core.describe_exc(e)))
            ctx.nontrivial = True
            if failed is not None:
                failed()
            if give_up is not None and give_up.bool(40):
                ctx.probe('elsewhere-after-error')
                raise GaveUp
            ctx.probe('retry-after-error')
            continue
        except eof:
            if inp.fired != before:
                raise core.Violation('error-swallowed', '%s reported end of input although a read failed' % what)
            return None
        except core.Violation:
            raise
        except BaseException as e:
            raise core.Violation('exception:%s' % type(e).__name__, '%s raised %s' % (what, core.describe_exc(e)))
    raise core.Violation('no-progress', '%s kept failing after the read failures stopped' % what)


def stands(inp, p, lo, what, hi=None):
    """where the reader says it stands after a failed read"""
    t = sut.call('tell', p.tell)
    hi = inp.pos if hi is None else hi
    sut.check(lo <= t <= hi, 'wrong-position', 'after a failed %s tell() is %r, not within %d..%d', what, t, lo, hi)


def back(ch, ctx, p, starts, i, end):
    """go to another token after a failure, mostly one close by"""
    j = min(len(starts), max(0, i - ch.draw(4))) if ch.bool(70) else ch.draw(len(starts) + 1)
    at = starts[j] if j < len(starts) else end
    ctx.log('a read failed; seek to %d' % at)
    sut.call('seek', p.seek, at)
    sut.check(sut.call('tell', p.tell) == at, 'wrong-position', 'tell() after seek(%d) is %r', at, p.tell())
    return j


def run_tokens(ch, ctx):
    from pdfmajor.parser.PSStackParser import PSBaseParser
    from pdfmajor.execptions import PSEOF
    ctx.probe('mode-tokens')
    size = knob(ch, ctx)
    w = syntax.Writer(ch)
    n = ch.int(1, 14)
    for i in range(n):
        if i and ch.bool(15):
            pad(ch, w, size)
        if ch.bool(20):
            w.kw(ch.choice(syntax.KW_POOL))
        elif ch.bool(10):
            w.punct(ch.choice([b'{', b'}', b'[', b']', b'<<', b'>>']))
        else:
            w.value(syntax.gen_value(ch, depth=2))
    starts, ends = w.starts, w.ends
    if ch.bool(40):
        ctx.probe('no-trailing-delimiter')
    else:
        w.sep()
        w.raw(b'\n')
    data = bytes(w.out)
    ctx.log('text %s' % sut.short(data.lstrip(), 400))
    inp = open_input(ch, ctx, data, starts, ends, hexes=w.hex)
    ctx.nontrivial = False
    p = PSBaseParserOpen(ctx, inp, PSBaseParser)
    i = 0
    lo = 0          # the reader stands here, or behind
    ops = 0
    while ops < 4 * len(starts) + 8:
        ops += 1
        ctx.steps += 1
        if ops > 1 and ch.bool(12):
            i = ch.draw(len(starts) + 1)
            at = starts[i][0] if i < len(starts) else len(data)
            ctx.log('seek to token %d at %d' % (i, at))
            ctx.probe('seek')
            ctx.nontrivial = True
            sut.call('seek', p.seek, at)
            sut.check(sut.call('tell', p.tell) == at, 'wrong-position', 'tell() after seek(%d) is %r', at, p.tell())
            lo = at
        try:
            got = retrying(ctx, inp, 'nexttoken', p.nexttoken, PSEOF, give_up=ch, failed=lambda: stands(inp, p, lo, 'nexttoken'))
        except GaveUp:
            i = back(ch, ctx, p, [s for s, _ in starts], i, len(data))
            lo = starts[i][0] if i < len(starts) else len(data)
            continue
        if i >= len(starts):
            sut.check(got is None, 'extra-token', 'after the last token: %s', sut.short(got))
            if ch.bool(50):
                break
            continue
        at, m = starts[i]
        sut.check(got is not None, 'lost-token', 'token %d (%r at %d) reported as end of input', i, m, at)
        pos, tok = got
        sut.check(sut.plain(tok) == tokpic(m), 'wrong-token', 'token %d at %d: wrote %r, read %s', i, at, m, sut.short(tok))
        sut.check(pos == at, 'wrong-position', 'token %d (%r) written at %d, reported at %r', i, m, at, pos)
        sut.check(sut.literal_ok(tok), 'identity', 'token %d (%r) is not the interned object', i, m)
        # the reader now stands at or behind the end of the token, not past the next one
        t = p.tell()
        nxt = starts[i + 1][0] if i + 1 < len(starts) else len(data)
        sut.check(ends[i] <= t <= nxt, 'wrong-position', 'after token %d (bytes %d..%d) the reader stands at %d', i, at, ends[i], t)
        ctx.digest((pos, repr(tok)))
        lo = ends[i]
        i += 1
    if len(starts) < 3:
        ctx.nontrivial = False


def PSBaseParserOpen(ctx, inp, cls):
    for _ in range(8):
        before = inp.fired
        try:
            return cls(inp)
        except OSError:
            if inp.fired == before:
                raise
    return cls(inp)


def run_objects(ch, ctx):
    from pdfmajor.parser.PDFParser import PDFParser, PDFStreamParser
    from pdfmajor.execptions import PSEOF
    ctx.probe('mode-objects')
    size = knob(ch, ctx)
    w = syntax.Writer(ch)
    model = []
    n = ch.int(1, 10)
    for i in range(n):
        if i and ch.bool(15):
            pad(ch, w, size)
        if ch.bool(15):
            m = Kw(ch.choice([b'q', b'BT', b'Tj', b'f*', b"'", b'foo']))
        else:
            m = syntax.gen_value(ch, refs=[1, 2, 30])
            if isinstance(m, syntax.Ref):
                m = [m]
        model.append((w.value(m), m))
    if ch.bool(40):
        ctx.probe('no-trailing-delimiter')
    else:
        w.sep()
        w.raw(b' ')
    data = bytes(w.out)
    ctx.log('text %s' % sut.short(data.lstrip(), 400))
    inp = open_input(ch, ctx, data, w.starts, w.ends, hexes=w.hex)

    class P(PDFStreamParser):
        def __init__(self, fp):
            PDFParser.__init__(self, fp)

    p = PSBaseParserOpen(ctx, inp, P)
    i = 0
    ops = 0
    while ops < 3 * len(model) + 6:
        ops += 1
        ctx.steps += 1
        if ops > 1 and ch.bool(15):
            # abandon whatever nesting is half read
            if ch.bool(50):
                j = ch.draw(len(w.starts))
                sut.call('seek', p.seek, w.starts[j][0])
                retrying(ctx, inp, 'nexttoken', p.nexttoken, PSEOF)
                ctx.log('step one token into %d' % w.starts[j][0])
            i = ch.draw(len(model) + 1)
            at = model[i][0] if i < len(model) else len(data)
            ctx.log('seek to object %d at %d' % (i, at))
            ctx.probe('seek')
            ctx.nontrivial = True
            sut.call('seek', p.seek, at)
        try:
            got = retrying(ctx, inp, 'nextobject', p.nextobject, PSEOF, give_up=ch)
        except GaveUp:
            i = back(ch, ctx, p, [s for s, _ in model], i, len(data))
            continue
        if i >= len(model):
            sut.check(got is None, 'extra-object', 'after the last object: %s', sut.short(got))
            if ch.bool(50):
                break
            continue
        at, m = model[i]
        sut.check(got is not None, 'lost-object', 'object %d (%s at %d) reported as end of input', i, sut.short(m), at)
        pos, obj = got
        sut.check(sut.plain(obj) == syntax.expect(m), 'wrong-object', 'object %d at %d: wrote %s, read %s', i, at, sut.short(m, 300), sut.short(obj, 300))
        sut.check(pos == at, 'wrong-position', 'object %d (%s) written at %d, reported at %r', i, sut.short(m), at, pos)
        sut.check(sut.literal_ok(obj), 'identity', 'object %d holds a name that is not the interned one', i)
        ctx.digest((pos, sut.plain(obj)))
        i += 1
    if len(w.starts) < 3:
        ctx.nontrivial = False


LINE_PARTS = [b'', b'a', b'xref', b'0 3', b'startxref', b'%%EOF', b'0000000000 65535 f ', b'trailer', b'\x00\xff', b' ', b'longer line of text']


def gen_lines(ch):
    n = ch.int(1, 12)
    out = bytearray()
    for i in range(n):
        out += ch.choice(LINE_PARTS)
        if ch.bool(8):
            out += b'y' * ch.choice([4090, 4095, 4096, 8190])
        out += ch.choice([b'\n', b'\r\n', b'\r', b'\n\n', b'\r\r'])
    out += ch.choice([b'end', b'end of file', b'%%EOF'])
    return bytes(out)


def run_lines(ch, ctx):
    from pdfmajor.parser.PSStackParser import PSBaseParser
    from pdfmajor.execptions import PSEOF
    ctx.probe('mode-lines')
    knob(ch, ctx)
    data = gen_lines(ch)
    lines = []
    i = 0
    while i < len(data):
        j = i
        while j < len(data) and data[j] not in b'\r\n':
            j += 1
        if j >= len(data):
            break       # last line has no end-of-line marker: not asserted
        j += 2 if data[j:j + 2] == b'\r\n' else 1
        lines.append((i, data[i:j]))
        i = j
    starts = [(s, b'') for s, _ in lines]
    ends = [s + len(t) for s, t in lines]
    inp = open_input(ch, ctx, data, starts, ends)
    ctx.log('text %s' % sut.short(data, 300))
    p = PSBaseParserOpen(ctx, inp, PSBaseParser)
    k = 0
    for _ in range(2 * len(lines) + 2):
        ctx.steps += 1
        if ch.bool(15):
            k = ch.draw(len(lines))
            sut.call('seek', p.seek, lines[k][0])
            ctx.probe('seek')
        if k >= len(lines):
            break
        at = lines[k][0]
        try:
            got = retrying(ctx, inp, 'nextline', p.nextline, PSEOF, give_up=ch, failed=lambda: stands(inp, p, at, 'nextline', at))
        except GaveUp:
            k = min(len(lines) - 1, back(ch, ctx, p, [s for s, _ in lines], k, len(data)))
            sut.call('seek', p.seek, lines[k][0])
            continue
        sut.check(got is not None, 'lost-line', 'line %d at %d reported as end of input', k, at)
        pos, line = got
        sut.check((pos, bytes(line)) == lines[k], 'wrong-line', 'line %d: wrote %s, read %s', k, sut.short(lines[k]), sut.short((pos, line)))
        ctx.digest((pos, line))
        k += 1
        sut.check(p.tell() == ends[k - 1], 'wrong-position', 'after line %d tell() is %r, not %r', k - 1, p.tell(), ends[k - 1])


def run_revlines(ch, ctx):
    from pdfmajor.parser.PSStackParser import PSBaseParser
    from pdfmajor.execptions import PSEOF
    ctx.probe('mode-revlines')
    knob(ch, ctx)
    data = gen_lines(ch)
    if ch.bool(30):
        data += ch.choice([b'\n', b'\r\n', b'\n\n'])
    # model: pieces that each start at an end-of-line byte, last first
    cuts = [i for i, b in enumerate(data) if b in b'\r\n']
    want = [data[a:b] for a, b in zip(cuts, cuts[1:] + [len(data)])][::-1]
    inp = open_input(ch, ctx, data, [(c, b'') for c in cuts], [c + 1 for c in cuts])
    ctx.log('text %s' % sut.short(data, 300))
    p = PSBaseParserOpen(ctx, inp, PSBaseParser)
    got = retrying(ctx, inp, 'revreadlines', lambda: list(p.revreadlines()), PSEOF)
    sut.check(got is not None, 'lost-line', 'revreadlines reported the end of input')
    got = [bytes(x) for x in got]
    # joined, the lines must be the tail of the text in order; each break is at an EOL byte
    sut.check(got[:len(want)] == want, 'wrong-line', 'lines from the end: wrote %s, read %s', sut.short(want, 300), sut.short(got, 300))
    ctx.nontrivial = len(want) >= 3
    ctx.digest(got)


def run(ch, ctx):
    k = ch.draw(10)
    if k < 4:
        run_tokens(ch, ctx)
    elif k < 8:
        run_objects(ch, ctx)
    elif k == 8:
        run_lines(ch, ctx)
    else:
        run_revlines(ch, ctx)
