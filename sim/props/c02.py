"""C02: what a page shows does not depend on how its content is cut up."""
import io

from sim import core, pdfgen, pdfsave, sut, observe
from sim.syntax import Name, Ref
from sim.pdfgen import Stream
from sim.sut import check

ID = 'C02'
RUNS_QUICK = 8000
RUNS_THOROUGH = 250000
RULE = ('one run = one generated page (text in several font kinds, paths, colours, inline and XObject images, nested forms); its '
        'operator sequence is written as one canonical stream and as 1-3 variants whose spelling, stream boundaries (any token '
        'boundary, empty parts, repeated parts), filters and read block size the seed decides; all variants must give the same '
        'items as the canonical one, and those the model predicts; non-trivial = a variant has at least 2 parts or a block edge '
        'inside a token, and the page has items')
STATE_MEASURE = 'distinct (token before the boundary, token behind it, white space kept at the boundary)'
REAL = ['pdfmajor.parser (whole)', 'pdfmajor.interpreter (whole)']
STUB = ['input file object (in memory)']
ASSUMPTIONS = ['a boundary falls between two tokens, never inside inline image data', 'EI is followed by white space or the end of its stream']
PROBES = ['chain', 'cut-tight', 'cut-spaced', 'empty-part', 'repeated-part', 'tiny-block', 'inline-image', 'form', 'cut-after-number', 'cut-after-inline', 'cut-before-inline', 'many-parts', 'no-content']


def read_page(ctx, data, what, block=None):
    from pdfmajor.parser.PDFPage import PDFPage
    from pdfmajor.interpreter.PageInterpreter import PageInterpreter
    from pdfmajor.parser.PSStackParser import PSBaseParser
    old = getattr(PSBaseParser, 'BUFSIZ', None)
    pages = sut.call('%s: get_pages' % what, lambda: list(PDFPage.get_pages(io.BytesIO(data))))
    check(len(pages) == 1, 'pages', '%s: %d pages', what, len(pages))
    if block and old is not None:
        PSBaseParser.BUFSIZ = block
    try:
        pi = sut.call('%s: PageInterpreter' % what, PageInterpreter, pages[0], 0, {})
        items = sut.call('%s: interpreting the page' % what, list, pi)
        ctx.steps += len(items) + 1
        return (sut.call('%s: items' % what, lambda: [observe.detail(i) for i in items]),
                sut.call('%s: items' % what, lambda: [observe.meaning(i) for i in items]))
    finally:
        if old is not None:
            PSBaseParser.BUFSIZ = old


def with_content(ch, doc, parts, style):
    """the document with the page content stored in these parts"""
    d = doc.clone()
    p = d.pages[0]
    page = dict(d.objs[p.num])
    page.pop('Contents', None)
    nums = []
    for s in parts:
        nums.append(s if isinstance(s, int) else d.add(s))
        if isinstance(s, int):
            nums[-1] = nums[s]
    if nums:
        if len(nums) == 1 and ch.bool(60):
            page['Contents'] = Ref(nums[0])
        else:
            arr = [Ref(n) for n in nums]
            page['Contents'] = Ref(d.add(arr)) if ch.bool(20) else arr
    d.set(p.num, page)
    d.changed = set(d.objs)
    return pdfsave.save_doc(ch, [d], style).data


def run(ch, ctx):
    o = pdfgen.Opts(apart=8, chain=5, pages=(1, 1), ops=(1, 7), forms=(0, 3), images=(0, 2), misc=(0, 0), tree=False, empty_pages=4)
    doc = pdfgen.gen_doc(ch, o)
    p = doc.pages[0]
    toks = p.toks
    for k in doc.probes:
        ctx.probe(k) if k in PROBES else None
    plain = pdfsave.Style(plain=True, kinds=('table',))
    twice = ch.bool(12)
    one, _ = pdfgen.write_content(ch, toks, plain=True)
    base = doc.clone()
    for n, v in list(base.objs.items()):
        if getattr(v, 'is_form', False):
            data, _ = pdfgen.write_content(ch, v.toks, plain=True)
            base.objs[n] = Stream(data, {k: x for k, x in v.attrs.items() if k != '_listfilter'})
    whole = one + b'\n' + one if twice else one
    ref, mean = read_page(ctx, with_content(ch, base, [Stream(whole)], plain), 'canonical')
    want = list(p.items) * (2 if twice else 1)
    observe.diff_items(mean, want, 'canonical page')
    ctx.log('page: %d tokens, %d items' % (len(toks), len(ref)))
    for m in want:
        ctx.digest(m)
    for v in range(ch.int(1, 3)):
        d = doc.clone()
        for n, x in list(d.objs.items()):
            if getattr(x, 'is_form', False):
                data, _ = pdfgen.write_content(ch, x.toks)
                d.objs[n] = pdfgen.gen_stream(ch, data, {k: y for k, y in x.attrs.items() if k != '_listfilter'})
        data, cuts = pdfgen.write_content(ch, toks)
        nc = ch.weighted([(2, 0), (4, 1), (3, 2), (2, 4), (1, 40)])
        at = sorted(set(ch.sample(cuts, min(nc, len(cuts)))))
        pieces = [data[a:b] for a, b in zip([0] + at, at + [len(data)])]
        if len(pieces) > 8:
            ctx.probe('many-parts')
        for a in at:
            tight = not (data[:a][-1:].isspace() or data[a:a + 1].isspace())
            ctx.probe('cut-tight' if tight else 'cut-spaced')
        parts = []
        for i, x in enumerate(pieces):
            parts.append(pdfgen.gen_stream(ch, x, None, 40))
            if ch.bool(10):
                parts.append(Stream(ch.choice([b'', b' ', b'\n'])))
                ctx.probe('empty-part')
        note_states(ctx, toks, data, at)
        if twice:
            # the same streams listed twice
            parts += list(range(len(parts)))
            ctx.probe('repeated-part')
        elif not data.strip() and ch.bool():
            parts = []
            ctx.probe('no-content')
        block = ch.choice([None, None, 1, 2, 3, 5, 16, 63, 500])
        if block:
            ctx.fault('tiny-block-size')
            ctx.probe('tiny-block')
        ctx.fault('stream-boundary', len(at))
        style = pdfsave.Style(kinds=('table', 'stream')) if ch.bool(30) else plain
        ctx.log('variant %d: parts cut at %s, %d streams, block size %s' % (v, at, len(parts), block))
        got, mean = read_page(ctx, with_content(ch, d, parts, style), 'variant %d' % v, block)
        observe.diff_items(mean, want, 'variant %d' % v)
        observe.diff_items(got, ref, 'variant %d' % v, 'detail')
        if (at or block) and ref:
            ctx.nontrivial = True


def note_states(ctx, toks, data, at):
    if not at:
        return
    for a in at:
        left, right = data[:a].rstrip()[-1:], data[a:].lstrip()[:1]
        gap = data[:a][-1:].isspace(), data[a:a + 1].isspace()
        ctx.state((left, right, gap))
        if left.isdigit():
            ctx.probe('cut-after-number')
        if data[:a].rstrip().endswith(b'EI'):
            ctx.probe('cut-after-inline')
        if data[a:].lstrip().startswith(b'BI'):
            ctx.probe('cut-before-inline')
