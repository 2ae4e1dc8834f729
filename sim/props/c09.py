"""C09: a conversion either writes the whole document or fails."""
import errno
import json
import os
import re
from xml.etree import ElementTree

import yaml

from sim import core, pdfgen, pdfsave, sut, observe, fs as simfs
from sim.props.c13 import parse_html, no_illegal
from sim.sut import check

ID = 'C09'
RUNS_QUICK = 4200
RUNS_THOROUGH = 150000
RULE = ('one run = one generated document converted to a drawn format with drawn options on the simulated file system: undisturbed '
        '(output parsed and compared entry by entry with the interpreted and the model document), then with drawn failures of the '
        'input or the output, a full disk, short or interrupted reads and writes, then once more undisturbed; non-trivial = the '
        'document has at least two entries and at least one failure was injected')
STATE_MEASURE = 'distinct (format, codec, entry kinds of the document, injected failure and when)'
REAL = ['pdfmajor.converters', 'pdfmajor.interpreter', 'pdfmajor.parser', 'Python buffered I/O layers']
STUB = ['raw file layer (simulated read, write, open and close failures, short and interrupted transfers)']
ASSUMPTIONS = ['codecs without a byte-order mark', 'characters XML cannot hold read as U+FFFD',
               'the page number shown is the position among the converted pages']
PROBES = ['chain', 'text', 'json', 'xml', 'html', 'yaml', 'yml', 'item-text', 'item-curve', 'item-image', 'item-xobject', 'empty-page', 'input-fault', 'open-out-fault', 'write-fault',
          'close-fault', 'disk-full', 'short-transfers', 'codec', 'unencodable', 'maxpages', 'pagenos', 'odd-name', 'odd-font', 'pattern', 'default-name', 'refused-type', 'refused-self', 'no-caching',
          'overwrites-longer', 'large-output', 'nested-xobject', 'control-characters', 'empty-text', 'bad-characters', 'command-line', 'unknown-type']

N_FAULTS = (1, 4)


def num(v):
    return v


def color_of(c, joined=False):
    if c is None or c.color_space is None:
        return None
    vals = [v.name if hasattr(v, 'name') else str(v) for v in c.values]
    return (c.color_space.name, vals)


def box(i):
    return dict(x0=i.x0, x1=i.x1, y0=i.y0, y1=i.y1)


def picture(item):
    """everything the formats may tell of an interpreted item"""
    from pdfmajor.interpreter import LTRect, LTLine
    k = observe.kind(item)
    d = dict(kind=k, box=box(item), width=item.width, height=item.height)
    if k == 'text':
        d['blocks'] = [dict(box=box(b), size=b.size, color=color_of(b.color), css=css_color(b.color), fontname=b.fontname,
                            chars=[(c.get_text(), box(c)) for c in b]) for b in item]
    elif k == 'curve':
        d['shape'] = 'rect' if isinstance(item, LTRect) else 'line' if isinstance(item, LTLine) else 'curve'
        d['fill'], d['stroke'] = color_of(item.fill), color_of(item.stroke)
        d['css'] = css_color(item.fill), css_color(item.stroke)
        d['paths'] = [(p.method.name, p.method.value, [(q.x, q.y) for q in p.points]) for p in item.paths]
    elif k == 'image':
        d['name'] = item.name
    elif k == 'xobject':
        d['kids'] = [picture(c) for c in item]
    return d


def css_color(c):
    """how HTML says a color, where that is plain"""
    if c is None or c.color_space is None:
        return None
    n = c.color_space.name
    if n == 'DeviceGray':
        return 'rgba(0,0,0,%s)' % (1 - float(c.values[0]))
    if n in ('DeviceRGB', 'DeviceCMYK'):
        return '%s(%s)' % (n[6:].lower(), ','.join(str(v) for v in c.values))
    return '?'


def eq(what, got, want):
    check(got == want, 'entry', '%s is %s, interpreted %s', what, sut.short(got), sut.short(want))


# ------------------------------------------------------------ JSON and YAML
def check_tree(got, pages, fmt):
    T = (lambda v: v) if fmt == 'json' else ytext
    check(isinstance(got, dict) and list(got) == ['pages'], 'structure', 'the document is %s', sut.short(got))
    eq('number of pages', len(got['pages'] or []), len(pages))
    for g, p in zip(got['pages'] or [], pages):
        w = 'page %d' % p['num']
        for k, v in (('id', p['num']), ('width', p['width']), ('height', p['height'])):
            eq('%s: %s' % (w, k), g.get(k), v)
        check_kids(g.get('children'), p['items'], w, fmt)


def ytext(v):
    return v


def check_kids(got, want, w, fmt):
    check(isinstance(got, list), 'structure', '%s: children are %s', w, sut.short(got))
    eq('%s: number of entries' % w, len(got), len(want))
    for i, (g, x) in enumerate(zip(got, want)):
        check_entry(g, x, '%s entry %d' % (w, i), fmt)


TYPES = {'text': 'text-block', 'image': 'img', 'xobject': 'xobject'}


def check_entry(g, x, w, fmt):
    check(isinstance(g, dict), 'structure', '%s is %s', w, sut.short(g))
    eq(w + ': type', g.get('type'), TYPES.get(x['kind'], x.get('shape')))
    eq(w + ': box', {k: g.get(k) for k in x['box']}, x['box'])
    if x['kind'] == 'image' and x['name'] is not None:
        eq(w + ': name', g.get('src'), x['name'])
    if x['kind'] == 'xobject':
        check_kids(g.get('children'), x['kids'], w, fmt)
    elif x['kind'] == 'text':
        cb = g.get('char_blocks')
        check(isinstance(cb, list), 'structure', '%s: blocks are %s', w, sut.short(cb))
        eq(w + ': number of blocks', len(cb), len(x['blocks']))
        for b, y in zip(cb, x['blocks']):
            eq(w + ': block box', {k: b.get(k) for k in y['box']}, y['box'])
            eq(w + ': text', b.get('text'), ''.join(c for c, _ in y['chars']))
            eq(w + ': size', b.get('size'), y['size'])
            check_color(b.get('color'), y['color'], w + ': color')
    elif x['kind'] == 'curve':
        check_color(g.get('fill'), x['fill'], w + ': fill')
        check_color(g.get('stroke'), x['stroke'], w + ': stroke')
        if x['shape'] == 'curve':
            ps = g.get('paths')
            check(isinstance(ps, list), 'structure', '%s: paths are %s', w, sut.short(ps))
            eq(w + ': paths', [(p.get('type'), [(q['x'], q['y']) for q in p.get('points') or []]) for p in ps],
               [(n, pts) for n, _, pts in x['paths']])


def check_color(got, want, w):
    if want is None:
        return eq(w, got, None)
    check(isinstance(got, dict), 'entry', '%s is %s, interpreted %s', w, sut.short(got), want)
    eq(w, (got.get('type'), [str(v) for v in got.get('value')]), want)


# ---------------------------------------------------------------------- XML
def check_xml(root, pages):
    eq('root', root.tag, 'pages')
    eq('number of pages', len(root), len(pages))
    for e, p in zip(root, pages):
        w = 'page %d' % p['num']
        eq(w, (e.tag, e.get('id'), e.get('width'), e.get('height')), ('page', str(p['num']), str(p['width']), str(p['height'])))
        xml_kids(e, p['items'], w)


def xml_kids(e, want, w):
    eq(w + ': number of entries', len(e), len(want))
    for i, (g, x) in enumerate(zip(e, want)):
        xml_entry(g, x, '%s entry %d' % (w, i))


def xml_box(e, b, w):
    eq(w + ': box', {k: e.get(k) for k in b}, {k: str(v) for k, v in b.items()})


def xml_color(e, prefix, want, w):
    eq('%s: %s' % (w, prefix), (e.get(prefix + '-type'), e.get(prefix + '-values')),
       (None, None) if want is None else (no_illegal(want[0]), no_illegal(','.join(want[1]))))


def xml_entry(e, x, w):
    eq(w + ': element', e.tag, TYPES.get(x['kind'], x.get('shape')))
    xml_box(e, x['box'], w)
    if x['kind'] == 'image' and x['name'] is not None:
        eq(w + ': name', e.get('src'), no_illegal(x['name']))
    if x['kind'] == 'xobject':
        xml_kids(e, x['kids'], w)
    elif x['kind'] == 'text':
        eq(w + ': blocks', [b.tag for b in e], ['char-block'] * len(x['blocks']))
        for b, y in zip(e, x['blocks']):
            xml_box(b, y['box'], w)
            eq(w + ': size', b.get('size'), str(y['size']))
            xml_color(b, 'color', y['color'], w)
            eq(w + ': text', [(c.tag, c.text or '') for c in b], [('char', no_illegal(t)) for t, _ in y['chars']])
            for c, (t, bb) in zip(b, y['chars']):
                xml_box(c, bb, w)
    elif x['kind'] == 'curve':
        xml_color(e, 'fill', x['fill'], w)
        xml_color(e, 'stroke', x['stroke'], w)
        if x['shape'] == 'curve':
            eq(w + ': paths', [(p.tag, p.get('type'), [(q.get('x'), q.get('y')) for q in p]) for p in e],
               [('path', n, [(str(a), str(b)) for a, b in pts]) for n, _, pts in x['paths']])


# --------------------------------------------------------------------- HTML
def check_html(root, pages):
    tags = [k['tag'] for k in root['kids']]
    eq('root', tags, ['html'])
    html = root['kids'][0]
    eq('html', [k['tag'] for k in html['kids']], ['head', 'body'])
    body = html['kids'][1]
    eq('number of pages', len(body['kids']), len(pages))
    for e, p in zip(body['kids'], pages):
        w = 'page %d' % p['num']
        eq(w, (e['tag'], e['attrs'].get('class'), e['attrs'].get('id')), ('div', 'page', 'page-%d' % p['num']))
        eq(w + ': style', style(e), {'width': '%spx' % p['width'], 'height': '%spx' % p['height']})
        html_kids(e, p['items'], w)


def style(e):
    return dict(tuple(s.strip() for s in part.split(':', 1)) for part in (e['attrs'].get('style') or '').split(';') if ':' in part)


HTML = {'text': ('span', 'text-block'), 'xobject': ('div', 'xobject'), 'curve': ('svg', 'curve'), 'image': ('img', None)}


def html_kids(e, want, w):
    eq(w + ': number of entries', len(e['kids']), len(want))
    for i, (g, x) in enumerate(zip(e['kids'], want)):
        wi = '%s entry %d' % (w, i)
        eq(wi, (g['tag'], g['attrs'].get('class')), HTML[x['kind']])
        if x['kind'] == 'xobject':
            html_kids(g, x['kids'], wi)
        elif x['kind'] == 'image':
            eq(wi + ': size', (g['attrs'].get('width'), g['attrs'].get('height')), ('%spx' % x['width'], '%spx' % x['height']))
            if x['name'] is not None:
                eq(wi + ': name', g['attrs'].get('src'), x['name'])
        elif x['kind'] == 'curve':
            eq(wi + ': path', [k['tag'] for k in g['kids']], ['path'])
            d = g['kids'][0]['attrs'].get('d') or ''
            letters = re.findall('[A-Za-z](?![A-Za-z]*nf|an)', d)
            eq(wi + ': path', letters, [LETTER[m[1]] for m in x['paths']])
            numbers = re.split('[A-Za-z](?![A-Za-z]*nf|an)', d)[1:]
            eq(wi + ': numbers of the path', [len(s.split()) for s in numbers], [{'m': 2, 'l': 2, 'h': 0}.get(m[1], 6) for m in x['paths']])
            st = style(g['kids'][0])
            for k, v in zip(('fill', 'stroke'), x['css']):
                if v != '?':
                    eq('%s: %s' % (wi, k), (st.get(k), g['kids'][0]['attrs'].get(k)), (v, v))
            st = style(g)
            eq(wi + ': place', (st.get('left'), st.get('width'), st.get('height')), ('%spx' % x['box']['x0'], '%spx' % x['width'], '%spx' % x['height']))
        else:
            eq(wi + ': blocks', [(b['tag'], b['attrs'].get('class')) for b in g['kids']], [('span', 'char-block')] * len(x['blocks']))
            for b, y in zip(g['kids'], x['blocks']):
                st = style(b)
                eq(wi + ': place', (st.get('left'), st.get('bottom'), st.get('font-size')), (str(y['box']['x0']), str(y['box']['y0']), '%spx' % y['size']))
                if y['css'] != '?':
                    eq(wi + ': color', st.get('color'), y['css'] or 'black')
                if isinstance(y['fontname'], str) and ';' not in y['fontname']:
                    eq(wi + ': font', st.get('font-family'), y['fontname'].strip())
                got = []
                for c in b['kids']:
                    eq(wi + ': character', (c['tag'], c['attrs'].get('class')), ('span', 'char'))
                    got.append(''.join(c['texts']).strip(' \t\r\n'))
                eq(wi + ': text', got, [html_text(t) for t, _ in y['chars']])


LETTER = {'m': 'M', 'l': 'L', 'h': 'Z', 'c': 'C', 'v': 'C', 'y': 'C'}


def html_text(t):
    # the writer indents characters; white space around them is not significant
    return t.replace('\r\n', '\n').strip(' \t\r\n')


# --------------------------------------------------------------------- text
def check_text(s, pages):
    want = ''
    for p in pages:
        want += '========== [ page %d ] ==========\n' % p['num']
        want += plain_text(p['items']) + '\n'
    eq('text', s, want)


def plain_text(items):
    out = ''
    for x in items:
        if x['kind'] == 'text':
            out += ''.join(t for b in x['blocks'] for t, _ in b['chars'])
        elif x['kind'] == 'xobject':
            out += plain_text(x['kids'])
    return out


def kinds_of(items):
    s = set()
    for x in items:
        s.add(x['kind'])
        if x['kind'] == 'xobject':
            k = kinds_of(x['kids'])
            s |= k
            if 'xobject' in k:
                s.add('nested')
    return s


def run(ch, ctx):
    from pdfmajor.converters import convert_file
    from pdfmajor.interpreter import PDFInterpreter
    from pdfmajor.execptions import ConverterException
    fmt = ch.choice(['text', 'json', 'xml', 'html', 'yaml'])
    ext = 'yml' if fmt == 'yaml' and ch.bool(20) else fmt
    big = ch.bool(12)
    o = pdfgen.Opts(forms=(0, 3), image_ops=ch.choice([8, 8, 45]), chain=15, ctrl=ch.bool(30), odd_names=20, odd_fonts=20, bad=ch.weighted([(5, 0), (1, 15)]), ops=(4, 14) if big else (0, 5), pages=(2, 6) if big else (1, 3))
    doc = pdfgen.gen_doc(ch, o)
    docs = [doc]
    if ch.bool(15):
        docs.append(pdfgen.evolve(ch, doc))
    s = pdfsave.Saver(ch)
    for d in docs:
        s.save(d)
    saved = s.finish()
    doc = docs[-1]
    codec = 'utf-8'
    if ch.bool(20):
        codec = ch.choice(['latin-1', 'ascii', 'cp1252', 'utf-16-le', 'gb18030'])
        ctx.probe('codec')
    kw = dict(caching=not ch.bool(30), codec=codec, password='')
    if not kw['caching']:
        ctx.probe('no-caching')
    if ch.bool(15):
        kw['maxpages'] = ch.int(1, 3)
        ctx.probe('maxpages')
    elif ch.bool(15):
        k = len(doc.pages)
        kw['pagenos'] = ch.sample(list(range(k)), ch.int(1, k)) + ch.choice([[], [k], [k + 5]])
        ctx.probe('pagenos')
    if ch.bool(20):
        kw['ignore_bad_chars'] = True
    if ch.bool(10):
        kw['check_extractable'] = False
    if ch.bool(5):
        kw['dont_export_images'] = ch.bool()
    if ch.bool(20):
        kw['password'] = ch.choice(['x', 'secret'])      # the document has none: any will do
    ctx.probe(ext)
    ctx.log('%s %r' % (ext, kw))
    with simfs.FS(ch, ctx) as fs:
        fs.buffer = ch.choice([None, None, 512, 64])
        fs.read_unit = ch.choice([8192, 512, 64])
        for k in ('empty-text', 'empty-string'):
            if doc.probes.get(k):
                ctx.probe('empty-text')
        for k in ('odd-name', 'odd-font', 'pattern', 'chain'):
            if doc.probes.get(k):
                ctx.probe(k)
        default = ch.bool(20)
        src = ch.choice(['in.pdf', 'a.b.pdf', 'in.bin.pdf'])
        name = re.sub(r'\.\w+$', '.' + ext, src) if default else ch.choice(['out.', 'o.x.', 'in.pdf.']) + ext
        path = fs.put(src, saved.data)
        out = fs.path(name)
        if default:
            ctx.probe('default-name')
        if ch.bool(20):
            fs.put(name, b'an older and longer file\n' * 4000)
            ctx.probe('overwrites-longer')

        main = command_line() if ch.bool(15) and not (kw.get('ignore_bad_chars') or 'check_extractable' in kw) else None
        if main:
            ctx.probe('command-line')
            line = [path, '-t', ext] + ([] if default else ['-o', out])
            if codec != 'utf-8' or ch.bool():
                line += ['-c', codec]
            if 'maxpages' in kw:
                line += ['-m', str(kw['maxpages'])]
            if 'pagenos' in kw:
                line += ['--pagenos', ','.join(str(i + 1) for i in kw['pagenos'])]
            if kw['password']:
                line += ['--password', kw['password']]
            if not kw['caching']:
                line.append('-C')

        def convert():
            if main:
                rc = main(list(line))
                return check(rc == 0, 'status', 'pdfconvert %r answers %r', line, rc)
            convert_file(path, None if default else out, out_type=ext, **kw)

        # what there is to be written
        wanted = doc.pages[:kw.get('maxpages')]
        if 'pagenos' in kw:
            wanted = [p for i, p in enumerate(wanted) if i in kw['pagenos']]
        model = [tuple(m.items) for m in wanted]
        if [pdfgen.without_bad(m) for m in model] != model:
            ctx.probe('bad-characters')
            if not kw.get('ignore_bad_chars'):
                # a character nobody can name: the conversion fails, and says so
                from pdfmajor.execptions import UnicodeNotDefined
                try:
                    sut.call('converting', convert, allow=(UnicodeNotDefined, UnicodeEncodeError))
                except sut.Expected:
                    pass
                else:
                    raise core.Violation('bad-characters', 'a character without a meaning is dropped, and nobody is told')
                check(not fs.open_handles(), 'handles', 'left open: %s', fs.open_handles())
                check(fs.get(src) == saved.data, 'input', 'the input file changed')
                return
            model = [pdfgen.without_bad(m) for m in model]
        interp = PDFInterpreter(path, **{k: v for k, v in kw.items() if k not in ('codec', 'dont_export_images')})
        pages = []
        for p in sut.call('interpreting', lambda: list(interp)):
            its = sut.call('interpreting', list, p)
            pages.append(dict(num=p.page_num, width=p.width, height=p.height, items=[picture(i) for i in its], meaning=tuple(observe.meaning(i) for i in its)))
        check([p['meaning'] for p in pages] == model, 'items', 'interpreted pages differ from the model')
        allk = set()
        for p in pages:
            allk |= kinds_of(p['items'])
            if not p['items']:
                ctx.probe('empty-page')
        for k in allk:
            ctx.probe('nested-xobject' if k == 'nested' else 'item-' + k)
        text = ''.join(plain_text(p['items']) for p in pages)
        if re.search('[\x00-\x08\x0b\x1b]', text):
            ctx.probe('control-characters')

        def verify(what):
            data = fs.get(name)
            check(data is not None, 'missing', '%s: no output', what)
            try:
                t = data.decode(codec)
            except UnicodeError as e:
                raise core.Violation('encoding', '%s: the output is no %s: %s' % (what, codec, e))
            try:
                if fmt == 'json':
                    got = json.loads(t)
                elif fmt == 'yaml':
                    got = yaml.load(t, Loader=LOADER)
                elif fmt == 'xml':
                    got = ElementTree.fromstring(t)
                elif fmt == 'html':
                    got = parse_html(t)
            except Exception as e:
                raise core.Violation('malformed', '%s: the output does not parse: %s: %s; it holds %s' % (what, type(e).__name__, str(e)[:200], sut.short(t, 400)))
            if fmt in ('json', 'yaml'):
                check_tree(got, pages, fmt)
            elif fmt == 'xml':
                check_xml(got, pages)
            elif fmt == 'html':
                check_html(got, pages)
            else:
                check_text(t, pages)

        fs.arm()
        try:
            sut.call('undisturbed', convert, allow=(UnicodeEncodeError,))
        except sut.Expected as e:
            check(codec in ('latin-1', 'ascii', 'cp1252'), 'encoding', 'undisturbed: %s', core.describe_exc(e.exc))
            check(not fs.open_handles(), 'handles', 'left open: %s', fs.open_handles())
            check(fs.get(src) == saved.data, 'input', 'the input file changed')
            ctx.probe('unencodable')
            return
        trace = list(fs.trace)

        def after(what):
            check(not fs.open_handles(), 'handles', '%s: left open: %s', what, fs.open_handles())
            check(fs.get(src) == saved.data, 'input', '%s: the input file changed', what)
            extra = sorted(set(fs.listing()) - {src, name})
            check(not extra, 'files', '%s: there are new files %s', what, extra)

        after('undisturbed')
        verify('undisturbed')
        ref = fs.get(name)
        if len(ref) > 9000:
            ctx.probe('large-output')
        injected = 0
        for k in range(ch.int(*N_FAULTS)):
            mode = ch.draw(8)
            if mode < 4:
                io_side = ch.bool(30)
                f = fs.pick_fault(trace, only=lambda kind, rel: (rel == src) == io_side)
                if f is None:
                    continue
                fs.always_short = ch.bool(10)
                fs.arm(f)
                ctx.log('%s' % f)
                short = fs.always_short
                try:
                    sut.call('with %s' % f, convert, allow=(OSError,))
                except sut.Expected as e:
                    check(fs.fired, 'exception:OSError', '%s although nothing failed', core.describe_exc(e.exc))
                    check(e.exc.errno == getattr(errno, f.kind.split('-')[-1]), 'masked', '%s was answered by %s', f, core.describe_exc(e.exc))
                    injected += 1
                    ctx.probe('input-fault' if io_side else {'open': 'open-out-fault', 'write': 'write-fault', 'close': 'close-fault'}[f.kind.split('-')[0]])
                    ctx.state((ext, codec, f.kind, min(f.at, 12), io_side, tuple(sorted(allk))))
                else:
                    check(not fs.fired, 'swallowed', '%s, and the conversion returns normally', f)
                    check(fs.get(name) == ref, 'again', 'the conversion writes %s, before %s', sut.short(fs.get(name)), sut.short(ref))
            elif mode < 6:
                size = len(fs.get(name) or b'') if k == 0 else len(ref)
                cap = ch.draw(size + 1)
                fs.arm()
                fs.capacity = cap
                ctx.log('disk takes %d bytes' % cap)
                try:
                    sut.call('on a full disk', convert, allow=(OSError,))
                except sut.Expected as e:
                    check(e.exc.errno == errno.ENOSPC and ctx.faults.get('disk-full'), 'exception:OSError', '%s although all fits', core.describe_exc(e.exc))
                    injected += 1
                    ctx.probe('disk-full')
                    ctx.state((ext, 'disk-full', cap * 8 // (size + 1)))
                else:
                    check(fs.get(name) == ref, 'swallowed', 'the disk took %d of about %d bytes, and nobody is told', cap, size)
            elif mode == 6:
                fs.always_short = ch.bool()
                f = fs.pick_fault(trace, benign=True)
                fs.arm(*([f] if f else []))
                ctx.log('short transfers %s %s' % (fs.always_short, f))
                sut.call('with short or interrupted transfers', convert)
                check(fs.get(name) == ref, 'short-write', 'short or interrupted transfers change the output')
                ctx.probe('short-transfers')
                injected += 1
            else:
                # refusals
                fs.arm()
                how = ch.draw(3)
                otype = ext
                if how == 0:
                    bad = fs.path('other.txtx')
                    ctx.probe('refused-type')
                    args = (path, bad)
                elif how == 1:
                    otype = ch.choice(['tag', 'pdf', 'htm', 'HTML', 'svg', ''])
                    ctx.probe('unknown-type')
                    args = (path, fs.path('other.' + otype))
                else:
                    self_name = fs.put('self.' + ext, saved.data)
                    alias = fs.path('alias.' + ext)
                    how = ch.choice(['same', 'dot', 'up', 'symlink', 'hardlink', 'input-symlink', 'folder-symlink'])
                    ctx.probe('self-' + how)
                    ctx.log('the output is the input: %s' % how)
                    if how == 'dot':
                        args = (self_name, fs.path('./self.' + ext))
                    elif how == 'up':
                        os.makedirs(fs.path('below'), exist_ok=True)
                        args = (self_name, fs.path('below/../self.' + ext))
                    elif how == 'symlink':
                        os.symlink(self_name, alias)
                        args = (self_name, alias)
                    elif how == 'input-symlink':
                        os.symlink(self_name, alias)
                        args = (alias, self_name)
                    elif how == 'hardlink':
                        os.link(self_name, alias)
                        args = (self_name, alias)
                    elif how == 'folder-symlink':
                        os.symlink(fs.path('.'), fs.path('folder'))
                        args = (self_name, fs.path('folder/self.' + ext))
                    else:
                        args = (self_name, self_name)
                    ctx.probe('refused-self')
                try:
                    sut.call('refusal', convert_file, *args, out_type=otype, allow=(ConverterException,), **kw)
                except sut.Expected:
                    pass
                else:
                    raise core.Violation('refusal', 'converting %s to %s as %s is not refused' % (args + (otype,)))
                if args[0] != path:
                    check(fs.get('self.' + ext) == saved.data, 'input', 'the input file changed')
                    for x in (self_name, alias, fs.path('folder')):
                        if os.path.lexists(x):
                            os.unlink(x)
            fs.disarm()
            after('after a failure')
        fs.arm()
        sut.call('again', convert)
        after('again')
        check(fs.get(name) == ref, 'again', 'converting again gives %s, before %s', sut.short(fs.get(name)), sut.short(ref))
        ctx.nontrivial = injected > 0 and sum(len(p['items']) for p in pages) >= 2


def command_line():
    """what stands behind the pdfconvert command"""
    try:
        from tools import pdfconvert
    except ImportError:
        return None
    return pdfconvert.main


class LOADER(getattr(yaml, 'CSafeLoader', yaml.SafeLoader)):
    pass
