"""What pdfmajor answers about a file, as plain values that can be compared between processes."""
import os

from . import observe, sut

KINDS = ['items', 'convert', 'images', 'document']


def items(path, a):
    from pdfmajor.interpreter import PDFInterpreter
    out = []
    for page in PDFInterpreter(path, **a['args']):
        got = [(observe.detail(x), names(x)) for x in page]
        out.append((page.page_num, page.page.pageid, sut.plain(page.width), sut.plain(page.height), got))
    return out


def names(item):
    k = observe.kind(item)
    if k == 'xobject':
        return (item.name, [names(x) for x in item])
    return item.name if k == 'image' else None


def convert(path, a, out):
    from pdfmajor.converters import convert_file
    name = os.path.join(out, 'result.' + a['out_type'])
    convert_file(path, name, out_type=a['out_type'], **a['args'])
    with open(name, 'rb') as fp:
        return fp.read()


def images(path, a, out):
    from pdfmajor.interpreter import PDFInterpreter
    res = []

    def walk(xs):
        for x in xs:
            k = observe.kind(x)
            if k == 'image':
                try:
                    p = x.save_image(out)
                except (TypeError, ValueError, AttributeError, KeyError, OSError) as e:
                    # an image that cannot be written is not the subject
                    res.append(type(e).__name__)
                    continue
                with open(p, 'rb') as fp:
                    res.append((os.path.basename(p), fp.read()))
            elif k == 'xobject':
                walk(x)
    for page in PDFInterpreter(path, **a['args']):
        walk(page)
    return res, sorted(f for f in os.listdir(out))


def document(path, a):
    from pdfmajor.execptions import PDFNoOutlines, PDFDestinationNotFound, PDFObjectNotFound
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFPage import PDFPage
    out = []
    with open(path, 'rb') as fp:
        d = PDFDocument(PDFParser(fp), a['args'].get('password') or '', caching=a['args'].get('caching', True))
        out.append([[sut.plain(i) for i in d.info], sut.plain(d.catalog), d.is_printable, d.is_modifiable, d.is_extractable])
        try:
            out.append([(lv, sut.plain(t), sut.plain(x), sut.plain(y), sut.plain(z)) for (lv, t, x, y, z) in d.get_outlines()])
        except PDFNoOutlines:
            out.append(None)
        for n in a['nums']:
            try:
                out.append(sut.plain(d.getobj(n)))
            except PDFObjectNotFound:
                out.append('not found')
        for k in a['dests']:
            try:
                out.append(sut.plain(d.get_dest(k)))
            except PDFDestinationNotFound as e:
                out.append(type(e).__name__)
        for p in PDFPage.create_pages(d):
            out.append((p.pageid, sut.plain(p.attrs), sut.plain(p.resources), sut.plain(p.mediabox), sut.plain(p.cropbox), sut.plain(p.rotate), sut.plain(p.annots), sut.plain(p.lastmod), [sut.plain(c) for c in p.contents]))
    return out


def answer(job, path, out):
    """what happens, exceptions included"""
    k = job['kind']
    try:
        if k == 'items':
            return ('ok', items(path, job))
        if k == 'convert':
            return ('ok', convert(path, job, out))
        if k == 'images':
            return ('ok', images(path, job, out))
        if k == 'document':
            return ('ok', document(path, job))
        if k == 'abandon':
            return ('ok', abandon(path, job))
    except Exception as e:
        return ('raised', type(e).__name__)
    raise ValueError(k)


def abandon(path, a):
    """begins, and goes away in the middle"""
    from pdfmajor.interpreter import PDFInterpreter
    it = iter(PDFInterpreter(path, **a['args']))
    page = next(it)
    out = []
    for x in page:
        out.append(observe.kind(x))
        if len(out) >= a['take']:
            break
    return out
