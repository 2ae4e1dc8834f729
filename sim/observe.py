"""Pictures of what the code under test answers, comparable across runs and
with the model.  Uses only the public surface (layout items and their fields)."""
from . import core, sut


def color(c):
    if c is None:
        return None
    cs = getattr(c, 'color_space', None)
    vals = tuple(sut.plain(v) for v in getattr(c, 'values', ()))
    return (getattr(cs, 'name', None), vals)


def bbox(b):
    return (b.x0, b.y0, b.x1, b.y1)


def kind(item):
    from pdfmajor.interpreter import LTTextBlock, LTCurve, LTImage, LTXObject
    if isinstance(item, LTTextBlock):
        return 'text'
    if isinstance(item, LTCurve):
        return 'curve'
    if isinstance(item, LTImage):
        return 'image'
    if isinstance(item, LTXObject):
        return 'xobject'
    return type(item).__name__


def detail(item):
    """everything observable about an item"""
    k = kind(item)
    if k == 'text':
        blocks = []
        for b in item:
            blocks.append((bbox(b.bbox), b.get_text(), b.fontname, b.size, color(b.color),
                           tuple((c.get_text(), bbox(c.bbox), c.fontname, c.size) for c in b)))
        return (k, bbox(item.bbox), tuple(blocks))
    if k == 'curve':
        return (k, type(item).__name__, bbox(item.bbox), item.linewidth, item.evenodd, color(item.stroke), color(item.fill),
                tuple((p.method.value, tuple((q.x, q.y) for q in p.points)) for p in item.paths))
    if k == 'image':
        return (k, bbox(item.bbox), sut.plain(item.srcsize), sut.plain(item.bits), sut.plain(item.imagemask),
                sut.plain(item.colorspace), item.stream.get_data())
    if k == 'xobject':
        return (k, bbox(item.bbox), tuple(item.t_matrix), tuple(detail(c) for c in item))
    return (k, repr(item))


def meaning(item):
    """what the model predicts of an item"""
    k = kind(item)
    if k == 'text':
        return ('text', tuple(b.get_text() for b in item))
    if k == 'curve':
        return ('curve', ''.join(p.method.value for p in item.paths))
    if k == 'image':
        w, h = item.srcsize
        return ('image', item.stream.get_data(), w, h)
    if k == 'xobject':
        return ('xobject', tuple(meaning(c) for c in item))
    return (k,)


def page_head(p):
    return (p.page_num, p.width, p.height)


def short_item(m):
    return sut.short(m, 200)


def diff_items(got, want, what, kind='items'):
    """raise with the first difference"""
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            raise core.Violation(kind, '%s: item %d is %s, expected %s' % (what, i, short_item(a), short_item(b)))
    if len(got) != len(want):
        extra = got[len(want):] or want[len(got):]
        raise core.Violation(kind, '%s: %d items, expected %d (first unmatched: %s)' % (what, len(got), len(want), short_item(extra[0])))


def size_of(page):
    """(width, height) a page object reports for the model page"""
    x0, y0, x1, y1 = page.mediabox
    return (x1 - x0, y1 - y0)
