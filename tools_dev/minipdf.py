"""A small PDF builder for demonstrations."""
import io, os, sys, zlib, tempfile, shutil, logging, warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


def stream(data, extra=b'', flate=False):
    if flate:
        data = zlib.compress(data)
        extra += b' /Filter /FlateDecode'
    return b'<< /Length %d %s >>\nstream\n%s\nendstream' % (len(data), extra, data)


def build(objs, root=1, trailer=b'', header=b'%PDF-1.5\n', size=None):
    "objs: {number: body}"
    out = bytearray(header)
    pos = {}
    for n in objs:
        pos[n] = len(out)
        out += b'%d 0 obj\n%s\nendobj\n' % (n, objs[n])
    x = len(out)
    size = size or max(objs) + 1
    out += b'xref\n0 %d\n' % size
    for n in range(size):
        out += b'%010d 00000 n \n' % pos[n] if n in pos else b'0000000000 65535 f \n'
    out += b'trailer\n<< /Size %d /Root %d 0 R %s >>\nstartxref\n%d\n%%%%EOF\n' % (size, root, trailer, x)
    return bytes(out)


FONT = (b'<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /FirstChar 0 /LastChar 255 /Widths ['
        + b' 500' * 256 + b' ] /Encoding /WinAnsiEncoding >>')


def simple(contents, extra=None, resources=b'', page=b'', trailer=b''):
    """contents: per page a content (or a list of them)"""
    objs = {1: b'<< /Type /Catalog /Pages 2 0 R >>', 3: FONT}
    n = 10
    kids = []
    for c in contents:
        parts = c if isinstance(c, list) else [c]
        refs = []
        for p in parts:
            objs[n] = stream(p)
            refs.append(b'%d 0 R' % n)
            n += 1
        cref = b'[' + b' '.join(refs) + b']' if isinstance(c, list) else refs[0]
        objs[n] = (b'<< /Type /Page /Parent 2 0 R /MediaBox [0 0 500 500] /Contents %s '
                   b'/Resources << /Font << /F1 3 0 R >> %s >> %s >>' % (cref, resources, page))
        kids.append(b'%d 0 R' % n)
        n += 1
    objs[2] = b'<< /Type /Pages /Count %d /Kids [%s] >>' % (len(kids), b' '.join(kids))
    objs.update(extra or {})
    return build(objs, trailer=trailer)


def scratch():
    return tempfile.mkdtemp(prefix='seed')


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='seed')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def items(layout):
    for i in layout:
        yield i
        if hasattr(i, '__iter__') and not isinstance(i, (str, bytes)):
            yield from items(i)


def text_of(page):
    from pdfmajor.interpreter.commands.state.layout import LTChar
    return ''.join(i.get_text() for i in items(page) if type(i).__name__ == 'LTChar')


def pages_text(data, **kw):
    from pdfmajor.interpreter import PDFInterpreter
    with Scratch() as d:
        p = os.path.join(d, 'in.pdf')
        with open(p, 'wb') as f:
            f.write(data)
        return [text_of(pg) for pg in PDFInterpreter(p, **kw)]


def check(cond, msg):
    if not cond:
        print('FAILED:', msg)
        sys.exit(1)
