"""Writes sim/corpus/*.pdf: small sample files of the repository with their
streams unpacked, so that faults reach fonts, tables and content (built once,
with the reader of the repository; the files are committed)."""
import os, re, sys, zlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/tests/samples/pdf'
for name in ['fonts', 'colors', 'font-color', 'shapes', 'bad-chars', 'chars']:
    b = open(os.path.join(SRC, name + '.pdf'), 'rb').read()
    out, pos, n = b'', 0, 0
    for m in re.finditer(rb'(?s)(\d+ \d+ obj\s*)<<((?:(?!endobj).)*?)>>\s*stream\r?\n', b):
        L = re.search(rb'/Length\s+(\d+)(\s+0\s+R)?', m.group(2))
        if not L or m.start() < pos:
            continue
        if L.group(2):
            r = re.search(rb'(?s)[\r\n]%s 0 obj\s*(\d+)\s*endobj' % L.group(1), b)
            if not r:
                continue
            ln = int(r.group(1))
        else:
            ln = int(L.group(1))
        data = b[m.end():m.end() + ln]
        d = m.group(2)
        if re.search(rb'/Filter\s*\[?\s*/FlateDecode\s*\]?', d) and b'Predictor' not in d and b'/XRef' not in d:
            try:
                data = zlib.decompress(data)
                d = re.sub(rb'/Filter\s*\[?\s*/FlateDecode\s*\]?', b'', d)
                n += 1
            except zlib.error:
                pass
        d = re.sub(rb'/Length\s+\d+(\s+0\s+R)?', b'/Length %d' % len(data), d)
        out += b[pos:m.start()] + m.group(1) + b'<<' + d + b'>>\nstream\n' + data
        pos = m.end() + ln
    out += b[pos:]
    # a table of its own, so that it opens without rebuilding
    body = out[:out.rfind(b'startxref')]
    offs = {}
    for m in re.finditer(rb'(?m)(?:^|(?<=[\r\n]))(\d+) (\d+) obj', body):
        offs[int(m.group(1))] = m.start()
    t = re.findall(rb'(?s)trailer\s*(<<.*?>>)\s*(?:startxref|$)', out)
    tr = t[-1] if t else None
    print(name, len(b), len(out), n, 'unpacked', len(offs), 'objects', 'trailer' if tr else 'no trailer')
    if tr:
        x = len(out)
        tr = re.sub(rb'/(Prev|XRefStm)\s+\d+', b'', tr)
        out += b'\nxref\n0 1\n0000000000 65535 f \n' + b''.join(b'%d 1\n%010d 00000 n \n' % (k, v) for k, v in sorted(offs.items()))
        out += b'trailer\n' + tr + b'\nstartxref\n%d\n%%%%EOF\n' % (x + 1)
    open(os.path.join(HERE, 'sim/corpus', name + '.pdf'), 'wb').write(out)
