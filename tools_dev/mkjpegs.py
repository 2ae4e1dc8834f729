"""Writes sim/jpegs.json (needs PIL)."""
import base64, io, json, os
from PIL import Image
out = []
SIZES = [(1, 1), (7, 3), (16, 16), (33, 9), (40, 12), (8, 20)]
COLORS = [(0, 0, 0, 0), (255, 0, 0, 0), (0, 255, 0, 40), (40, 128, 200, 0), (0, 0, 255, 128), (200, 40, 0, 255), (128, 128, 128, 0), (255, 255, 255, 255)]
k = 0
for mode in ('RGB', 'L', 'CMYK'):
    for w, h in SIZES:
        k += 1
        im = Image.new(mode, (w, h))
        c = None
        if mode == 'CMYK':
            c = COLORS[k % len(COLORS)]
            im.paste(tuple(255 - v for v in c), (0, 0, w, h))       # PIL stores the complement
        elif mode == 'RGB':
            im.putdata([((x * 37) & 255, (x * 37 + 80 + w) & 255, x & 255) for x in range(w * h)])
        else:
            im.putdata([(x * 37 + w) & 255 for x in range(w * h)])
        b = io.BytesIO()
        im.save(b, 'JPEG', quality=(75, 90, 30)[k % 3])
        out.append(dict(mode=mode, w=w, h=h, cmyk=c, data=base64.b64encode(b.getvalue()).decode()))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim', 'jpegs.json'), 'w') as fp:
    json.dump(out, fp, indent=0)
