"""Model values and their PDF spellings.

A value is generated together with what it means: ints, floats, bools, None,
Name, Str (bytes), list, dict, Ref, and (tokens only) Kw.  `spell` writes one
of its many legal spellings, drawn from Choices, and reports where each token
starts.
"""


class Name:
    __slots__ = ('raw',)

    def __init__(self, raw):
        self.raw = raw if isinstance(raw, bytes) else raw.encode()

    @property
    def value(self):
        try:
            return self.raw.decode('utf-8')
        except UnicodeDecodeError:
            return self.raw

    def __repr__(self):
        return 'Name(%r)' % self.raw

    def __eq__(self, o):
        return isinstance(o, Name) and o.raw == self.raw

    def __hash__(self):
        return hash(self.raw)


class Kw:
    __slots__ = ('raw',)

    def __init__(self, raw):
        self.raw = raw

    def __repr__(self):
        return 'Kw(%r)' % self.raw


class Ref:
    __slots__ = ('num', 'gen')

    def __init__(self, num, gen=0):
        self.num, self.gen = num, gen

    def __repr__(self):
        return 'Ref(%d)' % self.num


class Num:
    """a number with a fixed spelling"""
    __slots__ = ('text', 'value')

    def __init__(self, text):
        self.text = text
        t = text.decode()
        self.value = float(t) if '.' in t else int(t)

    def __repr__(self):
        return 'Num(%r)' % self.text


def expect(v):
    """The same picture sut.plain draws, from the model value."""
    if v is None or isinstance(v, (bool, int, float)):
        return (type(v).__name__, v)
    if isinstance(v, Num):
        return (type(v.value).__name__, v.value)
    if isinstance(v, bytes):
        return ('bytes', v)
    if isinstance(v, Name):
        return ('name', v.value)
    if isinstance(v, Kw):
        return ('keyword', v.raw)
    if isinstance(v, Ref):
        return ('ref', v.num)
    if isinstance(v, (list, tuple)):
        return ('array', tuple(expect(x) for x in v))
    if isinstance(v, dict):
        return ('dict', tuple(sorted((k, expect(x)) for k, x in v.items() if x is not None)))
    raise TypeError(v)


DELIM = b'()<>[]{}/%'
WS = b' \t\r\n\x0c'


def gen_number(ch):
    k = ch.draw(8)
    if k < 4:
        return Num(b'%d' % ch.choice([0, 1, 7, 42, 255, 4095, 65536, 123456789, 10 ** 12]))
    if k == 4:
        return Num(b'-%d' % ch.int(0, 9999))
    if k == 5:
        return Num(b'+%d' % ch.int(0, 9999))
    if k == 6:
        return Num(b'%d.%03d' % (ch.int(0, 999), ch.int(0, 999)))
    return Num(ch.choice([b'.5', b'-.25', b'1.', b'+3.75', b'-0.001', b'0.0', b'100.125']))


NAME_POOL = [b'A', b'Type', b'Kids', b'F1', b'Some_Name', b'a.b-c', b'x+y', b'Im#', b'sp ace', b'p(q)', b'\xe9t\xe9',
             b'caf\xc3\xa9', b'', b'/slash', b'a%b', b'1.2', b'LongerNameThanUsual_0123456789', b'obj', b'R', b'true']


def gen_name(ch):
    return Name(ch.choice(NAME_POOL))


STR_ALPHA = [b'a', b'b', b' ', b'(', b')', b'\\', b'\n', b'\r', b'\t', b'\x00', b'\xff', b'0', b'7', b'%', b'<', b'>', b'/',
             b'[', b'endobj', b'n', b'\x08', b'\x0c', b'stream', b'8', b'R', b'\r\n']


def gen_string(ch, cap=12):
    n = ch.geometric(80, cap)
    return b''.join(ch.choice(STR_ALPHA) for _ in range(n))


KW_POOL = [b'q', b'Q', b'BT', b'ET', b'Tj', b'f*', b'b*', b"'", b'"', b're', b'cm', b'T*', b'd0', b'foo', b'null', b'trueish', b'falsey', b'B', b'endobj_']


def gen_value(ch, depth=0, refs=None, allow_null=True):
    k = ch.draw(12)
    if depth < 4 and k == 10:
        return [gen_value(ch, depth + 1, refs, allow_null) for _ in range(ch.geometric(70, 6))]
    if depth < 4 and k == 11:
        return gen_dict(ch, depth + 1, refs, allow_null)
    if k in (8, 10):
        return ch.choice([True, False])
    if k == 9 and allow_null:
        return None
    if k == 7 and refs:
        return Ref(ch.choice(refs))
    if k in (0, 1, 7):
        return gen_number(ch)
    if k in (2, 3, 11):
        return gen_name(ch)
    return gen_string(ch)


def gen_dict(ch, depth=1, refs=None, allow_null=True):
    d = {}
    for _ in range(ch.geometric(70, 5)):
        key = ch.choice([b'A', b'B', b'Key', b'K#y', b'a b', b'Zed', b'N1', b'x'])
        d[Name(key).value] = gen_value(ch, depth, refs, allow_null)
    return d


class Writer:
    """Writes spellings; remembers where every token began."""

    def __init__(self, ch, plain=False):
        self.ch = ch
        self.plain = plain         # canonical spelling only, no choices drawn
        self.out = bytearray()
        self.need = False          # last token needs a delimiter before a regular char
        self.starts = []
        self.hex = set()
        self.ends = []

    def pos(self):
        return len(self.out)

    def raw(self, b):
        self.out += b
        self.need = False

    def sep(self, force=False):
        """optional white space / comments"""
        if self.plain:
            if force or self.need:
                self.out += b' '
            self.need = False
            return
        ch = self.ch
        k = ch.draw(10)
        if k < 5:
            if force or self.need:
                self.out += b' '
        elif k < 8:
            self.out += ch.choice([b' ', b'\n', b'\r\n', b'\r', b'  ', b'\t', b'\n\n', b' \r\n '])
        elif k == 8:
            self.out += b'%' + ch.choice([b'', b'c', b' (unbalanced', b'<<', b' 1 0 R', b'/N', b'%%', b'\\']) + ch.choice([b'\n', b'\r', b'\r\n'])
        else:
            self.out += b' ' * ch.int(1, 9)
        self.need = False

    def tok(self, text, model):
        self.sep(force=self.need)
        p = len(self.out)
        self.starts.append((p, model))
        self.out += text
        self.ends.append(len(self.out))
        self.need = True
        return p

    # -- scalars
    def name(self, n):
        t = bytearray(b'/')
        for b in n.raw:
            c = bytes([b])
            if b <= 32 or b == 35 or c in [bytes([x]) for x in DELIM] or b == 127:
                t += b'#%02x' % b if self.plain or self.ch.bool() else b'#%02X' % b
            elif not self.plain and self.ch.draw(8) == 7:
                t += b'#%02X' % b
            else:
                t += c
        self.sep()      # '/' itself delimits
        p = len(self.out)
        self.starts.append((p, n))
        self.out += t
        self.ends.append(len(self.out))
        self.need = True
        return p

    def string(self, s):
        if not self.plain and self.ch.draw(3) == 2:
            return self.hexstring(s)
        self.sep()
        p = len(self.out)
        self.starts.append((p, s))
        self.out += self.literal(s)
        self.ends.append(len(self.out))
        self.need = False
        return p

    def literal(self, s):
        ch = self.ch
        t = bytearray(b'(')
        balanced = self._balanced(s)
        esc = {10: b'\\n', 13: b'\\r', 9: b'\\t', 8: b'\\b', 12: b'\\f', 40: b'\\(', 41: b'\\)', 92: b'\\\\'}
        for i, b in enumerate(s):
            nxt = s[i + 1] if i + 1 < len(s) else None
            c = bytes([b])
            if self.plain:
                t += esc.get(b, c)
                continue
            k = ch.draw(6)
            if k == 5:
                digits = b'%o' % b
                if nxt is None or not (48 <= nxt <= 55):
                    t += b'\\' + (digits if ch.bool() else digits.rjust(3, b'0'))
                else:
                    t += b'\\' + digits.rjust(3, b'0')
            elif b in (40, 41):
                t += c if (balanced and k < 3) else esc[b]
                if balanced and k >= 3:
                    balanced = False   # an escaped paren unbalances the raw ones
                    # re-escape all later parens
            elif b == 92 or b == 13:
                t += esc[b]
            elif b in esc and k < 3:
                t += esc[b]
            elif k == 3 and b not in b'01234567nrtbf\n' and ch.draw(8) == 7:
                # nothing that needs it
                t += b'\\' + c
            else:
                t += c
            if k == 4 and ch.draw(4) == 3:
                # a line that goes on
                t += b'\\' + ch.choice([b'\n', b'\r\n', b'\n' if nxt == 10 else b'\r'])
        # fix: raw parens written before an escaped one may be unbalanced
        if not self.plain and not self._raw_ok(t[1:]):
            t = bytearray(b'(')
            for b in s:
                t += esc.get(b, bytes([b]))
        t += b')'
        return bytes(t)

    @staticmethod
    def _balanced(s):
        d = 0
        for b in s:
            if b == 40:
                d += 1
            elif b == 41:
                d -= 1
                if d < 0:
                    return False
        return d == 0

    @staticmethod
    def _raw_ok(t):
        d = 0
        i = 0
        while i < len(t):
            if t[i] == 92:
                i += 2
                continue
            if t[i] == 40:
                d += 1
            elif t[i] == 41:
                d -= 1
                if d < 0:
                    return False
            i += 1
        return d == 0

    def hexstring(self, s):
        ch = self.ch
        t = bytearray(b'<')
        for b in s:
            h = b'%02x' % b
            if not self.plain:
                if ch.bool():
                    h = h.upper()
                k = ch.draw(8)
                if k == 7:
                    h = h[:1] + ch.choice([b' ', b'\n', b'\r\n']) + h[1:]
                elif k == 6:
                    h += b' '
            t += h
        t += b'>'
        self.sep()
        p = len(self.out)
        self.starts.append((p, s))
        self.out += t
        self.ends.append(len(self.out))
        self.hex.add(p)
        self.need = False
        return p

    def number(self, v):
        if isinstance(v, Num):
            t = v.text
        elif isinstance(v, float):
            t = repr(v).encode()
        else:
            t = b'%d' % v
        return self.tok(t, v)

    def kw(self, raw):
        return self.tok(raw, Kw(raw))

    def punct(self, raw):
        self.sep()
        p = len(self.out)
        self.starts.append((p, Kw(raw)))
        self.out += raw
        self.ends.append(len(self.out))
        self.need = False
        return p

    # -- any value; returns [(offset, model)] of the tokens it spells
    def value(self, v):
        if v is None:
            return self.kw(b'null')
        if v is True or v is False:
            return self.tok(b'true' if v else b'false', v)
        if isinstance(v, (int, float, Num)):
            return self.number(v)
        if isinstance(v, bytes):
            return self.string(v)
        if isinstance(v, Name):
            return self.name(v)
        if isinstance(v, Kw):
            return self.kw(v.raw)
        if isinstance(v, Ref):
            p = self.number(v.num)
            self.number(v.gen)
            self.kw(b'R')
            return p
        if isinstance(v, (list, tuple)):
            p = self.punct(b'[')
            for x in v:
                self.value(x)
            self.punct(b']')
            return p
        if isinstance(v, dict):
            p = self.punct(b'<<')
            for k, x in v.items():
                self.name(Name(k if isinstance(k, bytes) else k.encode('utf-8')))
                self.value(x)
            self.punct(b'>>')
            return p
        raise TypeError(v)
