"""C13: the structured writers produce what the calls described, or fail."""
import errno
import html.parser
import io
import json
import re
from xml.etree import ElementTree
from xml.sax import saxutils

import yaml

from sim import core, sut, fs as simfs
from sim.pdfgen import UNI, UNI_CTRL
from sim.sut import check

ID = 'C13'
RUNS_QUICK = 26000
RUNS_THOROUGH = 900000
RULE = ('one run = one generated program of nested builder calls for one of the four writers, run on the simulated file system: '
        'undisturbed, then with a drawn exception out of the body and with drawn failures (open, write, torn write, disk full, close) '
        'and short or interrupted writes, then once more undisturbed; non-trivial = at least 4 calls with nesting')
STATE_MEASURE = 'distinct (writer, sequence of the last three calls with their depth, disturbance)'
REAL = ['pdfmajor.converters.writers.*', 'Python buffered I/O layers']
STUB = ['raw file layer (simulated write, open and close failures, short and interrupted writes)']
ASSUMPTIONS = ['keys of one object differ', 'codecs without a byte-order mark', 'markup written with write() is markup (escaped by the caller)',
               'YAML numbers given as text are numbers (fixed by the repository\'s tests)']
PROBES = ['same-attributes', 'json', 'yaml', 'xml', 'html', 'deep', 'empty-object', 'empty-array', 'body-raised', 'open-failed', 'write-failed', 'close-failed',
          'disk-full', 'short-writes', 'codec', 'unencodable', 'control-characters', 'overwrites-longer', 'many-writes']


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


WORDS = ['a', 'b', 'name', 'x y', 'Key']


def text(ch, ctrl=True):
    k = ch.draw(8)
    if k < 2:
        return ch.choice(WORDS)
    pool = UNI + (UNI_CTRL if ctrl else [])
    n = ch.int(0, 4)
    s = ''.join(ch.choice(pool) for _ in range(n))
    if k == 7:
        s = ch.choice(['', '12', '007', '1e5', '0x1F', '1_000', '12:30', '2020-01-01', '.5', '-', 'null', 'Yes', 'off', '=', '<<', '~', '- a', '? b',
                       '#c', 'a: b', 'a #b', ' lead', 'trail ', '!!str x', '&a', '*a', '@x', '%d', '`', '[x', '{x', '"q', "'q", 'a\\nb', '\\', '\\u0041',
                       '</a>', ']]>', '&#0;', '<?x?>', 'a"b\'c', 'line1\nline2', 'tab\tx', '\r\n', 'x' * 300])
    return s


def key(ch, used):
    k = ch.choice(WORDS) if ch.bool(50) else text(ch)
    while k in used:
        k += ch.choice(['1', '"', ':', '\\'])
    used.add(k)
    return k


def number(ch):
    return ch.choice([0, 1, -7, 3.5, 10 ** 12, -0.25, 1e22, 1e-7, 123456.789])


class Prog:
    """a program of calls and the value it describes"""

    def __init__(self, ch, ctx, kind):
        self.ch, self.ctx, self.kind = ch, ctx, kind
        self.calls = 0
        self.depth = 0
        self.common = None         # attributes given more than once
        self.budget = ch.choice([3, 8, 20, 60])

    def more(self, depth):
        return self.budget > 0 and self.ch.bool(75 - 5 * depth)

    def spend(self, what, depth):
        self.budget -= 1
        self.calls += 1
        self.depth = max(self.depth, depth)
        self.ctx.log('%s%s' % ('  ' * depth, what))

    # -------------------------------------------------------------- JSON
    def json_obj(self, depth=0):
        ch = self.ch
        ops, used = [], set()
        while self.more(depth):
            k = key(ch, used)
            c = ch.draw(6)
            self.spend('%s %r' % (['number', 'string', 'string', 'place', 'object', 'array'][c], k), depth)
            if c == 0:
                ops.append(('number', k, number(ch)))
            elif c < 3:
                ops.append(('string', k, text(ch)))
            elif c == 3:
                ops.append(('place', k, self.small(ch)))
            elif c == 4:
                ops.append(('object', k, self.json_obj(depth + 1)))
            else:
                ops.append(('array', k, self.json_arr(depth + 1)))
        if not ops:
            self.ctx.probe('empty-object')
        return ops

    def json_arr(self, depth):
        ch = self.ch
        ops = []
        while self.more(depth):
            c = ch.draw(6)
            self.spend('[] %s' % ['number', 'string', 'string', 'place', 'object', 'array'][c], depth)
            if c == 0:
                ops.append(('number', None, number(ch)))
            elif c < 3:
                ops.append(('string', None, text(ch)))
            elif c == 3:
                ops.append(('place', None, self.small(ch)))
            elif c == 4:
                ops.append(('object', None, self.json_obj(depth + 1)))
            else:
                ops.append(('array', None, self.json_arr(depth + 1)))
        if not ops:
            self.ctx.probe('empty-array')
        return ops

    def small(self, ch):
        out, used = {}, set()
        for _ in range(ch.int(0, 3)):
            out[key(ch, used)] = text(ch) if ch.bool() else number(ch)
        return out

    def json_value(self, ops, obj):
        f = lambda o: (self.json_value(o[2], True) if o[0] == 'object' else self.json_value(o[2], False) if o[0] == 'array' else o[2])
        return {o[1]: f(o) for o in ops} if obj else [f(o) for o in ops]

    def json_run(self, b, ops, tick):
        for (c, k, v) in ops:
            tick()
            a = () if k is None else (k,)
            if c == 'number':
                b.number(*a, v)
            elif c == 'string':
                b.string(*a, v)
            elif c == 'place':
                b.place_object(*a, v)
            elif c == 'object':
                with b.object(*a) as child:
                    self.json_run(child, v, tick)
            else:
                with b.array(*a) as child:
                    self.json_run(child, v, tick)
        tick()

    # -------------------------------------------------------------- YAML
    def yaml_obj(self, depth=0):
        ch = self.ch
        ops, used = [], set()
        while self.more(depth):
            k = key(ch, used)
            c = ch.draw(7)
            self.spend('%s %r' % (['write', 'write', 'write-list', 'object', 'array', 'place_object', 'place_array'][c], k), depth)
            if c < 2:
                ops.append(('write', k, self.scalar()))
            elif c == 2:
                ops.append(('write', k, [self.scalar() for _ in range(ch.int(0, 4))]))
            elif c == 3:
                ops.append(('object', k, self.yaml_obj(depth + 1)))
            elif c == 4:
                ops.append(('array', k, self.yaml_arr(depth + 1)))
            elif c == 5:
                v, u = {}, set()
                for _ in range(ch.int(0, 3)):
                    v[key(ch, u)] = self.scalar() if ch.bool(80) else [{'x': number(ch), 'y': number(ch)}]
                ops.append(('place_object', k, v))
            else:
                ops.append(('place_array', k, [self.scalar() for _ in range(ch.int(0, 3))]))
        if not ops:
            self.ctx.probe('empty-object')
        return ops

    def scalar(self):
        return text(self.ch) if self.ch.bool(70) else number(self.ch)

    def yaml_arr(self, depth):
        ch = self.ch
        ops = []
        while self.more(depth):
            c = ch.draw(4)
            self.spend('[] %s' % ['write', 'write', 'object', 'place_object'][c], depth)
            if c < 2:
                ops.append(('write', None, self.scalar()))
            elif c == 2:
                ops.append(('object', None, self.yaml_obj(depth + 1)))
            else:
                v, u = {}, set()
                for _ in range(ch.int(0, 3)):
                    v[key(ch, u)] = self.scalar()
                ops.append(('place_object', None, v))
        if not ops:
            self.ctx.probe('empty-array')
        return ops

    def yaml_value(self, ops, obj):
        f = lambda o: (self.yaml_value(o[2], True) if o[0] == 'object' else self.yaml_value(o[2], False) if o[0] == 'array' else o[2])
        return {o[1]: f(o) for o in ops} if obj else [f(o) for o in ops]

    def yaml_run(self, b, ops, tick):
        for (c, k, v) in ops:
            tick()
            a = () if k is None else (k,)
            if c == 'write':
                b.write(*a, v)
            elif c == 'place_object':
                b.place_object(*a, v)
            elif c == 'place_array':
                b.place_array(*a, v)
            elif c == 'object':
                with b.object(*a) as child:
                    self.yaml_run(child, v, tick)
            else:
                with b.array(*a) as child:
                    self.yaml_run(child, v, tick)
        tick()

    # --------------------------------------------------------- XML / HTML
    def attrs(self):
        ch = self.ch
        if self.common is not None and ch.bool(40):
            # the dictionary that was given before, once more
            self.ctx.probe('same-attributes')
            return self.common
        names = ch.sample(['id', 'class', 'x0', 'src', 'data-v', 'height'], ch.int(0, 3))
        d = {n: (text(ch) if ch.bool(70) else number(ch)) for n in names}
        if self.common is None and ch.bool(30):
            self.common = d
        return d

    def elm(self, depth=0):
        ch = self.ch
        tag = ch.choice(['div', 'span', 'p', 'section']) if self.kind == 'html' else ch.choice(['pages', 'page', 'char-block', 'x'])
        css = None
        if self.kind == 'html' and ch.bool(45):
            css = {n: text(ch, False) if ch.bool(50) else '%dpx' % ch.int(0, 99) for n in ch.sample(['width', 'left', 'font-family', 'color'], ch.int(0, 3))}
        tight = ch.bool(20)
        # without line ends: the text is kept to the letter
        node = dict(tag=tag, attrs=self.attrs() if ch.bool(60) else None, bare=ch.bool(70), css=css, tight=tight, noline=ch.bool(20), kids=[])
        self.spend('elm %s' % tag, depth)
        if tight:
            if ch.bool(80):
                node['kids'].append(('exact', text(ch)))
            return node
        while self.more(depth):
            c = ch.draw(5)
            if c == 0:
                self.spend('write', depth)
                node['kids'].append(('text', text(ch)))
            elif c == 1:
                self.spend('singleton', depth)
                t = ch.choice(['img', 'meta']) if self.kind == 'html' else ch.choice(['point', 'img'])
                node['kids'].append(('single', dict(tag=t, attrs=self.attrs() if ch.bool(70) else None, bare=ch.bool(70),
                                                    css={'width': '1px'} if self.kind == 'html' and ch.bool(40) else None)))
            else:
                node['kids'].append(('elm', self.elm(depth + 1)))
        return node

    def given(self, node):
        """the attributes as the caller gives them, or not at all"""
        if node['attrs'] is not None:
            if node['attrs'] is self.common:
                return (self.live,)
            return (dict(node['attrs']),)
        return () if node['bare'] else (None,)

    def markup_run(self, b, node, tick):
        self.live = dict(self.common or {})
        self.elm_run(b, node, tick)

    def elm_run(self, b, node, tick):
        tick()
        kw = dict(no_additional_char=node['tight'], nolineend=node['noline'])
        if self.kind == 'html':
            kw['css'] = None if node['css'] is None else dict(node['css'])
        with b.elm(node['tag'], *self.given(node), **kw):
            for k, v in node['kids']:
                tick()
                if k == 'text':
                    b.write(escape(v))
                elif k == 'exact':
                    b.write(escape(v), lineend='', deep_space='')
                elif k == 'single':
                    kw = {} if v['css'] is None else dict(css=dict(v['css']))
                    b.singleton(v['tag'], *self.given(v), **kw)
                else:
                    self.elm_run(b, v, tick)
            tick()


ILLEGAL = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def escape(s):
    """the caller's own escaping of text; what XML cannot hold is not given to it"""
    return saxutils.escape(ILLEGAL.sub('\ufffd', s), {'\r': '&#13;'})


def no_illegal(s):
    return ILLEGAL.sub('\ufffd', str(s))


# --------------------------------------------------------------- comparing
def yaml_same(got, want):
    if isinstance(want, dict):
        if not isinstance(got, dict) or len(got) != len(want):
            return False
        ks = {str(k) if not isinstance(k, str) else k: v for k, v in got.items()}
        gk = dict(ks)
        for k, v in want.items():
            if k not in gk:
                return False
            if not yaml_same(gk[k], v):
                return False
        return True
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(yaml_same(a, b) for a, b in zip(got, want))
    if isinstance(want, str):
        return got == want or (not isinstance(got, str) and str(got) == want and re.match(r'-?(0|[1-9]\d*)(\.\d+)?\Z', want) is not None)
    return (got == want and not isinstance(got, (str, bool))) or got == str(want)


def check_xml(el, node, what):
    check(el.tag == node['tag'], 'structure', '%s: element is %r, written %r', what, el.tag, node['tag'])
    want = {k: no_illegal(v) for k, v in (node['attrs'] or {}).items()}
    check(dict(el.attrib) == want, 'attribute', '%s: attributes of %s are %r, written %r', what, el.tag, dict(el.attrib), want)
    kids = list(el)
    wk = [k for k in node.get('kids', []) if k[0] in ('elm', 'single')]
    check(len(kids) == len(wk), 'structure', '%s: %s has %d children, written %d', what, el.tag, len(kids), len(wk))
    for e, (c, v) in zip(kids, wk):
        check_xml(e, v, what)
    texts = texts_between(node.get('kids', []))
    got = [el.text or ''] + [k.tail or '' for k in kids]
    compare_texts(got, texts, what, el.tag)


def texts_between(kids):
    """the text pieces before, between and after child elements"""
    out = [[]]
    for c, v in kids:
        if c in ('elm', 'single'):
            out.append([])
        else:
            out[-1].append((c, v))
    return out


def compare_texts(got, want, what, tag):
    for g, w in zip(got, want):
        if any(c == 'exact' for c, _ in w):
            v = no_illegal(w[0][1])
            check(g == v, 'text', '%s: text in %s is %r, written %r', what, tag, g, v)
            continue
        # every piece stands on its own line(s), indented
        left = g
        for c, v in w:
            v = no_illegal(v).strip(' \t\r\n')
            left = left.lstrip(' \t\r\n')
            check(left.startswith(v), 'text', '%s: text in %s is %r, written %r', what, tag, g, [x for _, x in w])
            left = left[len(v):]
        check(not left.strip(' \t\r\n'), 'text', '%s: text in %s is %r, written %r', what, tag, g, [x for _, x in w])


class Tree(html.parser.HTMLParser):
    def __init__(self):
        html.parser.HTMLParser.__init__(self, convert_charrefs=True)
        self.root = dict(tag=None, attrs={}, kids=[], texts=[''])
        self.open = [self.root]

    def node(self, tag, attrs):
        n = dict(tag=tag, attrs=dict(attrs), nattrs=len(attrs), kids=[], texts=[''])
        self.open[-1]['kids'].append(n)
        self.open[-1]['texts'].append('')
        return n

    def handle_starttag(self, tag, attrs):
        self.open.append(self.node(tag, attrs))

    def handle_startendtag(self, tag, attrs):
        self.node(tag, attrs)

    def handle_endtag(self, tag):
        if len(self.open) < 2 or self.open[-1]['tag'] != tag:
            raise ValueError('</%s> inside of %s' % (tag, self.open[-1]['tag']))
        self.open.pop()

    def handle_data(self, data):
        self.open[-1]['texts'][-1] += data

    def handle_comment(self, data):
        raise ValueError('comment')

    def handle_decl(self, d):
        raise ValueError('declaration')

    def handle_pi(self, d):
        raise ValueError('instruction')


def parse_html(s):
    t = Tree()
    t.feed(s)
    t.close()
    if len(t.open) != 1:
        raise ValueError('%s not closed' % t.open[-1]['tag'])
    return t.root


def html_attr_text(v):
    # what an HTML parser makes of it
    return str(v)


def check_html(el, node, what):
    check(el['tag'] == node['tag'], 'structure', '%s: element is %r, written %r', what, el['tag'], node['tag'])
    want = {k: html_attr_text(v) for k, v in (node['attrs'] or {}).items()}
    if node.get('css') is not None:
        style = el['attrs'].pop('style', None)
        w = dict(node['css'])
        check(style is not None, 'attribute', '%s: style of %s is missing', what, el['tag'])
        exact = ';'.join('%s: %s' % kv for kv in w.items())
        check(style == exact, 'attribute', '%s: style of %s is %r, written %r', what, el['tag'], style, w)
    check(el['attrs'] == want, 'attribute', '%s: attributes of %s are %r, written %r', what, el['tag'], el['attrs'], want)
    wk = [k for k in node.get('kids', []) if k[0] in ('elm', 'single')]
    check(len(el['kids']) == len(wk), 'structure', '%s: %s has %d children, written %d', what, el['tag'], len(el['kids']), len(wk))
    for e, (c, v) in zip(el['kids'], wk):
        check_html(e, v, what)
    compare_texts(el['texts'], texts_between(node.get('kids', [])), what, el['tag'])


def run(ch, ctx):
    from pdfmajor.converters.writers.json import JSONMaker
    from pdfmajor.converters.writers.yaml import YAMLMaker
    from pdfmajor.converters.writers.xml import XMLMaker
    from pdfmajor.converters.writers.html import HTMLMaker
    kind = ch.choice(['json', 'yaml', 'xml', 'html'])
    codec = 'utf-8'
    if ch.bool(25):
        codec = ch.choice(['latin-1', 'ascii', 'cp1252', 'utf-16-le'])
        ctx.probe('codec')
    ctx.log('%s %s' % (kind, codec))
    p = Prog(ch, ctx, kind)
    if kind == 'json':
        prog = p.json_obj()
        model = p.json_value(prog, True)
    elif kind == 'yaml':
        prog = p.yaml_obj()
        model = p.yaml_value(prog, True)
    else:
        prog = model = p.elm()
    ctx.probe(kind)
    if p.depth >= 4:
        ctx.probe('deep')
    if re.search(r'[\x00-\x08\x0b\x1b]', repr(model).encode().decode('unicode_escape', 'ignore')):
        ctx.probe('control-characters')
    maker = dict(json=JSONMaker, yaml=YAMLMaker, xml=XMLMaker, html=HTMLMaker)[kind]
    ctx.state((kind, codec, p.calls, p.depth))
    if p.calls >= 4 and p.depth >= 1:
        ctx.nontrivial = True

    with simfs.FS(ch, ctx) as fs:
        fs.buffer = ch.choice([None, 512, 64, 16])
        name = 'out.' + kind
        if ch.bool(20):
            fs.put(name, b'{"an older": "and longer file"}\n' * 500)
            ctx.probe('overwrites-longer')
        path = fs.path(name)

        def build(abort_at=None, exc=None):
            n = [0]

            def tick():
                if n[0] == abort_at:
                    raise exc
                n[0] += 1
            with maker(path, codec=codec) as b:
                if kind == 'json':
                    p.json_run(b, prog, tick)
                elif kind == 'yaml':
                    p.yaml_run(b, prog, tick)
                else:
                    p.markup_run(b, prog, tick)
            return n[0]

        def verify(what):
            data = fs.get(name)
            check(data is not None, 'missing', '%s: no file', what)
            try:
                s = data.decode(codec)
            except UnicodeError as e:
                raise core.Violation('encoding', '%s: the file is no %s: %s' % (what, codec, e))
            try:
                if kind == 'json':
                    got = json.loads(s)
                elif kind == 'yaml':
                    got = yaml.safe_load(s)
                elif kind == 'xml':
                    got = ElementTree.fromstring(s if codec != 'utf-8' else data)
                else:
                    got = parse_html(s)
                    check(len(got['kids']) == 1 and not ''.join(got['texts']).strip(), 'structure', '%s: more than one root', what)
                    got = got['kids'][0]
            except core.Violation:
                raise
            except Exception as e:
                raise core.Violation('malformed', '%s: the file does not parse: %s: %s; it holds %s' % (what, type(e).__name__, str(e)[:200], sut.short(s, 400)))
            if kind == 'json':
                check(got == model, 'value', '%s: reads %s, written %s', what, sut.short(got, 400), sut.short(model, 400))
            elif kind == 'yaml':
                check(yaml_same(got, model), 'value', '%s: reads %s, written %s (%s)', what, sut.short(got, 400), sut.short(model, 400), sut.short(s, 300))
            elif kind == 'xml':
                check_xml(got, model, what)
            else:
                check_html(got, model, what)

        fs.arm()
        try:
            ticks = sut.call('undisturbed', build, allow=(UnicodeEncodeError,))
        except sut.Expected as e:
            check(codec in ('latin-1', 'ascii', 'cp1252'), 'encoding', 'undisturbed: %s', core.describe_exc(e.exc))
            check(not fs.open_handles(), 'handles', 'left open: %s', fs.open_handles())
            ctx.probe('unencodable')
            return
        check(not fs.open_handles(), 'handles', 'left open: %s', fs.open_handles())
        verify('undisturbed')
        ref = fs.get(name)
        trace = list(fs.trace)
        if len([1 for k, _ in trace if k == 'write']) > 8:
            ctx.probe('many-writes')
        for k in range(ch.int(0, 4)):
            mode = ch.draw(4)
            fs.arm()
            if mode == 0:
                exc = ch.choice([Boom, Boom, Stop, KeyboardInterrupt, StopIteration, GeneratorExit])('body')
                if isinstance(exc, StopIteration):
                    exc = Boom('body')       # a generator-based builder may not let StopIteration through
                at = ch.draw(ticks)
                ctx.log('body raises %s at call %d' % (type(exc).__name__, at))
                ctx.fault('body-raises')
                try:
                    build(at, exc)
                except BaseException as e:
                    check(e is exc, 'body', 'the body raised %r, the caller gets %s', exc, core.describe_exc(e))
                else:
                    raise core.Violation('body', 'the body raised %r, which was swallowed' % exc)
                ctx.probe('body-raised')
            elif mode == 1:
                f = fs.pick_fault(trace)
                fs.arm(f)
                ctx.log('%s' % f)
                try:
                    sut.call('with %s' % f, build, allow=(OSError,))
                except sut.Expected as e:
                    check(fs.fired, 'exception:OSError', '%s although nothing failed', core.describe_exc(e.exc))
                    check(e.exc.errno == getattr(errno, f.kind.split('-')[-1]), 'masked', '%s was answered by %s', f, core.describe_exc(e.exc))
                    ctx.probe({'open': 'open-failed', 'write': 'write-failed', 'close': 'close-failed'}[f.kind.split('-')[0]])
                else:
                    check(not fs.fired, 'swallowed', '%s, and nobody is told', f)
            elif mode == 2:
                fs.capacity = ch.draw(len(ref) + 1) if ref else 0
                ctx.log('disk takes %d of %d bytes' % (fs.capacity, len(ref)))
                full = fs.capacity < len(ref)
                try:
                    sut.call('on a full disk', build, allow=(OSError,))
                except sut.Expected as e:
                    check(full and e.exc.errno == errno.ENOSPC, 'exception:OSError', '%s although all fits', core.describe_exc(e.exc))
                    ctx.probe('disk-full')
                else:
                    check(not full, 'swallowed', 'the disk took %d of %d bytes, and nobody is told', fs.capacity, len(ref))
            else:
                fs.always_short = ch.bool()
                f = fs.pick_fault(trace, benign=True)
                fs.arm(*([f] if f else []))
                ctx.log('short writes %s %s' % (fs.always_short, f))
                sut.call('with short or interrupted writes', build)
                check(fs.get(name) == ref, 'short-write', 'short or interrupted writes change the file')
                ctx.probe('short-writes')
            fs.disarm()
            check(not fs.open_handles(), 'handles', 'left open: %s', fs.open_handles())
        fs.arm()
        sut.call('again', build)
        check(fs.get(name) == ref, 'again', 'the same calls give %s, before %s', sut.short(fs.get(name)), sut.short(ref))
        check(sorted(fs.listing()) == [name], 'files', 'files are %s', sorted(fs.listing()))
