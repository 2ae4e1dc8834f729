"""Mutation of the original lines of pdfmajor, to find what no check sees.
usage: mutate.py list [SUBSTRING]            prints the mutants
       mutate.py run OUT.jsonl [SUBSTRING] [--per N] [--seed S]   runs the checks of the file against a sample
Everything happens in scratch copies below /tmp."""
import ast, sys, os, re, json, random, shutil, subprocess, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '4f1655c'
SCALE = float(os.environ.get('SCALE', '1'))
PLAN = [
    ('parser/PSStackParser/types.py', [('C01', 2000), ('C06', 150)]),
    ('parser/PSStackParser/', [('C01', 5000), ('C02', 800), ('C04', 600), ('C03', 500)]),
    ('parser/PDFParser.py', [('C01', 2500), ('C05', 700), ('C04', 1200), ('C08', 700), ('C12', 1000), ('C03', 800)]),
    ('parser/PDFContentParser.py', [('C02', 2500), ('C12', 700), ('C07', 400)]),
    ('parser/PDFDocument/PDFXRef.py', [('C03', 1800), ('C04', 2000), ('C05', 900), ('C08', 1200), ('C12', 1200)]),
    ('parser/PDFDocument/PDFSecurityHandler.py', [('C10', 2500), ('C12', 500)]),
    ('parser/PDFDocument/', [('C05', 1200), ('C03', 1500), ('C04', 1200), ('C08', 1200), ('C10', 1500), ('C12', 1500), ('C06', 150)]),
    ('parser/PDFPage.py', [('C07', 2000), ('C05', 900), ('C08', 1200), ('C12', 1200), ('C04', 600)]),
    ('parser/PDFStream/', [('C05', 1000), ('C11', 2000), ('C10', 1200), ('C08', 800), ('C02', 1500), ('C12', 1500)]),
    ('parser/cmapdb/', [('C09', 800), ('C06', 250), ('C12', 800), ('C02', 800), ('C07', 500)]),
    ('parser/EncodingDB.py', [('C06', 300), ('C09', 800), ('C02', 800)]),
    ('interpreter/commands/state/layout/', [('C09', 1200), ('C02', 1500), ('C11', 2000), ('C07', 600)]),
    ('interpreter/commands/state/PDFTextState/', [('C09', 1200), ('C02', 1500), ('C07', 1200), ('C06', 250), ('C08', 900), ('C12', 1500)]),
    ('interpreter/', [('C07', 1800), ('C02', 2000), ('C09', 900), ('C08', 1200), ('C12', 1500), ('C06', 200)]),
    ('converters/writers/', [('C13', 6000), ('C09', 800)]),
    ('converters/', [('C09', 2500), ('C12', 300)]),
    ('BMPWriter/', [('C11', 4000)]),
    ('utils/', [('C09', 1000), ('C11', 1500), ('C12', 1500), ('C02', 1500), ('C05', 600), ('C13', 1500)]),
    ('__init__.py', [('C07', 1200), ('C08', 1000), ('C09', 800)]),
]
SKIP = ('ccitt.py', 'CFFFont', 'TrueTypeFont', 'Type1FontHeader', 'fontmetrics', 'glyphlist', 'latin_enc', 'execptions', 'utils/log.py', 'PDFStream/PDFStream.py')

def files():
    root = '/repo/pdfmajor'
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), root)
                if not any(s in rel for s in SKIP):
                    yield rel

def original(rel):
    out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', 'pdfmajor/' + rel], capture_output=True, text=True).stdout
    return [l[:8].lstrip('^').startswith(BASE) for l in out.splitlines()]

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}

def mutants(rel):
    with open('/repo/pdfmajor/' + rel, newline='') as f:
        text = f.read()
    nl = '\r\n' if '\r\n' in text else '\n'
    text = text.replace('\r\n', '\n')
    try:
        tree = ast.parse(text)
    except SyntaxError:
        return
    lines = text.split('\n')
    orig = original(rel)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = text.encode()
    def span(n):
        return offs[n.lineno-1] + n.col_offset, offs[n.end_lineno-1] + n.end_col_offset
    def src(n):
        a, b = span(n)
        return raw[a:b].decode()
    func = {}
    def walk(n, name):
        for c in ast.iter_child_nodes(n):
            nm = name
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                nm = (name + '.' if name else '') + c.name
            func[c] = nm
            walk(c, nm)
    walk(tree, '')
    def ok(n):
        return all(orig[i] for i in range(n.lineno-1, n.end_lineno) if i < len(orig)) and 'log.' not in src(n)[:8]
    def emit(n, kind, new, target=None):
        a, b = span(target or n)
        return (rel, n.lineno, func.get(n, ''), kind, a, b, raw[a:b].decode(), new, nl)
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or not func.get(n):
            continue
        if not ok(n) and not isinstance(n, (ast.If, ast.While, ast.For, ast.Try, ast.ExceptHandler, ast.With)):
            continue
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and not isinstance(n, ast.AnnAssign):
            yield emit(n, 'drop', 'pass')
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            yield emit(n, 'drop', 'pass')
        elif isinstance(n, (ast.If, ast.While)) and orig[n.lineno-1] and ok(n.test):
            if not (isinstance(n.test, ast.Constant)):
                yield emit(n, 'cond-true', '(True or %s)' % src(n.test), n.test) if isinstance(n, ast.If) else emit(n, 'cond-not', 'not (%s)' % src(n.test), n.test)
                yield emit(n, 'cond-false', '(False and %s)' % src(n.test), n.test)
        elif isinstance(n, ast.IfExp):
            yield emit(n, 'ifexp', src(n.body))
            yield emit(n, 'ifexp', src(n.orelse))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            yield emit(n, 'cmp', '%s %s %s' % (src(n.left), CMP[type(n.ops[0])], src(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                yield emit(n, 'bool', '(' + src(v) + ')')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            yield emit(n, 'const', str(n.value + 1))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            yield emit(n, 'arith', '(' + src(n.left) + ')')
            yield emit(n, 'arith', '(' + src(n.right) + ')')
        elif isinstance(n, ast.Break):
            yield emit(n, 'break', 'pass')
        elif isinstance(n, ast.Continue):
            yield emit(n, 'continue', 'pass')
        elif isinstance(n, ast.Raise):
            yield emit(n, 'raise', 'pass')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None and orig[n.lineno-1]:
            yield emit(n, 'except-all', 'Exception', n.type)
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield emit(n, 'return', 'return None')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'lower', 'upper', 'strip', 'encode', 'decode') :
            yield emit(n, 'no-' + n.func.attr, src(n.func.value))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield emit(n, 'not', '(' + src(n.operand) + ')')

def plan(rel):
    for pre, checks in PLAN:
        if rel.startswith(pre):
            return checks
    return []

def work(id, m, vdir):
    rel, line, fn, kind, a, b, old, new, nl = m
    d = '/tmp/mut/%s' % id
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo/pdfmajor', d + '/pdfmajor', ignore=shutil.ignore_patterns('__pycache__'))
    try:
        p = d + '/pdfmajor/' + rel
        with open(p, newline='') as f:
            raw = f.read().replace('\r\n', '\n').encode()
        assert raw[a:b].decode() == old
        out = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(out)
        except SyntaxError:
            return 'syntax', ''
        with open(p, 'wb') as f:
            f.write(out.replace(b'\n', nl.encode()))
        env = dict(os.environ, VERIF_REPO=d, PYTHONWARNINGS='ignore')
        for prop, runs in plan(rel):
            try:
                r = subprocess.run([PY, '-B', '-m', 'sim.check', prop, '--runs', str(int(runs*SCALE)), '--seed', '11', '--no-shrink', '--workers', '4'],
                               cwd=vdir, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return prop, 'timeout'
            if r.returncode != 0:
                t = r.stdout + r.stderr
                k = re.search(r'(kind|violation)[^\n]*', t)
                return prop, (re.findall(r'VIOLATION[^\n]*', t) or ['rc%d' % r.returncode])[0][:60] + ' ' + t.strip()[-200:].replace('\n', ' / ')
        return None, ''
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    mode = sys.argv[1]
    args = [a for a in sys.argv[2:] if not a.startswith('--')]
    opts = dict(a[2:].split('=') for a in sys.argv[2:] if a.startswith('--'))
    sub = (args[1] if mode == 'run' and len(args) > 1 else args[0] if mode == 'list' and args else '')
    ms = [m for rel in files() if sub in rel for m in mutants(rel)]
    if mode == 'list':
        for m in ms:
            print(m[0], m[1], m[2], m[3], repr(m[6][:50]), '->', repr(m[7][:40]))
        print(len(ms))
        return
    rnd = random.Random(int(opts.get('seed', 1)))
    per = int(opts.get('per', 3))
    by = {}
    for m in ms:
        by.setdefault((m[0], m[2]), []).append(m)
    pick = []
    for k in sorted(by):
        pick += rnd.sample(by[k], min(per, len(by[k])))
    out = args[0]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['kind'], d['old'], d['new'], d['at']))
    vdir = '/tmp/mut/verif-%d' % os.getpid()
    shutil.copytree(HERE, vdir, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
    q = queue.Queue()
    for i, m in enumerate(pick):
        if (m[0], m[1], m[3], m[6], m[7], m[4]) not in done:
            q.put((i, m))
    print(len(pick), 'mutants,', q.qsize(), 'to do', flush=True)
    lock = threading.Lock()
    def loop():
        while True:
            try:
                i, m = q.get_nowait()
            except queue.Empty:
                return
            try:
                prop, how = work('%d-%d' % (os.getpid(), i), m, vdir)
            except Exception as e:
                prop, how = 'error', repr(e)
            with lock, open(out, 'a') as f:
                f.write(json.dumps({'file': m[0], 'line': m[1], 'func': m[2], 'kind': m[3], 'at': m[4], 'old': m[6], 'new': m[7], 'by': prop, 'how': how}) + '\n')
    ts = [threading.Thread(target=loop) for _ in range(int(opts.get('par', 2)))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(vdir, ignore_errors=True)

main()
