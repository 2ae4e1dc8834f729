"""C20: one document, one answer, in every environment."""
import os
import pickle
import subprocess
import sys

from sim import core, crypt, pdfgen, pdfsave, sut, answer, fs as simfs
from sim.sut import check
from sim.props import c12

ID = 'C20'
RUNS_QUICK = 900
RUNS_THOROUGH = 30000
RULE = ('one run = a drawn list of jobs (read, convert, export images, look up, abandon; over generated documents, some damaged) done one after the other by '
        'a new interpreter with a drawn environment, and each alone in a process of its own; non-trivial = at least three jobs over two documents')
STATE_MEASURE = 'distinct (job, hash seed class, assertions, locale, collector, log level, thread, number of jobs before)'
REAL = ['all of pdfmajor, from its import on', 'CPython started with the drawn settings', 'real files in a scratch directory']
STUB = ['the environment: hash seed, locale, assertions, collector, memory layout, logging, standard streams, thread, recursion limit, earlier jobs']
ASSUMPTIONS = ['without assertions (-O) only undamaged documents are compared', 'errors are compared by their type']
PROBES = ['sibling-font', 'chain', 'apart', 'items', 'convert', 'images', 'document', 'abandon', 'hash-seed', 'no-assertions', 'locale', 'utf8-mode', 'gc-off', 'gc-often', 'gc-between', 'log-debug', 'no-streams',
          'thread', 'recursion', 'malloc', 'cmap-path', 'damaged', 'raised', 'encrypted', 'twice', 'debug-level', 'predefined-cmaps', 'no-page-tree']


def environment(ch, ctx):
    e = {}
    v = {'PYTHONHASHSEED': '0'}
    flags = []
    if ch.bool(85):
        v['PYTHONHASHSEED'] = str(ch.int(1, 4000000))
        ctx.probe('hash-seed')
    if ch.bool(35):
        flags.append(ch.choice(['-O', '-OO']))
        ctx.probe('no-assertions')
    v['LC_ALL'] = ch.choice(['C.UTF-8', 'C', 'POSIX', 'de_DE.ISO-8859-1', ''])
    if v['LC_ALL'] != 'C.UTF-8':
        ctx.probe('locale')
        v['PYTHONCOERCECLOCALE'] = '0'
    v['PYTHONUTF8'] = ch.choice(['0', '1'])
    if v['PYTHONUTF8'] == '1':
        ctx.probe('utf8-mode')
    if ch.bool(30):
        v['PYTHONIOENCODING'] = ch.choice(['ascii', 'utf-16', 'cp1252'])
    if ch.bool(20):
        v['PYTHONMALLOC'] = ch.choice(['malloc', 'debug'])
        ctx.probe('malloc')
    if ch.bool(20):
        v['CMAP_PATH'] = '.'
        ctx.probe('cmap-path')
    if ch.bool(20):
        v['TZ'] = ch.choice(['Asia/Tokyo', 'UTC+11'])
    if ch.bool(10):
        flags.append('-X')
        flags.append('int_max_str_digits=0')
    e['gc'] = ch.choice(['on', 'on', 'off', 'often', 'between'])
    if e['gc'] != 'on':
        ctx.probe('gc-' + e['gc'])
    e['junk'] = ch.choice([0, 0, 1, 10, 1000, 20001])
    e['log'] = ch.choice(['plain', 'off', 'debug', 'debug', 'warnings'])
    if e['log'] == 'debug':
        ctx.probe('log-debug')
    e['streams'] = ch.choice(['null', 'null', 'none'])
    if e['streams'] == 'none':
        ctx.probe('no-streams')
    e['thread'] = ch.bool(30)
    if e['thread']:
        ctx.probe('thread')
    e['recursion'] = ch.choice([0, 0, 0, 3000])
    if e['recursion']:
        ctx.probe('recursion')
    e['random'] = ch.int(0, 1000)
    e['keep'] = ch.bool()
    return e, v, flags


class Doc:
    pass


def gen(ch, ctx, n, fs):
    o = pdfgen.Opts(apart=10, chain=6, outlines=30, dests=30, misc=(0, 4), ops=(0, 5), images=(0, 2), forms=(0, 2), pages=(1, 4), odd_names=10, odd_fonts=10, bad=ch.choice([0, 0, 5]))
    if ch.bool(25):
        o.font_kinds = pdfgen.FONT_KINDS_CMAP
        ctx.probe('predefined-cmaps')
    docs = [pdfgen.gen_doc(ch, o)]
    for k in docs[0].probes:
        ctx.probe(k) if k in ('apart', 'sibling-font', 'chain') else None
    while len(docs) < 3 and ch.bool(25):
        docs.append(pdfgen.evolve(ch, docs[-1]))
    if ch.bool(8):
        pdfgen.drop_page_tree(docs[-1])
        ctx.probe('no-page-tree')
    scheme = crypt.gen_scheme(ch) if ch.bool(15) else None
    if scheme:
        ctx.probe('encrypted')
    s = pdfsave.Saver(ch, crypt=scheme)
    for d in docs:
        s.save(d)
    saved = s.finish()
    r = Doc()
    r.model, r.damaged, r.password = docs[-1], False, scheme.user if scheme else None
    data = saved.data
    if ch.bool(15):
        r.damaged = True
        ctx.probe('damaged')
        for _ in range(ch.choice([1, 1, 3])):
            data, _ = c12.damage(ch, data, ctx)
    r.name = 'in%d.pdf' % n
    r.path = fs.put(r.name, data)
    return r


def gen_job(ch, ctx, d):
    doc = d.model
    j = {'kind': ch.weighted([(4, 'items'), (5, 'convert'), (2, 'images'), (3, 'document'), (1, 'abandon')]), 'path': d.name}
    ctx.probe(j['kind'])
    a = j['args'] = {'check_extractable': False}
    if d.password is not None:
        a['password'] = d.password
    if ch.bool(30):
        a['caching'] = False
    if j['kind'] != 'document':
        if ch.bool(20):
            a['maxpages'] = ch.int(1, 3)
        if ch.bool(15):
            a['pagenos'] = sorted(set(ch.int(0, 3) for _ in range(ch.int(1, 3))))
    if j['kind'] in ('items', 'images', 'abandon') and ch.bool(25):
        a['preload'] = True
    if j['kind'] == 'convert':
        j['out_type'] = ch.choice(['text', 'json', 'xml', 'html', 'yaml'])
        if ch.bool(15):
            a['codec'] = ch.choice(['utf-8', 'latin-1', 'ascii', 'cp1252'])
    if j['kind'] == 'document':
        j['nums'] = ch.shuffle(sorted(doc.objs))[:12] + [99991]
        j['dests'] = [(k if doc.dest_style == 'old' else k.encode()) for k in ('name%d' % ch.int(0, 8), 'name')]
    if j['kind'] == 'abandon':
        j['take'] = ch.int(1, 4)
    j['damaged'] = d.damaged
    return j


def first_difference(a, b, path=''):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, '%s[%d]' % (path, i))
    return '%s: %s, alone %s' % (path, sut.short(a, 300), sut.short(b, 300))


def run(ch, ctx):
    with simfs.FS(ch.sub('fs'), ctx) as fs:
        simfs.install_cmaps(fs)
        (e, v, flags) = environment(ch.sub('env'), ctx)
        docs = [gen(ch.sub('doc'), ctx, n, fs) for n in range(ch.int(1, 4))]
        if flags and flags[0].startswith('-O'):
            docs = [d for d in docs if not d.damaged]
        if not docs:
            raise core.Discard('damaged documents only')
        jobs = []
        for _ in range(ch.int(2, 10)):
            if jobs and ch.bool(15):
                jobs.append(dict(ch.choice(jobs)))
                ctx.probe('twice')
                continue
            jobs.append(gen_job(ch.sub('job'), ctx, ch.choice(docs)))
        ref = []
        for n, j in enumerate(jobs):
            def alone():
                out = fs.path('ref%d' % n)
                os.mkdir(out)
                return answer.answer(j, fs.path(j['path']), out)
            ref.append(core.apart(alone))
        todo = []
        for j in jobs:
            j = dict(j, args=dict(j['args']))
            if j['kind'] != 'document' and ch.bool(50):
                j['args']['debug_level'] = ch.choice([10, 20, 30, 40])
                ctx.probe('debug-level')
            todo.append(j)
        env = {k: os.environ[k] for k in ('PATH', 'HOME', 'CMAP_PATH') if k in os.environ}
        env.update(v, PYTHONWARNINGS='ignore', PYTHONPYCACHEPREFIX=os.environ.get('VSIM_PYC', '/nonexistent/vsim-pyc'))
        msg = pickle.dumps(dict(env=e, jobs=todo, dir=fs.path(''), repo=core.REPO, verif=os.path.dirname(os.path.dirname(os.path.abspath(simfs.__file__)))))
        script = os.path.join(os.path.dirname(os.path.abspath(simfs.__file__)), 'envrun.py')
        ctx.log('environment %s %s %s' % (sorted(v.items()), flags, sorted(e.items())))
        p = subprocess.run([sys.executable] + flags + [script], input=msg, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        check(p.returncode == 0, 'process-died', 'the interpreter ended with %d: %s', p.returncode, p.stderr[-500:].decode('latin-1'))
        got = pickle.loads(p.stdout)
        check(len(got) == len(jobs), 'process-died', '%d of %d jobs were answered: %s', len(got), len(jobs), p.stderr[-500:].decode('latin-1'))
        for n, (j, g, w) in enumerate(zip(jobs, got, ref)):
            what = 'job %d, %s%s of %s %s' % (n, j['kind'], ' ' + j.get('out_type', ''), j['path'], j['args'])
            ctx.log('%s: %s' % (what, w[0] if w[0] == 'ok' else w))
            ctx.steps += 1
            if w[0] == 'raised':
                ctx.probe('raised')
                if not j['damaged'] and w[1] not in ('UnicodeEncodeError', 'EmptyDocumentError'):
                    raise core.Discard('%s raises %s' % (what, w[1]))
            if w[1] in ('RecursionError', 'MemoryError'):
                continue
            if g != w:
                raise core.Violation('answer' if g[0] == w[0] else 'exception', '%s: %s' % (what, first_difference(g, w)))
            ctx.state((j['kind'], j.get('out_type'), bool(flags), v['LC_ALL'], e['gc'], e['log'], e['thread'], min(n, 3)))
        ctx.fault('environment')
        ctx.nontrivial = len(jobs) >= 3 and len(docs) >= 2
