"""Makes /verif/seeded/<id>/ from tools_dev/seedspec.py and the demo.py in it, and tries it out.
usage: mkseed.py [make|tests|check] [ID...]
 make: writes patch.diff, demo.sh, meta.json; the demo must pass without and fail with the patch
 tests: the repository's tests still pass with the patch
 check: the property's check reports it"""
import sys, os, json, shutil, subprocess, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedspec import SEEDS
BASE = '4f1655c'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# run with cwd /repo, after the build
exec /opt/venv/bin/python -B -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def copy(id):
    d = '/tmp/seed-%s' % id
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    sh(['git', '-C', d, 'checkout', '-q', '--', '.'])
    return d

def demo(id, d):
    s = os.path.join(HERE, 'seeded', id)
    t = '/tmp/seeddemo-%s' % id
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(s, t)
    try:
        r = sh(['bash', os.path.join(t, 'demo.sh')], cwd=d, timeout=300)
        return r.returncode, (r.stdout + r.stderr).strip()[-300:]
    finally:
        shutil.rmtree(t, ignore_errors=True)

def make(id, spec):
    s = os.path.join(HERE, 'seeded', id)
    shutil.copy(os.path.join(HERE, 'tools_dev/minipdf.py'), s)
    with open(os.path.join(s, 'demo.sh'), 'w') as f:
        f.write(DEMO)
    d = copy(id)
    try:
        blame_bad = []
        rc0, out0 = demo(id, d)
        for path, old, new in spec['edits']:
            p = os.path.join(d, 'pdfmajor', path)
            with open(p, newline='') as f:
                t = f.read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) == 1, (id, path, t.count(old), old)
            with open(p, 'w', newline='') as f:
                f.write(t.replace(old, new))
        diff = sh(['git', '-C', d, 'diff']).stdout
        # every removed line has to be one of the original
        cur = None
        for path in sorted(set(e[0] for e in spec['edits'])):
            rel = 'pdfmajor/' + path
            blame = [l[:8].lstrip('^') for l in sh(['git', '-C', d, 'blame', '-s', 'HEAD', '--', rel]).stdout.splitlines()]
            dd = sh(['git', '-C', d, 'diff', '-U0', '--', rel]).stdout
            n = 0
            for l in dd.splitlines():
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    n = int(m.group(1))
                elif l.startswith('-') and not l.startswith('---'):
                    if not blame[n-1].startswith(BASE):
                        blame_bad.append(l)
                    n += 1
            if not any(l.startswith('-') and not l.startswith('---') for l in dd.splitlines()):
                blame_bad.append('nothing removed')
        with open(os.path.join(s, 'patch.diff'), 'w', newline='') as f:
            f.write(diff)
        with open(os.path.join(s, 'meta.json'), 'w') as f:
            json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, f, indent=1)
            f.write('\n')
        rc1, out1 = demo(id, d)
        ok = rc0 == 0 and rc1 not in (0, 126, 127) and not blame_bad
        print(id, 'ok' if ok else 'BAD', rc0, rc1, out0 if rc0 else '', '|', out1.splitlines()[-1][:150] if out1 else '', '|', blame_bad or '', flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def patched(id):
    d = copy(id)
    subprocess.check_call(['git', '-C', d, 'apply', os.path.join(HERE, 'seeded', id, 'patch.diff')])
    return d

def tests(id, spec):
    d = patched(id)
    try:
        with open('/opt/vp/test.sh') as f:
            t = f.read()
        t = t.replace('cd /repo', 'cd ' + d).replace('--rootdir=/repo', '--rootdir=' + d)
        with open('/tmp/seedtest-%s.sh' % id, 'w') as f:
            f.write(t)
        out = '/tmp/seedtest-%s.json' % id
        env = dict(os.environ, PYTHONPATH='')
        r = sh(['bash', '/tmp/seedtest-%s.sh' % id, out], cwd=d, env=env)
        b = json.load(open('/opt/vp/BASELINE.json'))
        o = json.load(open(out))
        print(id, 'tests', {k: (len(v) if hasattr(v, '__len__') else v) for k, v in o.items()},
              'base', {k: (len(v) if hasattr(v, '__len__') else v) for k, v in b.items()}, flush=True)
        os.remove('/tmp/seedtest-%s.sh' % id)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(id, spec):
    d = patched(id)
    try:
        runs = os.environ.get('RUNS')
        r = sh([PY, '-W', 'ignore', '-B', '-m', 'sim.check', spec['property'], '--seed', os.environ.get('VERIF_SEED', '1')]
               + (['--runs', runs] if runs else []) + ([] if os.environ.get('SHRINK') else ['--no-shrink']),
               cwd=HERE, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/ev'))
        lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'minimised' in l or 'violat' in l.lower()]
        print(id, 'check', r.returncode, (lines or [r.stderr[-200:]])[0][:220], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)

what = sys.argv[1]
for id, spec in SEEDS.items():
    if len(sys.argv) > 2 and id not in sys.argv[2:] and spec['property'] not in sys.argv[2:]:
        continue
    {'make': make, 'tests': tests, 'check': check}[what](id, spec)
