"""Reverts each fix in a scratch copy of /repo and shows what the property's check says.
usage: revert.py [COMMIT...]"""
import subprocess, sys, os, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes = [l.split()[:2] for l in open(os.path.join(HERE, 'tools_dev/fixes.txt')) if l.strip() and not l.startswith('#')]
want = sys.argv[1:]
for h, prop in fixes:
    if want and not any(h.startswith(w) or w == prop for w in want):
        continue
    d = '/tmp/revert-%s' % h
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    r = subprocess.run(['git', '-C', d, 'revert', '-n', h], capture_output=True, text=True)
    subj = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%s', h], text=True).strip()
    if r.returncode:
        print(h, prop, 'CONFLICT', subj, flush=True)
    else:
        runs = os.environ.get('RUNS')
        c = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'sim.check', prop, '--seed', os.environ.get('VERIF_SEED', '1'), '--no-shrink'] + (['--runs', runs] if runs else []), cwd=HERE,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/ev'), capture_output=True, text=True)
        line = [l for l in c.stdout.splitlines() if 'minimised' in l or 'violat' in l.lower()]
        print(h, prop, c.returncode, subj, '|', (line or [''])[0][:150], flush=True)
    shutil.rmtree(d, ignore_errors=True)
