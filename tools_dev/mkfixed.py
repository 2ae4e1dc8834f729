"""Write the "fixed" list of known_findings.json from the fix: commits in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for line in open(os.path.join(V, 'tools_dev', 'fixes.txt')):
    a = line.split()
    if a: PROP[a[0]] = a[1:]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '4f1655c..HEAD'], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    if h not in PROP:
        print('unattributed:', line)
    for p in PROP.get(h, []):
        out.append('fixed: property=%s %s %s' % (p, h, 'before: not so: ' + s[5:]))
p = os.path.join(V, 'known_findings.json')
k = json.load(open(p)); k['fixed'] = out
json.dump(k, open(p, 'w'), indent=1)
