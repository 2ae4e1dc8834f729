"""survey.py CXX RUNS SEED: every kind of violation, without stopping at the first"""
import sys, os, re, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from sim import core
from sim.check import load
prop = load(sys.argv[1])
seen = collections.OrderedDict()
def on(idx, res):
    if res['status'] in ('violation', 'error', 'hang'):
        k = re.sub(r'\d+', 'N', (res.get('kind') or res['status']) + ': ' + res['message'][-220:] if res['status'] != 'violation' else res['kind'] + ': ' + res['message'][:220])
        seen.setdefault(k, []).append(idx)
    return False
core.batch(prop, int(sys.argv[3]), int(sys.argv[2]), 800.0, 8, on)
for k, v in sorted(seen.items(), key=lambda x: -len(x[1])):
    print(len(v), v[:5], k)
