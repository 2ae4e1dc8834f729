#!/usr/bin/env python
"""Proves determinism of the simulator: the same seeds, run twice in different
processes, at different worker counts and under another PYTHONHASHSEED, must
give identical event-log hashes.   selftest.py [--quick] [ID...]"""
import glob
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def hashes(pid, runs, workers, hashseed, tmp):
    out = os.path.join(tmp, '%s-%d-%s.json' % (pid, workers, hashseed))
    env = dict(os.environ, VSIM_HASHSEED=str(hashseed), VERIF_TIER='quick')
    env.pop('VSIM_ENV', None)
    subprocess.run([sys.executable, '-B', os.path.join(HERE, 'check.py'), pid, '--runs', str(runs), '--workers', str(workers),
                    '--dump-hashes', out, '--no-shrink'], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(out) as fp:
        return json.load(fp)


def main():
    args = sys.argv[1:]
    quick = '--quick' in args
    ids = [a for a in args if not a.startswith('-')]
    if not ids:
        ids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(HERE, 'props', 'c*.py')))
    runs = 12 if quick else 400
    bad = 0
    ev = {}
    with tempfile.TemporaryDirectory() as tmp:
        for pid in ids:
            p = os.path.join(os.path.dirname(HERE), 'evidence', pid + '.json')
            a = hashes(pid, runs, 8, 0, tmp)
            variants = [hashes(pid, runs, 3, 12345, tmp)]
            if not quick:
                variants += [hashes(pid, runs, 8, 0, tmp), hashes(pid, runs, 1, 7, tmp)]
            n = sum(1 for b in variants for k in a if k in b and a[k] != b[k])
            miss = sum(1 for b in variants for k in a if k not in b)
            print('%s: %d runs x %d, %d diverged, %d missing' % (pid, len(a), 1 + len(variants), n, miss))
            bad += n
    if quick:
        return 0     # setup: informative only
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
