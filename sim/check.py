#!/usr/bin/env python
"""check.py <PROPERTY> [--tier quick|thorough] [--runs N] [--seed S]
   check.py <PROPERTY> --replay FILE
   check.py <PROPERTY> --index I          one run, with its event log

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the harness itself failed.
"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def _reexec():
    """Fixed interpreter configuration: no bytecode in /repo, fixed hash seed."""
    if os.environ.get('VSIM_ENV') == '1':
        return
    env = dict(os.environ)
    env['VSIM_ENV'] = '1'
    env.setdefault('VSIM_HASHSEED', '0')
    env['PYTHONHASHSEED'] = env['VSIM_HASHSEED']
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = '/nonexistent/vsim-pyc'
    env['LC_ALL'] = 'C.UTF-8'
    for k in ('CMAP_PATH', 'PYTHONPATH', 'PYTHONWARNINGS', 'PYTHONSTARTUP'):
        env.pop(k, None)
    try:
        # no address randomisation, here and in what is started from here
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    os.execve(sys.executable, [sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


def load(pid):
    from sim import core
    sys.path.insert(0, core.REPO)
    if pid == 'C06':
        from sim import sched
        sched.patch_locks()
    import pdfmajor
    got = os.path.dirname(os.path.abspath(pdfmajor.__file__))
    if got != os.path.join(os.path.abspath(core.REPO), 'pdfmajor'):
        raise RuntimeError('pdfmajor imported from %s, not %s' % (got, core.REPO))
    import logging
    logging.disable(logging.CRITICAL)
    import yaml, json, zlib, gzip, pickle, xml.sax, html.parser, html.entities, encodings.utf_8, encodings.latin_1, encodings.utf_16, encodings.ascii  # noqa
    importlib.import_module('pdfmajor.interpreter')
    importlib.import_module('pdfmajor.converters')
    importlib.import_module('pdfmajor.parser.PDFPage')
    importlib.import_module('pdfmajor.parser.cmapdb')
    import gc
    gc.freeze()
    return importlib.import_module('sim.props.' + pid.lower())


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return [f for f in json.load(fp)['findings'] if f['property'] == pid]


def safe_load(pid):
    """A SUT that does not even import is broken, but not by this property."""
    return load(pid)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--index', type=int)
    ap.add_argument('--workers', type=int, default=len(os.sched_getaffinity(0)))
    ap.add_argument('--dump-hashes')
    ap.add_argument('--no-shrink', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    from sim import core
    if a.prop == 'C20':
        # compiled code of the interpreters it starts, for as long as this check runs
        import atexit
        import shutil
        import tempfile
        os.environ['VSIM_PYC'] = tempfile.mkdtemp(prefix='vsim-pyc-')
        me = os.getpid()
        atexit.register(lambda d: os.getpid() == me and shutil.rmtree(d, ignore_errors=True), os.environ['VSIM_PYC'])
    prop = load(a.prop)

    if a.replay:
        with open(a.replay) as fp:
            rp = json.load(fp)
        sb = rp.get('step_budget')
        if 'run_seed' in rp:
            res = core.run_alone(prop, lambda: core.Choices(seed=rp['run_seed']), core.HANG_LIMIT, step_budget=core.HANG_STEPS)
            died = res['status'] == 'hang' or os.WIFSIGNALED(res.get('died') or 0)
            print('status: %s %s' % (res['status'], res.get('message', '')))
            if died:
                print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
            return 1 if died else 0 if res['status'] in ('ok', 'discard') else 2
        res = core.run_alone(prop, lambda: core.Choices(replay=rp['choices']), 600.0, verbose=True, step_budget=sb)
        for ev in res.get('events', []):
            print('  ' + ev)
        print('status: %s %s %s' % (res['status'], res.get('kind', ''), res.get('message', '')))
        if res['status'] == 'violation':
            same = res.get('hash') == rp.get('hash')
            print('event log identical to the recorded one: %s' % same)
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
            return 1
        return 0 if res['status'] in ('ok', 'discard') else 2

    if a.index is not None:
        s = core.derive_seed(a.seed, prop.ID, a.index)
        res = core.run_alone(prop, lambda: core.Choices(seed=s), 600.0, verbose=True)
        for ev in res.get('events', []):
            print('  ' + ev)
        print({k: res[k] for k in res if k not in ('events', 'states', 'rec')})
        print('choices:', core.size_of(res.get('rec') or {}))
        return 0

    print('%s: VERIF_SEED=%d tier=%s workers=%d repo=%s' % (prop.ID, a.seed, a.tier, a.workers, core.REPO), flush=True)
    n_runs = a.runs or (prop.RUNS_THOROUGH if a.tier == 'thorough' else prop.RUNS_QUICK)
    cap = 20000.0 if a.tier == 'thorough' else 420.0
    agg = dict(ok=0, discard=0, evals=0, steps=0, nontrivial=0)
    faults, probes, states, samples, hashes = {}, {}, set(), [], {}
    keys = set()
    errors, viols, known_hits = [], [], {}
    known = known_findings(prop.ID)
    t_start = time.monotonic()

    def on_result(idx, res):
        if a.dump_hashes:
            hashes[idx] = res.get('hash')
        st = res['status']
        if st == 'hang':
            errors.append((idx, res['message']))
            return True
        if st == 'error':
            errors.append((idx, res['message']))
            return len(errors) > 3 or True
        agg['evals'] += 1
        agg['steps'] += res['steps']
        for k, v in res['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in res['probes'].items():
            probes[k] = probes.get(k, 0) + v
        states.update(res['states'])
        if res['nontrivial']:
            keys.add(res['hash'])
        if st == 'violation':
            for f in known:
                if f['signature'] == res.get('kind') and f.get('contains', '') in res['message']:
                    known_hits[f['id']] = known_hits.get(f['id'], 0) + 1
                    return False
            viols.append((idx, res))
            return True
        agg[st] = agg.get(st, 0) + 1
        if st == 'ok' and len(samples) < 3 and res['nontrivial'] and res.get('sample'):
            samples.append({'run': idx, 'trace': res['sample']})
        return False

    done, wall = core.batch(prop, a.seed, n_runs, cap, a.workers, on_result)
    search_wall = time.monotonic() - t_start

    # directed reproduction of recorded findings
    for f in known:
        rec = f.get('choices')
        if rec is None:
            continue
        res = core.run_alone(prop, lambda: core.Choices(replay=rec), 120.0)
        if res['status'] == 'violation' and res['kind'] == f['signature']:
            known_hits[f['id']] = known_hits.get(f['id'], 0) + 1
        elif res['status'] == 'violation':
            viols.append((-1, res))
    for f in known:
        if known_hits.get(f['id']):
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, f['what']))

    rc = 0
    if viols:
        idx, res = viols[0]
        rec = res['rec']
        execs = 0
        sb = core.HANG_STEPS if res['kind'] == 'no-termination' and not getattr(prop, 'OWN_STEPS', False) else None
        if res.get('by_seed'):
            # nothing came back from this run but its end: replayed from the seed
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join('replays', '%s-seed%d-run%d.json' % (prop.ID, a.seed, idx))
            with open(os.path.join(VERIF, path), 'w') as fp:
                json.dump({'property': prop.ID, 'verif_seed': a.seed, 'run': idx, 'kind': res['kind'], 'message': res['message'],
                           'run_seed': core.derive_seed(a.seed, prop.ID, idx), 'choices': {}}, fp, indent=1)
            print('run %d (seed %d): %s: %s' % (idx, a.seed, res['kind'], res['message']))
            print('VIOLATION property=%s replay=%s' % (prop.ID, path))
            rc = 1
    if viols and rc == 0:
        if not a.no_shrink:
            rec, execs = core.shrink(prop, rec, res['kind'], 45.0 if a.tier == 'quick' else 240.0, step_budget=sb)
        final = core.run_alone(prop, lambda: core.Choices(replay=rec), 600.0, verbose=True, step_budget=sb)
        if final['status'] != 'violation':
            rec = res['rec']
            final = core.run_alone(prop, lambda: core.Choices(replay=rec), 600.0, verbose=True, step_budget=sb)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join('replays', '%s-seed%d-run%d.json' % (prop.ID, a.seed, idx))
        with open(os.path.join(VERIF, path), 'w') as fp:
            json.dump({'property': prop.ID, 'verif_seed': a.seed, 'run': idx,
                       'kind': final.get('kind'), 'message': final.get('message'),
                       'choices': rec, 'original_choices': core.size_of(res['rec']), 'shrink_execs': execs,
                       'step_budget': sb, 'hash': final.get('hash'), 'trace': final.get('events')}, fp, indent=1)
        for ev in (final.get('events') or [])[-40:]:
            print('  ' + ev)
        print('run %d (seed %d), %d choices minimised to %d: %s: %s' % (
            idx, a.seed, core.size_of(res['rec']), core.size_of(rec), final.get('kind'), final.get('message')))
        if final['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (prop.ID, path))
            rc = 1
        else:
            print('harness error: violation did not replay: %r' % (res.get('message'),))
            rc = 2
    if errors and rc == 0:
        print('harness error in run %r:\n%s' % errors[0])
        rc = 2
    if agg['evals'] == 0 and rc == 0:
        print('harness error: nothing was evaluated')
        rc = 2

    wall_s = time.monotonic() - t_start
    zero = [p for p in getattr(prop, 'PROBES', []) if not probes.get(p)]
    ev = {
        'property': prop.ID, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': agg['evals'],
            'distinct_nontrivial': len(keys),
            'rule': prop.RULE,
            'samples': samples,
            'runs_requested': n_runs, 'runs_started': done, 'runs_discarded': agg['discard'],
            'seeds_and_runs_per_hour': round(agg['evals'] / max(search_wall, 1e-6) * 3600),
            'simulated_steps': agg['steps'],
            'simulated_time': prop.SIM_TIME if hasattr(prop, 'SIM_TIME') else
                'the code under test reads no clock; simulated progress is counted in steps (I/O calls delivered, scheduler decisions, operations): %d' % agg['steps'],
            'faults_injected': dict(sorted(faults.items())),
            'probes': dict(sorted(probes.items())),
            'probes_never_hit': zero,
            'distinct_states': len(states),
            'state_measure': prop.STATE_MEASURE,
            'real_components': prop.REAL,
            'stubbed_components': prop.STUB,
            'workers': a.workers,
            'known_findings_hit': known_hits,
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(wall_s, 2),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.ID + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    if a.dump_hashes:
        with open(a.dump_hashes, 'w') as fp:
            json.dump(hashes, fp, sort_keys=True)
    print('%s: %d runs, %d distinct non-trivial, %d states, %d steps, faults %s, %.1f s -> %s' % (
        prop.ID, agg['evals'], len(keys), len(states), agg['steps'], dict(sorted(faults.items())), wall_s,
        {0: 'held', 1: 'VIOLATED', 2: 'HARNESS ERROR'}[rc]))
    if zero:
        print('%s: probes never hit: %s' % (prop.ID, zero))
    return rc


if __name__ == '__main__':
    _reexec()
    import shutil
    import tempfile
    os.environ['VSIM_ROOT'] = tempfile.mkdtemp(prefix='vsim-')
    try:
        rc = main()
    finally:
        shutil.rmtree(os.environ['VSIM_ROOT'], ignore_errors=True)
    sys.exit(rc)
