import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Seeded random search, not proof: assurance is that none of the sampled executions violated the property. '
        'Trusts the reference model and generator in /verif/sim and CPython.')
TECH = {
 'C01': 'deterministic simulation: simulated input delivery (read sizes, failing reads) and operation schedules, against the written tokens',
 'C02': 'deterministic simulation: seeded partitions of content into streams and block sizes, against the uncut page and a model of its text',
 'C03': 'deterministic simulation: crash at a seeded byte of an incremental save, recovery compared with the model revision',
 'C04': 'deterministic simulation: seeded storage faults in cross-reference data, recovery compared with the model',
 'C05': 'deterministic simulation: seeded histories of lookups on one open document, against a key-value model of its revisions',
 'C06': 'deterministic simulation: seeded scheduler deciding every thread switch and iterator step, against solo runs',
 'C07': 'deterministic simulation: seeded histories of iterator operations, against a list model',
 'C08': 'deterministic simulation: injected read faults at seeded system calls, then retry, against the fault-free model',
 'C09': 'deterministic simulation: injected open/read/write/close faults during conversion, output checked against the model',
 'C10': 'deterministic simulation: seeded access histories on encrypted twins, against the plaintext model',
 'C11': 'deterministic simulation: seeded save histories with injected write faults, against the stored bytes',
 'C12': 'deterministic simulation: stored-byte faults and planted cycles under a deterministic step budget',
 'C20': 'deterministic simulation: seeded environments (hash seed, locale, assertions, collector, memory, logging, thread, earlier jobs) of a new interpreter, against each job alone',
 'C19': 'deterministic simulation: exceptions injected in front of seeded lines of the package, then other operations and retries, against the uninterrupted model',
 'C13': 'deterministic simulation: seeded builder-call programs with aborts and write faults, against a value model',
}
REASON = {
 'C14': 'A pure function of the encoded bytes and parameters: no schedule, clock, fault or history for a simulator to decide; feeding it random inputs would be property-based testing, not simulation. (Filters do run, as real components, inside the other checks.)',
 'C15': 'A pure function of the operator sequence: nothing nondeterministic is involved. (C02, C06 and C07 run the operators under varied delivery and interleavings and compare results, but do not define geometry.)',
 'C16': 'A pure function of the font dictionary and the character code.',
 'C17': 'A pure function of the layout items (what C09 adds - failure, completeness, well-formedness - is claimed there).',
 'C18': 'A pure function of the font program bytes.',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(V, 'sim', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python sim/check.py %s --tier quick' % i,
            thorough_cmd='/opt/venv/bin/python sim/check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=TECH[i], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=REASON.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python sim/selftest.py --quick', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every seam used is public (file objects, open(), class attributes) or provided by CPython (sys.settrace, sys.monitoring). Replay: /opt/venv/bin/python sim/check.py <ID> --replay replays/<file>.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks])
