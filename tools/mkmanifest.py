"""writes MANIFEST.json from the properties that have a check"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
    'C20': 'serialising and rebuilding an object is a pure function of one object in one thread: no schedule, clock, I/O, fault or history for a simulator to decide; a search over inputs would be property-based testing, another technique',
    'C21': 'acceptance of a value by a type is a pure function of the schema and the value, with nothing nondeterministic to put behind a seam',
    'C22': 'the properties of a class are a pure function of its schemas; what depends on order, failure and concurrency in building classes is decided by C07 and C08',
}
NOTE = {
    'C01': 'seeded search over crash points and system call failures against the real save code; not every combination is enumerated',
}
checks = []
for p in props:
    i = p['id']
    f = os.path.join(here, 'sim', 'props', i.lower() + '.py')
    if not os.path.exists(f):
        continue
    level = [l for l in open(f) if l.startswith('LEVEL')][0].split("'")[1]
    checks.append({
        'property': i,
        'quick_cmd': 'bash check.sh %s quick' % i,
        'thorough_cmd': 'bash check.sh %s thorough' % i,
        'technique': 'deterministic simulation with fault injection: seeded search over %s' % ', '.join(
            x.replace('_', ' ') for x in p['quantifier']['over']),
        'level': level,
        'level_note': NOTE.get(i, 'seeded search: holds on the executions explored, which evidence/%s.json counts; not a proof' % i),
    })
done = {c['property'] for c in checks}
na = [{'property': k, 'reason': v} for k, v in NA.items()]
na += [{'property': p['id'], 'reason': 'no check yet'} for p in props if p['id'] not in done and p['id'] not in NA]
json.dump({'version': 1, 'setup_cmd': 'gcc -O1 -shared -fPIC -o /dev/null sim/simfs.c -ldl && /opt/venv/bin/python -c "import sys"',
           'checks': checks, 'not_applicable': na,
           'notes': 'check.sh CXX quick|thorough runs the simulation of a property against /repo; check.sh CXX replay FILE plays a replay file again. No hook was added to /repo: every seam is put in place from outside (see DESIGN.md).'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
