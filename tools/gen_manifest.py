"""Writes MANIFEST.json from the list of implemented checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C20': 'Interpolation is a pure function of the field data and the sampling point: no schedule, clock, I/O, randomness or crash point enters, so there is nothing for a simulator to control. (Which data are sampled when, under lazy loading and faults, is C10 and C16.)',
    'C21': 'Unit and calendar conversions are pure functions of their arguments; no nondeterminism or fault can influence them.',
    'C22': 'The order of accuracy of an integration scheme is a mathematical property of a pure function of the fields; no schedule or fault enters.',
    'C23': 'The kernel translator is a pure function from source text to C code; the family of technique has nothing to schedule or fail there. (That the compiled code that runs is the one that was built, under faults, is C14; agreement of both modes over run histories is C07.)',
}
TECH = 'deterministic simulation with fault injection: seeded search over generated histories, schedules and faults of the real code, judged against an executable reference model'
NOTES = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(HERE, 'dst', 'props', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'technique': TECH, 'level': 'exploration', 'level_note': NOTES.get(i, NOTES['default'])})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'true',
     'hooks': {'guard': 'none: all seams are installed from outside the package (dst/seams.py, dst/simmpi.py)', 'enable': 'nothing to enable', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
