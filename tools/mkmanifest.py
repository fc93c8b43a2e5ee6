#!/opt/venv/bin/python
"""writes MANIFEST.json from properties.jsonl and props/meta.py"""
import os, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props.meta import META
NA = {'C30': 'A pure function of its arguments: the compiled windows take one particle and one array, with no rank, schedule, time or I/O to simulate. Their effect on distributed meshes is covered by C09, C10 and C11.',
      'C31': 'A pure function of an integer vector; nothing nondeterministic or shared takes part.',
      'C32': 'A pure function of two integers; its use in distributed resampling is covered by C22.'}
NOTE = ('Seeded search over rank schedules, MPI completion and reduction choices, injected failures and generated workloads in one process; a clean batch is evidence for the runs made, not a proof. '
        'mpi4py, pfft and the mpsort kernel are simulated; all pmesh code is real.')
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in META:
        checks.append(dict(property=i, quick_cmd='%s check.py %s --tier quick' % (PY, i), thorough_cmd='%s check.py %s --tier thorough' % (PY, i), evidence_file='evidence/%s.json' % i,
                           technique='deterministic simulation with fault injection', level='exploration', level_note=META[i].get('note', NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for it.')))
m = dict(version=1, setup_cmd="%s -c 'import sim.build, sim.core, sim.mpi, props.meta'" % PY, checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
