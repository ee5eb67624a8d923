"""tier.py NAME MAXQ MAXT : split data/NAME into a quick part (jobs that needed at most MAXQ boxes) and data/NAMEt (the rest up to MAXT boxes),
from the box counts of a measuring run of the engine (FPSYM_JOBS=1, /tmp/o.json)"""
import sys, json, gzip
sys.argv[1:1] = []
from lib import Jobs
name, q, t = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
o = json.load(open('/tmp/o.json')); d = {x.split()[0]: int(x.split()[1]) for x in o['job_boxes']}
und = set(x.split()[0] for x in o['undecided_jobs'])
A, B = Jobs(), Jobs()
for j in gzip.open('../data/%s.jobs.gz' % name, 'rt').read().split('job ')[1:]:
    id = j.split()[0]; n = d.get(id, 0)
    J = A if 0 < n <= q and id not in und else B if 0 < n <= t and id not in und else None
    if J is not None: J.n += 1; J.out.append(('job ' + j).strip())
A.save(name); B.save(name + (sys.argv[4] if len(sys.argv) > 4 else 't'))
