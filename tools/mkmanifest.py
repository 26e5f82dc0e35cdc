#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from plan import PLAN
NA = {
 'N01': 'Pure functions of their input: no concurrency, time, I/O or party whose behaviour a simulator could vary; seeded scheduling and fault injection cannot reach more than calling them with random inputs, which would be plain property testing. (Their effect on the wire is covered by C01, C04, C14.)',
 'N02': 'A header of pure pointer operations used under the locks of its callers: nothing to schedule and no fault to inject. (Its use by the frame buffer is covered by C11.)',
 'N03': 'Shell maintainer scripts run by dpkg/opkg/pacman; running them means running a package manager and debconf on a real file system, which cannot be put under a deterministic simulator here.',
 'N04': 'The Windows sources need winsock and cannot be compiled in this sandbox (no mingw), so there is nothing to simulate.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in PLAN:
        progs = sorted(set(e[0] for e in PLAN[i])); scen = sorted(set(e[2] for e in PLAN[i]))
        checks.append(dict(property=i, quick_cmd='python3 check.py quick ' + i, thorough_cmd='python3 check.py thorough ' + i, evidence_file='evidence/%s.json' % i,
          technique='deterministic simulation of the whole daemon with seeded schedules and fault injection; history checked against a reference model',
          level='exploration',
          level_note='No violation on the seeded executions explored (programs: %s; scenarios: %s). The sensor runs its unmodified code; libc, kernel, network, clock and peers are simulated. Trusts that model and the reference oracles; not exhaustive.' % (', '.join(progs), ', '.join(scen))))
    else: na.append(dict(property=i, reason=NA.get(i, 'No check yet.')))
m = dict(version=1, setup_cmd='python3 check.py build', checks=checks, not_applicable=na,
  notes='No hooks in /repo are needed: the seam is made on the object files (objcopy redirects the libc calls of the sensor to the simulator, compiler instrumentation makes memory accesses visible). See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
