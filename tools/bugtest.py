#!/usr/bin/env python3
"""development aid: try planted bugs in scratch copies of /repo.
 bugtest.py [--no-tests] [--checks C01,C02|own|none] [--seconds N] ID...   (all of /verif/seeded by default)"""
import sys, os, subprocess, json, shutil, re, argparse, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('ids', nargs='*'); ap.add_argument('--no-tests', action='store_true'); ap.add_argument('--no-demo', action='store_true'); ap.add_argument('--checks', default='own'); ap.add_argument('--seconds', default='30'); ap.add_argument('--jobs', type=int, default=2); ap.add_argument('--seed', default='1')
A = ap.parse_args()
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
ROOT = '/tmp/bt'; os.makedirs(ROOT, exist_ok=True)
def scripts(d):
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/opt/vp/build.sh', d + '.build.sh').replace('/repo', d)
        open(d + '.' + n, 'w').write(t)
def prep(name):
    d = ROOT + '/' + name
    shutil.rmtree(d, ignore_errors=True); sh(['cp', '-a', '/repo', d]); scripts(d); return d
def clean(d):
    for x in (d, d + '.sb'): shutil.rmtree(x, ignore_errors=True)
    for n in ('.build.sh', '.test.sh', '.json'):
        try: os.unlink(d + n)
        except OSError: pass
def demo(d, sd):
    t = '%s.demo' % d; shutil.rmtree(t, ignore_errors=True); shutil.copytree(sd, t, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    t0 = time.time(); r = sh(['bash', t + '/demo.sh'], cwd=d, timeout=300); shutil.rmtree(t, ignore_errors=True)
    return r.returncode, r.stdout[-600:].strip(), time.time() - t0
def one(b):
    sd = V + '/seeded/' + b; out = [b]; d = prep(b)
    try:
        meta = json.load(open(sd + '/meta.json'))
        if not A.no_demo:
            rc, o, t = demo(d, sd); out.append('demo clean: %d (%.0f s)%s' % (rc, t, '' if rc == 0 else ' !!! ' + o))
        r = sh(['git', 'apply', sd + '/patch.diff'], cwd=d)
        if r.returncode: out.append('!!! patch: ' + r.stdout); return '\n  '.join(out)
        if not A.no_tests:
            r = sh(['bash', d + '.test.sh', d + '.json'])
            try: res = json.load(open(d + '.json')); bad = sorted(BASE - set(res['passed'])); out.append('tests: %d of %d%s' % (len(BASE) - len(bad), len(BASE), ' !!! ' + str(bad[:5]) + r.stdout[-300:] if bad else ''))
            except Exception as e: out.append('!!! tests ' + r.stdout[-800:])
        if not A.no_demo:
            rc, o, t = demo(d, sd); out.append('demo patched: %d (%.0f s) %s%s' % (rc, t, o.splitlines()[-1] if o else '', '' if rc else ' !!! not noticed'))
        ch = [] if A.checks == 'none' else [meta['property']] if A.checks == 'own' else A.checks.split(',')
        for c in ch:
            e = dict(os.environ, SIM_REPO=d, SIM_BUILD=d + '.sb', SIM_OUT=d + '.sb', SIM_SECONDS=A.seconds, VERIF_SEED=A.seed)
            t0 = time.time(); r = sh(['python3', V + '/check.py', 'quick', c], env=e, cwd=V)
            ls = r.stdout.strip().splitlines()
            out.append('check %s: rc %d (%.0f s) %s' % (c, r.returncode, time.time() - t0, ' | '.join(ls[-2:])[:400]))
    finally: clean(d)
    return '\n  '.join(out)
ids = A.ids or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(A.jobs) as ex:
    for o in ex.map(one, ids): print(o, flush=True)
