#!/usr/bin/env python3
"""Deterministic simulation checks of opensky-sensor.
  check.py build                      build every simulator program (setup)
  check.py quick|thorough PROPERTY    seeded search for violations of one property
  check.py replay FILE [--verbose]    run a recorded execution again: exit 1 if it shows the recorded violation
  check.py determinism                prove that seeds repeat exactly, over several processes
Exit status: 0 held, 1 violation (with a VIOLATION line), 2 error of the check itself."""
import json, os, re, subprocess, sys, time, threading, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/tools')
import build as B
from plan import PLAN, ASSUMPTIONS, RULE
CORES = 8
OUT = os.environ.get('SIM_OUT', VERIF)
REPLAYS = OUT + '/replays'
WORK = B.BUILD + '/work'

def known(prop):
    """entries of known-findings.txt: 'known: property=<id> class=<class> match=<regular expression> :: <what fails>'"""
    out = []
    try: lines = open(VERIF + '/known-findings.txt').read().splitlines()
    except OSError: return out
    for l in lines:
        m = re.match(r'known: property=(\S+) class=(\S+) match=(.*?) :: (.*)$', l)
        if m and prop in (None, m.group(1)): out.append(m.groups())
    return out

class CheckError(Exception): pass

def builds(entries):
    exes = {}
    for p, v in sorted(set((e[0], e[1]) for e in entries)):
        exes[(p, v)] = B.build(p, v)
    return exes

def prebuild(entries):
    """build all needed programs, in parallel"""
    pv = sorted(set((e[0], e[1]) for e in entries)); exes = {}; errs = []
    def one(p, v):
        try: exes[(p, v)] = B.build(p, v)
        except Exception as e: errs.append(e)
    ts = [threading.Thread(target=one, args=x) for x in pv]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise errs[0]
    return exes

def slices(entries, seconds):
    """split cores x seconds over the entries in proportion to their weights"""
    rounds = max(3, -(-len(entries) // CORES) * 3); total = CORES * rounds; tau = seconds / rounds
    w = sum(e[3] for e in entries); n = [max(1, int(total * e[3] / w)) for e in entries]
    while sum(n) > total: n[n.index(max(n))] -= 1
    while sum(n) < total: i = min(range(len(n)), key=lambda k: n[k] / entries[k][3]); n[i] += 1
    out = []
    for j in range(max(n)):
        for i, e in enumerate(entries):
            if j < n[i]: out.append((e, j, n[i], tau))
    return out

def run_replay(exe, path, extra=()):
    r = subprocess.run([exe, 'replay', path, *extra], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
    return r.returncode, r.stdout

def run_history(exe, path):
    """all runs of the process that found the violation, from its first one; the last one must show the same violation"""
    text = open(path).read(); g = lambda k: re.search(r'^%s (.*)$' % k, text, re.M).group(1)
    seed0, worker, workers, runs = g('history').split(); tmp = path + '.again'
    cmd = [exe, 'run', '--product', g('product'), '--variant', g('variant'), '--profile', g('profile'), '--prop', g('property'), '--seed0', seed0, '--worker', worker, '--workers', workers, '--runs', runs, '--time', '3600', '--viol', tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    try: again = open(tmp).read(); os.unlink(tmp)
    except FileNotFoundError: again = ''
    h = lambda k: re.search(r'^%s (.*)$' % k, again, re.M)
    same = r.returncode == 1 and all(h(k) and h(k).group(1) == g(k) for k in ('seed', 'class', 'hash'))
    return (1 if same else 0), r.stdout

def search(prop, tier, seed):
    t0 = time.time(); entries = PLAN[prop]
    try: exes = prebuild(entries)
    except B.BuildError as e:
        print('cannot build the sensor: %s' % e); return 2
    t_build = time.time() - t0
    seconds = float(os.environ.get('SIM_SECONDS', 30 if tier == 'quick' else 1200))
    shutil.rmtree(WORK + '/' + prop, ignore_errors=True); os.makedirs(WORK + '/' + prop); os.makedirs(REPLAYS, exist_ok=True)
    kf = known(prop); kfile = ''
    if kf:
        kfile = WORK + '/' + prop + '/known'
        with open(kfile, 'w') as f:
            for k in kf: f.write('%s\t%s\n' % (k[1], k[2]))
    jobs = slices(entries, seconds); lock = threading.Lock(); procs = {}; stop = threading.Event(); found = []; errors = []; unrepeated = []; stats = []
    def worker():
        while not stop.is_set():
            with lock:
                if not jobs: return
                k = len(jobs); (p, v, prof, w), j, n, tau = jobs.pop(0)
            base = '%s/%s/%s-%s-%s-%d' % (WORK, prop, p, v, prof, j)
            cmd = [exes[(p, v)], 'run', '--product', p, '--variant', v, '--profile', prof, '--prop', prop, '--seed0', str(seed), '--worker', str(j), '--workers', str(n), '--time', '%.2f' % tau, '--out', base + '.json', '--viol', base + '.replay', '--cur', base + '.cur']
            if kfile: cmd += ['--known', kfile]
            pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            with lock: procs[pr.pid] = pr
            out = pr.communicate()[0]
            with lock:
                del procs[pr.pid]
                if stop.is_set() and pr.returncode < 0: return
                if os.path.exists(base + '.json'):
                    try: s = json.load(open(base + '.json')); s.update(product=p, variant=v); stats.append(s)
                    except ValueError: pass
                if pr.returncode == 1: pass
                elif pr.returncode == 3: # an execution that does not repeat itself: the search goes on, for one that does
                    errors.append((p, v, prof, pr.returncode, out[-2000:])); continue
                elif pr.returncode != 0:
                    # the simulator itself died: the sensor damaged it (e.g. a wild write); the seed alone is the replay
                    cur = open(base + '.cur').read().strip() if os.path.exists(base + '.cur') else ''
                    if pr.returncode < 0 and cur:
                        with open(base + '.replay', 'w') as f: f.write('# replay with: python3 /verif/check.py replay %s\nproduct %s\nvariant %s\nprofile %s\nproperty %s\nseed %s\nclass crash.process\nmessage the whole process dies from signal %d\ngenerate 1\nsignal %d\n' % (base + '.replay', p, v, prof, prop, cur, -pr.returncode, -pr.returncode))
                        found.append((p, v, base + '.replay'))
                    else: errors.append((p, v, prof, pr.returncode, out[-2000:])); stop.set()
            if pr.returncode == 1:
                if confirm(exes[(p, v)], base + '.replay'): found.append((p, v, base + '.replay'))
                else: unrepeated.append((p, v, base + '.replay', cmd, s['runs'])) # depends on what the process did before
            with lock:
                if found or stop.is_set():
                    stop.set()
                    for q in procs.values(): q.kill()
    ts = [threading.Thread(target=worker) for _ in range(CORES)]
    for t in ts: t.start()
    for t in ts: t.join()
    code = 0
    for p, v, path in found:
        name = '%s/%s-%s-%s-%s' % (REPLAYS, prop, p, v, os.path.basename(path)); shutil.copy(path, name)
        text = open(name).read(); open(name, 'w').write(text.replace(path, name))
        ok = confirm(exes[(p, v)], name)
        if not ok: unrepeated.append((p, v, path, None, 0)); continue
        if 'generate 1' not in text:
            small = name + '.min'
            shutil.copy(name, small)
            r = subprocess.run([exes[(p, v)], 'minimise', small, '--time', '20' if tier == 'quick' else '120'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if r.returncode == 0 and confirm(exes[(p, v)], small):
                print(r.stdout.strip()); os.replace(small, name)
            elif os.path.exists(small): os.unlink(small)
        m = re.search(r'^message (.*)$', open(name).read(), re.M)
        print('%s' % (m.group(1) if m else ''))
        print('VIOLATION property=%s replay=%s' % (prop, name)); code = 1
        break
    for p, v, path, cmd, runs in ([] if code else unrepeated):
        # the violation needs the state which earlier runs left in the process (it reads memory it should not):
        # the same runs once more, from the first, are its replay
        if not cmd: continue
        name = '%s/%s-%s-%s-%s' % (REPLAYS, prop, p, v, os.path.basename(path)); text = open(path).read().replace(path, name)
        i = [cmd[cmd.index(o) + 1] for o in ('--seed0', '--worker', '--workers')]
        with open(name, 'w') as f: f.write(text.rstrip('\n') + '\nhistory %s %s %s %d\n' % (*i, runs))
        if all(run_history(exes[(p, v)], name)[0] == 1 for _ in range(2)):
            m = re.search(r'^message (.*)$', text, re.M); print(m.group(1) if m else '')
            print('VIOLATION property=%s replay=%s' % (prop, name)); code = 1; break
    if not code: errors += [(p, v, path, 'does not repeat in a fresh process', '') for p, v, path, cmd, runs in unrepeated]
    if errors and not code:
        for e in errors: print('error of the check: %s' % (e,))
        code = 2
    runs = sum(s['runs'] for s in stats)
    if not code and not runs: print('error of the check: nothing was simulated'); code = 2
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (k[0], k[3]))
    evidence(prop, tier, seed, stats, entries, exes, time.time() - t0, t_build, code)
    if not code: print('property %s held in %d simulated runs (%.0f s of simulated time)' % (prop, runs, sum(s['sim_s'] for s in stats)))
    return code

def confirm(exe, path):
    """two fresh processes must show exactly the recorded violation"""
    text = open(path).read(); m = re.search(r'^signal (\d+)$', text, re.M)
    try: rs = [run_replay(exe, path)[0] for _ in range(2)]
    except subprocess.TimeoutExpired: return False
    return all(r == (-int(m.group(1)) if m else 1) for r in rs)

def evidence(prop, tier, seed, stats, entries, exes, wall, t_build, code):
    def add(key):
        d = {}
        for s in stats:
            for k, v in s[key].items(): d[k] = d.get(k, 0) + v
        return dict(sorted(d.items()))
    sched = set(); hashes = set(); states = set(); samples = []; per = {}
    for s in stats:
        tag = s['product'] + '/' + s['variant'] + '/' + s['profile']
        sched.update(tag + h for h in s['sched']); hashes.update(tag + h for h in s['hashes']); states.update(s['product'] + h for h in s['states'])
        for x in s['samples'][:2]:
            if len(samples) < 12: samples.append(dict(x, program=s['product'], variant=s['variant'], scenario=s['profile']))
        e = per.setdefault(tag, dict(runs=0, sim_s=0.0, steps=0)); e['runs'] += s['runs']; e['sim_s'] = round(e['sim_s'] + s['sim_s'], 3); e['steps'] += s['steps']
    runs = sum(s['runs'] for s in stats); cpu = sum(s['wall'] for s in stats) or 1; sim = sum(s['sim_s'] for s in stats)
    comp = {}
    for (p, v), exe in exes.items():
        if p in comp: continue
        try: comp[p] = json.loads(subprocess.run([exe, 'components'], stdout=subprocess.PIPE, text=True).stdout)
        except ValueError: comp[p] = {}
    search_wall = max(wall - t_build, 1e-3)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 3), violations=1 if code == 1 else 0, assumptions=ASSUMPTIONS,
      coverage=dict(evaluations=runs, distinct_nontrivial=len(hashes), rule=RULE, samples=samples or [dict(note='no run completed')],
        scenarios=per, build_s=round(t_build, 2), runs_per_hour=round(runs / search_wall * 3600), seeds_per_hour=round(runs / search_wall * 3600), simulated_seconds=round(sim, 1), simulated_to_real=round(sim / cpu, 1),
        scheduling_points=sum(s['steps'] for s in stats), context_switches=sum(s['switches'] for s in stats), instrumented_accesses=sum(s['accesses'] for s in stats),
        distinct_interleavings=len(sched), interleaving_measure='hash of the sequence of threads run', distinct_states=len(states), state_measure='once per simulated second: what each thread is blocked in and whether it holds a lock, connection and path states, phase of the run',
        faults_injected=add('faults'), situations_reached=add('probes'), other_properties_seen_broken=add('other'), runs_repeated_and_compared=sum(s['rechecked'] for s in stats), components=comp))
    os.makedirs(OUT + '/evidence', exist_ok=True)
    tmp = '%s/evidence/%s.json.tmp' % (OUT, prop)
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    os.replace(tmp, '%s/evidence/%s.json' % (OUT, prop))

def replay(path, extra):
    text = open(path).read(); g = lambda k: re.search(r'^%s (.*)$' % k, text, re.M).group(1)
    exe = B.build(g('product'), g('variant')); prop = g('property')
    code, out = run_history(exe, path) if '\nhistory ' in text else run_replay(exe, path, extra); sys.stdout.write(out)
    m = re.search(r'^signal (\d+)$', text, re.M); want = -int(m.group(1)) if m else 1
    if code == want: print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
    if code == 0: print('the recorded violation does not occur'); return 0
    print('a different execution (exit %d): the program differs from the recorded one' % code); return 1 if code in (1, 2) else 2

def determinism(n):
    """the same seeds in separate processes, with different batch positions, must give identical hashes"""
    bad = 0; total = 0
    for p, v, prof in sorted(set((e[0], e[1], e[2]) for es in PLAN.values() for e in es)):
        exe = B.build(p, v); hs = []
        def one(w, ws, runs):
            o = '%s/det-%d.json' % (WORK, w); os.makedirs(WORK, exist_ok=True)
            subprocess.run([exe, 'run', '--product', p, '--variant', v, '--profile', prof, '--prop', '*', '--seed0', '7', '--worker', str(w), '--workers', str(ws), '--runs', str(runs), '--time', '600', '--keep-going', '--recheck', '0', '--out', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return set(json.load(open(o))['hashes'])
        res = {}
        ts = [threading.Thread(target=lambda w=w: res.__setitem__(w, one(w, 4, n // 4))) for w in range(4)] + [threading.Thread(target=lambda: res.__setitem__(9, one(4 * 1000, 1, 0) or set()))]
        full = {}
        ts = ts[:4] + [threading.Thread(target=lambda: full.__setitem__(0, one_full(exe, p, v, prof, n)))]
        for t in ts: t.start()
        for t in ts: t.join()
        parts = set().union(*[res[w] for w in range(4)]); ok = parts == full[0]; total += len(parts); bad += not ok
        print('%s %s %s: %d distinct runs, %s' % (p, v, prof, len(parts), 'identical' if ok else 'DIFFERENT'))
    print('%d runs compared, %d scenarios differ' % (total, bad)); return 1 if bad else 0
def one_full(exe, p, v, prof, n):
    o = '%s/det-full.json' % WORK; os.makedirs(WORK, exist_ok=True)
    subprocess.run([exe, 'run', '--product', p, '--variant', v, '--profile', prof, '--prop', '*', '--seed0', '7', '--runs', str(n // 4 * 4), '--time', '600', '--keep-going', '--recheck', '0', '--out', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return set(json.load(open(o))['hashes'])

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'build':
        prebuild([e for es in PLAN.values() for e in es]); return 0
    if a[0] in ('quick', 'thorough') and len(a) > 1 and a[1] in PLAN: return search(a[1], a[0], int(os.environ.get('VERIF_SEED', '1')))
    if a[0] == 'replay' and len(a) > 1: return replay(a[1], a[2:])
    if a[0] == 'determinism': return determinism(int(a[1]) if len(a) > 1 else 40)
    print(__doc__); return 2
if __name__ == '__main__':
    try: sys.exit(main())
    except B.BuildError as e: print('cannot build: %s' % e); sys.exit(2)
