#!/usr/bin/env python3
"""Deterministic simulation checks for target/libdart.

  check.py run <property> [--tier quick|thorough] [--seconds S] [--seed N]
  check.py replay <file>
  check.py setup

A check compiles the simulator together with the library from /repo's working tree,
explores seeded simulated executions until its time is used up, and rewrites
evidence/<property>.json.  Exit 0: held; 1: violated (VIOLATION line); 2: no answer.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
REPO = os.environ.get('DART_REPO', '/repo')
BUILD = os.environ.get('DART_BUILD') or os.path.join(HERE, '.build')
JOBS = max(2, os.cpu_count() or 2)
sys.path.insert(0, SIM)
from engines import ENGINES, CHECKS, NOTES  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), SIM):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            if '__pycache__' in d:
                continue
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p[len(root):].encode() + b'\0')
                try:
                    with open(p, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def build(engines):
    """Compile the engines' binaries from the working tree; one build per tree state is kept."""
    key = tree_hash()
    out = os.path.join(BUILD, key)
    os.makedirs(out, exist_ok=True)
    todo = [e for e in engines if not os.path.exists(os.path.join(out, e))]
    if todo:
        for old in os.listdir(BUILD):
            p = os.path.join(BUILD, old)
            if old != key and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 60:
                shutil.rmtree(p, ignore_errors=True)
    jobs, links = {}, []
    for e in todo:
        spec = ENGINES[e]
        objs = []
        for src, flags in spec['objs']:
            path = src.replace('$REPO', REPO).replace('$SIM', SIM)
            name = hashlib.sha256((src + ' ' + flags).encode()).hexdigest()[:12] + '.o'
            obj = os.path.join(out, name)
            objs.append(obj)
            if obj not in jobs and not os.path.exists(obj):
                cc = 'clang' if path.endswith('.c') else 'clang++'
                jobs[obj] = [cc] + flags.replace('$REPO', REPO).replace('$SIM', SIM).split() + ['-c', path, '-o', obj + '.tmp']
        links.append((e, ['clang++'] + objs + spec['link'].split() + ['-o', os.path.join(out, e + '.tmp')]))

    def one(item):
        obj, cmd = item
        r = sh(cmd)
        if r.returncode:
            raise BuildError(' '.join(cmd) + '\n' + '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:3000])
        os.rename(obj + '.tmp', obj)
    # longest first
    items = sorted(jobs.items(), key=lambda kv: -ENGINE_COST(kv[1]))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, items))
    for e, cmd in links:
        r = sh(cmd)
        if r.returncode:
            raise BuildError(' '.join(cmd) + '\n' + r.stdout[-3000:])
        os.rename(os.path.join(out, e + '.tmp'), os.path.join(out, e))
    return out


def ENGINE_COST(cmd):
    src = cmd[-3]
    for i, k in enumerate(('hist_', 'casts_', 'equal_', 'routes_', 'generic', 'wire', 'threads', 'capi', 'heap', 'hist')):
        if k in src:
            return 100 - i
    return 0


def run_check(prop, tier, seconds, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    parts = spec['parts']
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        out = build(sorted({p[0] for p in parts}))
    except BuildError as e:
        print('error: the simulator does not build against this tree\n' + str(e))
        return 2
    tb = time.time()
    total = seconds or (spec.get('thorough', 600) if tier == 'thorough' else spec.get('quick', 45))
    wsum = sum(p[2] for p in parts)
    known = os.path.join(HERE, 'known_findings.txt')
    stats, rc, viol = [], 0, None
    for i, (engine, profile, weight) in enumerate(parts):
        rp = os.path.join(replays, '%s-%s-%s.txt' % (prop, profile, seed))
        so = os.path.join(out, 'stats-%s-%s-%d.json' % (prop, profile, os.getpid()))
        cmd = [os.path.join(out, engine), 'run', '--prop', prop, '--profile', profile, '--seed', str(seed),
               '--runs', str(10 ** 9), '--time', '%.2f' % (total * weight / wsum), '--jobs', str(JOBS),
               '--out', so, '--replay', rp, '--known', known, '--shrink', '20']
        r = sh(cmd)
        try:
            with open(so) as fh:
                st = json.load(fh)
            os.unlink(so)
        except (OSError, ValueError):
            print('error: %s %s gave no result (exit %d)\n%s' % (engine, profile, r.returncode, r.stdout[-1500:]))
            rc = 2
            break
        stats.append(st)
        for l in sorted(set(st.get('known_lines', []))):
            print('KNOWN-FINDING: property=%s %s' % (prop, l))
        if st['rc'] == 1:
            v = st['violation']
            print('violation: %s: %s' % (v['kind'], v['detail']))
            viol, rc = rp, 1
            break
        if st['rc'] != 0:
            print('error: %s %s: %s' % (engine, profile, st.get('error')))
            rc = 2
            break
    write_evidence(prop, tier, seed, spec, stats, time.time() - t0, tb - t0, 1 if rc == 1 else 0)
    n = sum(s['runs'] for s in stats)
    print('%s: %d simulated runs, %d operations, %d distinct histories in %.1f s (build %.1f s)' % (
        prop, n, sum(s['ops'] for s in stats), sum(s['histories'] for s in stats), time.time() - t0, tb - t0))
    if rc == 1:
        print('VIOLATION property=%s replay=%s' % (prop, viol))
    return rc


def write_evidence(prop, tier, seed, spec, stats, wall, build_s, violations):
    runs = sum(s['runs'] for s in stats)
    sim_wall = sum(s['wall_s'] for s in stats) or 1e-9
    probes = {}
    for s in stats:
        for k, v in s['probes'].items():
            probes[k] = probes.get(k, 0) + v
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': sum(s['histories'] for s in stats),
        'rule': spec['rule'],
        'samples': [x for s in stats for x in s['samples']][:4] or ['(none)'],
        'operations': sum(s['ops'] for s in stats),
        'distinct_states': sum(s['states'] for s in stats),
        'distinct_states_measure': spec.get('states', NOTES['states']),
        'runs_per_hour': int(runs / sim_wall * 3600),
        'seeds_per_hour': int(runs / sim_wall * 3600),
        'simulated_time': {'steps': sum(s['steps'] for s in stats), 'ticks': sum(s['sim_ticks'] for s in stats),
                           'note': NOTES['time']},
        'faults_injected': {k: v for k, v in probes.items() if k.startswith(('fault', 'net', 'disk', 'sched', 'starve', 'parse', 'crash', 'capi'))},
        'probes': probes,
        'repeated_for_determinism': sum(s['dup_runs'] for s in stats),
        'library_edges_hit': {s['engine'] + ':' + s['profile']: s['edges_hit'] for s in stats},
        'real_components': spec.get('real', NOTES['real']),
        'stubbed_components': spec.get('stub', NOTES['stub']),
        'parts': [{k: s[k] for k in ('engine', 'profile', 'runs', 'ops', 'histories', 'states', 'wall_s')} for s in stats],
        'known_findings_seen': sum(s['known'] for s in stats),
        'build_s': round(build_s, 2),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': spec.get('assume', []) + NOTES['assume'], 'wall_s': round(wall, 3), 'violations': violations}
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.rename(p + '.tmp', p)


def replay(path):
    eng = None
    with open(path, errors='replace') as fh:
        for l in fh:
            if l.startswith('engine '):
                eng = l.split()[1]
    if eng not in ENGINES:
        print('not a replay file: ' + path)
        return 2
    out = build([eng])
    return subprocess.call([os.path.join(out, eng), 'replay', path])


def main():
    a = sys.argv[1:]
    if a[:1] == ['setup']:
        for t in ('clang++ --version', 'clang --version'):
            if sh(t.split()).returncode:
                print('missing ' + t)
                return 1
        print('nothing to build ahead: every check compiles the library from the tree it is given')
        return 0
    if a[:1] == ['replay'] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ['build']:
        print(build(a[1:] or list(ENGINES)))
        return 0
    if a[:1] != ['run'] or len(a) < 2 or a[1] not in CHECKS:
        print(__doc__)
        return 2
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    secs = None
    i = 2
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]
        elif a[i] == '--seed':
            seed = int(a[i + 1])
        elif a[i] == '--seconds':
            secs = float(a[i + 1])
        i += 2
    return run_check(a[1], tier, secs, seed)


if __name__ == '__main__':
    sys.exit(main())
