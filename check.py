#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py C01                 search; VERIF_SEED and VERIF_TIER choose seed and depth
  check.py --replay FILE       run a recorded violation again

Exit 0: no violation in anything explored.  Exit 1: a violation was found,
minimised, reproduced in fresh processes and written to a replay file.
Exit 2: the check itself could not work."""
import collections, fnmatch, json, os, re, subprocess, sys, time
import simbuild

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.path.join(HERE, 'evidence')
QUICK, THOROUGH = 60.0, 600.0
NW = 8
# operations which belong together: removed from every process at once, or never
OPS = {'C02': 'together', 'C15': 'together', 'C08': 'no', 'C12': 'no', 'C13': 'no', 'C18': 'no', 'C19': 'no', 'C20': 'no'}
ITK = {'C12', 'C13', 'C18', 'C19', 'C20'}

INFO = {
    'C01': 'record a set of measurements with random plug-in tests, compare a perturbed set against a random baseline document, with faults',
    'C02': 'record to the simulated disk, compare the same measurements in a second simulated process with other clock, host and chunking',
    'C03': 'number sequences against tolerance models, document order shuffled, reads split',
    'C04': 'damaged, truncated, unreadable or mutating baselines, throwing bodies, failing allocations and system calls',
    'C05': 'output to files and standard output under write, flush, close and open errors, short writes and full disks',
    'C06': 'crash at a random system call, torn writes, restart and compare with what is left on the disk',
    'C07': 'reports of mismatches of every type, with faults, against a line-difference model',
    'C08': 'file measurements whose files change, fail or are cut short while they are read',
    'C09': 'random option lists over a random directory tree with permissions, failing and changing during the run',
    'C10': 'two or three tests on simulated threads of one process, preempted at memory accesses, against the same tests alone',
    'C11': 'the pipe tool with a simulated child: exit values, signals, start failures, chunked and delayed output on both pipes',
    'C12': 'image regression tests and the image comparison tool on random image pairs, tolerances and documents against a reference loop, images delivered in pieces, damaged, failing or changing while read',
    'C13': 'histories of executions of the difference filter on simulated worker threads, preempted at memory accesses, against a sequential reference',
    'C18': 'reports and images of the image comparison on random image pairs, against reference values, with the writes failing or cut short',
    'C19': 'record size, index, region, point, vector, array, matrix and image measurements, then compare the same or other values with the recording in a second process',
    'C20': 'histories of executions, aborts and iterations of a filter on simulated worker threads with watchers coming and going, against a reference text of the events recorded',
    'C14': 'file system queries while the simulated file system changes and its calls fail',
    'C15': 'one logical baseline in two physical layouts and read chunkings',
}
NONTRIVIAL = ('A case is one seeded plan (workload, file system, documents) executed on the simulator with the faults and the '
              'schedule of the plan.  It counts as non-trivial when it exercised what the property is about ("nontrivial" of the '
              'judge in sim/props_*.cpp); distinct = distinct "shape", the hash of the sequence of simulated system calls per '
              'process, thread switches and injected faults.')
REAL_SIM = ['TestingFramework/*.cpp and headers (compiled from /repo, every memory access instrumented)', 'FileUtilities/*.cpp', 'libexpat', 'libstdc++ streams and locale']
STUB_SIM = ['file system (in-memory tree with permissions)', 'open/read/write/close/lseek/stat/access/opendir/readdir/getcwd/chdir/getenv', 'clock, host name, random bytes', 'malloc (checked arena, injectable failure)', 'thread scheduler']


def log(*a):
    print(*a, flush=True)


class Bin:
    def __init__(self, prop):
        self.prop = prop
        self.path = simbuild.build('itk' if prop in ITK else 'sim')
        self.proc = None

    def one(self, plan, full=False):
        p = subprocess.run([self.path, 'exec', self.prop] + (['log'] if full else []), input=json.dumps(plan).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400)
        try:
            return json.loads(p.stdout.decode().splitlines()[-1])
        except (IndexError, ValueError):
            return {'error': 'exec ended with %d' % p.returncode, 'viol': []}

    def batch(self, plan):
        if self.proc is None or self.proc.poll() is not None:
            self.proc = subprocess.Popen([self.path, 'batch', self.prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            self.proc.stdin.write(json.dumps(plan).encode() + b'\n')
            self.proc.stdin.flush()
            return json.loads(self.proc.stdout.readline().decode())
        except (ValueError, OSError):
            self.proc = None
            return {'error': 'batch ended', 'viol': []}

    def close(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()


def has(res, key):
    return any(v['key'] == key for v in res.get('viol', []))


def minimise(b, plan, key, deadline):
    """Greedy: fewer faults, less preemption, fewer operations, no read splitting."""
    tries = [0]

    def ok(p):
        if time.time() > deadline:
            return False
        tries[0] += 1
        return has(b.batch(p), key)

    def copy(p):
        return json.loads(json.dumps(p))

    def shrink_list(get):
        nonlocal plan
        n = len(get(plan))
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < len(get(plan)):
                c = copy(plan)
                del get(c)[i:i + size]
                if ok(c):
                    plan = c
                else:
                    i += size
            if size == 1:
                break
            size //= 2

    for _ in range(2):
        shrink_list(lambda p: p.get('faults', []))
        for k in range(len(plan.get('phases', []))):
            if 'preempt' in plan['phases'][k]:
                shrink_list(lambda p, k=k: p['phases'][k]['preempt'])
        if OPS.get(b.prop) == 'together':
            n = len(plan['procs'][0].get('ops', []))
            if all(len(q.get('ops', [])) == n for q in plan['procs']):
                for i in range(n - 1, -1, -1):
                    c = copy(plan)
                    for q in c['procs']:
                        del q['ops'][i]
                    if ok(c):
                        plan = c
        for k in range(len(plan.get('procs', []))):
            if plan['procs'][k].get('ops') and b.prop not in OPS:
                shrink_list(lambda p, k=k: p['procs'][k]['ops'])
            if plan['procs'][k].get('qs'):
                shrink_list(lambda p, k=k: p['procs'][k]['qs'])
            if plan['procs'][k].get('split'):
                c = copy(plan)
                c['procs'][k]['split'] = 0
                if ok(c):
                    plan = c
        if plan.get('fill'):
            c = copy(plan)
            c['fill'] = 0
            if ok(c):
                plan = c
    return plan, tries[0]


def known_findings(prop):
    r = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'^finding: property=(\S+) key=(\S+) message=(.*?) \|\| (.*)$', line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3), m.group(4)))
    return r


def is_known(known, v):
    for k, pat, text in known:
        if v['key'] == k and fnmatch.fnmatchcase(v['msg'], pat):
            return text
    return None


def determinism(b, seed, n):
    """The same seeds, distributed differently over processes, give the same event logs."""
    def lines(nw):
        ps = [subprocess.Popen([b.path, 'twice', b.prop, str(seed), str(i), str(nw), str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for i in range(nw)]
        r = []
        for p in ps:
            r += p.communicate()[0].decode().splitlines()
        return sorted(r)
    a, c = lines(4), lines(3)
    return a == c and len(a) == n, n


def replay(path):
    r = json.load(open(path))
    b = Bin(r['property'])
    res = b.one(r['plan'], True)
    log(res.get('log', '')[-6000:])
    for v in res.get('viol', []):
        log('VIOLATED %s: %s' % (v['key'], v['msg']))
    log('event log hash %s, recorded %s' % (res.get('hash'), r['hash']))
    return 1 if has(res, r['key']) else 0


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    secs = float(os.environ.get('SIM_SECS', THOROUGH if tier == 'thorough' else QUICK))
    t0 = time.time()
    b = Bin(prop)
    t1 = time.time()
    log('VERIF_SEED=%d tier=%s property=%s built in %.1fs' % (seed, tier, prop, t1 - t0))
    det, ndet = determinism(b, seed + 7777, 48 if tier == 'quick' else 800)
    # the deciding search
    ts = time.time()
    ps = [subprocess.Popen([b.path, 'worker', prop, str(seed), str(i), str(NW), str(secs), '100000000'], stdout=subprocess.PIPE, stderr=subprocess.PIPE) for i in range(NW)]
    viols, errors = {}, []
    tot, fired, probes, abn = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    abn_seeds = []
    shapes, hashes, samples = set(), set(), []
    outs = []
    import threading
    ths = []
    for p in ps:
        th = threading.Thread(target=lambda p=p: outs.append((p, p.communicate())))
        th.start()
        ths.append(th)
    for th in ths:
        th.join()
    finished = 0
    for p, (o, e) in outs:
        for line in o.decode().splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                errors.append('unreadable worker output')
                continue
            if 'error' in j:
                errors.append('%s (seed %s)' % (j['error'][:300], j['seed']))
            if 'violation' in j:
                viols.setdefault(j['violation']['key'], []).append(j)
            if 'summary' in j:
                finished += 1
                s = j['summary']
                for k in ('runs', 'nontrivial', 'steps', 'simtime_us', 'switches', 'violations', 'abnormal', 'errors'):
                    tot[k] += s.get(k, 0)
                fired.update(s['fired'])
                probes.update(s['probes'])
                abn.update(s['abnormal_kinds']); abn_seeds += s.get("abnormal_seeds", [])
                shapes.update(s['shapes'])
                hashes.update(s['hashes'])
                samples += s['samples'][:1]
        if p.returncode:
            errors.append('worker ended with %d: %s' % (p.returncode, e.decode(errors='replace')[:300]))
    wall_search = time.time() - ts
    # confirm, minimise, report
    known = known_findings(prop)
    seen_known, reported, doubtful = {}, [], []
    deadline = time.time() + (60 if tier == 'quick' else 150)
    for key in sorted(viols):
        for j in sorted(viols[key], key=lambda j: len(json.dumps(j['plan'])))[:4]:
            t = is_known(known, j['violation'])
            if t:
                seen_known[t] = seen_known.get(t, 0) + 1
                continue
            if len(reported) >= 4 or any(r['key'] == key for r in reported):
                break
            first, second = b.one(j['plan'], True), b.one(j['plan'])
            if not (has(first, key) and has(second, key) and first.get('hash') == second.get('hash')):
                doubtful.append('%s seed %s does not replay' % (key, j['seed']))
                continue
            small, tries = minimise(b, j['plan'], key, min(deadline, time.time() + 25))
            r1, r2 = b.one(small, True), b.one(small)
            if has(r1, key) and has(r2, key) and r1.get('hash') == r2.get('hash') and not any(is_known(known, v) for v in r1['viol'] if v['key'] == key):
                res, plan = r1, small
            else:
                res, plan = first, j['plan']
            os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
            path = os.path.join(EVID, 'replay', '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9]+', '_', key)[:60]))
            msg = [v['msg'] for v in res['viol'] if v['key'] == key][0]
            with open(path, 'w') as f:
                json.dump({'property': prop, 'key': key, 'message': msg, 'verif_seed': seed, 'run_seed': j['seed'], 'hash': res.get('hash'), 'minimise_runs': tries, 'plan': plan, 'trace': res.get('log', ''), 'again': 'python3 check.py --replay ' + path}, f, indent=1)
            reported.append({'key': key, 'msg': msg, 'path': path, 'seed': j['seed'], 'plan': plan})
    b.close()
    for p in fired:
        pass
    level = 'exploration'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(time.time() - t0, 1), 'violations': len(reported),
        'assumptions': ['The simulated calls behave like the ones of Linux/glibc within the model of sim/seams.cpp.', 'Sampling: a clean batch is evidence, not proof.'],
        'coverage': {
            'evaluations': tot['runs'], 'distinct_nontrivial': len(shapes), 'rule': INFO[prop] + '.  ' + NONTRIVIAL,
            'samples': [compact(s) for s in samples[:3]],
            'nontrivial_runs': tot['nontrivial'], 'distinct_event_logs': len(hashes),
            'runs_per_hour': int(tot['runs'] / max(wall_search, 0.001) * 3600), 'seeds_per_hour': int(tot['runs'] / max(wall_search, 0.001) * 3600),
            'search_wall_s': round(wall_search, 1), 'workers': NW,
            'simulated_time_s': round(tot['simtime_us'] / 1e6, 1), 'simulated_steps': tot['steps'], 'thread_switches': tot['switches'],
            'faults_fired': dict(sorted(fired.items())), 'probes': dict(sorted(probes.items())),
            'abnormal_ends': dict(abn), 'abnormal_seeds': abn_seeds[:16], 'worker_errors': tot['errors'],
            'determinism_check': {'seeds_run_twice': ndet, 'identical': det, 'process_counts': [4, 3]},
            'components_real': REAL_SIM if prop not in ITK else REAL_SIM + ['itktf/*', 'ITK 5.3 libraries'], 'components_stubbed': STUB_SIM if prop not in ITK else STUB_SIM + ['itk::MultiThreaderBase (work units run as simulated threads)'],
        },
    }
    if prop == 'C11':
        ev['coverage']['components_real'] = REAL_SIM + ['TestingFramework/tfPipeToXML.cxx']
        ev['coverage']['components_stubbed'] = STUB_SIM + ['itksysProcess (simulated child process)']
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%d runs (%d distinct), %.0f simulated s, %d thread switches, %d fault kinds fired %d times, in %.1fs' % (tot['runs'], len(shapes), tot['simtime_us'] / 1e6, tot['switches'], len(fired), sum(fired.values()), wall_search))
    for t in sorted(seen_known):
        log('KNOWN-FINDING: property=%s %s' % (prop, t))
    for k, pat, t in known:
        if t not in seen_known:
            log('note: the known finding "%s" did not show up in this run' % t)
    for r in reported:
        log('violated: %s: %s (run seed %s)' % (r['key'], r['msg'], r['seed']))
        log('VIOLATION property=%s replay=%s' % (prop, r['path']))
    if reported:
        return 1
    if doubtful:
        log('ERROR: ' + '; '.join(doubtful[:5]))
        return 2
    if finished < NW or tot['runs'] < 100 or len(errors) > 0:
        log('ERROR: the search did not finish properly: %d workers, %d runs, %s' % (finished, tot['runs'], errors[:3]))
        return 2
    if not det:
        log('ERROR: the same seeds gave different event logs')
        return 2
    return 0


def compact(plan):
    s = json.dumps(plan)
    if len(s) <= 6000:
        return plan
    def cut(x):
        if isinstance(x, str):
            return x if len(x) < 200 else x[:200] + '...(%d bytes)' % len(x)
        if isinstance(x, list):
            return [cut(y) for y in x[:40]]
        if isinstance(x, dict):
            return {k: cut(v) for k, v in x.items()}
        return x
    return cut(plan)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except simbuild.BuildError as e:
        log('ERROR: build failed: ' + str(e)[-3000:])
        sys.exit(2)
