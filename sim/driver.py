"""Runs one check: seeded search, minimisation, replay, evidence."""
import collections
import ctypes
import hashlib
import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = os.environ.get('SIM_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('SIM_REPO', '/repo')
RUN_LIMIT = 90.0

# number of simulated runs, tuned to about half a minute on eight cores
QUICK = {'C01': 5000, 'C02': 8000, 'C03': 8500, 'C04': 5500, 'C05': 9000,
         'C06': 6000, 'C07': 5500, 'C08': 1500, 'C09': 3800, 'C10': 3000,
         'C11': 8500, 'C12': 3600, 'C13': 4000, 'C14': 4500, 'C15': 1600}
THOROUGH_FACTOR = 13


def build_clock():
    """The clock shim: every reading of the time in a worker goes to it."""
    d = os.path.join(ROOT, 'build')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'libsimclock.so')
    src = os.path.join(HERE, 'simclock.c')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = so + '.%d' % os.getpid()
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp,
                               src, '-ldl'])
        os.replace(tmp, so)
    return so


def no_aslr():
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(0x0040000)
    except Exception:
        pass


class Worker(object):
    def __init__(self, hashseed):
        env = {'PATH': '/usr/bin:/bin', 'SIM_REPO': REPO,
               'PYTHONHASHSEED': '%010d' % hashseed,
               'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1',
               'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
               'LD_PRELOAD': build_clock(), 'TZ': 'UTC', 'HOME': '/nonexistent',
               'LC_ALL': 'C.UTF-8', 'PYTHONMALLOC': 'pymalloc'}
        self.hashseed = hashseed
        self.p = subprocess.Popen(
            [PY, '-X', 'faulthandler', os.path.join(HERE, 'shard.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
            cwd='/', preexec_fn=no_aslr)
        self.buf = b''
        if self.read(120) != 'ready':
            raise RuntimeError('the worker did not start')

    def read(self, timeout):
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise RuntimeError('worker does not answer')
            b = os.read(fd, 1 << 20)
            if not b:
                raise RuntimeError('worker ended (%s)' % self.p.wait())
            self.buf += b
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def cmd(self, text, timeout):
        self.p.stdin.write((text + '\n').encode())
        self.p.stdin.flush()
        return self.read(timeout)

    def run_file(self, path, off, n, limit=RUN_LIMIT):
        return self.cmd('run %s %d %d %g' % (path, off, n, limit), limit + 60)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()


def hash_of(seed, shard):
    h = hashlib.sha256(('%s/%s' % (seed, shard)).encode()).digest()
    return int.from_bytes(h[:4], 'big') % 4294967295


class Check(object):
    def __init__(self, prop, tier, seed, n=None, shards=8, cap=None, first=0):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shards = shards
        self.first = first
        if n is None:
            n = QUICK.get(prop, 1600)
            if tier == 'thorough':
                n *= THOROUGH_FACTOR
        self.n = n
        self.cap = cap or (420 if tier == 'quick' else 3 * 3600)
        self.dir = tempfile.mkdtemp(prefix='sim-%s-' % prop)
        self.bad = []           # (i, hashseed, scenario, result)
        self.errors = []
        self.odd = []           # runs the harness could not judge
        self.agg = Agg()
        self.lock = threading.Lock()
        self.stop = False
        self.log = None

    # -- search
    def shard(self, s):
        waves = 1 if self.tier == 'quick' else 6
        try:
            for wave in range(waves):
                self.shard_wave(s, wave, waves)
        except Exception as e:
            import traceback
            with self.lock:
                self.errors.append('shard %d: %s' % (
                    s, traceback.format_exc()[-1500:]))

    def shard_wave(self, s, wave, waves):
        """Scenarios i with i % shards == s, one hash seed per wave."""
        lo = self.n * wave // waves
        hi = self.n * (wave + 1) // waves
        lo += (s - lo) % self.shards
        w = Worker(hash_of(self.seed, s + wave * self.shards))
        path = os.path.join(self.dir, 'batch%d' % s)
        try:
            i = lo
            while i < hi and not self.stop:
                top = min(hi, i + 40 * self.shards)
                idx = w.cmd('gen %s %s %s %d %d %d' % (
                    path, self.prop, self.seed, self.first + i,
                    self.first + top, self.shards), 900)
                if not isinstance(idx, list):
                    raise RuntimeError('generating %d failed: %r' % (i, idx))
                for num, off, n in idx:
                    if self.stop or time.monotonic() > self.end:
                        self.stop = True
                        break
                    r = w.run_file(path, off, n)
                    if r in ('hang', 'died'):
                        r = self.retry(w, path, off, n)
                    with self.lock:
                        self.agg.add(num, r, s)
                        if self.log is not None:
                            self.log.append((num, w.hashseed, r))
                        if r['bad']:
                            sc = json.loads(open(path, 'rb').read()[
                                off:off + n])
                            if any(b['kind'] == 'harness' for b in r['bad']):
                                self.odd.append('run %d: %s' % (
                                    num, r['bad'][0]['detail']))
                                if len(self.odd) > 3:
                                    self.errors += self.odd
                                    self.stop = True
                            else:
                                self.bad.append((num, w.hashseed, sc, r))
                                if len(self.bad) >= 6 or \
                                        r['bad'][0]['kind'] == 'hang':
                                    self.stop = True
                i = top
        finally:
            w.close()

    def retry(self, w, path, off, n):
        """A run that did not end, or whose process died: again, with more
        time, to tell a loaded machine from a caller that never returns."""
        r = w.run_file(path, off, n, 2 * RUN_LIMIT)
        if r not in ('hang', 'died'):
            return r
        kind = r
        return {'bad': [{'kind': kind, 'task': None, 'op': None,
                         'detail': 'the process running the simulation %s'
                         % ('never ended' if kind == 'hang'
                            else 'died')}], 'crc': kind, 'events': 0,
                'switches': 0, 'path': kind, 'fired': [], 'ops': 0,
                'planned': 0, 'clock': 0, 'reads': 0, 'cb': {}, 'maxop': 0,
                'stats': {}, 'sw': []}

    def search(self):
        self.t0 = time.monotonic()
        self.end = self.t0 + self.cap
        build_clock()
        ts = [threading.Thread(target=self.shard, args=(s,))
              for s in range(self.shards)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.wall = time.monotonic() - self.t0

    # -- verdict
    def main(self):
        try:
            return self._main()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def _main(self):
        self.search()
        known = self.known()
        viol = None
        if self.bad:
            self.bad.sort(key=lambda b: b[0])
            viol = self.report()
        self.evidence(len(self.bad), known)
        if viol:
            return 1
        if self.errors:
            sys.stderr.write('\n'.join(self.errors[:3]) + '\n')
            return 2
        for x in self.odd:
            sys.stderr.write('not judged: %s\n' % x)
        if self.agg.runs < min(50, self.n):
            sys.stderr.write('only %d runs\n' % self.agg.runs)
            return 2
        print('%s: %d simulated runs, %d distinct, %d faults fired, '
              '%.1f s: property held' % (
                  self.prop, self.agg.runs, len(self.agg.distinct),
                  sum(self.agg.fired.values()), self.wall))
        return 0

    def known(self):
        """Probe the listed findings of this property."""
        try:
            ks = json.load(open(os.path.join(ROOT, 'known_findings.json')))
        except OSError:
            return []
        seen = []
        for f in ks.get('findings') or []:
            if f['property'] != self.prop or not f.get('probe'):
                continue
            w = Worker(1)
            try:
                r = self.run_sc(w, f['probe'])
            finally:
                w.close()
            if r.get('stats', {}).get('known'):
                print('KNOWN-FINDING: property=%s %s' % (self.prop,
                                                         f['what']))
                seen.append(f['id'])
        return seen

    def run_sc(self, w, sc, limit=RUN_LIMIT, name='one'):
        path = os.path.join(self.dir, name)
        b = json.dumps(sc).encode()
        with open(path, 'wb') as f:
            f.write(b)
        return w.run_file(path, 0, len(b), limit)

    def report(self):
        # the first failing run that replays
        last = None
        for num, hs, sc, r in self.bad[:4]:
            kind = r['bad'][0]['kind']
            w = Worker(hs)
            try:
                m = Minimiser(self, w, sc, kind)
                sc2 = m.go()
            finally:
                w.close()
            res = []
            for _ in range(2):          # fresh processes
                w = Worker(hs)
                try:
                    res.append(self.run_sc(w, sc2)
                               if kind not in ('hang', 'died') else r)
                finally:
                    w.close()
            same = all(isinstance(x, dict) and x['bad'] and
                       x['crc'] == res[0]['crc'] for x in res)
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            path = os.path.join(ROOT, 'replays', '%s-%s-%d.json' % (
                self.prop, self.seed, num))
            final = res[0] if isinstance(res[0], dict) and res[0]['bad'] else r
            doc = {'property': self.prop, 'seed': self.seed, 'run': num,
                   'hashseed': hs, 'kind': kind, 'scenario': sc2,
                   'violations': final['bad'][:5], 'crc': final['crc'],
                   'switches': final.get('sw'), 'faults_fired':
                   final.get('fired'), 'replays_exactly': same,
                   'original': sc}
            with open(path, 'w') as f:
                json.dump(doc, f, indent=1)
            last = path
            if same:
                break
        for b in final['bad'][:3]:
            print('  %s: task %s %s\n    %s' % (
                b['kind'], b['task'], json.dumps(b['op']), b['detail']))
        print('  seed %s run %d; %d operations, %d scheduled switches, '
              '%d faults after minimising; %s' % (
                  self.seed, num, sum(len(t) for t in sc2['tasks']),
                  len(sc2.get('sched') or []), len(sc2.get('faults') or []),
                  'replays exactly' if same else 'DOES NOT REPLAY EXACTLY'))
        print('VIOLATION property=%s replay=%s' % (self.prop, last))
        sys.stdout.flush()
        return last

    # -- evidence
    def evidence(self, violations, known):
        a = self.agg
        wall = max(self.wall, 1e-6)
        cov = {
            'evaluations': a.runs,
            'distinct_nontrivial': len(a.distinct),
            'rule': 'Each run is one generated scenario (world, callers, '
                    'operations, schedule, faults) executed once under the '
                    'simulator; non-trivial means it judged at least one '
                    'operation and had a preemption, a fired fault, a '
                    're-entrant call or two or more operations on shared '
                    'objects; distinct means a different fingerprint of the '
                    'whole trace (preemption points, faults, every outcome).',
            'samples': a.samples,
            'runs_planned': self.n,
            'seeds_per_hour': int(a.runs / wall * 3600),
            'simulated_steps': a.events,
            'preemptions': a.switches,
            'distinct_interleavings': len(a.paths),
            'interleaving_measure': 'crc of the sequence of (from, to, file, '
                                    'line) of all preemptions of a run',
            'faults_planned': a.planned,
            'faults_fired': dict(sorted(a.fired.items())),
            'fault_sites': len(a.sites),
            'operations': a.ops,
            'operations_by_kind': dict(sorted(a.kinds.items())),
            'verdicts': dict(sorted(a.stats.items())),
            'callbacks': dict(sorted(a.cb.items())),
            'simulated_time_s': a.clock,
            'clock_reads': a.reads,
            'longest_operation_steps': a.maxop,
            'hash_seeds': self.shards * (1 if self.tier == 'quick' else 6),
            'known_findings_seen': known,
            'components': {
                'real': 'all of timeboard (working tree of %s), pandas, '
                        'numpy, dateutil, CPython' % REPO,
                'simulated': 'thread scheduler, locks, sleep, clock, time '
                             'zone, hash seed, random generators, garbage '
                             'collection, failing allocations, interrupts',
                'stub': 'the callers: selectors, marker functions, time '
                        'points, amendment mappings'},
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        doc = {'property': self.prop, 'tier': self.tier,
               'seed': int(self.seed), 'level': 'exploration',
               'coverage': cov,
               'assumptions': [
                   'callers are preempted only between source lines (or '
                   'bytecode instructions) of the library and at entries to '
                   'caller-supplied functions, not inside pandas/numpy',
                   'pandas is trusted for the boundaries of calendar periods',
                   'faults are not raised on lines of with/try/finally/'
                   'except constructs, where no Python code can be safe'],
               'wall_s': round(self.wall, 2), 'violations': violations}
        p = os.path.join(ROOT, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(doc, f, indent=1)
        os.replace(p + '.tmp', p)


class Agg(object):
    def __init__(self):
        self.runs = self.events = self.switches = self.ops = 0
        self.planned = self.clock = self.reads = self.maxop = 0
        self.distinct, self.paths, self.sites = set(), set(), set()
        self.fired = collections.Counter()
        self.stats = collections.Counter()
        self.cb = collections.Counter()
        self.kinds = collections.Counter()
        self.samples = []

    def add(self, num, r, shard):
        self.runs += 1
        self.events += r['events']
        self.switches += r['switches']
        self.ops += r['ops']
        self.planned += r['planned']
        self.clock += r['clock']
        self.reads += r['reads']
        self.maxop = max(self.maxop, r['maxop'])
        if r['switches']:
            self.paths.add(r['path'])
        for f in r['fired']:
            self.fired[f[3]] += 1
            self.sites.add(f[4])
        for k, v in r['stats'].items():
            self.stats[k] += v
        for k, v in r['cb'].items():
            self.cb[k] += v
        for k, v in (r.get('kinds') or {}).items():
            self.kinds[k] += v
        st = r['stats']
        if (st.get('judged') or st.get('linear')) and (
                r['switches'] or r['fired'] or r['ops'] > 1):
            self.distinct.add(r['crc'])
        if len(self.samples) < 4 and (r['switches'] or r['fired']):
            self.samples.append({
                'run': num, 'operations': r['ops'], 'steps': r['events'],
                'preemptions': r['switches'], 'faults': r['fired'][:5],
                'trace': r['crc'], 'verdicts': r['stats'],
                'script': r.get('script')})


class Minimiser(object):
    """Greedy: drop parts while a violation of the same kind remains."""
    def __init__(self, check, w, sc, kind, budget=45.0):
        self.c, self.w, self.sc, self.kind = check, w, sc, kind
        self.end = time.monotonic() + budget
        self.hang = kind in ('hang', 'died')

    def fails(self, sc):
        if time.monotonic() > self.end:
            return False
        try:
            r = self.c.run_sc(self.w, sc, 30, 'min')
        except Exception:
            return False
        if not isinstance(r, dict):
            return False
        return any(b['kind'] == self.kind for b in r['bad'])

    def try_(self, sc):
        if self.fails(sc):
            self.sc = sc
            return True
        return False

    def go(self):
        if self.hang or not self.fails(self.sc):
            return self.sc
        changed = True
        while changed and time.monotonic() < self.end:
            size = len(json.dumps(self.sc))
            self.tasks()
            self.lst('faults')
            self.sched()
            self.ops()
            self.lst('post')
            self.nested()
            self.dos()
            self.rest()
            changed = len(json.dumps(self.sc)) < size
        return self.sc

    def copy(self):
        return json.loads(json.dumps(self.sc))

    def lst(self, key):
        xs = self.sc.get(key) or []
        n = len(xs)
        step = max(1, n // 2)
        while xs and step:
            i = 0
            while i < len(xs):
                sc = self.copy()
                sc[key] = xs[:i] + xs[i + step:]
                if self.try_(sc):
                    xs = self.sc[key]
                else:
                    i += step
            step //= 2

    def sched(self):
        self.lst('sched')
        for i in range(len(self.sc.get('sched') or [])):
            for q in (1, 2, 5):
                if self.sc['sched'][i][1] > q:
                    sc = self.copy()
                    sc['sched'][i][1] = q
                    if self.try_(sc):
                        break

    def tasks(self):
        t = len(self.sc['tasks']) - 1
        while t >= 0 and len(self.sc['tasks']) > 1:
            sc = self.copy()
            sc['tasks'][t] = []
            sc['faults'] = [f for f in sc.get('faults') or [] if f[0] != t]
            if self.sc['tasks'][t]:
                self.try_(sc)
            t -= 1

    def ops(self):
        for t in range(len(self.sc['tasks'])):
            j = len(self.sc['tasks'][t]) - 1
            while j >= 0:
                sc = self.copy()
                del sc['tasks'][t][j]
                fs = []
                for f in sc.get('faults') or []:
                    if f[0] == t:
                        if f[1] == j:
                            continue
                        if f[1] > j:
                            f = [f[0], f[1] - 1] + f[2:]
                    fs.append(f)
                sc['faults'] = fs
                self.try_(sc)
                j -= 1

    def nested(self):
        for t in range(len(self.sc['tasks'])):
            for j in range(len(self.sc['tasks'][t])):
                n = len(self.sc['tasks'][t][j].get('re') or [])
                for k in range(n - 1, -1, -1):
                    sc = self.copy()
                    del sc['tasks'][t][j]['re'][k]
                    self.try_(sc)

    def dos(self):
        for where in ('tasks', 'post'):
            lists = self.sc[where] if where == 'tasks' \
                else [self.sc.get('post') or []]
            for t in range(len(lists)):
                for j in range(len(lists[t])):
                    n = len(lists[t][j].get('do') or [])
                    for k in range(n - 1, -1, -1):
                        sc = self.copy()
                        op = sc['tasks'][t][j] if where == 'tasks' \
                            else sc['post'][j]
                        if len(op['do']) < 2:
                            break
                        del op['do'][k]
                        self.try_(sc)

    def rest(self):
        for key in ('ivls', 'wss', 'scheds'):
            n = len(self.sc.get(key) or [])
            while n:            # only from the end: the names are numbers
                sc = self.copy()
                sc[key] = sc[key][:n - 1]
                if not self.try_(sc):
                    break
                n -= 1
        for key in ('tz', 'clock0', 'amend'):
            if key in self.sc:
                sc = self.copy()
                del sc[key]
                self.try_(sc)
        for i in range(len(self.sc.get('boards') or [])):
            for key in ('amend', 'sel', 'wsref', 'deflabel', 'wtsrc',
                        'defname'):
                if key in self.sc['boards'][i]:
                    sc = self.copy()
                    del sc['boards'][i][key]
                    self.try_(sc)
        if self.sc.get('gran') == 'i':
            sc = self.copy()
            sc['gran'] = 'l'
            self.try_(sc)


def replay(path):
    doc = json.load(open(path))
    c = Check(doc['property'], 'quick', doc['seed'], n=1)
    try:
        w = Worker(doc['hashseed'])
        try:
            r = c.run_sc(w, doc['scenario'])
        finally:
            w.close()
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    if not isinstance(r, dict):
        r = {'bad': [{'kind': r, 'task': None, 'op': None, 'detail': r}],
             'crc': r, 'sw': [], 'fired': []}
    if not r['bad']:
        print('no violation on replay (recorded: %s)' % doc['kind'])
        return 0
    for b in r['bad'][:5]:
        print('  %s: task %s %s\n    %s' % (b['kind'], b['task'],
                                          json.dumps(b['op']), b['detail']))
    for s in r['sw']:
        print('  step %d: caller %s -> caller %s at %s:%s' % tuple(s))
    for f in r['fired']:
        print('  fault: caller %s operation %s: %s at %s' % (
            f[0], f[1], f[3], f[4]))
    print('  trace %s, recorded %s' % (r['crc'], doc['crc']))
    print('VIOLATION property=%s replay=%s' % (doc['property'], path))
    return 1
