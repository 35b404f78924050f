"""Runner: executes the cases of one property in parallel, collects verdicts and what the monitors observed."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

PARTS_LIMIT = {'quick': 420, 'thorough': 840}      # wall-clock watchdog (seconds): inconclusive, never a violation
CASE_LIMIT = {'quick': 120, 'thorough': 300}


class Violation(Exception):
    """the property is broken"""


class Foreign(Exception):
    """something this property does not speak about went wrong: the case is not judged"""


class Inconclusive(Exception):
    """the sandbox, not the library, got in the way"""


class Watchdog(BaseException):
    pass


class Ctx:
    """what a case gets: its own random source, and where it reports what the monitors saw"""

    def __init__(self, prop, part, index, seed, tier):
        self.prop, self.part, self.index, self.seed, self.tier = prop, part, index, seed, tier
        h = hashlib.sha256(('%d/%s/%s/%d' % (seed, prop, part, index)).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], 'big'))
        self.counters = {}
        self.keys = set()
        self.sample_ = None
        self.known_ = []
        self.trace = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, name, n=1):
        """a monitor observed something"""
        self.counters[name] = self.counters.get(name, 0) + n

    def key(self, *parts):
        """a distinct non-trivial thing this case exercised"""
        self.keys.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])

    def log(self, fmt, *a):
        """history of the case, written to the replay file when it fails"""
        if len(self.trace) < 400:
            self.trace.append((fmt % a)[:600] if a else str(fmt)[:600])

    def sample(self, obj):
        if self.sample_ is None:
            self.sample_ = obj

    def fail(self, fmt, *a):
        raise Violation(fmt % a if a else fmt)

    def check(self, cond, fmt, *a):
        if not cond:
            raise Violation(fmt % a if a else fmt)

    def eq(self, got, want, what):
        if got != want:
            raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))

    def known(self, key, msg):
        """a violation that matches the mechanism of a recorded finding; the runner checks that it is listed"""
        self.known_.append((key, msg))

    def seed_library(self):
        random.seed(self.rng.getrandbits(64))


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def _alarm(*_):
    raise Watchdog('case ran too long')


def run_case(arg):
    prop, part, index, seed, tier = arg
    mod = importlib.import_module('mon.props.' + prop.lower())
    fn = dict((p[0], p[3]) for p in mod.PARTS)[part]
    ctx = Ctx(prop, part, index, seed, tier)
    ctx.seed_library()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT[tier])
    status, msg = 'ok', None
    try:
        fn(ctx)
    except Violation as e:
        status, msg = 'violation', str(e)
    except Foreign as e:
        status, msg = 'foreign', str(e)
    except Watchdog as e:
        status, msg = 'timeout', str(e)
    except (MemoryError, ImportError, Inconclusive) as e:
        status, msg = 'error', '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        # an error nobody expects, in the library or from what it handed back to the monitors
        status = 'violation'
        msg = 'unexpected %s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-6:]))
    finally:
        signal.alarm(0)
    return {'part': part, 'index': index, 'status': status, 'msg': msg, 'counters': ctx.counters, 'keys': ctx.keys,
            'sample': ctx.sample_, 'known': ctx.known_, 'trace': ctx.trace if status != 'ok' else None}


def known_findings(here):
    """lines 'known: property=<id> key=<key> ...' of known_findings.txt"""
    r = {}
    try:
        with open(os.path.join(here, 'known_findings.txt')) as f:
            for line in f:
                w = line.split()
                if len(w) > 2 and w[0] == 'known:':
                    d = dict(x.split('=', 1) for x in w[1:3])
                    r[(d['property'], d['key'])] = line.split(None, 3)[3].strip()
    except FileNotFoundError:
        pass
    return r


def main(here, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--part')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args(argv)
    prop, tier, seed = a.property, 'thorough' if a.tier == 'thorough' else 'quick', a.seed
    t0 = time.time()
    try:
        mod = importlib.import_module('mon.props.' + prop.lower())
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the library or the monitors cannot be loaded' % prop)
        return 2
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        res = run_case((r['property'], r['part'], r['case'], r['seed'], r['tier']))
        print(json.dumps({k: v for k, v in res.items() if k != 'keys'}, indent=1, default=str))
        if res['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (r['property'], a.replay))
            return 1
        return 0 if res['status'] in ('ok', 'foreign') else 2
    jobs = []
    for name, quick, thorough, fn in mod.PARTS:
        if a.part and name != a.part:
            continue
        n = quick if tier == 'quick' else thorough
        jobs += [(prop, name, i, seed, tier) for i in range(max(1, int(n * a.scale)))]
    results = []
    stopped = None
    limit = t0 + PARTS_LIMIT[tier]
    order = random.Random(0).sample(jobs, len(jobs))
    if a.jobs > 1:
        pool = multiprocessing.get_context('fork').Pool(a.jobs)
        try:
            it = pool.imap_unordered(run_case, order)
            for _ in range(len(jobs)):
                left = limit - time.time()
                if left <= 0:
                    stopped = 'time limit'
                    break
                try:
                    results.append(it.next(left))
                except multiprocessing.TimeoutError:
                    stopped = 'time limit'
                    break
                if sum(r['status'] == 'violation' for r in results) >= 25:
                    stopped = 'enough violations'
                    break
        finally:
            pool.terminate()
            pool.join()
    else:
        for j in order:
            results.append(run_case(j))
            if time.time() > limit:
                stopped = 'time limit'
                break
    results.sort(key=lambda r: (r['part'], r['index']))
    by = {}
    counters, keys, samples, known = {}, set(), [], {}
    for r in results:
        by.setdefault(r['status'], []).append(r)
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        keys |= {(r['part'], k) for k in r['keys']}
        for k, m in r['known']:
            known.setdefault(k, []).append((r, m))
    seen = set()
    for r in results:                       # one sample of each part first
        if r['sample'] is not None and (r['part'] not in seen):
            seen.add(r['part'])
            samples.append({'part': r['part'], 'case': r['index'], 'what': r['sample']})
    listed = known_findings(here)
    violations = list(by.get('violation', []))
    for k, l in sorted(known.items()):
        if (prop, k) in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[(prop, k)]))
        else:
            for r, m in l[:5]:
                violations.append(dict(r, msg='%s: %s' % (k, m)))
    evid = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': len(results), 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
            'samples': samples[:8] or [{'note': 'no case was sampled'}],
            'monitor_events': dict(sorted(counters.items())),
            'cases_per_part': {n: sum(r['part'] == n for r in results) for n in sorted({r['part'] for r in results})},
            'not_judged': len(by.get('foreign', [])),
            'known_finding_hits': {k: len(v) for k, v in known.items()},
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    with open(os.path.join(here, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1, default=str)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d not judged, %s, %.1f s' % (
        prop, tier, seed, len(results), len(keys), len(by.get('foreign', [])),
        ', '.join('%s=%d' % x for x in sorted(counters.items())), time.time() - t0))
    if violations:
        d = os.path.join(here, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        for n, r in enumerate(violations[:5]):
            p = os.path.join(d, '%s-%s-%d.json' % (prop, r['part'], r['index']))
            with open(p, 'w') as f:
                json.dump({'property': prop, 'part': r['part'], 'case': r['index'], 'seed': seed, 'tier': tier,
                           'message': r['msg'], 'trace': r['trace'],
                           'how': 'cd /verif && python3 check.py %s --replay %s' % (prop, os.path.relpath(p, here))},
                          f, indent=1, default=str)
            print('  case %s/%d: %s' % (r['part'], r['index'], r['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(p, here)))
        print('%d violation(s)' % len(violations))
        return 1
    for r in by.get('error', [])[:3] + by.get('timeout', [])[:3]:
        print('ERROR case %s/%d: %s' % (r['part'], r['index'], r['msg']))
    for r in by.get('foreign', [])[:None if os.environ.get('VERIF_SHOW') else 2]:
        print('  not judged %s/%d: %s' % (r['part'], r['index'], (r['msg'] or '')[:700]))
    if by.get('error') or by.get('timeout') or len(results) * 2 < len(jobs):
        print('INCONCLUSIVE property=%s %s' % (prop, stopped or 'errors in the harness'))
        return 2
    if stopped:
        print('  stopped early (%s) after %d of %d cases' % (stopped, len(results), len(jobs)))
    missing = [k for k in mod.REQUIRED if not counters.get(k)]
    if missing or not keys:
        print('INCONCLUSIVE property=%s monitors never reached: %s' % (prop, ', '.join(missing) or 'no distinct case'))
        return 2
    return 0
