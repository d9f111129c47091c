"""Core of the simulator: seeds, plans, runs, batches, minimisation, replay files, evidence.

One seed gives one plan (JSON: operations, faults, schedule); running a plan is a pure function of the plan and of the
code of /repo. Runs are made in children forked from one process that has imported the library, a child running one
batch of seeds.
"""
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
wall = _time.monotonic          # real time: only used to bound and report the work, never seen by a run
sleep = _time.sleep
RUN_LIMIT = 60                  # seconds of real time for one run before it counts as not terminating


class Violation(Exception):
    def __init__(self, tag, msg):
        Exception.__init__(self, '%s: %s' % (tag, msg))
        self.tag, self.msg = tag, msg


class Skip(Exception):
    """The plan makes no sense (only happens for shrunk plans)."""


class Env(object):
    """What one run can see of the simulator, and what it reports."""

    def __init__(self, seed=None):
        self.seed = seed
        self._h = hashlib.sha1()
        self._sig = hashlib.sha1()
        self.faults = Counter()
        self.probes = Counter()
        self.steps = 0
        self.vtime = 0.0
        self.nontrivial = False
        self.events = []
        self._scratch = None

    def log(self, *what):
        """record an event of the execution: everything logged is part of its identity"""
        s = ' '.join(str(w) for w in what)
        self._h.update(s.encode('utf8', 'surrogatepass') + b'\n')
        if len(self.events) < 400:
            self.events.append(s[:300])

    def sign(self, *what):
        """what makes this execution different from another one, by the measure of the property"""
        self._sig.update(repr(what).encode('utf8', 'surrogatepass'))

    def probe(self, name, n=1):
        self.probes[name] += n

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] += n
            self.nontrivial = True

    def fail(self, tag, *msg):
        raise Violation(tag, ' '.join(str(m) for m in msg))

    def check(self, cond, tag, *msg):
        if not cond:
            self.fail(tag, *msg)

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = os.path.join(SCRATCH, 'run%d' % os.getpid())
            shutil.rmtree(self._scratch, ignore_errors=True)
            os.makedirs(self._scratch)
        return self._scratch

    def close(self):
        if self._scratch:
            shutil.rmtree(self._scratch, ignore_errors=True)

    @property
    def digest(self):
        return self._h.hexdigest()

    @property
    def signature(self):
        return self._sig.hexdigest()


SCRATCH = None
reseed = clock = network = empty_caches = None      # set by boot


def rng_for(prop, seed):
    return random.Random(int(hashlib.sha256(('%s/%s' % (prop, seed)).encode()).hexdigest()[:16], 16))


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def run_plan(mod, plan, seed=None):
    """-> dict describing the run"""
    env = Env(seed)
    reseed(0)
    empty_caches()
    res = {'seed': seed}
    try:
        mod.run(json.loads(json.dumps(plan)), env)
    except Violation as v:
        res['violation'] = [v.tag, v.msg]
    except Skip:
        res['skip'] = True
    except Exception as er:
        text = traceback.format_exc()
        if in_repo(sys.exc_info()[2]):
            res['violation'] = ['unexpected-error', '%s: %s' % (type(er).__name__, er)]
            res['traceback'] = text[-4000:]
        else:
            res['error'] = text[-4000:]
    finally:
        env.close()
    if 'violation' in res:
        env.log('VIOLATION', res['violation'][0])
        res['events'] = env.events
    res.update(digest=env.digest, sig=env.signature, nontrivial=env.nontrivial, faults=dict(env.faults),
               probes=dict(env.probes), steps=env.steps, vtime=env.vtime)
    return res


def batch(mod, jobs):
    """run the plans (or seeds) one after the other, stop at the first violation"""
    out = []
    for job in jobs:
        seed, plan = job if isinstance(job, tuple) else (job, None)
        if plan is None:
            plan = mod.gen(rng_for(mod.ID, seed))
        out.append(run_plan(mod, plan, seed))
        if 'violation' in out[-1] or 'error' in out[-1]:
            out[-1]['plan'] = plan
            break
    return out


# ---------------------------------------------------------------- children

class Child(object):
    def __init__(self, func, limit):
        self.deadline = wall() + limit
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                data = json.dumps(func()).encode()
                while data:
                    data = data[os.write(w, data):]
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.buf = b''
        self.status = None
        self.timeout = False

    def pump(self):
        """True when the child is over"""
        while select.select([self.fd], [], [], 0)[0]:
            d = os.read(self.fd, 1 << 20)
            if not d:
                os.close(self.fd)
                self.fd = None
                self.status = os.waitpid(self.pid, 0)[1]
                self.reap()
                return True
            self.buf += d
        if wall() > self.deadline:
            self.timeout = True
            self.reap()
            os.close(self.fd)
            self.status = os.waitpid(self.pid, 0)[1]
            return True
        return False

    def reap(self):
        for target in (os.killpg, os.kill):
            try:
                target(self.pid, signal.SIGKILL)
            except OSError:
                pass

    @property
    def result(self):
        try:
            return json.loads(self.buf.decode())
        except ValueError:
            return None


def interpreted(func):
    """the same without the just-in-time compiler of the interpreter, which happens to fail an assertion of its own"""
    def f():
        try:
            import pypyjit
            pypyjit.set_param('off')
        except ImportError:
            pass
        return func()
    return f


def call(func, limit=RUN_LIMIT):
    """call the function in a fresh child and give its result, 'timeout', or None if it died"""
    for f in (func, interpreted(func)):
        c = Child(f, limit)
        while not c.pump():
            select.select([c.fd], [], [], 0.2)
        if c.timeout:
            return 'timeout'
        if c.result:
            return c.result


def run_fresh(mod, plans, limit=RUN_LIMIT):
    """run plans in a fresh child; give the result of the last one that ran"""
    r = call(lambda: batch(mod, [(None, p) for p in plans]), limit)
    if r == 'timeout':
        return {'violation': ['no-termination', 'the run did not end within %d s' % limit], 'digest': 'timeout', 'events': []}
    if not r:
        return {'violation': ['process-death', 'the process running the library died'], 'digest': 'death', 'events': []}
    return r[-1]


# ---------------------------------------------------------------- minimisation

LISTS = {'ops', 'faults', 'switches', 'lives', 'threads', 'docs', 'files', 'rules', 'clock', 'events', 'net', 'items',
         'edits', 'props', 'plans'}


def _lists(node, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            v = node[k]
            if isinstance(v, list) and k in LISTS:
                yield path + (k,)
            for x in _lists(v, path + (k,)):
                yield x
    elif isinstance(node, list):
        for i, v in enumerate(node):
            for x in _lists(v, path + (i,)):
                yield x


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _ddmin(plan, path, test):
    try:
        n = len(_get(plan, path))
    except (KeyError, IndexError, TypeError):
        return plan
    size = n
    while size >= 1:
        i = 0
        while i < len(_get(plan, path)):
            cand = json.loads(json.dumps(plan))
            del _get(cand, path)[i:i + size]
            if test(cand):
                plan = cand
            else:
                i += size
        size //= 2
    return plan


def minimise(mod, plan, tag, budget=60):
    end = wall() + budget
    tried = [0]

    def test(cand):
        if wall() > end:
            return False
        tried[0] += 1
        r = run_fresh(mod, cand['plans'] if 'plans' in cand else [cand], 20)
        return 'violation' in r and r['violation'][0] == tag
    before = None
    while before != plan and wall() < end:
        before = plan
        for path in sorted(_lists(plan), key=len):
            plan = _ddmin(plan, path, test)
        # simpler numbers
        for path in list(_numbers(plan)):
            v = _get(plan, path)
            for nv in (0, 1, v // 2):
                if 0 <= nv < v:
                    cand = json.loads(json.dumps(plan))
                    _get(cand, path[:-1])[path[-1]] = nv
                    if test(cand):
                        plan = cand
                        break
    return plan, tried[0]


def _numbers(node, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            for x in _numbers(node[k], path + (k,)):
                yield x
    elif isinstance(node, list):
        for i, v in enumerate(node):
            for x in _numbers(v, path + (i,)):
                yield x
    elif isinstance(node, int) and not isinstance(node, bool) and node > 1:
        yield path


# ---------------------------------------------------------------- campaign

def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k.get('property') == prop]


def campaign(mod, tier, base_seed, out):
    t0 = wall()
    n, size = getattr(mod, tier.upper())
    n = int(os.environ.get('SIM_RUNS', n))
    cap = float(os.environ.get('SIM_CAP', 400 if tier == 'quick' else 1500))
    jobs = int(os.environ.get('SIM_JOBS', min(8, os.cpu_count() or 4)))
    first = base_seed * 1000000
    todo = [list(range(a, min(a + size, first + n))) for a in range(first, first + n, size)]
    todo.reverse()
    running, results, found, errors = [], [], [], []
    known = [k for k in load_known(mod.ID) if k.get('status') == 'finding']
    hit_known = set()
    dead = set()
    limit = RUN_LIMIT + 3 * size

    def handle(child, seeds):
        r = child.result
        if child.timeout or not r:
            # which seed?
            if len(seeds) == 1 and not child.timeout and seeds[0] not in dead:
                dead.add(seeds[0])      # once more, without compiler
                todo.append(seeds)
            elif len(seeds) == 1:
                kind = ['no-termination', 'a run did not end within %d s' % limit] if child.timeout else \
                    ['process-death', 'the process running the library died (status %s)' % child.status]
                found.append(dict(seed=seeds[0], violation=kind, seeds=seeds, digest='timeout' if child.timeout else 'death',
                                  plan=mod.gen(rng_for(mod.ID, seeds[0])), events=[]))
            else:
                todo.extend([[s] for s in reversed(seeds)])
            return
        for x in r:
            if 'violation' in x:
                x['seeds'] = seeds
                k = known_for(known, x)
                if k is not None:
                    hit_known.add(k)
                else:
                    found.append(x)
            elif 'error' in x:
                errors.append(x)
        results.extend(x for x in r if not ('violation' in x or 'error' in x))
        if len(r) < len(seeds) and (not found or found[-1] is not r[-1]) and 'error' not in r[-1]:
            todo.append(seeds[len(r):])       # a known finding stopped the batch: go on with the rest

    while (todo or running) and not found and len(errors) < 5:
        while todo and len(running) < jobs and wall() - t0 < cap:
            seeds = todo.pop()
            func = lambda seeds=seeds: batch(mod, seeds)
            running.append((Child(interpreted(func) if seeds[0] in dead else func, limit if len(seeds) > 1 else RUN_LIMIT), seeds))
        if not running:
            break
        select.select([c.fd for c, s in running], [], [], 0.5)
        for c, s in list(running):
            if c.pump():
                running.remove((c, s))
                handle(c, s)
    for c, s in running:
        c.reap()
        os.waitpid(c.pid, 0)
    return dict(results=results, found=found, errors=errors, wall=wall() - t0, hit_known=hit_known, known=known,
                left=sum(len(s) for s in todo))


def known_for(known, res):
    for i, k in enumerate(known):
        if k.get('tag') == res['violation'][0] and k.get('contains', '') in res['violation'][1]:
            return i
    return None


def determinism(mod, results, count):
    """run again some seeds alone in fresh processes: the executions must be the same"""
    sample = results[::max(1, len(results) // max(1, count))][:count]
    bad = []
    for x in sample:
        r = call(lambda: batch(mod, [x['seed']]))
        if not isinstance(r, list) or r[-1].get('digest') != x['digest']:
            bad.append(x['seed'])
    return len(sample), bad


def report(mod, tier, base_seed, c, out=sys.stdout):
    """evidence, minimisation and verdict -> exit status"""
    res = c['results']
    faults, probes = Counter(), Counter()
    for x in res:
        faults.update(x['faults'])
        probes.update(x['probes'])
    nont = [x for x in res if x['nontrivial']]
    distinct = len({x['sig'] for x in nont})
    samples = []
    for x in (nont[:1] + nont[len(nont) // 2:][:1] + nont[-1:]):
        samples.append({'seed': x['seed'], 'plan': _short(mod.gen(rng_for(mod.ID, x['seed']))), 'faults': x['faults'],
                        'execution': x['digest']})
    again, bad = determinism(mod, res, 8 if tier == 'quick' else 40) if not c['found'] else (0, [])
    ran = max(c['wall'], 1e-9)
    cov = {
        'evaluations': len(res) + len(c['found']),
        'distinct_nontrivial': distinct,
        'rule': mod.RULE,
        'samples': samples,
        'seeds': 'VERIF_SEED %d: runs %d..%d' % (base_seed, base_seed * 1000000, base_seed * 1000000 + len(res) - 1),
        'runs_per_hour': int(len(res) * 3600 / ran),
        'distinct_executions': len({x['digest'] for x in res}),
        'simulated_steps': sum(x['steps'] for x in res),
        'simulated_time_s': round(sum(x['vtime'] for x in res), 3),
        'faults_injected': dict(sorted(faults.items())),
        'runs_without_fault': sum(1 for x in res if not x['faults']),
        'situations_reached': dict(sorted(probes.items())),
        'situations_never_reached': [p for p in getattr(mod, 'PROBES', []) if not probes.get(p)],
        'runs_repeated_in_a_fresh_process': again,
        'repeated_differently': bad,
        'real_code': mod.REAL, 'stubs': mod.STUBS,
        'not_run_for_lack_of_time': c['left'],
    }
    ev = {'property': mod.ID, 'tier': tier, 'seed': base_seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': 0, 'violations': len(c['found'])}
    status = 0
    if bad:
        print('WARNING: runs %s were not repeated identically' % bad, file=sys.stderr)
    for i, k in enumerate(c['known']):
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']))
    for v in sorted(c['found'], key=lambda x: x['seed'])[:3]:
        path = make_replay(mod, v)
        if path:
            print('property %s, seed %s: %s: %s' % (mod.ID, v['seed'], v['violation'][0], v['violation'][1][:600]))
            print('VIOLATION property=%s replay=%s' % (mod.ID, path))
            status = 1
            break
        print('seed %s: %s does not reproduce' % (v['seed'], v['violation']), file=sys.stderr)
        status = 3
    if status != 1 and c['errors']:
        print(c['errors'][0]['error'], file=sys.stderr)
        print('the harness failed on seed %s' % c['errors'][0]['seed'], file=sys.stderr)
        status = 3
    if status == 0 and c['left']:
        print('time is up: %d runs were not made' % c['left'], file=sys.stderr)
    if status == 0 and not res:
        status = 3
    ev['wall_s'] = round(wall() - START, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: %d runs, %d distinct, %s faults, %.1f s' % (mod.ID, tier, len(res), distinct, sum(faults.values()),
                                                           wall() - START))
    return status


START = wall()


def _short(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def make_replay(mod, v):
    """find a plan that fails in a fresh process, minimise it, write it"""
    tag = v['violation'][0]
    plan = {'plans': [v['plan']]}
    r = run_fresh(mod, plan['plans'])
    if 'violation' not in r or r['violation'][0] != tag:
        # depends on what ran before it in the same process
        before = [s for s in v['seeds'] if s < v['seed']]
        plan = {'plans': [mod.gen(rng_for(mod.ID, s)) for s in before] + [v['plan']]}
        r = run_fresh(mod, plan['plans'], RUN_LIMIT * 3)
        if 'violation' not in r:
            return None
        tag = r['violation'][0]
    small, tried = minimise(mod, plan, tag)
    r1 = run_fresh(mod, small['plans'])
    r2 = run_fresh(mod, small['plans'])
    if not ('violation' in r1 and r1.get('digest') == r2.get('digest')):
        small, r1 = plan, r
    folder = os.environ.get('SIM_REPLAYS') or os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s.json' % (mod.ID, v['seed']))
    with open(path, 'w') as f:
        json.dump({'property': mod.ID, 'seed': v['seed'], 'violation': r1['violation'], 'execution': r1['digest'],
                   'events': r1.get('events', []), 'traceback': r1.get('traceback'), 'plans': small['plans'],
                   'minimised_with': tried, 'original': v['plan'],
                   'replay': 'bash check.sh %s replay %s' % (mod.ID, path)}, f, indent=1)
        f.write('\n')
    v['violation'] = r1['violation']
    return path


def replay(mod, path):
    data = json.load(open(path))
    r = run_fresh(mod, data['plans'])
    for e in r.get('events', []):
        print('  ', e)
    if r.get('traceback'):
        print(r['traceback'])
    if 'violation' not in r:
        print('the replay does not fail on this tree')
        return 0
    print('%s: %s' % tuple(r['violation']))
    print('same execution as recorded: %s' % (r['digest'] == data['execution']))
    print('VIOLATION property=%s replay=%s' % (mod.ID, path))
    return 1


def main(argv):
    global SCRATCH
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    base_seed = int(os.environ.get('VERIF_SEED', '1'))
    SCRATCH = os.environ['SIM_SCRATCH']
    mod = importlib.import_module('props.' + prop.lower())
    def late(*a):
        raise RuntimeError('takes too long')
    try:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(60)
        mod.prepare()       # only warms up: what fails here fails in the runs too
    except Exception as er:
        print('preparation of %s: %s: %s' % (mod.ID, type(er).__name__, er), file=sys.stderr)
    finally:
        signal.alarm(0)
    if tier == 'replay':
        return replay(mod, argv[2])
    if tier == 'selftest':
        return selftest(mod, base_seed, int(argv[2]) if len(argv) > 2 else 40)
    if tier == 'one':
        plan = mod.gen(rng_for(mod.ID, int(argv[2])))
        print(json.dumps(plan, indent=1))
        r = call(lambda: [run_plan(mod, plan, int(argv[2]))])
        print(json.dumps(r, indent=1))
        return 0
    c = campaign(mod, tier, base_seed, sys.stdout)
    return report(mod, tier, base_seed, c)


def selftest(mod, base_seed, n):
    """the digests of some runs, to be compared between processes and hash seeds"""
    r = call(lambda: batch(mod, list(range(base_seed * 1000000, base_seed * 1000000 + n))), 600)
    h = hashlib.sha1(json.dumps([(x['seed'], x['digest']) for x in r]).encode()).hexdigest() if r else r
    print(mod.ID, len(r or []), h, [x for x in r if 'violation' in x or 'error' in x] if isinstance(r, list) else r)
    return 0
