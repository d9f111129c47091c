"""C12: sessions are distinct, private to their scope, and survive factory failures."""
import _thread
import copy

import core
import threadsim

ID = 'C12'
LEVEL = 'exploration'
QUICK = (2000, 50)
THOROUGH = (200000, 200)
RULE = 'an execution is the factories and scopes, the operations of each thread with the failures, and the interleaving reached'
REAL = ['ngoschema sessions, session factories, scoped sessions and their counter', 'scope registries of sqlalchemy', 'interpreter threads']
STUBS = ['locks (simulated)', 'in half of the runs a session class that only records its options', 'factories failing when the plan says']
ASSUMPTIONS = ['threads are switched between source lines of the library, not inside a line or inside other libraries',
               'a scope is used by one thread at a time, except one scope which is only used and never removed', 'PyPy 3.9 interpreter']
PROBES = ['switched', 'real', 'stub', 'create', 'use', 'use-again', 'use-options', 'refused-options', 'remove', 'remove-none', 'factory-failed',
          'created-after-failure', 'configure', 'change-scope', 'back-to-scope', 'info-merged', 'shared-scope', 'by-thread', 'by-scope', 'threads:1', 'threads:2',
          'threads:3', 'threads:4', 'own-configuration', 'thread-after-others']

SCOPES = ['A', 'B', 'C']


class Simulated(Exception):
    pass


def prepare():
    import random
    rng = random.Random(8)
    for i in range(4):
        run(gen(rng), core.Env())


NAMES = ('autocommit', 'autoflush', 'expire_on_commit')


def gen_kw(rng, real, every=False):
    kw = {}
    if real:
        return {k: rng.random() < .5 for k in NAMES if every or rng.random() < .3}
    for k in ('p', 'q', 'r', 'bind'):
        if rng.random() < .3:
            kw[k] = rng.randint(0, 9)
    if not real and rng.random() < .4:
        kw['info'] = {rng.choice('abc'): rng.randint(0, 9) for i in range(rng.randint(0, 3))}
    return kw


def gen(rng):
    real = rng.random() < .4
    makers = [gen_kw(rng, real, True) for i in range(rng.choice([1, 1, 2]))]
    scoped = [{'maker': rng.randint(0, len(makers) - 1), 'by': rng.choice(['thread', 'scope', 'scope'])} for i in range(rng.choice([1, 1, 2]))]
    nt = rng.choice([1, 2, 2, 3, 4])
    threads = []
    crowd = real and rng.random() < .3      # everybody creates sessions
    for t in range(nt):
        ops = []
        for i in range(rng.randint(1, 12)):
            do = 'create' if crowd else rng.choice(['create', 'create', 'use', 'use', 'use', 'call', 'remove', 'remove', 'configure', 'scope', 'shared'])
            op = {'do': do, 'maker': rng.randint(0, len(makers) - 1), 'scoped': rng.randint(0, len(scoped) - 1)}
            if do in ('create', 'call', 'configure'):
                op['kw'] = gen_kw(rng, real)
                if do == 'configure':
                    op['kw'].pop('info', None)
                    if not real and rng.random() < .5:
                        op['kw']['k%d' % rng.randint(0, 2)] = rng.randint(0, 9)
                op['by'] = rng.choice(['maker', 'scoped'])
            if do == 'scope':
                op['to'] = rng.choice(SCOPES)
            if do in ('create', 'use', 'call', 'shared') and rng.random() < .2:
                op['fail'] = rng.choice(['before', 'after'])
            ops.append(op)
        threads.append(ops)
    return {'real': real, 'makers': makers, 'scoped': scoped, 'threads': threads, 'first': rng.randint(0, nt - 1), 'later': rng.choice([0, 0, rng.randint(0, nt - 1)]),
            'switches': threadsim.random_switches(rng, rng.choice([20, 100, 1500] if not real else [100, 1500, 8000]), nt)}


def run(plan, env):
    from ngoschema import session as S
    nt = len(plan['threads'])
    if not nt or not plan['makers'] or not plan['scoped'] or any(not 0 <= s['maker'] < len(plan['makers']) for s in plan['scoped']):
        raise core.Skip()
    for ops in plan['threads']:
        for op in ops:
            if plan['real'] and not set(op.get('kw', {})) <= set(NAMES):
                raise core.Skip()
            if not 0 <= op['maker'] < len(plan['makers']) or not 0 <= op['scoped'] < len(plan['scoped']):
                raise core.Skip()
    for kw in plan['makers']:
        if plan['real'] and set(kw) != set(NAMES):
            raise core.Skip()
    fail = {}       # thread -> when its next creation fails
    scope = {}      # thread -> its current scope
    closed = []
    made = []
    hits = [0]

    def trip(when):
        me = _thread.get_ident()
        if fail.get(me) == when:
            del fail[me]
            hits[0] += 1
            raise Simulated('simulated: the factory fails')

    class Stub(object):
        def __init__(self, **kw):
            trip('before')
            self.opts = kw
            trip('after')
            made.append(self)

        def close(self):
            closed.append(self)

    def real_init(self, **kw):
        trip('before')
        S.Session.__init__(self, **kw)
        trip('after')
        self.__dict__['_sim_opts'] = kw
        made.append(self)

    def real_close(self):
        closed.append(self)
    base = type('SimSession', (S.Session,), {'__init__': real_init, 'close': real_close}) if plan['real'] else Stub
    env.probe('real' if plan['real'] else 'stub')
    makers = [S.session_maker(class_=base, **copy.deepcopy(kw)) for kw in plan['makers']]
    scopefunc = lambda: scope[_thread.get_ident()]
    scoped = [S.scoped_session(makers[s['maker']], scopefunc if s['by'] == 'scope' else None) for s in plan['scoped']]
    shared = S.scoped_session(makers[0], lambda: 'shared')
    # who configures what
    writers, values = {}, {}
    for m, kw in enumerate(plan['makers']):
        for k, v in kw.items():
            values.setdefault((m, k), []).append(v)
    for t, ops in enumerate(plan['threads']):
        for op in ops:
            if op['do'] == 'configure':
                m = op['maker'] if op['by'] == 'maker' else plan['scoped'][op['scoped']]['maker']
                for k, v in op['kw'].items():
                    writers.setdefault((m, k), set()).add(t)
                    values.setdefault((m, k), []).append(v)

    def program(t, ops):
        out = []
        conf = {}
        state = {}      # scoped, key -> session
        removed = set()
        visited = set()

        def options(sess):
            return sess._sim_opts if plan['real'] else sess.opts

        def created(m, sess, kw):
            opts = options(sess)
            init = plan['makers'][m]
            for k in set(opts) | set(init) | set(kw) | {k for mm, k in conf if mm == m}:
                if k == 'bind' and plan['real'] or not plan['real'] and k in NAMES:
                    continue
                if k == 'info':
                    want = [dict(init.get('info', {}), **kw.get('info', {}))]
                    if 'info' in init and 'info' in kw:
                        out.append(('probe', 'info-merged'))
                elif k in kw:
                    want = [kw[k]]
                elif writers.get((m, k)) == {t} and (m, k) in conf:
                    want = [conf[m, k]]
                    out.append(('probe', 'own-configuration'))
                elif (m, k) in writers and writers[m, k] != {t}:
                    want = values[m, k] + ([] if k in init else [None])
                else:
                    want = [init.get(k)]
                if opts.get(k) not in want:
                    out.append(('fail', 'options', 'a session created with %s by a factory of %s has %s=%r (expected %s)' % (kw, init, k, opts.get(k), want)))

        def body():
            me = _thread.get_ident()
            scope[me] = (t, 'A')
            for n, op in enumerate(ops):
                do, m, i = op['do'], op['maker'], op['scoped']
                kw = op.get('kw', {})
                given = copy.deepcopy(kw)
                fail.pop(me, None)
                if op.get('fail'):
                    fail[me] = op['fail']
                key = i, (scope[me] if plan['scoped'][i]['by'] == 'scope' else None)
                known = state.get(key)
                out.append(('op', do, plan['scoped'][i]['by']))
                try:
                    if do == 'create':
                        sess = makers[m](**kw)
                        created(m, sess, given)
                        out.append(('new', sess))
                    elif do == 'use' or do == 'call':
                        sess = scoped[i](**(kw if do == 'call' else {}))
                        if known is not None:
                            if do == 'call' and kw:
                                out.append(('fail', 'options-accepted', 'options are accepted although the scope has a session'))
                            if sess is not known:
                                out.append(('fail', 'scope', 'using the scope again gives another session'))
                            out.append(('probe', 'use-again'))
                        else:
                            if key in removed:
                                out.append(('probe', 'created-after-failure'))
                            created(plan['scoped'][i]['maker'], sess, given if do == 'call' else {})
                            out.append(('new', sess))
                            if do == 'call' and kw:
                                out.append(('probe', 'use-options'))
                        state[key] = sess
                    elif do == 'remove':
                        was = len([c for c in closed if c is known]) if known is not None else 0
                        scoped[i].remove()
                        if known is not None:
                            if len([c for c in closed if c is known]) != was + 1:
                                out.append(('fail', 'close', 'removing the session of a scope does not close it'))
                            out.append(('gone', known))
                        else:
                            out.append(('probe', 'remove-none'))
                        state.pop(key, None)
                    elif do == 'configure':
                        target = m if op['by'] == 'maker' else plan['scoped'][i]['maker']
                        (makers[m] if op['by'] == 'maker' else scoped[i]).configure(**kw)
                        for k, v in kw.items():
                            conf[target, k] = v
                    elif do == 'scope':
                        scope[me] = (t, op['to'])
                        out.append(('probe', 'back-to-scope' if op['to'] in visited else 'change-scope'))
                        visited.add(op['to'])
                    elif do == 'shared':
                        out.append(('shared', shared()))
                except Simulated:
                    if not op.get('fail') or do in ('remove', 'configure', 'scope'):
                        raise
                    out.append(('probe', 'factory-failed'))
                    if do in ('use', 'call') and known is not None:
                        out.append(('fail', 'created', 'a session is created although the scope has one'))
                    removed.add(key)
                except Exception as er:
                    if do == 'call' and known is not None and kw and type(er).__name__ == 'InvalidRequestError':
                        out.append(('probe', 'refused-options'))
                    else:
                        raise
                finally:
                    fail.pop(me, None)
                if kw != given:
                    out.append(('fail', 'options-changed', 'the options given %s became %s' % (given, kw)))
            for (i, key), sess in sorted(state.items(), key=lambda x: repr(x[0])):
                scope[me] = key
                if scoped[i]() is not sess:
                    out.append(('fail', 'scope', 'using the scope again gives another session'))
            return out, list(state.values())
        return body

    programs = [program(t, ops) for t, ops in enumerate(plan['threads'])]
    later = min(plan.get('later', 0), nt - 1)
    results = []
    # the last threads start when the others have ended
    for part in [programs[:nt - later]] + [[f] for f in programs[nt - later:]]:
        s = threadsim.Scheduler([tuple(x) for x in plan['switches']])
        results += s.run(part, min(plan['first'], len(part) - 1))
        env.steps += s.step
        env.log('trace', s.trace)
        env.sign(plan['threads'], plan['makers'], plan['scoped'], s.trace)
        if s.taken:
            env.fault('thread-switch', s.taken)
            env.probe('switched')
        if s.abort:
            return env.fail(*s.abort)
    if later:
        env.probe('thread-after-others')
    if hits[0]:
        env.fault('factory', hits[0])
    env.probe('threads:%d' % nt)
    owner = {}
    sh = []
    for t, r in enumerate(results):
        if r[0] == 'error':
            if not r[2]:
                raise r[1]
            env.fail('unexpected-error', 'thread %d: %s: %s' % (t, type(r[1]).__name__, r[1]))
        for what in r[1][0]:
            env.log(t, *[x if isinstance(x, (str, int)) else None for x in what])
            if what[0] == 'fail':
                env.fail(*what[1:])
            elif what[0] == 'probe':
                env.probe(what[1])
            elif what[0] == 'op':
                env.probe('shared-scope' if what[1] == 'shared' else what[1] if what[1] not in ('scope', 'call') else 'change-scope' if what[1] == 'scope' else 'use')
                if what[1] == 'use':
                    env.probe('by-' + what[2])
            elif what[0] == 'new':
                k = id(what[1])
                env.check(k not in owner, 'shared', 'threads %s and %d got the same new session' % (owner.get(k), t))
                owner[k] = t
            elif what[0] == 'shared':
                sh.append(what[1])
                env.check(what[1] is sh[0], 'scope', 'the threads sharing a scope get different sessions')
    live = [id(x) for r in results for x in r[1][1]]
    env.check(len(set(live)) == len(live), 'shared', 'two scopes have the same session')
    env.check(not {id(x) for x in closed} & set(live), 'closed', 'the session of a scope was closed and the scope not removed')
    env.check(len({id(x) for x in closed}) == len(closed), 'closed', 'a session was closed twice')
    if plan['real']:
        ids = [x._hash_key for x in made]
        env.check(len(set(ids)) == len(ids), 'identifier', 'sessions have the same identifier: %s' % sorted(x for x in set(ids) if ids.count(x) > 1))
    for m, kw in enumerate(plan['makers']):
        left = makers[m].kw
        for k in set(left) | set(kw):
            if (m, k) in writers or k == 'bind' and plan['real'] or not plan['real'] and k in NAMES:
                continue
            env.check(left.get(k) == kw.get(k), 'factory', 'the option %s of the factory is %r instead of %r' % (k, left.get(k), kw.get(k)))
