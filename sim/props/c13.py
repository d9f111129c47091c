"""C13: a memory repository holds exactly the last object committed under each key."""
import core
import threadsim

ID = 'C13'
LEVEL = 'exploration'
QUICK = (1200, 50)
THOROUGH = (120000, 200)
RULE = 'an execution is the repositories, their sessions, the operations of each thread with the failures of key computations, and the interleaving reached'
REAL = ['ngoschema memory repositories, sessions, entities, arrays and queries']
STUBS = ['computed keys failing when the plan says', 'locks (simulated)']
ASSUMPTIONS = ['the key of an object does not change while a repository holds it', 'each repository is used by one thread',
               'threads are switched between source lines of the library, not inside a line', 'PyPy 3.9 interpreter']
PROBES = ['new', 'replaced', 'replaced-first', 'same-object', 'auto-key', 'auto-key-gap', 'auto-key-two', 'junk', 'failed-own-key', 'failed-stored-key',
          'commit-after-failure', 'rebound', 'two-repositories-one-session', 'same-key-two-repositories', 'subclass', 'default-session', 'changed-value',
          'changed-key-before-commit', 'unresolved', 'queried', 'query-several', 'query-none', 'object-in-two', 'threads:1', 'threads:2', 'threads:3', 'switched', 'stale-computed-key',
          'invalid-object']

URI = 'https://numengo.org/sim13'
INSTANCES = 'https://numengo.org/ngoschema#/$defs/instances/$defs/'
KINDS = ('ent', 'two', 'cmp', 'sub')
classes = {}


class Simulated(Exception):
    pass


class Bomb(object):
    """makes the computations of keys fail from the n-th, in the thread which set it"""

    def __init__(self):
        self.left = {}
        self.hits = 0

    def trip(self):
        import _thread
        me = _thread.get_ident()
        n = self.left.get(me, 0)
        if n:
            self.left[me] = max(1, n - 1)
            if n == 1:
                self.hits += 1
                raise Simulated('simulated: the key cannot be computed')

    def set(self, n):
        import _thread
        self.left[_thread.get_ident()] = n


bomb = Bomb()


def prepare():
    import random
    build()
    rng = random.Random(8)
    for i in range(6):
        try:
            run(gen(rng), core.Env())
        except core.Skip:
            pass


def build():
    if classes:
        return
    from ngoschema.protocols import SchemaMetaclass, with_metaclass
    from ngoschema.decorators import depend_on_prop
    from ngoschema.loaders.schemas import load_schema
    from ngoschema.models.instances import Entity
    v = {'type': 'integer', 'maximum': 9}
    ent = {'type': 'object', 'extends': [INSTANCES + 'Entity']}
    load_schema({'$id': URI, '$defs': {
        'Ent': dict(ent, primaryKeys=['id'], properties={'id': {'type': 'integer'}, 'v': v}),
        'Two': dict(ent, primaryKeys=['a', 'b'], properties={'a': {'type': 'string'}, 'b': {'type': 'integer'}, 'v': v}),
        'Cmp': dict(ent, primaryKeys=['k'], properties={'k': {'type': 'integer'}, 'a': {'type': 'integer'}, 'v': v}),
        'Sub': {'type': 'object', 'extends': ['#/$defs/Ent'], 'properties': {'w': {'type': 'integer'}}}}})

    class Ent(with_metaclass(SchemaMetaclass, Entity)):
        _id = URI + '#/$defs/Ent'

    class Two(with_metaclass(SchemaMetaclass, Entity)):
        _id = URI + '#/$defs/Two'

    class Cmp(with_metaclass(SchemaMetaclass, Entity)):
        _id = URI + '#/$defs/Cmp'

        @depend_on_prop('a')
        def get_k(self):
            bomb.trip()
            return int(self.a) // 10

    class Sub(with_metaclass(SchemaMetaclass, Ent)):
        _id = URI + '#/$defs/Sub'
    classes.update(ent=Ent, two=Two, cmp=Cmp, sub=Sub)


def gen_key(rng, kind):
    if kind == 'two':
        return [rng.choice('xyz'), None if rng.random() < .25 else rng.randint(-1, 3)]
    if kind == 'cmp':
        return [rng.randint(0, 69)]
    return [None if rng.random() < .25 else rng.choice([-3, 0, 1, 2, 3, 4, 9])]


def gen(rng):
    nt = rng.choice([1, 1, 1, 1, 1, 1, 2, 3])
    threads = []
    for t in range(nt):
        ns = rng.choice([1, 2, 2] if nt == 1 else [1])
        nr = rng.choice([1, 2, 2, 3] if nt == 1 else [1, 1, 2])
        repos = [{'kind': rng.choice(KINDS[:3]), 'session': rng.randint(-1 if nt == 1 else 0, ns - 1)} for i in range(nr)]
        if rng.random() < .3:
            for r in repos:
                r['kind'] = repos[0]['kind']
        ops = []
        objs = []
        for i in range(rng.choice([4, 8, 16, 16, 30] if nt == 1 else [2, 4, 8])):
            r = rng.randint(0, nr - 1)
            kind = repos[r]['kind']
            x = rng.random()
            known = [n for n, k in enumerate(objs) if k == kind or k == 'sub' and kind == 'ent']
            if x < .6 or not objs:
                if known and rng.random() < .25:
                    op = {'do': 'commit', 'repo': r, 'obj': rng.choice(known)}
                else:
                    k = 'sub' if kind == 'ent' and rng.random() < .2 else kind
                    op = {'do': 'commit', 'repo': r, 'new': {'kind': k, 'key': gen_key(rng, k), 'v': rng.randint(0, 3)}}
                    if rng.random() < .08:
                        op['new']['bad'] = True     # holds an invalid value which was not read yet
                    elif rng.random() < .15:
                        op['then'] = gen_key(rng, k)        # the key is changed before the commit
                    objs.append(k)
                if kind == 'cmp' and rng.random() < .5:
                    if rng.random() < .7:
                        ops.append({'do': 'stale', 'repo': r, 'digit': rng.randint(0, 9), 'all': rng.random() < .5})
                    op['fail'] = rng.choice([1, 1, 2, 3, 4])
            elif x < .68:
                op = {'do': 'junk', 'repo': r, 'what': rng.choice(['int', 'none', 'str', 'dict', 'list'])}
            elif x < .76:
                op = {'do': 'bind', 'repo': r, 'session': rng.randint(0, ns - 1)}
            elif x < .88:
                op = {'do': 'value', 'obj': rng.randint(0, len(objs) - 1), 'v': rng.randint(0, 3)}
            else:
                op = {'do': 'stale', 'repo': r, 'digit': rng.randint(0, 9), 'all': rng.random() < .5}
            ops.append(op)
        threads.append({'sessions': ns, 'repos': repos, 'ops': ops})
    return {'threads': threads, 'first': rng.randint(0, nt - 1),
            'switches': threadsim.random_switches(rng, rng.choice([100, 1500, 8000]), nt) if nt > 1 else []}


def valid(plan):
    if not plan['threads']:
        return False
    for th in plan['threads']:
        n = 0
        if not th['repos'] or th['sessions'] < 1:
            return False
        for r in th['repos']:
            if r['kind'] not in KINDS or not -1 <= r['session'] < th['sessions'] or r['session'] < 0 and len(plan['threads']) > 1:
                return False
        kinds = []
        for op in th['ops']:
            if 'repo' in op and not 0 <= op['repo'] < len(th['repos']):
                return False
            if 'session' in op and not 0 <= op['session'] < th['sessions']:
                return False
            if 'obj' in op and not 0 <= op['obj'] < len(kinds):
                return False
            if op['do'] == 'commit':
                rk = th['repos'][op['repo']]['kind']
                if 'new' in op:
                    k = op['new']['kind']
                    kinds.append(k)
                    for key in [op['new']['key'], op.get('then', op['new']['key'])]:
                        if len(key) != (2 if k == 'two' else 1) or k == 'cmp' and (key[0] is None or not 0 <= key[0] <= 99) or k == 'two' and key[0] not in ('x', 'y', 'z'):
                            return False
                else:
                    k = kinds[op['obj']]
                if k != rk and not (k == 'sub' and rk == 'ent'):
                    return False
            if op['do'] == 'stale' and not 0 <= op['digit'] <= 9 or 'v' in op and not 0 <= op['v'] <= 9 or op.get('fail', 1) < 1:
                return False
    return True


def run(plan, env):
    from ngoschema.repositories.memory_repository import MemoryRepository
    from ngoschema import session as S
    build()
    if not valid(plan):
        raise core.Skip()
    nt = len(plan['threads'])
    bomb.left.clear()
    bomb.hits = 0
    before = list(S.default_session.repositories)
    names = {'ent': ('id',), 'sub': ('id',), 'two': ('a', 'b'), 'cmp': ('k',)}

    class Obj(object):
        def __init__(self, kind, obj, key, v):
            self.kind, self.obj, self.key, self.v, self.a = kind, obj, key, v, None

    class Repo(object):
        def __init__(self, kind, repo, sessions):
            self.kind, self.repo, self.sessions = kind, repo, sessions
            self.items = []         # the model
            self.failed = False

    def content(r):
        return list(r.repo._content)

    def program(t, th):
        out = []

        def probe(p):
            out.append(('probe', p))

        def fail(what, text):
            out.append(('fail', what, text))

        def attempt(f):
            try:
                return ('ok', f())
            except Exception as er:
                return ('error', er)

        def body():
            sessions = [S.Session() for i in range(th['sessions'])]
            repos = []
            for rp in th['repos']:
                cls = classes[rp['kind']]
                if rp['session'] < 0:
                    repo = MemoryRepository(instanceClass=cls, many=True)
                    used = {'default'}
                    probe('default-session')
                else:
                    repo = MemoryRepository(instanceClass=cls, many=True, meta_opts={'session': sessions[rp['session']]})
                    used = {rp['session']}
                repos.append(Repo(rp['kind'], repo, used))
            objs = []
            seen = {'ent': {(0,), (7,)}, 'two': {('x', 0), ('y', 7)}, 'cmp': {(0,), (7,)}}

            def verify(n, everything=True):
                # the threads are switched inside the checks too, which makes them slow: they do the complete ones at the end
                for i, r in enumerate(repos):
                    where = 'after operation %d, repository %d (%s)' % (n, i, r.kind)
                    got = content(r)
                    if [id(x) for x in got] != [id(m.obj) for m in r.items]:
                        fail('content', '%s: the content is %s instead of %s' % (where, [tuple(x.identityKeys) for x in got], [m.key for m in r.items]))
                    for key in sorted(seen['ent' if r.kind == 'sub' else r.kind], key=repr) if everything else []:
                        m = [m for m in r.items if m.key == key]
                        if (key in r.repo) != bool(m):
                            fail('membership', '%s: %s is%s said to be in it' % (where, key, '' if key in r.repo else ' not'))
                        x = attempt(lambda: r.repo.resolve_fkey(key))
                        if m and (x[0] != 'ok' or x[1] is not m[0].obj):
                            fail('resolution', '%s: %s resolves to %s' % (where, key, x[0]))
                        if not m and x[0] == 'ok' and x[1] is not None:
                            fail('resolution', '%s: %s, which it does not have, resolves' % (where, key))
                        x = attempt(lambda: r.repo.query(**dict(zip(names[r.kind], key))))
                        probe('queried' if m else 'query-none')
                        if m and (x[0] != 'ok' or x[1] is not m[0].obj):
                            fail('query', '%s: the query of %s gives %s' % (where, key, x))
                        if not m and x[0] == 'ok' and x[1] is not None:
                            fail('query', '%s: the query of %s, which it does not have, gives an object' % (where, key))
                    for v in sorted({m.v for m in r.items}) if everything and not any(m.v == 77 for m in r.items) else []:
                        m = [m for m in r.items if m.v == v]
                        x = attempt(lambda: r.repo.query(v=v))
                        if len(m) == 1 and (x[0] != 'ok' or x[1] is not m[0].obj):
                            fail('query', '%s: the query of v=%s gives %s' % (where, v, x))
                        if len(m) > 1 and x[0] == 'ok':
                            fail('query', '%s: the query of v=%s finds one object' % (where, v))
                        if len(m) > 1:
                            probe('query-several')
                every = [(i, s) for i, s in enumerate(sessions)] + ([('default', S.default_session)] if nt == 1 else [])
                for i, s in every if everything and (n % 4 == 3 or n == len(th['ops'])) else []:
                    for kind in ('ent', 'two', 'cmp', 'sub'):
                        bound = [r for r in repos if i in r.sessions and issubclass(classes[r.kind], classes[kind])]
                        if kind == 'sub' and not bound:
                            continue
                        if len(bound) > 1:
                            probe('two-repositories-one-session')
                        for key in sorted(seen['ent' if kind == 'sub' else kind], key=repr):
                            want = [m.obj for r in bound for m in r.items if m.key == key]
                            if len(want) > 1:
                                probe('same-key-two-repositories')
                            x = attempt(lambda: s.resolve_fkey(key, classes[kind]))
                            if want and (x[0] != 'ok' or not [w for w in want if w is x[1]]):
                                fail('session', 'after operation %d, %s of class %s does not resolve through session %s: %s' % (n, key, kind, i, x[0]))
                            if not want:
                                probe('unresolved')
                                if x[0] == 'ok' and x[1] is not None:
                                    fail('session', 'after operation %d, %s of class %s resolves through session %s, bound to no repository which has it' % (n, key, kind, i))

            def stored(o):
                return [r for r in repos if any(m is o for m in r.items)]

            def set_key(o, key):
                if o.kind == 'two':
                    o.obj.a, o.obj.b = key
                elif o.kind == 'cmp':
                    o.obj.a = key[0]
                    o.a = key[0]
                else:
                    o.obj.id = key[0]
                o.key = (key[0] // 10,) if o.kind == 'cmp' else tuple(key)

            for n, op in enumerate(th['ops']):
                do = op['do']
                if do == 'commit':
                    r = repos[op['repo']]
                    if 'new' in op:
                        nw = op['new']
                        kw = {'v': 77, 'lazyLoading': True} if nw.get('bad') else {'v': nw['v']}
                        if nw['kind'] == 'cmp':
                            kw['a'] = nw['key'][0]
                        else:
                            kw.update((k, x) for k, x in zip(names[nw['kind']], nw['key']) if x is not None)
                        o = Obj(nw['kind'], classes[nw['kind']](**kw), None, kw['v'])
                        if nw.get('bad'):
                            probe('invalid-object')
                        if o.kind == 'cmp':
                            o.a = nw['key'][0]
                        o.key = (o.a // 10,) if o.kind == 'cmp' else tuple(nw['key'])
                        objs.append(o)
                        if o.kind == 'sub':
                            probe('subclass')
                        if 'then' in op and None not in op['then']:
                            set_key(o, op['then'])
                            probe('changed-key-before-commit')
                    else:
                        o = objs[op['obj']]
                        if [x for x in stored(o) if x is not r]:
                            probe('object-in-two')
                    keys = {m.key for m in r.items}
                    hits = bomb.hits
                    if op.get('fail'):
                        bomb.set(op['fail'])
                    x = attempt(lambda: r.repo.commit(o.obj))
                    bomb.set(0)
                    if x[0] == 'error':
                        if o.v == 77 and not isinstance(x[1], Simulated):
                            probe('invalid-refused')
                        elif not isinstance(x[1], Simulated):
                            raise x[1]
                        else:
                            probe('failed-stored-key' if 'new' in op and 'then' not in op else 'failed-own-key')
                        r.failed = True
                    else:
                        if r.failed:
                            probe('commit-after-failure')
                        key = tuple(o.obj.identityKeys)
                        if None in o.key:
                            probe('auto-key-two' if o.kind == 'two' else 'auto-key')
                            if len(r.items) and -1 in [m.key[-1] for m in r.items] or len(keys) > 1:
                                probe('auto-key-gap')
                            if any(w is not None and g != w for g, w in zip(key, o.key)) or not all(type(g) is int for g, w in zip(key, o.key) if w is None):
                                fail('key', 'operation %d: the object without key %s got %s' % (n, o.key, key))
                            elif key in keys:
                                fail('key', 'operation %d: the object without key got %s which another object has' % (n, key))
                            o.key = key
                        elif key != o.key:
                            fail('key', 'operation %d: the object with key %s has key %s after its commit' % (n, o.key, key))
                        at = [i for i, m in enumerate(r.items) if m.key == o.key]
                        if at:
                            probe('same-object' if r.items[at[0]] is o else 'replaced-first' if at[0] == 0 and len(r.items) > 1 else 'replaced')
                            r.items[at[0]] = o
                        else:
                            probe('new')
                            r.items.append(o)
                    if None not in o.key:
                        seen['ent' if o.kind == 'sub' else o.kind].add(o.key)
                elif do == 'junk':
                    r = repos[op['repo']]
                    what = {'int': 5, 'none': None, 'str': 'x', 'dict': {'id': 1, 'a': 'x', 'b': 2}, 'list': []}[op['what']]
                    x = attempt(lambda: r.repo.commit(what))
                    probe('junk')
                    if x[0] == 'ok':
                        # accepting it is not what the property excludes, but then there is no model of the content
                        out.append(('stop',))
                        return out
                    r.failed = True
                elif do == 'bind':
                    r = repos[op['repo']]
                    if op['session'] not in r.sessions:
                        probe('rebound')
                        sessions[op['session']].bind_repo(r.repo)
                        r.sessions.add(op['session'])
                elif do == 'value':
                    o = objs[op['obj']]
                    o.obj.v = op['v']
                    o.v = op['v']
                    probe('changed-value')
                elif do == 'stale':
                    # the keys are computed again, giving the same values
                    for m in repos[op['repo']].items[:None if op['all'] else 1]:
                        if m.kind == 'cmp':
                            m.a = m.a // 10 * 10 + op['digit']
                            m.obj.a = m.a
                            probe('stale-computed-key')
                    continue        # reading the keys would compute them
                verify(n, nt == 1)
                if any(x[0] == 'fail' for x in out):
                    return out
            verify(len(th['ops']))
            return out
        return body

    try:
        if nt == 1:
            results = [('ok', program(0, plan['threads'][0])())]
            trace = []
        else:
            s = threadsim.Scheduler([tuple(x) for x in plan['switches']], 3000000)
            results = s.run([program(t, th) for t, th in enumerate(plan['threads'])], plan['first'])
            env.steps += s.step
            env.log('trace', s.trace)
            trace = s.trace
            if s.taken:
                env.fault('thread-switch', s.taken)
                env.probe('switched')
            if s.abort:
                return env.fail(*s.abort)
    finally:
        while len(S.default_session.repositories) > len(before):
            del S.default_session.repositories[len(S.default_session.repositories) - 1]
        bomb.left.clear()
    if bomb.hits:
        env.fault('key-computation', bomb.hits)
    env.sign(plan['threads'], trace)
    env.probe('threads:%d' % nt)
    for t, r in enumerate(results):
        if r[0] == 'error':
            if not r[2]:
                raise r[1]
            env.fail('unexpected-error', 'thread %d: %s: %s' % (t, type(r[1]).__name__, r[1]))
        for what in r[1]:
            env.log(t, *what)
            if what[0] == 'fail':
                env.fail(*what[1:])
            elif what[0] == 'probe':
                env.probe(what[1])

