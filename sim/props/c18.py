"""C18: translating names and identifiers depends on current registrations only."""
import core

ID = 'C18'
LEVEL = 'exploration'
QUICK = (5000, 100)
THOROUGH = (500000, 400)
RULE = 'an execution is the registrations, changes of namespace and translations made by the managers'
REAL = ['ngoschema namespace managers, store of documents, namespaces registered by the builder of types']
STUBS = ['none: the reference answers are those of managers created for one translation, under names never used before']
ASSUMPTIONS = ['translations treat alike all hosts with names of the same length', 'documents keep the order in which they were first registered', 'one thread', 'PyPy 3.9 interpreter']
PROBES = ['id', 'id-relative', 'cname', 'cname-relative', 'cname-parent', 'contains', 'definitions', 'namespaces', 'same-query-after-change', 'answer-changed', 'raised', 'namespace-added', 'namespace-replaced',
          'added-relative', 'added-unnamed', 'current-set', 'current-changed', 'current-in-parent', 'child-manager', 'parent-changed-after', 'doc-registered', 'doc-replaced', 'doc-unregistered',
          'doc-missing-unregistered', 'builder-namespace', 'builder-namespace-again', 'built', 'other-manager', 'found-in-doc', 'relative-and-full']

WORDS = ('a', 'ab', 'a/b', 'a/2', 'b', 'a-b', 'c/d')
NAMES = ('T', 'T.a', 'T.ab', 'T.a.b', 'T.b', 'U', 'T.a.C', 'T.c')
DEFS = ('C', 'Dd', 'e', 'f_g', 'h-i')
TOKENS = [0]


def prepare():
    import random
    rng = random.Random(3)
    for i in range(10):
        try:
            run(gen(rng), core.Env())
        except (core.Skip, core.Violation):
            pass


def gen_uri(rng):
    return 'https://T.org/' + rng.choice(WORDS)


def gen_doc(rng, depth=2):
    d = {}
    for tag in rng.sample(['$defs', 'properties', 'definitions'], rng.choice([1, 1, 2])):
        d[tag] = {}
        for k in rng.sample(DEFS, rng.choice([1, 2, 3])):
            d[tag][k] = gen_doc(rng, depth - 1) if depth and rng.random() < .5 else {'type': 'object'}
    return d


def gen_query(rng, nm):
    m = rng.randint(0, nm - 1)
    x = rng.random()
    frag = rng.choice(['', '#', '#/$defs/' + rng.choice(DEFS), '#/$defs/%s/$defs/%s' % (rng.choice(DEFS), rng.choice(DEFS)), '#/$defs/%s/properties/%s' % (rng.choice(DEFS), rng.choice(DEFS)),
                       '#/properties/' + rng.choice(DEFS)])
    cname = rng.choice(NAMES + ('T.a_2', 'T.a_b', 'T.c.d')) + ''.join('.' + rng.choice(DEFS).replace('-', '_') for i in range(rng.choice([0, 1, 1, 2, 3])))
    if x < .3:
        return {'q': 'id', 'm': m, 'x': gen_uri(rng) + frag if rng.random() < .9 else frag or '#', 'rel': rng.random() < .4}
    if x < .75:
        y = rng.random()
        if y < .25:
            cname = '.' * rng.choice([1, 1, 2, 3]) + rng.choice(DEFS) + rng.choice(['', '.' + rng.choice(DEFS)])
        elif y < .4:
            cname = '.'.join(rng.choice(DEFS) for i in range(rng.choice([1, 2])))
        return {'q': 'cname', 'm': m, 'x': cname}
    if x < .85:
        return {'q': 'in', 'm': m, 'x': cname}
    if x < .93:
        return {'q': 'defs', 'm': m, 'x': cname}
    return {'q': 'namespaces', 'm': m, 'x': rng.choice(['T', 'T.a'])}


def gen(rng):
    nm = rng.choice([1, 2, 2, 3])
    managers = []
    for i in range(nm):
        managers.append({'parent': rng.randint(0, i - 1) if i and rng.random() < .5 else None, 'local': {rng.choice(NAMES): gen_uri(rng) for k in range(rng.choice([0, 1, 2]))}})
    pool = [gen_query(rng, nm) for i in range(rng.choice([3, 6, 10]))]
    ops = []
    for i in range(rng.choice([6, 12, 25, 40])):
        m = rng.randint(0, nm - 1)
        x = rng.random()
        if x < .55:
            ops.append({'do': 'query', 'query': rng.choice(pool) if rng.random() < .8 else gen_query(rng, nm)})
        elif x < .67:
            u = gen_uri(rng)
            y = rng.random()
            if y < .3:
                u += rng.choice(['#', '#/$defs/C', '#/$defs/Dd'])
            elif y < .45:
                u = rng.choice(['#/$defs/C', '#/$defs/Dd/$defs/C'])
            ops.append({'do': 'add', 'm': m, 'uri': u, 'name': rng.choice(NAMES) if rng.random() < .7 else None})
        elif x < .75:
            ops.append({'do': 'current', 'm': m, 'name': rng.choice(NAMES) + rng.choice(['', '', '.C', '.x'])})
        elif x < .87:
            ops.append({'do': 'register', 'uri': gen_uri(rng), 'doc': gen_doc(rng)})
        elif x < .93:
            ops.append({'do': 'unregister', 'uri': gen_uri(rng)})
        elif x < .97:
            ops.append({'do': 'builder', 'uri': gen_uri(rng) + rng.choice(['', '#/$defs/C']), 'name': rng.choice(NAMES) if rng.random() < .4 else None})
        else:
            ops.append({'do': 'build', 'uri': gen_uri(rng), 'def': rng.choice(['C', 'Dd'])})
    return {'managers': managers, 'ops': ops}


def token(n):
    """names of the same length, never used before"""
    s = ''
    for i in range(6):
        s += chr(ord('a') + n % 26)
        n //= 26
    return 'kz' + s[::-1]


def named(x, t):
    """x with the names of host t"""
    if isinstance(x, str):
        return x.replace('T', t).replace('U', 'ky' + t[2:])
    if isinstance(x, dict):
        return {named(k, t): named(v, t) for k, v in x.items()}
    return x


def run(plan, env):
    from ngoschema.managers.namespace_manager import NamespaceManager
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.resolvers.uri_resolver import UriResolver
    nm = len(plan['managers'])
    for i, m in enumerate(plan['managers']):
        if m['parent'] is not None and not 0 <= m['parent'] < i:
            raise core.Skip()
    for op in plan['ops']:
        for o in (op, op.get('query', {})):
            if not 0 <= o.get('m', 0) < nm or o.get('x') == '' or o.get('name') == '' or o.get('uri') == '':
                raise core.Skip()
    store = UriResolver.get_doc_store()
    builder = getattr(NamespaceManager, '_builder_ns', {})
    builder_before = set(builder)
    TOKENS[0] += 1
    T = token(TOKENS[0])

    docs = {}           # uri -> document now
    order = []
    global_ns = []      # namespaces of the builder
    models = [{'adds': [(u, n) for n, u in m['local'].items()], 'current': None, 'parent': m['parent']} for m in plan['managers']]

    def make(i, t, made):
        """a manager created now, for host t"""
        if i in made:
            return made[i]
        m = models[i]
        seen = {}
        parents = [seen] + ([make(m['parent'], t, made)] if m['parent'] is not None else [])
        x = NamespaceManager(*parents)
        for uri, name in m['adds']:
            x.add(named(uri, t), named(name, t) if name is not None else None)
        if m['current']:
            seen[named(m['current'][0], t)] = named(m['current'][1], t)
            hidden = {k: v for k, v in x._local.items() if k == named(m['current'][0], t)} if hasattr(x, '_local') else {}
            if hidden:
                # the namespace had another identifier when it became the current one
                x.add(named(m['current'][1], t), named(m['current'][0], t))
            x.set_current(named(m['current'][0], t))
            for k, v in hidden.items():
                if k:
                    x.add(v, k)
            seen.clear()
        made[i] = x
        return x

    def reference(f):
        """what f gives for managers created now, under names never used"""
        TOKENS[0] += 1
        t = token(TOKENS[0])
        before = set(builder)
        try:
            for u in order:
                UriResolver.register_doc(named(docs[u], t), named(u, t))
            for uri, name in global_ns:
                NamespaceManager.register_ns(named(uri, t), named(name, t) if name is not None else None)
            return outcome(f, lambda i: make(i, t, {}), t)
        finally:
            for u in order:
                UriResolver.unregister_doc(named(u, t))
            for k in set(builder) - before:
                del builder[k]

    def outcome(f, manager, t):
        try:
            r = f(manager, t)
        except Exception as er:
            return 'raises ' + type(er).__name__
        return repr(r).replace('ky' + t[2:], 'U').replace(t, 'T')

    def translate(q):
        def f(manager, t):
            m, x = manager(q['m']), named(q['x'], t)
            if q['q'] == 'id':
                return m.get_id_cname(x, relative=q['rel'])
            if q['q'] == 'cname':
                return m.get_cname_id(x)
            if q['q'] == 'in':
                return x in m
            if q['q'] == 'defs':
                return sorted(m.get_cname_definitions(x).items())
            return [(k, u) for k, u in m.namespaces(x).items()]
        return f

    answers = {}
    changed = 0
    children = {m['parent'] for m in models if m['parent'] is not None}
    try:
        managers = [None] * nm
        for i, m in enumerate(plan['managers']):
            managers[i] = NamespaceManager(*([managers[m['parent']]] if m['parent'] is not None else []), **named(m['local'], T))
            if m['parent'] is not None:
                env.probe('child-manager')
        for n, op in enumerate(plan['ops']):
            do = op['do']
            if do == 'query':
                q = op['query']
                if q['q'] not in ('id', 'cname', 'in', 'defs', 'namespaces'):
                    raise core.Skip()
                got = outcome(translate(q), lambda i: managers[i], T)
                want = reference(translate(q))
                env.log(n, q, got)
                env.probe({'id': 'id-relative' if q.get('rel') else 'id', 'in': 'contains', 'defs': 'definitions', 'namespaces': 'namespaces',
                           'cname': 'cname' if not q['x'].startswith('.') else 'cname-parent' if q['x'].startswith('..') else 'cname-relative'}[q['q']])
                if got.startswith('raises'):
                    env.probe('raised')
                env.steps += 1
                key = repr(sorted(q.items()))
                if key in answers and answers[key][1] != changed:
                    env.probe('same-query-after-change')
                    env.nontrivial = True
                    if answers[key][0] != want:
                        env.probe('answer-changed')
                answers[key] = want, changed
                current = models[q['m']]['current']
                if current and current[0] and (q['q'] == 'cname' and q['x'].startswith('.') and not q['x'].startswith('..') or q.get('rel')):
                    # said from the current namespace, or in full
                    if q['q'] == 'cname':
                        full = dict(q, x=current[0] + q['x'])
                        other = outcome(translate(full), lambda i: managers[i], T)
                    else:
                        full = dict(q, rel=False)
                        other = outcome(translate(full), lambda i: managers[i], T)
                        if not other.startswith('raises') and other != 'None':
                            x = eval(other)
                            rest = x[len(current[0]):] if x.startswith(current[0]) else None
                            # names which only begin like the current namespace are not claimed
                            other = repr(x) if rest is None else repr(rest[1:]) if rest[:1] in ('', '.') else got
                    env.check(got == other, 'relative', 'operation %d: %s relatively to the current namespace %s is %s for manager %d, in full it is %s' % (n, q['x'], current[0], got, q['m'], other))
                    env.probe('relative-and-full')
                if q['q'] == 'cname' and docs and '/properties/' in want or '/definitions/' in want:
                    env.probe('found-in-doc')
                if q['m'] and not models[q['m']]['parent']:
                    env.probe('other-manager')
                env.check(got == want, 'stale', 'operation %d: %s of %s by manager %d is %s; a manager just created with the same registrations gives %s' % (
                    n, {'id': 'the name', 'cname': 'the identifier', 'in': 'the membership', 'defs': 'the list of definitions', 'namespaces': 'the list of namespaces'}[q['q']], q['x'], q['m'], got, want))
                continue
            changed += 1
            if do == 'add':
                m = models[op['m']]
                if op['uri'].startswith('#'):
                    env.probe('added-relative')
                if op['name'] is None:
                    env.probe('added-unnamed')
                else:
                    env.probe('namespace-replaced' if op['name'] in [a[1] for a in m['adds']] else 'namespace-added')
                managers[op['m']].add(named(op['uri'], T), named(op['name'], T) if op['name'] is not None else None)
                if op['name'] is not None and not op['uri'].startswith('#'):
                    # it takes effect at once
                    f = lambda manager, t: (named(op['name'], t) in manager(op['m']), manager(op['m']).namespaces().get(named(op['name'], t)))
                    got = outcome(f, lambda i: managers[i], T)
                    env.check(got == repr((True, op['uri'])), 'added', 'operation %d: after adding namespace %s as %s, its presence and identifier are %s' % (n, op['uri'], op['name'], got))
                base = m['current'][1] if m['current'] else '#'
                m['adds'].append((base.split('#')[0] + op['uri'] if op['uri'].startswith('#') else op['uri'], op['name']))
                if op['m'] in children:
                    env.probe('parent-changed-after')
            elif do == 'current':
                def f(manager, t):
                    x = manager(op['m'])
                    x.set_current(named(op['name'], t))
                    return x.currentNs, x.currentNsUri
                got = outcome(f, lambda i: managers[i], T)
                want = reference(f)
                env.check(got == want, 'current', 'operation %d: the current namespace set to %s is %s; it is %s for a manager just created with the same registrations' % (n, op['name'], got, want))
                m = models[op['m']]
                if got.startswith('raises'):
                    continue
                env.probe('current-changed' if m['current'] else 'current-set')
                c = eval(got)
                known = [a[1] for a in m['adds'] if a[1] is not None and op['name'].startswith(a[1])]
                if known:
                    env.check(op['name'].startswith(c[0]) and len(c[0]) >= max(map(len, known)), 'current', 'operation %d: the current namespace set to %s is %s, though the manager has %s' % (n, op['name'], c[0], max(known)))
                if m['parent'] is not None and c[0] not in [a[1] for a in m['adds']]:
                    env.probe('current-in-parent')
                m['current'] = c
            elif do == 'register':
                env.probe('doc-replaced' if op['uri'] in docs else 'doc-registered')
                UriResolver.register_doc(named(dict(op['doc']), T), named(op['uri'], T))
                if op['uri'] not in docs:
                    order.append(op['uri'])
                docs[op['uri']] = op['doc']
            elif do == 'unregister':
                UriResolver.unregister_doc(named(op['uri'], T))
                env.probe('doc-unregistered' if op['uri'] in docs else 'doc-missing-unregistered')
                if docs.pop(op['uri'], None) is not None:
                    env.fault('document-lost')
                    order.remove(op['uri'])
            elif do == 'builder':
                env.probe('builder-namespace-again' if op['uri'] in [u for u, x in global_ns] else 'builder-namespace')
                NamespaceManager.register_ns(named(op['uri'], T), named(op['name'], T) if op['name'] is not None else None)
                global_ns.append((op['uri'], op['name']))
            elif do == 'build':
                # a type built from a document registers the namespace of the document
                doc = {'$defs': {op['def']: {'type': 'object', 'properties': {'e': {'type': 'string'}}}}}
                uri = named(op['uri'], T)
                UriResolver.register_doc(dict(doc, **{'$id': uri}), uri)
                if op['uri'] not in docs:
                    order.append(op['uri'])
                docs[op['uri']] = dict(doc, **{'$id': op['uri']})
                type_builder.load('%s#/$defs/%s' % (uri, op['def']))
                global_ns.append((op['uri'], None))
                env.probe('built')
            else:
                raise core.Skip()
        env.sign(plan)
    finally:
        for u in list(docs):
            UriResolver.unregister_doc(named(u, T))
        for k in set(builder) - builder_before:
            del builder[k]
        reg = getattr(type_builder, '_registry', {})
        for k in [k for k in reg if T in str(k)]:
            del reg[k]
