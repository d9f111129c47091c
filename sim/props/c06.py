"""C06: resolution follows the documents registered now; fetch failures leave no trace."""
import json
from urllib.parse import unquote

import core

ID = 'C06'
LEVEL = 'exploration'
QUICK = (6000, 200)
THOROUGH = (400000, 1000)
RULE = ('an execution is the sequence of registrations, resolutions (with their route) and network outcomes, with the results; only '
        'those with a network fault, or a resolution after a replacement or an unregistration, count')
REAL = ['ngoschema resolvers and document store', 'jsonschema RefResolver', 'requests sessions, redirections, response decoding']
STUBS = ['HTTP transport adapter and servers (sim/net.py)']
ASSUMPTIONS = ['the reference resolver of a validator is used for one resolution (it keeps its own results)', 'PyPy 3.9 interpreter']
PROBES = ['local', 'local-after-replace', 'local-after-unregister', 'unresolvable', 'missing-fragment', 'fetched', 'registered-not-fetched',
          'fetch-failed', 'fetched-after-failure', 'http-error', 'broken-body', 'redirect', 'case', 'falsy', 'not-on-server',
          'route:doc', 'route:uri', 'route:part', 'route:reference', 'route:type', 'route:own', 'own-document', 'remote-changed', 'relative', 'redirect-followed']
FAULTS = ['connection', 'timeout', 'status404', 'status500', 'status503', 'status401', 'redirect-away', 'truncated', 'empty', 'html', 'cut', 'not-utf8']
NAMES = ['https://sim.test/a', 'https://sim.test/b.json', 'https://sim.test/Dir/c', 'https://other.test/a', 'http://sim.test/a',
         'https://sim.test/a/', 'https://sim.test/a?v=1', 'https://sim.test/a.json', 'https://sim.test/a/b', 'urn:sim:a']
FRAGMENTS = ['', '#', '#/a', '#/a/b', '#/list/1', '#/list/9', '#/missing', '#/a/missing/x', '#/sl~1ash', '#/ti~0lde', '#/sp%20ace', '#/zero',
             '#/empty', '#/none', '#/false', '#/$defs/X', '#a/b', '#/list/x',
             '#/list/-', '#/a%2Fb', '#/a/', '#/~01x', '#/%C3%A9t%C3%A9', '#/1', '#/a/c/0', '#/list', '#/list/2/0/1', '#/0', '#/0/v', '#/a/b/c', '#/$id', '#//', '#/ab', '#/list/01']


def prepare():
    from ngoschema.resolvers.uri_resolver import UriResolver  # noqa
    from ngoschema.types.uri import Uri  # noqa


def gen(rng):
    ops = []
    near = rng.randint(0, len(NAMES) - 1)
    for i in range(rng.randint(3, 22)):
        do = rng.choice(['register', 'register', 'unregister', 'publish', 'resolve', 'resolve', 'resolve', 'resolve', 'resolve'])
        op = {'do': do, 'uri': rng.randint(0, len(NAMES) - 1), 'case': rng.choice([0, 0, 0, 1]), 'hash': rng.choice([0, 0, 0, 1])}
        x = rng.random()
        if x < .45:
            op['uri'] = 0
        elif x < .6:
            op['uri'] = near        # another name that looks like it
        if do in ('register', 'publish'):
            op['version'] = rng.choice([0, 1, 2, 3, 4, 5, 1, 2, 3, -1, -2])
        if do == 'resolve':
            op.update(fragment=rng.randint(0, len(FRAGMENTS) - 1) if rng.random() < .6 else rng.choice([0, 2, 3]),
                      route=rng.choice(['doc', 'uri', 'uri', 'part', 'reference', 'relative', 'type', 'own']), remote=rng.random() < .6,
                      net=[rng.choice(FAULTS + ['redirect-to', 'redirect-to']) if rng.random() < .45 else None for k in range(rng.randint(0, 2))])
        ops.append(op)
    return {'ops': ops}


def document(version, uri):
    if version == -1:
        return {}
    if version == -2:
        return [{'v': uri}, 'x']
    return {'$id': uri, '~1x': version, '\xe9t\xe9': {'e': version}, '1': 'one', 'ab': [], 'a': {'b': version, 'c': 'é'}, 'list': [version, {'v': version}, [[], version]], 'sl/ash': version, 'ti~lde': [version], 'sp ace': 's%d' % version,
            'zero': 0, 'empty': '', 'none': None, 'false': False, '$defs': {'X': {'type': 'object', 'n': version}}}


class Missing(Exception):
    pass


def part(doc, fragment):
    frag = fragment.lstrip('#').lstrip('/')
    for p in (unquote(frag).split('/') if frag else []):
        p = p.replace('~1', '/').replace('~0', '~')
        try:
            doc = doc[int(p)] if isinstance(doc, list) else doc[p]
        except (KeyError, IndexError, ValueError, TypeError):
            raise Missing()
    return doc


def run(plan, env):
    from ngoschema.resolvers.uri_resolver import UriResolver, resolve_doc, resolve_uri
    from ngoschema.types.uri import Uri
    store = UriResolver.get_doc_store()
    saved = dict(store)
    net = core.network
    net.reset()
    net.env = env
    model, server = {}, {}
    replaced, gone, failed = set(), set(), set()
    home = 'https://sim.test/home'
    UriResolver.register_doc({'$id': home, 'h': 1}, home)
    try:
        for op in plan['ops']:
            uri = NAMES[op['uri']]
            key = uri.lower()
            if op['do'] == 'publish' and not uri.startswith('http'):
                continue
            asked = uri if not op['case'] else uri.upper().replace('HTTPS', 'https').replace('HTTP', 'http')
            if op['do'] == 'register':
                if key in model:
                    replaced.add(key)
                model[key] = document(op['version'], uri)
                UriResolver.register_doc(model[key], asked + '#' * op.get('hash', 0))
                env.log('register', op['uri'], op['version'])
            elif op['do'] == 'unregister':
                UriResolver.unregister_doc(asked + '#' * op.get('hash', 0))
                if model.pop(key, None) is not None:
                    gone.add(key)
                env.log('unregister', op['uri'])
            elif op['do'] == 'publish':
                server[key] = document(op['version'], uri)
                net.server[key] = json.dumps(server[key]).encode('utf-8')
                env.log('publish', op['uri'], op['version'])
            else:
                resolve(env, op, asked, key, model, server, net, home, replaced, gone, failed, UriResolver, resolve_doc, resolve_uri, Uri)
                env.sign(op['uri'], op['route'], op['fragment'], op['remote'], op['net'], key in model)
            # what is registered, as anyone can see it
            for u in NAMES:
                k = u.lower()
                env.check((u in store) == (k in model), 'registered', '%s is %sregistered after %s' % (u, '' if u in store else 'not ', op))
                if k in model:
                    env.check(store[u] == model[k] and type(store[u]) is type(model[k]), 'registered-document', '%s is registered as %s after %s' % (u, store[u], op))
        extra = [k for k in store if k not in saved and k not in model and k != home]
        env.check(not extra, 'registered', '%s also registered' % extra)
        for k, v in saved.items():
            env.check(store.get(k) is v, 'registered-document', '%s was changed' % k)
    finally:
        net.reset()
        for k in list(store):
            if k not in saved:
                del store[k]


def resolve(env, op, asked, key, model, server, net, home, replaced, gone, failed, UriResolver, resolve_doc, resolve_uri, Uri):
    fragment = FRAGMENTS[op['fragment']]
    route, remote = op['route'], op['remote']
    if route == 'doc':
        fragment = '' if fragment != '#' else '#'
    if route in ('reference', 'relative'):
        remote = True
    if route == 'part' and remote and fragment in ('', '#'):
        remote = False          # gives the raw content, another function
    if route == 'type':
        remote = False
    if route == 'own':
        # a resolver for a document of its own, which is registered nowhere
        remote = False
        mine = UriResolver.create('https://sim.test/own', {'v': 1})
        env.check(mine.resolve('#/v')[1] == 1, 'wrong-part', 'a resolver does not resolve a part of its own document')
        if key not in model or fragment == '#/a/c/0':
            env.probe('own-document')
            return
    if op['case']:
        env.probe('case')
    if route == 'relative':
        if not asked.startswith('https://sim.test/'):
            route = 'reference'
        else:
            env.probe('relative')
    if not asked.startswith('http') and key not in model and remote:
        return
    if fragment == '#/a/c/0' and route in ('reference', 'relative'):
        return          # jsonschema takes a character of a text for a part of it
    whole = asked + fragment
    net.plan = list(op['net']) if remote else []
    net.requests = []
    err = value = None
    try:
        if route == 'doc':
            value = resolve_doc(whole, remote=remote)
        elif route == 'uri':
            value = resolve_uri(whole, remote=remote)
        elif route == 'part':
            value = UriResolver._resolve(None, whole, remote=remote)
            if value is None and key not in model and not remote:
                raise LookupError('nothing resolved')
        elif route == 'type':
            value = Uri.resolve(whole) if hasattr(Uri, 'resolve') else Uri._resolve(Uri, whole)
        elif route == 'own':
            value = mine.resolve(whole)[1]
        else:
            value = UriResolver.create(home).resolve(whole[len('https://sim.test/'):] if route == 'relative' else whole)[1]
    except Exception as er:
        err = er
    requests = list(net.requests)
    fault = op['net'][0] if op['net'] and remote and op['net'][0] != 'redirect-to' else None
    if remote and op['net'][1:] and op['net'][0] == 'redirect-to':
        fault = op['net'][1]        # where it goes
    net.plan = []
    env.steps += 1
    env.probe('route:' + route)
    what = '%s%s by %s, remote=%s, network %s' % (asked, fragment, route, remote, op['net'] if remote else None)
    env.log('resolve', what, type(err).__name__ if err else None, repr(value)[:100], requests)
    if key in model:
        env.check(not requests, 'fetched-again', 'a registered document is requested: %s' % what)
        if remote:
            env.probe('registered-not-fetched')
        doc = model[key]
    elif not remote:
        env.check(not requests, 'fetched-unasked', 'a document is requested without being asked for: %s' % what)
        doc = None
    else:
        env.check(requests, 'not-fetched', 'nothing is requested: %s' % what)
        doc = None
        if fault is None and key in server:
            doc = server[key]
            moved = bool(op['net']) and op['net'][0] == 'redirect-to'
            if moved:
                env.probe('redirect-followed')
            env.check(len(requests) == 1 + moved, 'fetched-again', '%d requests: %s' % (len(requests), what))
            # from there it is registered
            model[key] = doc
            env.probe('fetched')
            if key in failed:
                env.probe('fetched-after-failure')
        else:
            env.probe('fetch-failed' if fault else 'not-on-server')
            failed.add(key)
            if fault:
                env.probe('http-error' if fault.startswith('status') else 'redirect' if fault.startswith('redirect') else
                          'broken-body' if fault in ('truncated', 'empty', 'html', 'cut', 'not-utf8') else 'fetch-failed')
            env.check(err is not None, 'failure-hidden', 'gives %r although the document could not be fetched: %s' % (value, what))
            return
    if doc is None:
        env.check(err is not None, 'unresolvable', 'gives %r although no document is registered: %s' % (value, what))
        env.probe('local-after-unregister' if key in gone else 'unresolvable')
        env.nontrivial |= key in gone
        return
    try:
        expected = part(doc, fragment)
    except Missing:
        env.check(err is not None, 'missing-fragment', 'gives %r although the document has no such part: %s' % (value, what))
        env.probe('missing-fragment')
        return
    env.check(err is None, 'unexpected-error', 'fails with %s: %s: %s' % (type(err).__name__, err, what))
    env.check(value == expected and type(value) is type(expected), 'wrong-part', 'gives %r instead of %r: %s' % (value, expected, what))
    if not expected:
        env.probe('falsy')
    if not requests:
        env.probe('local-after-replace' if key in replaced else 'local')
        env.nontrivial |= key in replaced
    if key in server and server[key] != doc:
        env.probe('remote-changed')
