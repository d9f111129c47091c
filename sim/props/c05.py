"""C05: loading a folder of schemas isolates the faulty files."""
import json
import os
import random
import sys

import core
import fs

ID = 'C05'
LEVEL = 'exploration'
QUICK = (1600, 50)
THOROUGH = (80000, 200)
RULE = ('an execution is the content of the folder at each load, the order in which the folder is listed, the outcome of the system '
        'calls about each file and what is registered afterwards; only those with a faulty file count')
REAL = ['ngoschema schema and module loaders, document store', 'ngofile listing', 'Python json, io, importlib', 'kernel file system']
STUBS = ['outcome of the open, read and close calls about chosen files (simfs.c)', 'order of directory listings']
ASSUMPTIONS = ['directory listings themselves do not fail', 'identifiers of the files of a folder are distinct', 'PyPy 3.9 interpreter']
PROBES = ['fault-hit', 'truncated', 'not-utf8', 'not-object', 'bad-id', 'no-id', 'nested', 'directory-named-json', 'dangling-link',
          'reloaded-after-fault', 'kept-previous', 'replaced', 'own-store', 'split-read', 'deep', 'large', 'through-load_schema_file']
ROUTES = ['load', 'load', 'register', 'store']
VARIANTS = ['ok', 'ok', 'ok', 'ok', 'ok', 'no-id', 'no-id', 'hash', 'large', 'truncated', 'not-utf8', 'not-json', 'empty', 'list', 'string',
            'bad-id', 'nested-ok', 'directory', 'dangling', 'deep', 'missing', 'unrelated']


def prepare():
    from ngoschema.loaders.module import load_module_schemas, register_module  # noqa
    from ngoschema.loaders.schemas import load_schema_file  # noqa


def gen(rng):
    files = []
    for i in range(rng.randint(2, 7)):
        files.append({'name': rng.choice(['f%d.json', 'f%d.json', 'sub/f%d.json', 'sub/deeper/f%d.json', 'é%d.json', 'a b%d.json', 'f%d.v2.json']) % i,
                      'n': i})
    loads = []
    for i in range(rng.randint(1, 5)):
        edits = []
        for f in files:
            if i == 0 or rng.random() < .4:
                v = rng.choice(VARIANTS)
                edits.append({'file': f['n'], 'variant': v, 'version': rng.randint(0, 3)})
        faults = {}
        if rng.random() < .75:
            for f in files:
                if rng.random() < .35:
                    faults[str(f['n'])] = [fs.random_fault(rng, False, ['open', 'open', 'read', 'read', 'read', 'close'])]
                    k = faults[str(f['n'])][0]
                    if k[2] == 'disk-full' or k[0] in ('any', 'write'):
                        faults[str(f['n'])] = [['read', rng.randint(1, 3), 'error', 5]]
                    if k[0] == 'open':
                        k[1] = 1
        loads.append({'edits': edits, 'faults': faults, 'route': rng.choice(ROUTES), 'order': rng.randint(0, 50),
                      'split': rng.choice([0, 0, 0, 7, 1000]),
                      'single': rng.randint(0, len(files) - 1) if rng.random() < .2 else None})
    return {'files': files, 'loads': loads}


def document(f, variant, version, tag):
    """-> bytes of the file, (identifier, document) it declares or None"""
    doc = {'$id': 'https://sim.test/%s/f%d' % (tag, f['n']), 'type': 'object', 'title': 'v%d é' % version, 'properties': {'a': {'type': 'integer'}}}
    if variant in ('no-id',):
        del doc['$id']
    elif variant == 'hash':
        doc['$id'] += '#'
    elif variant == 'large':
        doc['description'] = 'x' * 70000
    elif variant == 'bad-id':
        doc['$id'] = 12
    data = json.dumps(doc, ensure_ascii=False).encode('utf-8')
    stem = os.path.basename(f['name'])[:-len('.json')]
    if variant == 'truncated':
        return data[:-1 - version * 20], None
    if variant == 'not-utf8':
        return data.replace('é'.encode(), b'\xe9'), None
    if variant == 'not-json':
        return b'<xml/>', None
    if variant == 'empty':
        return b'', None
    if variant == 'list':
        return b'[1, 2]', None
    if variant == 'string':
        return b'"text"', None
    if variant == 'deep':
        return b'[' * 3000, None
    if variant == 'bad-id':
        return data, None
    uri = doc.setdefault('$id', stem).rstrip('#')
    return data, (uri, doc)


class Listing(object):
    """the order of directory listings, decided by the plan"""

    def __init__(self, order):
        self.order = order
        self.real = os.listdir

    def __enter__(self):
        def listdir(path='.'):
            names = sorted(self.real(path))
            random.Random(self.order).shuffle(names)
            return names
        os.listdir = listdir

    def __exit__(self, *a):
        os.listdir = self.real


def put(path, variant, data):
    import shutil
    if os.path.islink(path) or os.path.isfile(path):
        os.remove(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if variant == 'missing':
        return
    if variant == 'directory':
        os.makedirs(path)
    elif variant == 'dangling':
        os.symlink(path + '.nowhere', path)
    else:
        with open(path, 'wb') as f:
            f.write(data)


def run(plan, env):
    from ngoschema.loaders.module import load_module_schemas, register_module
    from ngoschema.loaders.schemas import load_schema_file
    from ngoschema.resolvers.uri_resolver import UriResolver, resolve_uri
    from ngoschema.exceptions import InvalidValue
    tag = 'c05'
    module = 'simmodule%d' % random.getrandbits(60)      # seeded
    while module in sys.modules:
        module += 'x'
    top = os.path.join(env.scratch, 'lib')
    base = os.path.join(top, module, 'schemas')
    os.makedirs(base)
    with open(os.path.join(top, module, '__init__.py'), 'w') as f:
        f.write('')
    fs.root(base)
    store = UriResolver.get_doc_store()
    before_keys = set(store)
    saved = dict(store)
    sys.path.insert(0, top)
    sys.dont_write_bytecode = True
    now = {}            # file -> (data, declared) on disk
    expected = {}       # identifier -> document registered
    own, own_expected = {}, {}
    faulted = set()
    try:
        for n, load in enumerate(plan['loads']):
            for e in load['edits']:
                if e['file'] >= len(plan['files']) or plan['files'][e['file']]['n'] != e['file']:
                    raise core.Skip()
                f = plan['files'][e['file']]
                data, declared = (None, None) if e['variant'] in ('directory', 'dangling', 'missing') else document(f, e['variant'], e['version'], tag)
                put(os.path.join(base, f['name']), e['variant'], data)
                now[e['file']] = (e['variant'], declared)
            paths = {f['n']: f['name'] for f in plan['files']}
            targets = {'/' + paths[int(k)]: v for k, v in load['faults'].items() if int(k) in paths}
            single = load['single'] if load['single'] in paths else None
            err = None
            with Listing(load['order']):
                fs.arm((), (load['split'], 0), targets)
                try:
                    if single is not None:
                        load_schema_file(os.path.join(base, paths[single]), own if load['route'] == 'store' else None)
                    elif load['route'] == 'store':
                        load_module_schemas(module, own)
                    elif load['route'] == 'register':
                        register_module(module)
                    else:
                        load_module_schemas(module)
                except Exception as er:
                    err = er
                calls, hits = fs.disarm()
            thits = fs.target_hits(targets)
            fs.forget_handles()
            for k, c in hits.items():
                env.fault(k, c)
            env.steps += calls
            if single is None:
                env.check(err is None, 'load-fails', 'the load of the folder fails: %s: %s' % (type(err).__name__, err))
            else:
                env.probe('through-load_schema_file')
            for i, name in sorted(paths.items()):
                if single is not None and i != single:
                    continue
                variant, declared = now.get(i, ('missing', None))
                h = thits.get('/' + name, {})
                bad = {k: v for k, v in h.items() if k not in ('short', 'eintr')}
                where = 'file %s (%s, %s)' % (name, variant, h)
                if variant not in ('ok', 'no-id', 'hash', 'large', 'nested-ok', 'unrelated'):
                    env.probe({'list': 'not-object', 'string': 'not-object', 'directory': 'directory-named-json', 'dangling': 'dangling-link'}.get(variant, variant))
                    env.fault('faulty-file')
                if variant in ('no-id', 'large'):
                    env.probe(variant)
                if '/' in name:
                    env.probe('nested')
                if load['split']:
                    env.probe('split-read')
                if declared is None:
                    continue
                uri, doc = declared
                stores = [(store, expected)] + ([(own, own_expected)] if load['route'] == 'store' else [])
                for s, exp in stores:
                    got = s.get(uri)
                    if h and h.get('eintr'):
                        # an interrupted call can be retried or fail
                        if got != doc:
                            doc = exp.get(uri)
                    if bad:
                        env.probe('fault-hit')
                        faulted.add(i)
                        # may only have failed once everything was read (when closing it)
                        ok = got == exp.get(uri) or got == doc and only_close(load['faults'][str(i)])
                        env.check(ok, 'registered-from-unreadable', '%s: %s is registered' % (where, got and got.get('title')))
                        if exp.get(uri) is not None:
                            env.probe('kept-previous')
                        if got is not None:
                            exp[uri] = json.loads(json.dumps(got))
                    else:
                        env.check(got == doc, 'not-registered', '%s: %s is registered instead of %s' % (where, got and got.get('title'), doc and doc.get('title')))
                        if i in faulted:
                            env.probe('reloaded-after-fault')
                        if exp.get(uri) not in (None, doc):
                            env.probe('replaced')
                        exp[uri] = doc
                if load['route'] == 'store':
                    env.probe('own-store')
            # nothing else: neither lost nor registered
            for uri, doc in expected.items():
                if doc is None:
                    continue
                env.check(store.get(uri) == doc, 'lost', '%s was registered and is now %s' % (uri, store.get(uri)))
                env.check(resolve_uri(uri + '#/properties/a') == {'type': 'integer'}, 'resolution', uri)
            for uri, doc in own_expected.items():
                env.check(doc is None or own.get(uri) == doc, 'lost', '%s of the given store is now %s' % (uri, own.get(uri)))
            extra = set(store) - before_keys - set(expected)
            env.check(not extra, 'extra', 'also registered: %s' % sorted(extra))
            extra = set(own) - set(own_expected)
            env.check(not extra, 'extra', 'also put in the given store: %s' % sorted(extra))
            for k in before_keys:
                env.check(store[k] is saved[k], 'other-document', '%s was changed' % k)
            env.log('load', n, load['route'], sorted(expected), sorted(thits.items()))
            env.sign(load['route'], load['order'] % 5, sorted((i, v[0]) for i, v in now.items()), sorted(thits.items()), bool(load['split']))
    finally:
        fs.disarm()
        sys.path.remove(top)
        for k in list(store):
            if k not in saved:
                del store[k]
        for m in [m for m in sys.modules if m.startswith(module)]:
            del sys.modules[m]


def only_close(rules):
    return all(r[0] == 'close' for r in rules)
