"""C03: file operations leave no open handle and no stray file behind."""
import json
import os
from collections import OrderedDict

import core
import fs
import fileops
from props import c01, c02

ID = 'C03'
LEVEL = 'fault_enumeration'
QUICK = (1600, 50)
THOROUGH = (150000, 200)
RULE = ('an execution is the sequence of system calls made by the library with the outcome decided for each, and the operations; '
        'only the executions where an operation fails count')
REAL = c01.REAL + ['schema file loader', 'digest of file information objects']
STUBS = c02.STUBS
ASSUMPTIONS = ['when two system calls fail in one operation and one of them is the removal (or the search) of the temporary file, the file may stay',
               'close() releases the descriptor even when it reports an error, as Linux does', 'PyPy 3.9 interpreter']
PROBES = ['failed:read', 'failed:load', 'failed:write', 'failed:append', 'failed:save', 'failed:digest', 'failed:schema', 'failed:content',
          'works-after-failures', 'failed-rename', 'failed-close', 'failed-open']


def prepare():
    c01.prepare()
    from ngoschema.models.files import FileInfo
    from ngoschema.loaders.schemas import load_schema_file


def gen(rng):
    plan = fileops.gen_plan(rng, 1, crash=False, max_ops=12)
    for op in plan['lives'][0]['ops']:
        if not op['faults'] and rng.random() < .4:
            op['faults'] = [fs.random_fault(rng, False, ['open', 'write', 'read', 'close', 'rename', 'chmod', 'mkdir', 'any'])]
    plan['extra'] = []
    for i in range(rng.randint(0, 4)):
        plan['extra'].append({'do': rng.choice(['digest', 'schema', 'content']), 'at': rng.randint(0, 12), 'n': rng.choice([3, 500, 200000]),
                              'bad': rng.random() < .4,
                              'faults': [fs.random_fault(rng, False, ['open', 'read', 'read', 'close', 'any'])] if rng.random() < .7 else [],
                              'short': [rng.choice([0, 0, 5000, 65535]), 0]})
    return plan


def run(plan, env):
    state = {'i': 0, 'failures': 0}

    def after(base, op, err, hits, model):
        cleanliness(env, plan, base, op, err, hits, model)
        if err is not None:
            env.probe('failed:' + op['do'])
            calls = fs.calls()
            for k in ('rename', 'close', 'open'):
                if any(c.startswith(k + '!') for c in calls):
                    env.probe('failed-' + k)
            state['failures'] += 1
        elif state['failures']:
            env.probe('works-after-failures')
        for x in plan['extra']:
            if x['at'] == state['i']:
                extra(env, x)
        state['i'] += 1
    c02.walk(plan, env, after)
    fs.forget_handles()


def leaks(env, base, what):
    left = fs.remaining_handles(base)
    env.check(not left, 'open-handle', '%s left open by %s' % (left, what))


def cleanliness(env, plan, base, op, err, hits, model):
    what = fileops.describe(plan, op) + (' (failed: %s; %s)' % (err[0], [c for c in fs.calls() if '!' in c]) if err else '')
    leaks(env, base, what)
    calls = fs.calls()
    faults = [c for c in calls if '!' in c and not c.endswith(('!short', '!eintr'))]
    known = {os.path.normpath(f['name']) for f in plan['files']} | {'other'}
    stray = []
    for name, data in fs.tree(base).items():
        if data is not None and name not in known and not name.startswith('targets'):
            stray.append(name)
    if stray and len(faults) > 1 and any(c.startswith(('unlink', 'stat')) for c in faults):
        for s in stray:                     # could not be removed: not the fault of the library
            os.remove(os.path.join(base, s))
        stray = []
    stray = ['.../' + os.path.basename(s) for s in stray]
    env.check(not stray, 'stray-file', '%s left by %s' % (stray, what))


def extra(env, x):
    """reads made by other parts of the library"""
    base = os.path.join(env.scratch, 'more')
    os.makedirs(base, exist_ok=True)
    path = os.path.join(base, 'f.json')
    if x['do'] == 'schema':
        uri = 'https://sim.test/c03-%d' % (env.seed or 0)
        data = b'{ not json' if x['bad'] else json.dumps({'$id': uri, 'title': 'x' * x['n']}).encode()
    else:
        data = b'x' * x['n']
    if x['bad'] and x['do'] != 'schema' and x['n'] == 3:
        data = None
    if data is not None:
        with open(path, 'wb') as f:
            f.write(data)
    elif os.path.exists(path):
        os.remove(path)
    fs.root(base)
    from ngoschema.models.files import FileInfo, File, Document
    from ngoschema.loaders.schemas import load_schema_file
    from ngoschema.resolvers.uri_resolver import UriResolver
    obj = None
    if x['do'] == 'digest':
        obj = FileInfo(file=File(filepath=path, binary=True))
    elif x['do'] == 'content':
        obj = Document(filepath=path, binary=True)
    fs.arm(x['faults'], x['short'])
    err = None
    try:
        if x['do'] == 'digest':
            obj.sha1
        elif x['do'] == 'content':
            obj.contentRaw
        else:
            load_schema_file(path)
    except Exception as er:
        err = type(er).__name__
    n, hits = fs.disarm()
    for k, c in hits.items():
        env.fault(k, c)
    env.log(x['do'], err, fs.calls())
    env.sign(x['do'], x['n'], x['bad'], err, fs.calls())
    leaks(env, base, '%s of a file (%s; %s)' % (x['do'], err, [c for c in fs.calls() if '!' in c]))
    if err:
        env.probe('failed:' + x['do'])
        env.check(hits or x['bad'], 'unexpected-error', '%s fails without fault: %s' % (x['do'], err))
    if x['do'] == 'schema':
        UriResolver._doc_store.pop('https://sim.test/c03-%d' % (env.seed or 0), None)
    fs.root(os.path.join(env.scratch, 'files'))
