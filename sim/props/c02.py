"""C02: reading gives exactly what was last written, or fails."""
import os

import core
import fs
import fileops
from fileops import brief, describe
from props import c01

ID = 'C02'
LEVEL = 'exploration'
QUICK = (1600, 50)
THOROUGH = (150000, 200)
RULE = ('an execution is the sequence of system calls made by the library with the outcome decided for each, the operations and '
        'their results; only the executions with a fault, a split transfer or a reading after a change count')
REAL = c01.REAL
STUBS = ['outcome of the file system calls chosen by the simulator (simfs.c): errors, short transfers, interruptions, full disk']
ASSUMPTIONS = ['a file left by a failed append may end in the middle of a character: text reads of a content that has no decoding are not judged',
               'charsets that write a byte order mark are not used', 'PyPy 3.9 interpreter']
PROBES = ['read-ok', 'read-failed-on-fault', 'read-missing', 'read-after-failed-write', 'read-split', 'unchanged-not-rewritten', 'write-ok',
          'write-split', 'write-failed', 'call-binary', 'call-charset', 'object-charset', 'object-binary', 'line-ends', 'large']
prepare = c01.prepare


def gen(rng):
    plan = fileops.gen_plan(rng, 1, crash=False, max_ops=14)
    return plan


def run(plan, env):
    walk(plan, env, after=lambda base, op, err, hits, model: None)


def walk(plan, env, after):
    base = os.path.join(env.scratch, 'files')
    os.makedirs(base)
    fs.root(base)
    fs.forget_handles()
    model = fileops.setup(plan, base)
    bench = fileops.Bench(plan, base)
    failed_before = set()
    for op in plan['lives'][0]['ops']:
        s = plan['savers'][op['saver']]
        try:
            bench.saver(op['saver'])
        except UnicodeDecodeError:
            continue            # a text file object reads its file when it is made
        path = os.path.join(base, plan['files'][op['file']]['name'])
        stat0 = os.stat(path) if os.path.exists(path) else None
        fs.arm(op['faults'], op['short'])
        err = value = None
        try:
            value = bench.perform(op)
        except Exception as er:
            err = [type(er).__name__, str(er)[:200]]
        n, hits = fs.disarm()
        calls = fs.calls()
        for k, c in hits.items():
            env.fault(k, c)
        if any(op['short']):
            env.fault('split-transfers', sum(c in ('read', 'write') for c in calls))
        env.steps += n
        env.log(describe(plan, op), err and err[0], hash_of(value), calls)
        env.sign(op['do'], s['cls'], s['binary'], s['charset'], op['opts'], err and err[0], calls, op.get('content'))
        binary, charset, append = fileops.effective(s, op)
        before = model[op['file']]
        what = describe(plan, op)
        for k in op['opts']:
            env.probe('call-' + k)
        if s['charset']:
            env.probe('object-charset')
        if s['binary']:
            env.probe('object-binary')
        if op['do'] in ('read', 'load'):
            read(env, plan, op, s, binary, charset, before, value, err, hits, calls, what, failed_before)
        else:
            c01.settle(plan, env, op, err, hits, model, base)
            data = fileops.encoded(plan, op)
            if err is None:
                env.probe('write-split' if any(op['short']) else 'write-ok')
                if op['content']['n'] > 60000:
                    env.probe('large')
                if not append and before == data and stat0 is not None:
                    st = os.stat(path)
                    env.check((st.st_ino, st.st_mtime_ns) == (stat0.st_ino, stat0.st_mtime_ns), 'rewritten',
                              'the file already has this content and was written again: %s' % what)
                    env.probe('unchanged-not-rewritten')
                failed_before.discard(op['file'])
            else:
                env.probe('write-failed')
                failed_before.add(op['file'])
        after(base, op, err, hits, model)


def hash_of(value):
    import hashlib
    if value is None:
        return None
    b = value if isinstance(value, bytes) else str(value).encode('utf-8', 'surrogatepass')
    return hashlib.md5(b).hexdigest()[:8]


def read(env, plan, op, s, binary, charset, before, value, err, hits, calls, what, failed_before):
    if before is None:
        env.probe('read-missing')
        env.check(err is not None, 'read-missing', '%s gives %s for a file which does not exist' % (what, brief(value)))
        return
    try:
        expected = before if binary else before.decode(charset)
    except UnicodeDecodeError:
        return
    if err is None:
        env.check(not any(c.startswith('read!') and c not in ('read!short', 'read!eintr') for c in calls), 'error-swallowed',
                  '%s gives %s although reading failed' % (what, brief(value)))
        env.check(type(value) is type(expected) and value == expected, 'read-content',
                  '%s gives %s, the file holds %s' % (what, brief(value) if isinstance(value, (str, bytes)) else repr(value), brief(expected)))
        env.probe('read-split' if any(op['short']) else 'read-ok')
        if op['file'] in failed_before:
            env.probe('read-after-failed-write')
        if b'\r' in before or b'\n' in before:
            env.probe('line-ends')
        env.nontrivial = True
    else:
        env.check(hits, 'unexpected-error', '%s fails without fault: %s' % (what, err))
        env.probe('read-failed-on-fault')
