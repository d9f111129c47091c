"""C01: a save that fails or is interrupted keeps a complete version of the file."""
import gc
import json
import os
import shutil

import core
import fs
import fileops
from fileops import brief, describe

ID = 'C01'
LEVEL = 'fault_enumeration'
QUICK = (640, 40)
THOROUGH = (40000, 100)
RULE = ('an execution is the sequence of system calls made by the library with the outcome decided for each, the operations '
        'and the states of the files found by an observer process; executions without any fault do not count')
REAL = ['ngoschema file savers, file and document models', 'Python io, codecs, shutil, pathlib', 'kernel file system calls that are let through']
STUBS = ['outcome of the file system calls chosen by the simulator (simfs.c)', 'process death: _exit at a system call']
ASSUMPTIONS = ['a process death keeps what the system calls made so far did (power loss and reordering of unsynchronised writes are not simulated)',
               'charsets that write a byte order mark are not used', 'PyPy 3.9 interpreter']
PROBES = ['death-before', 'death-after', 'death-mid-write', 'file-was-missing', 'file-existed', 'failed-kept-old', 'failed-has-new',
          'torn-append', 'not-encodable', 'redone-after-restart', 'made-missing-directory', 'through-link']
DIR = 'files'


def prepare():
    import ngoschema.models.files # noqa
    # fill the caches of the classes used, so that a run does not depend on the previous ones
    base = os.path.join(core.SCRATCH, 'warm')
    os.makedirs(base, exist_ok=True)
    plan = {'files': [{'name': 'a', 'init': None}, {'name': 'b', 'init': None}], 'savers': [
        {'cls': c, 'binary': b, 'charset': None, 'append': False, 'file': 0} for c in ('saver', 'file', 'doc') for b in (0, 1)]}
    bench = fileops.Bench(plan, base)
    for i, s in enumerate(plan['savers']):
        for do in ('write', 'append', 'read', 'load'):
            op = {'do': do, 'saver': i, 'file': 0, 'opts': {}}
            if do in ('write', 'append'):
                op['content'] = {'t': 'bytes' if s['binary'] else 'ascii', 'n': 3 + i, 's': 0}
            try:
                bench.perform(op)
            except Exception:
                pass
    shutil.rmtree(base)


def gen(rng):
    plan = fileops.gen_plan(rng, rng.randint(1, 3), crash=True)
    return plan


def one_life(plan, base, ops, send, wait):
    core.reseed(life_count)
    bench = fileops.Bench(plan, base)
    for i, op in enumerate(ops):
        try:
            bench.saver(op['saver'])
        except UnicodeDecodeError as er:
            # a text file object reads its file when it is made
            send(['end', i, ['UnicodeDecodeError', str(er)], {}, []])
            wait()
            continue
        except Exception as er:
            send(['setup-error', i, type(er).__name__, str(er)[:200]])
            return
        send(['start', i])
        fs.arm(op['faults'], op['short'])
        err = None
        try:
            bench.perform(op)
        except Exception as er:
            err = [type(er).__name__, str(er)[:200]]
        n, hits = fs.disarm()
        send(['end', i, err, hits, fs.calls()])
        wait()


life_count = 0


def live(plan, base, ops, ended):
    """run the operations in a process of their own, which waits after each one until its effects have been observed
    -> index of the operation during which it died, or None; status"""
    global life_count
    life_count += 1
    if not any(f[2].startswith('crash') for op in ops for f in op['faults']):
        # nothing to die from: no need of another process
        def receive(m):
            if m[0] == 'end':
                ended(ops[m[1]], m[2], m[3], m[4])
            elif m[0] == 'setup-error':
                raise core.Violation('unexpected-error', 'outside of any fault: %s' % m)
        one_life(plan, base, ops, receive, lambda: None)
        return None
    r, w = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.close(w2)
            gc.disable()

            def send(m):
                os.write(w, json.dumps(m).encode() + b'\n')

            def wait():
                if not os.read(r2, 1):
                    os._exit(0)
            one_life(plan, base, ops, send, wait)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    os.close(r2)
    died = failed = None
    try:
        with os.fdopen(r, 'rb') as messages:
            for line in messages:
                m = json.loads(line)
                if m[0] == 'start':
                    died = m[1]
                elif m[0] == 'end':
                    died = None
                    ended(ops[m[1]], m[2], m[3], m[4])
                    os.write(w2, b'.')
                else:
                    failed = m
    finally:
        os.close(w2)
        st = os.waitpid(pid, 0)[1]
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
    if failed or code == 3:
        raise core.Violation('unexpected-error', 'outside of any fault: %s' % failed)
    if code != (0 if died is None else fs.CRASHED):
        raise core.Violation('process-death', 'the process ended with status %s' % st)
    return died


def run(plan, env):
    global life_count
    life_count = 0
    base = os.path.join(env.scratch, DIR)
    os.makedirs(base)
    fs.root(base)
    model = fileops.setup(plan, base)

    def ended(op, err, hits, calls):
        env.steps += len(calls)
        for k, n in hits.items():
            env.fault(k, n)
        env.log(describe(plan, op), err and err[0], calls)
        env.sign(op['do'], plan['savers'][op['saver']]['cls'], op['opts'], err and err[0], calls)
        settle(plan, env, op, err, hits, model, base)

    for life in plan['lives']:
        ops = list(life['ops'])
        while ops:
            died = live(plan, base, ops, ended)
            if died is None:
                break
            op = ops[died]
            env.fault('death')
            for f in op['faults']:
                if f[2].startswith('crash'):
                    env.probe({'crash-before': 'death-before', 'crash-after': 'death-after', 'crash-mid-write': 'death-mid-write'}[f[2]])
            env.log('died during', describe(plan, op), op['faults'], op['short'])
            settle(plan, env, op, 'death', {}, model, base)
            # restart: the interrupted operation is made again, without fault
            again = live(plan, base, [dict(op, faults=[], short=[0, 0])], ended)
            env.check(again is None, 'process-death', 'the process died after a restart')
            env.probe('redone-after-restart')
            ops = ops[died + 1:]


def settle(plan, env, op, err, hits, model, base):
    """compare what is on disk with what the operation may have left"""
    data = fileops.encoded(plan, op)
    binary, charset, append = fileops.effective(plan['savers'][op['saver']], op)
    for i, f in enumerate(plan['files']):
        got = fileops.read_bytes(os.path.join(base, f['name']))
        before = model[i]
        if i == op['file']:
            if f['name'].startswith('link') and before is not None:
                env.probe('through-link')
            env.probe('file-was-missing' if before is None else 'file-existed')
            if data is None:
                env.probe('not-encodable')
                env.check(err is not None, 'unexpected-success', 'no error for a text that cannot be encoded: %s' % describe(plan, op))
                ok = got == before or (append and not got)
            elif err is None:
                ok = got == ((before or b'') + data if append else data)
                if before is None and '/' in f['name']:
                    env.probe('made-missing-directory')
            else:
                env.check(err == 'death' or hits or (append and before is None) or
                          err[0] == 'UnicodeDecodeError' and plan['savers'][op['saver']]['cls'] == 'file',
                          'unexpected-error', '%s fails without fault: %s' % (describe(plan, op), err))
                if append:
                    ok = got == before or got is not None and got.startswith(before or b'') and data.startswith(got[len(before or b''):])
                    if ok and (got or b'') not in (before or b'', (before or b'') + data):
                        env.probe('torn-append')
                else:
                    ok = got in (before, data)
                    env.probe('failed-kept-old' if got == before else 'failed-has-new')
            env.sign(-1 if got is None else len(got))
            state = 'the process died' if err == 'death' else 'it failed with %s' % err if err else 'it returned'
            env.check(ok, 'content', '%s holds %s after %s: %s; it held %s' % (f['name'], brief(got), describe(plan, op), state, brief(before)))
        else:
            env.check(got == before, 'other-file', '%s changed from %s to %s after %s' % (f['name'], brief(before), brief(got), describe(plan, op)))
        model[i] = got
    env.check(fileops.read_bytes(os.path.join(base, 'other')) == b'not to be touched', 'other-file', 'another file of the directory was changed')
