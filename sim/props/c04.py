"""C04: file objects describe the file they designate."""
import hashlib
import os
from pathlib import Path

import core
import fs
import fileops
from fileops import brief, data_of
from props import c01

ID = 'C04'
LEVEL = 'exploration'
QUICK = (1600, 50)
THOROUGH = (100000, 200)
RULE = ('an execution is the sequence of operations on the objects with their results and the system calls they make; only the '
        'executions with a fault, or a reading after a change of path, mode or content, count')
REAL = ['ngoschema file, document and file information models, savers and computed properties', 'Python io, codecs, pathlib', 'kernel file system']
STUBS = ['outcome of the file system calls chosen by the simulator (simfs.c): errors, short transfers, interruptions, full disk']
ASSUMPTIONS = ['a file changes only through the object designating it, or while no object designates it', 'text files are in UTF-8',
               'PyPy 3.9 interpreter']
PROBES = ['read-after-path', 'read-after-mode', 'read-after-write', 'read-after-append', 'read-after-failed-read', 'read-after-failed-write',
          'read-missing', 'read-back-to-changed', 'read-after-removal', 'digest', 'digest-split', 'size', 'file', 'doc', 'fault-on-read', 'fault-on-assignment',
          'link', 'information-again', 'information-again-after-failure']


def prepare():
    c01.prepare()
    from ngoschema.models.files import FileInfo  # noqa


def content(rng):
    n = rng.choice([0, 1, 3, 20, 300, 9000, 70000])
    return {'t': rng.choice(['bytes', 'ascii', 'wide', 'crlf']), 'n': n, 's': rng.randint(0, 5)}


def gen(rng):
    objs = [{'cls': rng.choice(['file', 'doc']), 'binary': rng.random() < .4, 'init': [content(rng) if rng.random() < .7 else None for i in range(3)],
             'links': [k for k in range(3) if rng.random() < .15]}
            for i in range(rng.randint(1, 2))]
    for o in objs:
        if rng.random() < .15 and o['init'][0]:
            o['init'][1] = dict(o['init'][0], edit=['char', rng.randint(0, 1000)])
    ops = []
    for i in range(rng.randint(3, 16)):
        op = {'obj': rng.randint(0, len(objs) - 1), 'do': rng.choice(
            ['path', 'path', 'mode', 'write', 'write', 'append', 'read', 'read', 'read', 'digest', 'size', 'outside', 'outside', 'delete', 'elsewhere']),
            'file': rng.randint(0, 2), 'content': content(rng)}
        if op['do'] in ('digest', 'size'):
            op['by'] = rng.choice(['file', 'file', 'path', 'object'])
        if ops and op['do'] in ('write', 'outside', 'elsewhere') and rng.random() < .25:
            op['content'] = dict(ops[-1]['content'], edit=[rng.choice(['char', 'swap', 'drop', 'cut']), rng.randint(0, 1000)])
        op['faults'], op['short'] = [], [0, 0]
        if op['do'] not in ('outside', 'delete') and rng.random() < .35:
            op['faults'] = [fs.random_fault(rng, False, ['open', 'read', 'read', 'close', 'any', 'write', 'rename', 'stat'])]
        if rng.random() < .2:
            n = op['content']['n']
            op['short'] = [rng.choice([3, 1000, 65535]) if n < 10000 else 20000, rng.choice([0, 3]) if n < 10000 else 20000]
        ops.append(op)
        if rng.random() < .6:
            ops.append({'obj': op['obj'], 'do': 'read', 'file': 0, 'content': op['content'], 'short': [0, 0],
                        'faults': [fs.random_fault(rng, False, ['open', 'read', 'close'])] if rng.random() < .2 else []})
    return {'objs': objs, 'ops': ops}


class Held(object):
    pass


def text(spec, binary):
    v = data_of(spec)
    if binary:
        return v if isinstance(v, bytes) else v.encode('utf-8')
    return v.decode('latin-1') if isinstance(v, bytes) else v


def run(plan, env):
    from ngoschema.models.files import File, Document, FileInfo
    base = os.path.join(env.scratch, 'files')
    os.makedirs(base)
    fs.root(base)
    held = []
    for i, o in enumerate(plan['objs']):
        h = Held()
        h.dir = os.path.join(base, 'o%d' % i)
        os.makedirs(h.dir)
        h.paths = [os.path.join(h.dir, 'f%d' % k) for k in range(3)]
        for p, c in zip(h.paths, o['init']):
            if c:
                if h.paths.index(p) in o.get('links', []):
                    os.makedirs(os.path.join(base, 'targets'), exist_ok=True)
                    os.symlink(os.path.join(base, 'targets', '%d-%s' % (i, os.path.basename(p))), p)
                    env.probe('link')
                with open(p, 'wb') as f:
                    f.write(text(c, True))
        h.cls, h.obj, h.file, h.binary, h.why = o['cls'], None, 0, o['binary'], 'path'
        held.append(h)
    for op in plan['ops']:
        if op['obj'] >= len(held):
            raise core.Skip()
        step(plan, env, op, held[op['obj']], File, Document, FileInfo)
        fs.forget_handles()


def create(h, File, Document):
    # a text file object reads its file when it is created: it is given a content it can read
    cls = File if h.cls == 'file' else Document
    try:
        return cls(filepath=Path(h.paths[h.file]), binary=h.binary)
    except UnicodeDecodeError:
        h.binary = True
        return cls(filepath=Path(h.paths[h.file]), binary=True)


def information(h, op, path, File, FileInfo):
    by = op.get('by')
    if by == 'path':
        return FileInfo(filepath=Path(path))
    if by == 'object':
        return FileInfo(file=h.obj)
    return FileInfo(file=File(filepath=Path(path), binary=True))


def step(plan, env, op, h, File, Document, FileInfo):
    do = op['do']
    if do == 'outside':
        if op['file'] == h.file and h.obj is not None:
            return
        with open(h.paths[op['file']], 'wb') as f:
            f.write(text(op['content'], True))
        h.changed = op['file']
        env.log('outside', op['obj'], op['file'], brief(text(op['content'], True)))
        return
    if h.obj is None:
        h.obj = create(h, File, Document)
    env.probe(h.cls)
    path = h.paths[h.file]
    disk = fileops.read_bytes(path)
    value = err = info = None
    fs.arm(op['faults'], op['short'])
    try:
        if do == 'path':
            h.obj.filepath = Path(h.paths[op['file']])
        elif do == 'mode':
            h.obj.binary = not h.binary
        elif do == 'write':
            v = text(op['content'], h.binary)
            h.obj.write_file(v, Path(path)) if h.cls == 'file' else h.obj.write(v)
        elif do == 'elsewhere' and h.cls == 'file':
            h.obj.write_file(text(op['content'], h.binary), Path(h.paths[op['file']]))
        elif do == 'append':
            v = text(op['content'], h.binary)
            h.obj.append_file(v, Path(path)) if h.cls == 'file' else h.obj.write(v, append=True)
        elif do == 'delete':
            if h.cls == 'doc' and disk is not None:
                h.obj.del_file()
        elif do == 'read':
            value = h.obj.contentRaw
        elif do == 'digest':
            info = information(h, op, path, File, FileInfo)
            value = info.sha1
        elif do == 'size':
            info = information(h, op, path, File, FileInfo)
            value = info.contentSize
    except Exception as er:
        err = er
    n, hits = fs.disarm()
    calls = fs.calls()
    env.steps += n
    for k, c in hits.items():
        env.fault(k, c)
    name = type(err).__name__ if err else None
    env.log(do, op['obj'], op['file'], h.binary, name, str(value)[:50], calls)
    env.sign(do, h.cls, h.file, op['file'], h.binary, name, calls, op['content'] if do in ('write', 'append', 'elsewhere') else 0)
    what = '%s of a %s in %s mode' % (do, h.cls, 'binary' if h.binary else 'text')
    undecodable = isinstance(err, UnicodeDecodeError)
    if err is not None:
        env.check(hits or undecodable or do in ('append', 'digest', 'size', 'read') and disk is None, 'unexpected-error',
                  '%s fails without fault: %s: %s' % (what, name, err))
    if do in ('path', 'elsewhere', 'mode'):
        # where the object is now (an assignment that failed may have been rejected)
        if err is None:
            if do == 'mode':
                h.binary = not h.binary
            elif do == 'path' or h.cls == 'file':
                h.file = op['file']
        else:
            if hits:
                env.probe('fault-on-assignment')
            if do == 'mode':
                h.binary = bool(h.obj.binary)
            else:
                fp = str(h.obj.filepath)
                env.check(fp in h.paths, 'path', 'the path of the object is %s after a failed assignment' % os.path.basename(fp))
                h.file = h.paths.index(fp)
    if do == 'read':
        read(env, h, disk, value, err, hits, what)
    elif do == 'digest' and err is None and disk is not None:
        env.check(value == hashlib.sha1(disk).hexdigest(), 'digest', 'the digest of %s is given as %s' % (brief(disk), value))
        env.probe('digest-split' if op['short'][0] else 'digest')
        env.nontrivial = True
    elif do == 'size' and err is None and disk is not None:
        env.check(value == len(disk), 'size', 'the size of %s is given as %s' % (brief(disk), value))
        env.probe('size')
    if info is not None and disk is not None:
        # asked again, without fault
        got = info.sha1 if do == 'digest' else info.contentSize
        env.check(got == (hashlib.sha1(disk).hexdigest() if do == 'digest' else len(disk)), do, 'the %s of %s is given as %s when asked again%s' % (
            do, brief(disk), got, ' after it failed' if err else ''))
        env.probe('information-again-after-failure' if err else 'information-again')
    if do in ('path', 'mode', 'write', 'append', 'delete', 'elsewhere'):
        h.why = do if err is None else 'failed-write' if do in ('write', 'append', 'elsewhere') else do
        if do == 'path' and getattr(h, 'changed', None) == h.file:
            h.why = 'outside'
            h.changed = None


def read(env, h, disk, value, err, hits, what):
    probe = {'path': 'read-after-path', 'mode': 'read-after-mode', 'write': 'read-after-write', 'append': 'read-after-append',
             'delete': 'read-after-removal', 'outside': 'read-back-to-changed', 'failed-write': 'read-after-failed-write',
             'failed-read': 'read-after-failed-read', 'elsewhere': 'read-after-write'}[h.why]
    if disk is None:
        env.probe('read-missing')
        env.check(err is not None or value is None, 'content', '%s after %s gives %s, the file does not exist' % (what, h.why, brief(value)))
        env.probe(probe)
        return
    try:
        expected = disk if h.binary else disk.decode('utf-8')
    except UnicodeDecodeError:
        return
    if err is not None:
        env.check(hits, 'unexpected-error', '%s after %s fails with %s: %s' % (what, h.why, type(err).__name__, err))
        env.probe('fault-on-read')
        h.why = 'failed-read'
        return
    env.check(type(value) is type(expected) and value == expected, 'content', '%s after %s gives %s, the file holds %s' % (
        what, h.why, brief(value) if isinstance(value, (str, bytes)) or value is None else repr(value), brief(disk)))
    env.probe(probe)
    env.nontrivial = True
