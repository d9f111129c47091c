"""Histories of file operations made through the library, and the bytes they should leave (used by C01, C02, C03)."""
import os
import random

import fs
from core import Skip

CHARSETS = ['utf-8', 'utf-8', 'utf-8', 'latin-1', 'utf-16-le', 'cp1252', 'ascii']
ALPHA = {'ascii': 'abcxyz 0123456789{}",:-\t', 'latin': 'aé ü ßñ', 'wide': 'aé漢字😀\u0416',
         'lines': 'ab\r\n\n\r\x0b\x0c\x85\u2028', 'crlf': 'ab\r\n\n\r'}


def text_of(spec):
    rng = random.Random(spec['s'])
    s = ''.join(rng.choice(ALPHA[spec['t']]) for i in range(min(spec['n'], 64)))
    if spec['n'] > 64:
        s = (s * (spec['n'] // 64 + 1))[:spec['n']]
    return s


def data_of(spec):
    """the value to be written"""
    v = plain_data(spec)
    edit = spec.get('edit')
    if edit:
        # nearly the same content
        kind, at = edit[0], int(len(v) * edit[1] / 1000)
        one = (lambda c: c.encode()) if isinstance(v, bytes) else str
        if kind == 'char' and v:
            at = min(at, len(v) - 1)
            v = v[:at] + (one('r') if v[at:at + 1] == one('q') else one('q')) + v[at + 1:]
        elif kind == 'drop':
            v = v[:-1]
        elif kind == 'add':
            v += one(edit[2])
        elif kind == 'swap' and len(v) > 1:
            v = v[1:] + v[:1]
        elif kind == 'cut':
            v = v[:at]
    return v


def plain_data(spec):
    if spec['t'] == 'bytes':
        rng = random.Random(spec['s'])
        b = bytes(rng.choice([0, 10, 13, 0x41, 0xff, 0xfe, 0x80, rng.randint(0, 255)]) for i in range(min(spec['n'], 64)))
        return (b * (spec['n'] // 64 + 1))[:spec['n']] if spec['n'] > 64 else b
    return text_of(spec)


def gen_content(rng, binary, charset):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 64, 200, 200, 5000, 9000, 70000, 140000] if rng.random() < .8 else [1, 7])
    if binary:
        t = 'bytes'
    elif charset in ('utf-8', 'utf-16-le'):
        t = rng.choice(['ascii', 'latin', 'wide', 'lines', 'crlf'])
    elif charset == 'ascii':
        t = rng.choice(['ascii', 'ascii', 'crlf'])
    else:
        t = rng.choice(['ascii', 'latin', 'crlf'])
    if not binary and rng.random() < .04:
        t = 'wide'              # possibly not encodable
    return {'t': t, 'n': n, 's': rng.randint(0, 5)}


def gen_plan(rng, lives, crash, max_ops=6):
    nf = rng.randint(1, 4)
    files = []
    for i in range(nf):
        r = rng.random()
        f = {'name': rng.choice(['f%d.txt', 'f%d.json', 'f %d.bin', 'é%d', 'd/f%d', 'd/e/f%d', '.f%d', 'f%d.tmp', 'link%d']) % i,
             'init': gen_content(rng, rng.random() < .5, 'utf-8') if r < .65 else None}
        files.append(f)
    savers = []
    for i in range(rng.randint(1, 4)):
        binary = rng.random() < .35
        s = {'cls': rng.choice(['saver', 'saver', 'saver', 'file', 'doc']), 'binary': binary,
             'charset': None if rng.random() < .6 else rng.choice(CHARSETS), 'append': rng.random() < .2,
             'file': rng.randint(0, nf - 1)}
        if s['cls'] != 'saver':
            s['append'] = False
        if s['cls'] == 'doc':
            s['charset'] = None
        savers.append(s)
    out = {'files': files, 'savers': savers, 'lives': []}
    for l in range(lives):
        ops = []
        for i in range(rng.randint(1, max_ops)):
            ops.append(gen_op(rng, files, savers, ops, reads=not crash))
            faulty(rng, ops[-1], crash)
        out['lives'].append({'ops': ops})
    return out


def gen_op(rng, files, savers, before, reads=True):
    si = rng.randint(0, len(savers) - 1)
    s = savers[si]
    do = rng.choice(['write', 'write', 'save', 'save', 'append', 'append'] + ['read', 'read', 'load'] * (3 if reads else 0))
    op = {'do': do, 'saver': si, 'file': s['file'] if s['cls'] == 'doc' else rng.randint(0, len(files) - 1), 'opts': {}}
    if rng.random() < .3:
        op['opts']['binary'] = rng.random() < .5
    if rng.random() < .3:
        op['opts']['charset'] = rng.choice(CHARSETS)
    if s['cls'] != 'saver' and do == 'save':
        op['do'] = do = 'write'
    if do in ('save', 'load') and rng.random() < .3:
        op['via'] = rng.choice(['short', 'last'])
    if do == 'save' and rng.random() < .4:
        op['opts']['append'] = rng.random() < .5
    if do in ('write', 'save', 'append'):
        b, c, a = effective(s, op)
        same = [o for o in before if 'content' in o and o['file'] == op['file'] and effective(savers[o['saver']], o)[0] == b]
        init = files[op['file']]['init']
        if init and (init['t'] == 'bytes') == bool(b) and (b or c == 'utf-8'):
            same = same + [{'content': init}]
        x = rng.random()
        if same and x < .4:
            op['content'] = dict(rng.choice(same)['content'])
            if x < .22 and not op['content'].get('edit'):
                op['content']['edit'] = [rng.choice(['char', 'char', 'drop', 'add', 'swap', 'cut']), rng.choice([0, 1000, rng.randint(0, 1000)]), rng.choice([' ', '\n', '\r\n', '\0', 'q'])]
        else:
            op['content'] = gen_content(rng, b, c)
    return op


def faulty(rng, op, crash):
    op['faults'], op['short'] = [], [0, 0]
    r = rng.random()
    if r < (.55 if crash else .35):
        op['faults'] = [fs.random_fault(rng, crash) for i in range(rng.choice([1, 1, 1, 2, 3]))]
    if rng.random() < .25:
        op['short'] = [rng.choice([0, 1, 3, 7, 100, 4096]), rng.choice([0, 1, 3, 7, 100, 4096])]
        n = op.get('content', {}).get('n', 0)
        for i in (0, 1):
            if op['short'][i] and n > 1000:
                op['short'][i] = max(op['short'][i], n // 40)


def effective(saver, op):
    """(binary, charset, append) the operation is to be made with"""
    o = op['opts']
    return (o.get('binary', saver['binary']), o.get('charset', saver['charset'] or 'utf-8'),
            True if op['do'] == 'append' else o.get('append', saver['append']) if op['do'] == 'save' else False)


class Bench(object):
    """the objects of the library used in one life of the process"""

    def __init__(self, plan, base):
        from pathlib import Path
        self.plan, self.base = plan, base
        self.paths = [Path(os.path.join(base, f['name'])) for f in plan['files']]
        self.objs = {}

    def saver(self, i):
        if i not in self.objs:
            from ngoschema.protocols.file_loader import FileSaver
            from ngoschema.models.files import File, Document
            s = self.plan['savers'][i]
            kw = {}
            if s['binary']:
                kw['binary'] = True
            if s['cls'] == 'doc':
                obj = Document(filepath=self.paths[s['file']], **kw)
            else:
                if s['charset']:
                    kw['charset'] = s['charset']
                if s['append']:
                    kw['append'] = True
                if s['cls'] == 'saver':
                    obj = FileSaver(**kw)
                else:
                    binary = kw.pop('binary', False)
                    obj = File(filepath=self.paths[s['file']], binary=binary, meta_opts=kw)
            self.objs[i] = obj
        return self.objs[i]

    def perform(self, op):
        """-> value returned; what the library raises goes out"""
        obj, fp = self.saver(op['saver']), self.paths[op['file']]
        s = self.plan['savers'][op['saver']]
        opts = dict(op['opts'])
        do = op['do']
        value = data_of(op['content']) if 'content' in op else None
        if do == 'read':
            return obj.read_file(fp, **opts)
        via = op.get('via') if s['cls'] == 'saver' else None
        if via == 'last':
            obj.filepath = fp
            fp = None
        if do == 'load':
            return obj.load(fp, **opts) if via else obj.load_file(fp, **opts)
        if s['cls'] == 'doc':
            return obj.write(value, append=do == 'append', **opts)
        if do == 'write':
            return obj.write_file(value, fp, **opts)
        if do == 'append':
            return obj.append_file(value, fp, **opts)
        return obj.save(value, fp, **opts) if via else obj.save_file(value, fp, **opts)


def encoded(plan, op):
    """bytes the operation is to store, None when the text has no form in the charset"""
    b, c, a = effective(plan['savers'][op['saver']], op)
    v = data_of(op['content'])
    if b:
        if not isinstance(v, bytes):
            raise Skip()
        return v
    if isinstance(v, bytes):
        raise Skip()
    try:
        return v.encode(c)
    except UnicodeEncodeError:
        return None


def setup(plan, base):
    """create the initial files -> {index: bytes or None}"""
    for op in (o for l in plan['lives'] for o in l['ops']):
        if op['file'] >= len(plan['files']) or op['saver'] >= len(plan['savers']) or \
                plan['savers'][op['saver']]['file'] >= len(plan['files']):
            raise Skip()
        if 'content' in op:
            encoded(plan, op)
    model = {}
    with open(os.path.join(base, 'other'), 'wb') as f:
        f.write(b'not to be touched')
    for i, f in enumerate(plan['files']):
        p = os.path.join(base, f['name'])
        model[i] = None
        if f['init'] is None:
            continue
        v = data_of(f['init'])
        v = v if isinstance(v, bytes) else v.encode('utf-8')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        target = p
        if f['name'].startswith('link'):
            os.makedirs(os.path.join(base, 'targets'), exist_ok=True)
            target = os.path.join(base, 'targets', f['name'])
            os.symlink(target, p)
        with open(target, 'wb') as h:
            h.write(v)
        model[i] = v
    return model


def read_bytes(path):
    try:
        with open(str(path), 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def brief(b):
    if b is None:
        return 'nothing'
    return '%d %s %r%s' % (len(b), 'bytes' if isinstance(b, bytes) else 'chars', b[:40], '...' if len(b) > 40 else '')


def describe(plan, op):
    return '%s(%s) of %s by %s with %s' % (op['do'], brief(data_of(op['content'])) if 'content' in op else '',
                                         plan['files'][op['file']]['name'], plan['savers'][op['saver']]['cls'], op['opts'])
