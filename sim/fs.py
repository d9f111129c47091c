"""The file system: decides, through the preloaded shim, the outcome of the file system calls of the library."""
import ctypes
import errno
import os
import random

_lib = ctypes.CDLL(os.environ['SIM_FS'])
FAIL, SHORT, CRASH_BEFORE, CRASH_AFTER, CRASH_MID, FULL, EINTR, FAIL_FROM = range(1, 9)
ACTIONS = ['none', 'error', 'short', 'crash-before', 'crash-after', 'crash-mid-write', 'disk-full', 'eintr', 'error-from']
KINDS = ['open', 'read', 'write', 'close', 'rename', 'unlink', 'mkdir', 'stat', 'chmod', 'sync', 'trunc', 'list', 'link']
CRASHED = 77
ANY = -1
ERRNOS = {'open': [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EIO, errno.EROFS, errno.ENFILE],
          'read': [errno.EIO], 'write': [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EFBIG],
          'close': [errno.EIO, errno.ENOSPC, errno.EDQUOT], 'rename': [errno.EACCES, errno.EXDEV, errno.EIO, errno.ENOSPC, errno.EBUSY],
          'unlink': [errno.EACCES, errno.EBUSY, errno.EIO], 'mkdir': [errno.ENOSPC, errno.EACCES, errno.EROFS],
          'stat': [errno.EIO, errno.EACCES], 'chmod': [errno.EPERM, errno.EROFS], 'sync': [errno.EIO], 'trunc': [errno.EIO],
          'list': [errno.EACCES, errno.EIO], 'link': [errno.EPERM], 'any': [errno.EIO, errno.EACCES]}


def root(path):
    _lib.simfs_root(os.path.realpath(path).encode())


def arm(rules=(), short=(0, 0), targets=None):
    """rules: [kind or 'any', n, action, arg]: what happens to the n-th call (of this kind)
    targets: {end of path: rules}: the same for the calls (of this kind) about one file"""
    _lib.simfs_arm()
    for end, trules in sorted((targets or {}).items()):
        t = _lib.simfs_target(end.encode())
        for kind, n, act, arg in trules:
            _lib.simfs_rule(t, KINDS.index(kind), n, ACTIONS.index(act), arg)
    for kind, n, act, arg in rules:
        _lib.simfs_rule(0, ANY if kind == 'any' else KINDS.index(kind), n, ACTIONS.index(act), arg)
    _lib.simfs_short(short[0], short[1])


def disarm():
    """-> (number of calls, faults that did happen)"""
    n = _lib.simfs_disarm()
    hits = {}
    for a in range(1, len(ACTIONS)):
        k = _lib.simfs_hits(a)
        if k:
            hits[ACTIONS[a]] = k
    return n, hits


def target_hits(targets):
    """{end of path: {fault: times}} for the targets given to arm"""
    out = {}
    for i, end in enumerate(sorted(targets), 1):
        out[end] = {ACTIONS[a]: _lib.simfs_thits(i, a) for a in range(1, len(ACTIONS)) if _lib.simfs_thits(i, a)}
    return out


def calls():
    out = []
    i = 0
    while True:
        v = _lib.simfs_log(i)
        if v < 0:
            return out
        out.append(KINDS[v >> 8] + ('!' + ACTIONS[v & 255] if v & 255 else ''))
        i += 1


def open_handles():
    return _lib.simfs_openfds()


def forget_handles():
    _lib.simfs_forget()


def random_fault(rng, crash=True, kinds=None):
    """one fault at one call"""
    acts = ['error'] * 4 + ['short', 'disk-full', 'eintr']
    if crash:
        acts += ['crash-before'] * 3 + ['crash-after'] * 3 + ['crash-mid-write'] * 3
    act = rng.choice(acts)
    if act == 'disk-full':
        return ['any', rng.randint(1, 14), act, 0]
    if act == 'short' or act == 'eintr':
        return [rng.choice(['read', 'write']), rng.randint(1, 3), act, rng.randint(1, 40)]
    if act == 'crash-mid-write':
        return ['write', rng.choice([1, 1, 1, 2, 3]), act, rng.randint(1, 9000) if rng.random() < .5 else rng.randint(1, 9)]
    kind = rng.choice(kinds or ['any', 'any', 'open', 'open', 'write', 'write', 'read', 'close', 'close', 'rename', 'rename', 'chmod',
                                'mkdir', 'stat', 'stat', 'unlink', 'trunc', 'sync'])
    n = rng.randint(1, 20) if kind == 'any' else rng.choice([1, 1, 1, 2, 2, 3, 4])
    arg = rng.choice(ERRNOS[kind]) if act == 'error' else 0
    return [kind, n, act, arg]


def remaining_handles(path):
    """descriptors of this process open under the path (asked to the kernel)"""
    out = []
    path = os.path.realpath(path)
    for fd in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if t == path or t.startswith(path + '/'):
            out.append(os.path.relpath(t, path))
    return out


def tree(path):
    """relative path -> bytes of the files, None for directories"""
    out = {}
    for base, dirs, files in os.walk(path):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), path)] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out
