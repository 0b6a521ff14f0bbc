"""Interposed file operations: log, crash states and failures of writes.

Library `mc/iofault.c` is preloaded; each state of a tracked file which a crash
could leave behind is reconstructed from the log.
"""

import ctypes
import errno
import hashlib
import itertools
import os
import pathlib
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent

CREATE, WRITE, SYNC, TRUNCATE = range(4)

_env = 'MC_IOFAULT'


def ensure():
    """Restart process with preloaded library"""
    if os.environ.get(_env):
        return
    path = build()
    env = {**os.environ, 'LD_PRELOAD': str(path), _env: str(path)}
    os.execve(sys.executable, [sys.executable, '-m', 'mc.check',
                               *sys.argv[1:]], env)


def build():
    source = ROOT / 'mc/iofault.c'
    digest = hashlib.sha1(source.read_bytes()).hexdigest()[:12]
    out = ROOT / 'out/lib'
    out.mkdir(parents=True, exist_ok=True)
    path = out / f'iofault-{digest}.so'
    if not path.exists():
        with tempfile.TemporaryDirectory(dir=out) as tmp:
            part = pathlib.Path(tmp) / 'iofault.so'
            subprocess.run(['gcc', '-O2', '-fPIC', '-shared', '-w', '-o',
                            str(part), str(source), '-ldl'], check=True)
            os.replace(part, path)
    return path


class _Op(ctypes.Structure):
    _fields_ = [('kind', ctypes.c_int), ('dsync', ctypes.c_int),
                ('off', ctypes.c_longlong), ('len', ctypes.c_longlong),
                ('data', ctypes.c_void_p)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ[_env])
        for name in ('counter', 'hits', 'len', 'mapped'):
            getattr(_lib, f'iofault_{name}').restype = ctypes.c_long
        _lib.iofault_op.restype = ctypes.POINTER(_Op)
        _lib.iofault_op.argtypes = [ctypes.c_long]
        _lib.iofault_fail.argtypes = [ctypes.c_long, ctypes.c_long,
                                      ctypes.c_int, ctypes.c_int]
        _lib.iofault_reset.argtypes = [ctypes.c_char_p]
    return _lib


class Op:
    __slots__ = ('kind', 'dsync', 'off', 'len', 'data')


def track(prefix):
    lib().iofault_reset(os.fsencode(str(prefix)))


def length():
    return lib().iofault_len()


def fail(at, count=1, err=errno.EIO, short=False):
    lib().iofault_fail(at, count, err, 1 if short else 0)


def no_fail():
    lib().iofault_fail(-1, 0, 0, 0)


def counter():
    return lib().iofault_counter()


def hits():
    return lib().iofault_hits()


def log():
    result = []
    for i in range(lib().iofault_len()):
        raw = lib().iofault_op(i).contents
        op = Op()
        op.kind, op.dsync, op.off, op.len = (raw.kind, raw.dsync, raw.off,
                                             raw.len)
        op.data = (ctypes.string_at(raw.data, raw.len) if raw.data else None)
        result.append(op)
    return result


def _apply(content, op, size=None):
    """Content (bytearray or None if file does not exist) after op"""
    if op.kind == CREATE:
        return bytearray()
    if op.kind == TRUNCATE:
        content = content or bytearray()
        if len(content) > op.len:
            del content[op.len:]
        else:
            content.extend(bytes(op.len - len(content)))
    elif op.kind == WRITE:
        content = content if content is not None else bytearray()
        data = op.data if size is None else op.data[:size]
        if len(content) < op.off:
            content.extend(bytes(op.off - len(content)))
        content[op.off:op.off + len(data)] = data
    return content


def killed_states(ops, start=0):
    """States after process is killed: (position, bytes), position is number
    of completed operations (write in progress can be done partially)"""
    content = None
    for i, op in enumerate(ops):
        if (i >= start and content is not None and op.kind == WRITE and
                op.off + op.len > 8192):
            # pages are copied one by one (except initialization of meta
            # pages, which is responsibility of database library)
            for size in range(4096, len(op.data), 4096):
                yield i, bytes(_apply(bytearray(content), op, size))
        content = _apply(content, op)
        if i + 1 >= start and content is not None and op.kind != SYNC:
            yield i + 1, bytes(content)


def power_states(ops, start=0, max_subset=5):
    """States after system crash: every set of writes which were not yet
    synced can be missing, write can be cut to part of its pages"""
    durable = None
    pending = []
    for i, op in enumerate(ops):
        if op.kind == CREATE:
            durable = bytearray()
            continue
        if op.kind == SYNC or (op.kind == WRITE and op.dsync):
            if i >= start:
                for content in _subsets(durable, pending, max_subset):
                    yield i, content
                if op.kind == WRITE:
                    # data of other file handle is not part of this sync
                    for content in _subsets(_apply(bytearray(durable), op),
                                            pending, max_subset):
                        yield i, content
            if op.kind == SYNC:
                for j in pending:
                    durable = _apply(durable, j)
                pending = []
            else:
                durable = _apply(durable, op)
            continue
        pending.append(op)
    for content in _subsets(durable, pending, max_subset):
        yield len(ops), content


def _subsets(durable, pending, max_subset):
    n = len(pending)
    if n <= max_subset:
        selections = itertools.chain.from_iterable(
            itertools.combinations(range(n), k) for k in range(n + 1))
    else:
        selections = [(), tuple(range(n))]
        for i in range(n):
            selections.append((i,))
            selections.append(tuple(j for j in range(n) if j != i))
            selections.append(tuple(range(i)))
    for selection in selections:
        content = bytearray(durable)
        for i in selection:
            content = _apply(content, pending[i])
        yield bytes(content)
        # last write is cut
        if selection and pending[selection[-1]].kind == WRITE:
            op = pending[selection[-1]]
            if op.len > 512:
                content = bytearray(durable)
                for i in selection[:-1]:
                    content = _apply(content, pending[i])
                size = op.len // 2 // 512 * 512
                yield bytes(_apply(content, op, size))
