"""The simulated disk: journal of every file operation (through the LD_PRELOAD
shim), fault plans, and the file system images a crash may leave behind."""

import ctypes
import errno
import os
import struct
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN, WRITE, TRUNC, FSYNC, RENAME, UNLINK, READ, CLOSE, LINK = range(1, 10)
NAME = {OPEN: 'open', WRITE: 'write', TRUNC: 'truncate', FSYNC: 'fsync', RENAME: 'rename', UNLINK: 'unlink',
        READ: 'read', CLOSE: 'close', LINK: 'link', 0: 'any'}
REC = struct.Struct('iiqqqqiiq')
SECTOR = 512


def shim_path():
    """Build the shim when needed; returns its path."""
    src = os.path.join(ROOT, 'shim', 'shim.c')
    out = os.path.join(ROOT, 'build', 'shim.so')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
    os.replace(tmp, out)
    return out


def preload():
    """Re-execute this process under the shim (once)."""
    import sys
    p = shim_path()
    if p in os.environ.get('LD_PRELOAD', ''):
        return
    env = dict(os.environ, LD_PRELOAD=p)
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(shim_path())
        _lib.vsim_buf.restype = ctypes.c_void_p
        _lib.vsim_len.restype = ctypes.c_size_t
        for f in ('vsim_ops', 'vsim_injected', 'vsim_class'):
            getattr(_lib, f).restype = ctypes.c_long
        _lib.vsim_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_long]
        _lib.vsim_class.argtypes = [ctypes.c_int]
        _lib.vsim_begin.argtypes = [ctypes.c_char_p]
    return _lib


class Op:
    __slots__ = ('op', 'err', 'ino', 'off', 'len', 'flags', 'p1', 'p2', 'data')

    def __repr__(self):
        return '%s(%s%s%s)' % (NAME[self.op], ('%d+%d' % (self.off, self.len)) if self.op == WRITE else self.len
                               if self.op == TRUNC else os.path.basename(self.p1),
                               '->' + os.path.basename(self.p2) if self.p2 else '',
                               '!' + errno.errorcode.get(self.err, '?') if self.err else '')


class Disk:
    """Journal and faults for everything below one directory."""

    def __init__(self, root):
        self.root = os.path.realpath(root)

    def __enter__(self):
        lib().vsim_begin(self.root.encode())
        return self

    def __exit__(self, *a):
        lib().vsim_end()

    def plan(self, op, at, count, err=0, short=-1):
        lib().vsim_plan(op, at, count, err, short)

    def clear(self):
        lib().vsim_plan_clear()

    def injected(self):
        return lib().vsim_injected()

    def position(self):
        """Number of journalled operations so far."""
        return len(self.journal())

    def journal(self):
        n = lib().vsim_len()
        raw = ctypes.string_at(lib().vsim_buf(), n) if n else b''
        ops = []
        i = 0
        while i < n:
            o = Op()
            (o.op, o.err, o.ino, o.off, o.len, o.flags, p1, p2, d) = REC.unpack_from(raw, i)
            i += REC.size
            o.p1 = os.fsdecode(raw[i:i + p1])
            i += p1
            o.p2 = os.fsdecode(raw[i:i + p2])
            i += p2
            o.data = raw[i:i + d]
            i += d
            ops.append(o)
        return ops


def apply_data(content, op):
    if op.op == TRUNC:
        if op.len <= len(content):
            del content[op.len:]
        else:
            content.extend(bytes(op.len - len(content)))
    else:
        end = op.off + len(op.data)
        if len(content) < op.off:
            content.extend(bytes(op.off - len(content)))
        content[op.off:end] = op.data


def data_op(kind, off, data, n=0):
    o = Op()
    (o.op, o.err, o.ino, o.off, o.len, o.flags, o.p1, o.p2, o.data) = (kind, 0, 0, off, n, 0, '', '', data)
    return o


class FS:
    """What is durable and what is not, while a journal is replayed."""

    def __init__(self, root):
        """Everything now below root is durable."""
        self.root = os.path.realpath(root)
        self.entries = {}        # durable: path -> ino
        self.files = {}          # ino -> durable bytes
        for (d, _, fs) in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    continue
                ino = os.stat(p).st_ino
                self.entries[p] = ino
                with open(p, 'rb') as fh:
                    self.files[ino] = bytearray(fh.read())
        self.base = (dict(self.entries), {k: bytes(v) for (k, v) in self.files.items()})
        self.dirops = []         # pending directory operations, in order
        self.pending = {}        # ino -> pending data operations

    def fork(self):
        f = object.__new__(FS)
        f.root = self.root
        f.entries = dict(self.entries)
        f.files = {k: bytearray(v) for (k, v) in self.files.items()}
        f.dirops = list(self.dirops)
        f.pending = {k: list(v) for (k, v) in self.pending.items()}
        return f

    def step(self, o):
        if o.err:
            return
        if o.op == OPEN:
            if not o.off:                      # did not exist
                # (an inode number may be reused after unlink)
                self.files[o.ino] = bytearray()
                self.pending[o.ino] = []
                self.dirops.append(('link', o.p1, o.ino))
            elif o.flags & os.O_TRUNC:
                self.pending.setdefault(o.ino, []).append(data_op(TRUNC, 0, b'', 0))
        elif o.op in (WRITE, TRUNC):
            self.pending.setdefault(o.ino, []).append(o)
        elif o.op == FSYNC:
            if o.flags == 3:
                self.flush_all()
            elif o.flags == 2:
                self.flush_dir()
            else:
                self.flush(o.ino)
        elif o.op == RENAME:
            self.dirops.append(('rename', o.p1, o.p2, o.ino))
        elif o.op == UNLINK:
            self.dirops.append(('unlink', o.p1))
        elif o.op == LINK:
            self.dirops.append(('link', o.p2, o.ino))

    def flush(self, ino):
        for w in self.pending.pop(ino, []):
            apply_data(self.files.setdefault(ino, bytearray()), w)

    def flush_dir(self, n=None):
        n = len(self.dirops) if n is None else n
        for d in self.dirops[:n]:
            if d[0] == 'link':
                self.entries[d[1]] = d[2]
            elif d[0] == 'rename':
                self.entries.pop(d[1], None)
                self.entries[d[2]] = d[3]
            else:
                self.entries.pop(d[1], None)
        del self.dirops[:n]

    def flush_all(self):
        for ino in list(self.pending):
            self.flush(ino)
        self.flush_dir()

    def killed(self, torn=None):
        """Image after the process died: the page cache survives."""
        f = self.fork()
        if torn is not None:
            f.step(torn)
        f.flush_all()
        return f.image()

    def power(self, rng, info):
        """Image after a power failure: any prefix of the directory operations
        and any subset of the unsynced data operations survive, some torn."""
        f = self.fork()
        style = rng.random()
        nd = len(f.dirops)
        k = nd if style < 0.4 else int(rng.integers(0, nd + 1))
        info['lost directory operations'] = nd - k
        f.flush_dir(k)
        f.dirops = []
        lost = torn = 0
        pl = rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
        for ino in sorted(f.pending):
            for w in f.pending[ino]:
                if rng.random() < pl:
                    lost += 1
                    continue
                if w.op == WRITE and len(w.data) > SECTOR and rng.random() < 0.3:
                    n = SECTOR * int(rng.integers(0, len(w.data) // SECTOR + 1))
                    w = data_op(WRITE, w.off, w.data[:n])
                    torn += 1
                apply_data(f.files.setdefault(ino, bytearray()), w)
        f.pending = {}
        info['lost writes'] = lost
        info['torn writes'] = torn
        return f.image()

    def image(self):
        return {p: bytes(self.files.get(i, b'')) for (p, i) in self.entries.items()}


def write_image(image, root, dest):
    """Lay an image out below dest; returns the path mapping."""
    for (p, data) in image.items():
        q = os.path.join(dest, os.path.relpath(p, root))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as fh:
            fh.write(data)


def real_image(root):
    out = {}
    root = os.path.realpath(root)
    for (d, _, fs) in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if not os.path.islink(p):
                with open(p, 'rb') as fh:
                    out[p] = fh.read()
    return out
