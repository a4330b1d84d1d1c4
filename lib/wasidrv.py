"""Drives the real pywasm.wasi.Preview1 through a real guest module: every WASI function is called by wasm code through its import,
with all pointers into a real exported memory.  Around every call the whole guest memory is diffed against the buffers the call was
given (monitor for W06, recorded by all WASI checks)."""
import errno as _errno
import io, os, resource, shutil, signal, struct, sys, tempfile, time
import pw, wb
from wb import Func, Module
import pywasm.wasi

UID = 54321
# errno numbers of the preview-1 ABI, from its definition
NAMES = '''SUCCESS 2BIG ACCES ADDRINUSE ADDRNOTAVAIL AFNOSUPPORT AGAIN ALREADY BADF BADMSG BUSY CANCELED CHILD CONNABORTED CONNREFUSED
CONNRESET DEADLK DESTADDRREQ DOM DQUOT EXIST FAULT FBIG HOSTUNREACH IDRM ILSEQ INPROGRESS INTR INVAL IO ISCONN ISDIR LOOP MFILE MLINK
MSGSIZE MULTIHOP NAMETOOLONG NETDOWN NETRESET NETUNREACH NFILE NOBUFS NODEV NOENT NOEXEC NOLCK NOLINK NOMEM NOMSG NOPROTOOPT NOSPC
NOSYS NOTCONN NOTDIR NOTEMPTY NOTRECOVERABLE NOTSOCK NOTSUP NOTTY NXIO OVERFLOW OWNERDEAD PERM PIPE PROTO PROTONOSUPPORT PROTOTYPE
RANGE ROFS SPIPE SRCH STALE TIMEDOUT TXTBSY XDEV NOTCAPABLE'''.split()
E = {n: i for i, n in enumerate(NAMES)}
assert E['BADF'] == 8 and E['NOTCAPABLE'] == 76 and E['NOENT'] == 44 and E['PERM'] == 63
FROM_HOST = {getattr(_errno, 'E' + n): i for n, i in E.items() if hasattr(_errno, 'E' + n) and n != 'NOTCAPABLE'}


def en(e):
    """errno number -> name for messages"""
    return NAMES[e] if isinstance(e, int) and 0 <= e < len(NAMES) else str(e)


RIGHTS = '''FD_DATASYNC FD_READ FD_SEEK FD_FDSTAT_SET_FLAGS FD_SYNC FD_TELL FD_WRITE FD_ADVISE FD_ALLOCATE PATH_CREATE_DIRECTORY
PATH_CREATE_FILE PATH_LINK_SOURCE PATH_LINK_TARGET PATH_OPEN FD_READDIR PATH_READLINK PATH_RENAME_SOURCE PATH_RENAME_TARGET
PATH_FILESTAT_GET PATH_FILESTAT_SET_SIZE PATH_FILESTAT_SET_TIMES FD_FILESTAT_GET FD_FILESTAT_SET_SIZE FD_FILESTAT_SET_TIMES
PATH_SYMLINK PATH_REMOVE_DIRECTORY PATH_UNLINK_FILE POLL_FD_READWRITE SOCK_SHUTDOWN SOCK_ACCEPT'''.split()
R = {n: 1 << i for i, n in enumerate(RIGHTS)}
ALL = (1 << 28) - 1
CREAT, DIRECTORY, EXCL, TRUNC = 1, 2, 4, 8
APPEND, DSYNC, NONBLOCK, RSYNC, SYNC = 1, 2, 4, 8, 16
FT = dict(unknown=0, block=1, char=2, dir=3, file=4, dgram=5, stream=6, link=7)

i, j = 'i32', 'i64'
FUNCS = {
    'args_get': [i, i], 'args_sizes_get': [i, i], 'clock_res_get': [i, i], 'clock_time_get': [i, j, i], 'environ_get': [i, i],
    'environ_sizes_get': [i, i], 'fd_advise': [i, j, j, i], 'fd_allocate': [i, j, j], 'fd_close': [i], 'fd_datasync': [i],
    'fd_fdstat_get': [i, i], 'fd_fdstat_set_flags': [i, i], 'fd_fdstat_set_rights': [i, j, j], 'fd_filestat_get': [i, i],
    'fd_filestat_set_size': [i, j], 'fd_filestat_set_times': [i, j, j, i], 'fd_pread': [i, i, i, j, i], 'fd_prestat_dir_name': [i, i, i],
    'fd_prestat_get': [i, i], 'fd_pwrite': [i, i, i, j, i], 'fd_read': [i, i, i, i], 'fd_readdir': [i, i, i, j, i],
    'fd_renumber': [i, i], 'fd_seek': [i, j, i, i], 'fd_sync': [i], 'fd_tell': [i, i], 'fd_write': [i, i, i, i],
    'path_create_directory': [i, i, i], 'path_filestat_get': [i, i, i, i, i], 'path_filestat_set_times': [i, i, i, i, j, j, i],
    'path_link': [i, i, i, i, i, i, i], 'path_open': [i, i, i, i, i, j, j, i, i], 'path_readlink': [i, i, i, i, i, i],
    'path_remove_directory': [i, i, i], 'path_rename': [i, i, i, i, i, i], 'path_symlink': [i, i, i, i, i],
    'path_unlink_file': [i, i, i], 'poll_oneoff': [i, i, i, i], 'proc_raise': [i], 'random_get': [i, i], 'sched_yield': [],
    'sock_accept': [i, i, i], 'sock_recv': [i, i, i, i, i, i], 'sock_send': [i, i, i, i, i], 'sock_shutdown': [i, i],
}
PAGES = 2
_desc = {}


def module(pages=PAGES):
    """one export per WASI function, `exit(i32)`, and `_start` which calls back the host function the workload runs in"""
    if pages not in _desc:
        m = Module()
        names = list(FUNCS)
        for n in names:
            m.imports.append(('wasi_snapshot_preview1', n, 'func', m.type(tuple(FUNCS[n]), ('i32',))))
        m.imports.append(('wasi_snapshot_preview1', 'proc_exit', 'func', m.type(('i32',), ())))
        m.imports.append(('drv', 'body', 'func', m.type((), ())))
        k = len(m.imports)
        for x, n in enumerate(names):
            t = m.type(tuple(FUNCS[n]), ('i32',))
            m.funcs.append(Func(t, [], [('local.get', a) for a in range(len(FUNCS[n]))] + [('call', x)]))
            m.exports.append((n, 'func', k + x))
        m.funcs.append(Func(m.type(('i32',), ()), [], [('local.get', 0), ('call', len(names)), ('unreachable',)]))
        m.exports.append(('exit', 'func', k + len(names)))
        m.funcs.append(Func(m.type((), ()), [], [('call', len(names) + 1)]))
        m.exports.append(('_start', 'func', k + len(names) + 1))
        m.funcs.append(Func(m.type((), ()), [], [('unreachable',)]))
        m.exports.append(('boom', 'func', k + len(names) + 2))
        m.mems.append((pages, pages))
        m.exports.append(('memory', 'memory', 0))
        _desc[pages] = m.encode()
    return _desc[pages]


def drop(fsize=64 << 20):
    """Containment: from here on this process is an unprivileged user which owns nothing but its scratch directories."""
    module()
    if os.getuid() == 0:
        os.setgroups([])
        os.setresgid(UID, UID, UID)
        os.setresuid(UID, UID, UID)
        assert os.getuid() == UID and os.geteuid() == UID
    os.umask(0o022)
    resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _rm(path):
    for top, dirs, _ in os.walk(path):
        for d in dirs:
            p = os.path.join(top, d)
            if not os.path.islink(p):
                os.chmod(p, 0o700)
    shutil.rmtree(path, ignore_errors=True)


class Scratch:
    """a scratch directory, five levels deep below its own root so that a few '..' stay inside"""

    def __init__(self, base='/tmp'):
        self.base = base

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix='vfw', dir=self.base)
        self.path = os.path.join(self.root, 's1', 's2', 's3', 's4')
        os.makedirs(self.path)
        return self.path

    def __exit__(self, *_):
        _rm(self.root)


class Trap(Exception):
    """the guest was ended by an exception (carried as cause)"""


class Blocked(Exception):
    """a call did not return within the wall-clock budget"""


class _Alarm(BaseException):
    pass


def _alarm(*_):
    raise _Alarm()


def u64(x):
    return x & (1 << 64) - 1


class Guest:
    def __init__(self, args=(), dirs=None, envs=None, capture=True, stdin=b'', runtime=None, budget=60.0, pages=PAGES):
        self.rt = runtime or pw.core.Runtime()
        self.wasi = pywasm.wasi.Preview1(list(args), dict(dirs or {}), dict(envs or {}))
        self.wasi.bind(self.rt)
        self.body = None
        self.pages = pages
        self.rt.imports['drv'] = {'body': self.rt.allocate_func_host(pw.functype((), ()), self._body)}
        self.inst = self.rt.instance(pw.core.ModuleDesc.from_reader(io.BytesIO(module(pages))))
        self.mem = self.rt.exported_memory(self.inst, 'memory')
        if capture:
            for n in range(3):
                self.wasi.fd[n].pipe = io.BytesIO(bytearray(stdin if n == 0 else b''))
        self.stray = []
        self.calls = 0
        self.budget = budget
        self.reset()

    # ---- guest memory ----
    def reset(self):
        self.top = 1024
        self.outs = []

    def alloc(self, n, align=8):
        self.top = (self.top + 24 + align - 1) // align * align     # a gap of guard bytes between any two buffers
        p = self.top
        self.top += n
        assert self.top < self.pages * 65536 - 64, 'driver arena full'
        return p

    def put(self, b):
        p = self.alloc(len(b))
        self.mem.data[p:p + len(b)] = b
        return p

    def out(self, n, fill=0xA5, align=8):
        p = self.alloc(n, align)
        self.mem.data[p:p + n] = bytes([fill]) * n
        self.outs.append((p, n))
        return p

    def get(self, p, n):
        return bytes(self.mem.data[p:p + n])

    def u(self, p, n):
        return int.from_bytes(self.get(p, n), 'little')

    # ---- calls ----
    def raw(self, name, args):
        """errno of the call; raises Trap"""
        ty = FUNCS[name]
        v = []
        for t, a in zip(ty, args):
            bits = 32 if t == 'i32' else 64
            a &= (1 << bits) - 1
            v.append(a - (1 << bits) if a >> (bits - 1) else a)
        assert len(v) == len(ty), (name, args)
        before = bytes(self.mem.data)
        self.calls += 1
        nest = signal.getitimer(signal.ITIMER_REAL)[0]
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.budget)
        try:
            r = self.rt.invocate(self.inst, name, v)
        except _Alarm:
            raise Blocked(f'{name}{list(args)} did not return within {self.budget} s')
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, nest)
            self._watch(name, args, before)
            raise Trap(f'{type(e).__name__}: {e}') from e
        finally:
            signal.setitimer(signal.ITIMER_REAL, nest)
        self._watch(name, args, before)
        assert len(r) == 1
        return r[0]

    def _watch(self, name, args, before):
        d = self.mem.data
        if len(d) != len(before) or len(d) != self.mem.size * 65536:
            self.stray.append((name, list(args), f'memory is {len(d)} bytes long now, was {len(before)}'))
            return
        if d == before:
            return
        a, b = bytearray(before), bytearray(d)
        for p, n in self.outs:
            a[p:p + n] = b[p:p + n] = bytes(n)
        if a != b:
            at = next(k for k in range(len(a)) if a[k] != b[k])
            self.stray.append((name, list(args), f'byte {at} changed outside the output buffers {self.outs[:6]}'))

    def call(self, name, *args):
        """a call without buffers"""
        self.outs = []
        return self.raw(name, args)

    def iovs(self, lens=None, data=None, fill=0xA5):
        """an iovec array over fresh buffers: (ptr, count, [(p, n)...])"""
        bufs = []
        if data is not None:
            for b in data:
                bufs.append((self.put(b), len(b)))
        else:
            for n in lens:
                bufs.append((self.out(n, fill), n))
        return self.put(b''.join(struct.pack('<II', *x) for x in bufs)), len(bufs), bufs

    # ---- one helper per function ----
    def write(self, fd, data):
        self.reset()
        p, n, _ = self.iovs(data=data)
        o = self.out(4)
        return self.raw('fd_write', [fd, p, n, o]), self.u(o, 4)

    def pwrite(self, fd, data, off):
        self.reset()
        p, n, _ = self.iovs(data=data)
        o = self.out(4)
        return self.raw('fd_pwrite', [fd, p, n, off, o]), self.u(o, 4)

    def _scatter(self, e, o, bufs):
        if e:
            return e, b''
        n, got, left = self.u(o, 4), b'', self.u(o, 4)
        for p, k in bufs:
            take = min(k, left)
            got += self.get(p, take)
            if any(c != 0xA5 for c in self.get(p + take, k - take)):
                self.stray.append(('read', [], 'bytes written past the count reported'))
            left -= take
        if left:
            return e, ('more than the buffers hold', n)
        return e, got

    def read(self, fd, lens):
        self.reset()
        p, n, bufs = self.iovs(lens=lens)
        o = self.out(4)
        return self._scatter(self.raw('fd_read', [fd, p, n, o]), o, bufs)

    def pread(self, fd, lens, off):
        self.reset()
        p, n, bufs = self.iovs(lens=lens)
        o = self.out(4)
        return self._scatter(self.raw('fd_pread', [fd, p, n, off, o]), o, bufs)

    def seek(self, fd, off, whence):
        self.reset()
        o = self.out(8)
        return self.raw('fd_seek', [fd, off, whence, o]), self.u(o, 8)

    def tell(self, fd):
        self.reset()
        o = self.out(8)
        return self.raw('fd_tell', [fd, o]), self.u(o, 8)

    def fdstat(self, fd):
        self.reset()
        o = self.out(24)
        e = self.raw('fd_fdstat_get', [fd, o])
        return e, (self.u(o, 1), self.u(o + 2, 2), self.u(o + 8, 8), self.u(o + 16, 8)) if e == 0 else None

    def _stat(self, e, o):
        if e:
            return e, None
        k = ('dev', 'ino', 'type', 'nlink', 'size', 'atim', 'mtim', 'ctim')
        v = [self.u(o, 8), self.u(o + 8, 8), self.u(o + 16, 1)] + [self.u(o + 24 + 8 * x, 8) for x in range(5)]
        return e, dict(zip(k, v))

    def fstat(self, fd):
        self.reset()
        o = self.out(64)
        return self._stat(self.raw('fd_filestat_get', [fd, o]), o)

    def stat(self, fd, name, follow=1):
        self.reset()
        b = name if isinstance(name, bytes) else name.encode()
        p = self.put(b)
        o = self.out(64)
        return self._stat(self.raw('path_filestat_get', [fd, follow, p, len(b), o]), o)

    def path(self, name, fd, s, *rest):
        """path_create_directory, path_remove_directory, path_unlink_file"""
        self.reset()
        b = s if isinstance(s, bytes) else s.encode()
        return self.raw(name, [fd, self.put(b), len(b), *rest])

    def utimes(self, fd, s, follow, atim, mtim, flags):
        self.reset()
        b = s if isinstance(s, bytes) else s.encode()
        return self.raw('path_filestat_set_times', [fd, follow, self.put(b), len(b), atim, mtim, flags])

    def rename(self, fd, a, fd2, b):
        self.reset()
        a, b = (x if isinstance(x, bytes) else x.encode() for x in (a, b))
        return self.raw('path_rename', [fd, self.put(a), len(a), fd2, self.put(b), len(b)])

    def link(self, fd, follow, a, fd2, b):
        self.reset()
        a, b = (x if isinstance(x, bytes) else x.encode() for x in (a, b))
        return self.raw('path_link', [fd, follow, self.put(a), len(a), fd2, self.put(b), len(b)])

    def symlink(self, target, fd, name):
        self.reset()
        a, b = (x if isinstance(x, bytes) else x.encode() for x in (target, name))
        return self.raw('path_symlink', [self.put(a), len(a), fd, self.put(b), len(b)])

    def readlink(self, fd, name, n=300):
        self.reset()
        b = name if isinstance(name, bytes) else name.encode()
        p = self.put(b)
        q = self.out(n)
        o = self.out(4)
        e = self.raw('path_readlink', [fd, p, len(b), q, n, o])
        k = self.u(o, 4)
        # a count beyond the buffer shows as text which cannot be there
        return e, self.get(q, min(n, k)) + b'\0' * min(9, k - min(n, k)) if e == 0 else b''

    def open(self, fd, name, oflags=0, base=ALL, root=ALL, fdflags=0, follow=1):
        self.reset()
        b = name if isinstance(name, bytes) else name.encode()
        p = self.put(b)
        o = self.out(4)
        return self.raw('path_open', [fd, follow, p, len(b), oflags, base, root, fdflags, o]), self.u(o, 4)

    def readdir(self, fd, n, cookie=0):
        self.reset()
        p = self.out(n, fill=0xA5)
        o = self.out(4)
        e = self.raw('fd_readdir', [fd, p, n, cookie, o])
        used = self.u(o, 4)
        return e, used, self.get(p, n)

    def _strings(self, a, b, sizes_fn, get_fn):
        self.reset()
        x, y = self.out(4), self.out(4)
        e = self.raw(sizes_fn, [x, y])
        if e:
            return e
        n, size = self.u(x, 4), self.u(y, 4)
        self.reset()
        v, s = self.out(4 * n), self.out(size)
        e = self.raw(get_fn, [v, s])
        if e:
            return e
        out, p = [], s
        for k in range(n):
            at = self.u(v + 4 * k, 4)
            if at != p:
                return f'pointer {k} is {at}, string starts at {p}'
            z = bytes(self.mem.data).index(0, at)
            out.append(self.get(at, z - at).decode())
            p = z + 1
        if p != s + size:
            return f'strings take {p - s} bytes, {size} were reported'
        return out

    def args(self):
        return self._strings(0, 0, 'args_sizes_get', 'args_get')

    def environ(self):
        return self._strings(0, 0, 'environ_sizes_get', 'environ_get')

    def prestat(self, fd):
        self.reset()
        o = self.out(8)
        e = self.raw('fd_prestat_get', [fd, o])
        if e:
            return e, None
        tag, n = self.u(o, 1), self.u(o + 4, 4)
        if tag != 0 or n > 9999:
            return e, ('bad prestat', tag, n)
        self.reset()
        p = self.out(n)
        e = self.raw('fd_prestat_dir_name', [fd, p, n])
        # a descriptor with a length and no name is neither a preopen nor none
        return (999 if e else 0), self.get(p, n)

    def time(self, clock):
        self.reset()
        o = self.out(8)
        return self.raw('clock_time_get', [clock, 0, o]), self.u(o, 8)

    def sock(self, s, kind, rights=None, flag=0):
        """the embedder supplies a socket (a duplicate of s); returns the guest's number for it"""
        fd = len(self.wasi.fd)
        if rights is None:
            rights = R['FD_READ'] | R['FD_WRITE'] | R['SOCK_SHUTDOWN'] | R['SOCK_ACCEPT'] | R['POLL_FD_READWRITE'] | R['FD_FDSTAT_SET_FLAGS']
        self.wasi.fd.append(self.wasi.File(
            host_fd=os.dup(s.fileno()), host_flag=os.O_RDWR, host_name='socket', host_status=0, pipe=None, wasm_fd=fd, wasm_flag=flag,
            wasm_name='socket', wasm_rights_base=rights, wasm_rights_root=0, wasm_status=0, wasm_type=FT[kind]))
        return fd

    # ---- whole programs ----
    def _body(self, machine, args):
        self.body()
        return []

    def main(self, fn):
        """run fn inside a guest program under Preview1.main; returns its exit code"""
        self.body = fn
        return self.wasi.main(self.rt, self.inst)

    def exit(self, code):
        self.rt.invocate(self.inst, 'exit', [code - (1 << 32) if code >> 31 else code])

    def boom(self):
        self.rt.invocate(self.inst, 'boom', [])

    def captured(self, n):
        p = self.wasi.fd[n].pipe
        return bytes(p.getvalue())

    def stdout(self):
        return self.captured(1)

    def close(self):
        """end of the program: main closes what is still open"""
        try:
            self.main(lambda: None)
        except Exception:
            pass


def openfds():
    """host descriptors of this process: {fd: what it denotes}"""
    out = {}
    for x in os.listdir('/proc/self/fd'):
        try:
            out[int(x)] = os.readlink(f'/proc/self/fd/{x}')
        except OSError:
            pass
    return out


def tree(root, times=False):
    """a snapshot of everything below root, without following links; identical inodes get the same class number"""
    ino, out = {}, {}

    def walk(p, rel):
        st = os.lstat(p)
        k = ino.setdefault(st.st_ino, len(ino))
        t = st.st_mode & 0o170000
        item = [oct(t), k]
        if t == 0o120000:
            item.append(os.readlink(p))
        elif t == 0o100000:
            try:
                with open(p, 'rb') as f:
                    item += [st.st_nlink, f.read()]
            except PermissionError:
                item += [st.st_nlink, st.st_size]
        if times:
            item += [st.st_mtime_ns, st.st_ctime_ns, st.st_ino, oct(st.st_mode)]
        out[rel] = tuple(item)
        if t == 0o040000:
            for n in sorted(os.listdir(p)):
                walk(os.path.join(p, n), rel + '/' + n)
    walk(root, '')
    return out


def treediff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f'{k or "/"}: {str(a.get(k))[:120]} vs {str(b.get(k))[:120]}'
    return None
