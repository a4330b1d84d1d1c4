"""Drives pywasm.wasi.Preview1 from a real guest module: every WASI function is wrapped by an exported wasm function."""
import os, struct, sys
sys.path.insert(0, os.getcwd())
import pywasm, wb
i, j = 'i32', 'i64'
FUNCS = {
    'args_get': [i, i], 'args_sizes_get': [i, i], 'clock_res_get': [i, i], 'clock_time_get': [i, j, i], 'environ_get': [i, i],
    'environ_sizes_get': [i, i], 'fd_advise': [i, j, j, i], 'fd_allocate': [i, j, j], 'fd_close': [i], 'fd_datasync': [i],
    'fd_fdstat_get': [i, i], 'fd_fdstat_set_flags': [i, i], 'fd_fdstat_set_rights': [i, j, j], 'fd_filestat_get': [i, i],
    'fd_filestat_set_size': [i, j], 'fd_filestat_set_times': [i, j, j, i], 'fd_pread': [i, i, i, j, i], 'fd_prestat_dir_name': [i, i, i],
    'fd_prestat_get': [i, i], 'fd_pwrite': [i, i, i, j, i], 'fd_read': [i, i, i, i], 'fd_readdir': [i, i, i, j, i],
    'fd_renumber': [i, i], 'fd_seek': [i, j, i, i], 'fd_sync': [i], 'fd_tell': [i, i], 'fd_write': [i, i, i, i],
    'path_create_directory': [i, i, i], 'path_filestat_get': [i, i, i, i, i], 'path_filestat_set_times': [i, i, i, i, j, j, i],
    'path_link': [i, i, i, i, i, i, i], 'path_open': [i, i, i, i, i, j, j, i, i], 'path_readlink': [i, i, i, i, i, i],
    'path_remove_directory': [i, i, i], 'path_rename': [i, i, i, i, i, i], 'path_symlink': [i, i, i, i, i],
    'path_unlink_file': [i, i, i], 'poll_oneoff': [i, i, i, i], 'random_get': [i, i], 'sched_yield': [],
    'sock_accept': [i, i, i], 'sock_recv': [i, i, i, i, i, i], 'sock_send': [i, i, i, i, i], 'sock_shutdown': [i, i],
}
ALL = (1 << 28) - 1


class Guest:
    def __init__(self, dirs=None, args=(), envs=None):
        m = wb.Module()
        for n, t in FUNCS.items():
            m.imports.append(('wasi_snapshot_preview1', n, 'func', m.type(t, ['i32'])))
        m.mems.append((2, None))
        m.exports.append(('memory', 'memory', 0))
        for k, (n, t) in enumerate(FUNCS.items()):
            m.func(t, ['i32'], [('local.get', a) for a in range(len(t))] + [('call', k)], export=n)
        self.rt = pywasm.core.Runtime()
        self.wasi = pywasm.wasi.Preview1(list(args), dirs or {}, envs or {})
        self.wasi.bind(self.rt)
        self.inst = self.rt.instance(pywasm.core.ModuleDesc.from_reader(__import__('io').BytesIO(m.encode())))
        self.mem = self.rt.machine.store.mems[self.inst.mems[0]]
        self.at = 1024

    def call(self, name, *args):
        args = [a - (1 << (32 if t == 'i32' else 64)) if a >> ((32 if t == 'i32' else 64) - 1) > 0 else a for a, t in zip(args, FUNCS[name])]
        return self.rt.invocate(self.inst, name, args)[0]

    def put(self, b):
        p = self.at
        self.at += (len(b) + 15) // 8 * 8
        self.mem.data[p:p + len(b)] = b
        return p

    def u32(self, p):
        return struct.unpack_from('<I', self.mem.data, p)[0]

    def u64(self, p):
        return struct.unpack_from('<Q', self.mem.data, p)[0]

    def get(self, p, n):
        return bytes(self.mem.data[p:p + n])

    def iovs(self, lens):
        ptrs = [self.put(bytes(n)) for n in lens]
        return self.put(b''.join(struct.pack('<II', p, n) for p, n in zip(ptrs, lens))), ptrs

    def open(self, fd, name, oflags=0, base=ALL, root=ALL, fdflags=0, follow=1):
        b = name if isinstance(name, bytes) else name.encode()
        o = self.put(bytes(4))
        e = self.call('path_open', fd, follow, self.put(b), len(b), oflags, base, root, fdflags, o)
        return e, self.u32(o)

    def path(self, call, fd, name, *rest):
        b = name if isinstance(name, bytes) else name.encode()
        return self.call(call, fd, self.put(b), len(b), *rest)

    def write(self, fd, data):
        iov = self.put(struct.pack('<II', self.put(data), len(data)))
        o = self.put(bytes(4))
        return self.call('fd_write', fd, iov, 1, o), self.u32(o)

    def read(self, fd, n):
        p = self.put(bytes(n))
        iov = self.put(struct.pack('<II', p, n))
        o = self.put(bytes(4))
        e = self.call('fd_read', fd, iov, 1, o)
        return e, self.get(p, self.u32(o)) if e == 0 else b''
