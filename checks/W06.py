"""Guest memory.  Every call is made with its buffers placed anywhere in the memory (flush with both ends, across the page boundary,
unaligned), then with one of them made invalid.  Monitors: the whole memory is diffed against the output buffers of the call, its length
against the pages it has; a call with an invalid buffer must fail and leave the tree, the offsets and the descriptors alone.  Twin
worlds which differ only in the memory outside the buffers must behave alike (nothing else is read)."""
import os, socket, struct, time
import wasidrv as wd
from harness import Check, scale
from wasidrv import ALL, APPEND, CREAT, DIRECTORY, E, R, TRUNC, en, openfds, tree, treediff

MEM = wd.PAGES * 65536


class World:
    """a guest with everything set up, deterministic but for the memory background"""

    def __init__(self, tmp, back, r):
        self.tmp = tmp
        for d in ('d', 'e', 'd/sub'):
            os.makedirs(os.path.join(tmp, d))
        for n, k in (('f', 3000), ('g', 10), ('d/x', 0), ('d/yy', 1), ('d/a longer name', 2)):
            with open(os.path.join(tmp, n), 'wb') as f:
                f.write(bytes(x * 7 & 255 for x in range(k)))
        os.symlink('f', os.path.join(tmp, 'ln'))
        os.symlink('t' * 200, os.path.join(tmp, 'long'))
        self.g = wd.Guest(args=['prog', 'bé', ''], envs={'K': 'v', 'Ü': 'x=y'}, dirs={'/': tmp, 'dir': os.path.join(tmp, 'd')}, stdin=bytes(range(200)))
        g = self.g
        for n, k, want in (('f', 0, 5), ('d', DIRECTORY, 6), ('g', 0, 7)):
            e, fd = g.open(3, n, k, ALL if k == 0 else ALL & ~R['FD_WRITE'], ALL)
            assert (e, fd) == (0, want), (e, fd)
        self.peer, s = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        s.setblocking(False)
        g.sock(s, 'stream')                       # 8
        self.host = s
        self.peer.send(b'socketdata' * 20)
        self.peer.setblocking(False)
        self.lis = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.lis.bind('\0vf%d.%d' % (os.getpid(), id(self)))
        self.lis.listen(4)
        self.lis.setblocking(False)
        g.sock(self.lis, 'stream')                # 9
        self.cli = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.cli.connect(self.lis.getsockname())
        g.mem.data[:] = back
        g.stray.clear()

    def close(self):
        for s in (self.peer, self.host, self.lis, self.cli):
            s.close()
        self.g.close()


def lens(r):
    return [r.choice([0, 1, 2, 3, 8, 30, r.randint(0, 300)]) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]


def sub(r):
    """a poll subscription list, one of them ready at once"""
    subs = [struct.pack('<QBxxxxxxxI', 1, 2, 1) + bytes(28)]
    for _ in range(r.choice([0, 0, 1, 3])):
        subs.append(r.choice([struct.pack('<QBxxxxxxxI', 2, 1, 0) + bytes(28), struct.pack('<QBxxxxxxxIxxxxQQHxxxxxx', 3, 0, 1, 1 << 50, 0, 0)]))
    r.shuffle(subs)
    return subs


FILES = ['f', 'g', 'd/x', 'ln', 'nope', 'd', 'd/a longer name', 'd/../f', 'x' * 100]


def specs(r):
    """a call: (name, [argument kinds]).  v value, i input without its length, s input with length, o output, c output with capacity,
    oi/ii iovecs"""
    f = lambda: r.choice(FILES).encode()
    new = lambda: r.choice(['new1', 'd/new2', 'e/n', 'f']).encode()
    w = lambda: [bytes(r.randrange(1, 256) for _ in range(n)) for n in lens(r)]
    ptr = lambda n: ('o', n)
    fd = lambda: ('v', r.choice([5, 7]))
    d = lambda: ('v', r.choice([3, 3, 4, 6]))
    v = lambda x: ('v', x)
    args = [b'prog', 'bé'.encode(), b'']
    envs = [b'K=v', 'Ü=x=y'.encode()]
    n = sub(r)
    k = r.choice([
        ('args_get', [ptr(4 * 3), ptr(sum(len(a) + 1 for a in args))]),
        ('args_sizes_get', [ptr(4), ptr(4)]),
        ('environ_get', [ptr(4 * 2), ptr(sum(len(a) + 1 for a in envs))]),
        ('environ_sizes_get', [ptr(4), ptr(4)]),
        ('clock_res_get', [v(r.randrange(4)), ptr(8)]),
        ('clock_time_get', [v(r.randrange(4)), v(0), ptr(8)]),
        ('fd_fdstat_get', [v(r.choice([0, 1, 3, 5, 6])), ptr(24)]),
        ('fd_filestat_get', [v(r.choice([3, 5, 6])), ptr(64)]),
        ('fd_pread', [fd(), ('oi', lens(r)), v(r.choice([0, 5, 2990, 4000])), ptr(4)]),
        ('fd_pwrite', [fd(), ('ii', w()), v(r.choice([0, 5, 2990, 3005])), ptr(4)]),
        ('fd_read', [v(r.choice([5, 7, 5, 0])), ('oi', lens(r)), ptr(4)]),
        ('fd_write', [v(r.choice([5, 7, 5, 1, 2])), ('ii', w()), ptr(4)]),
        ('fd_prestat_get', [v(r.choice([3, 4])), ptr(8)]),
        ('fd_prestat_dir_name', [v(4), ('c', r.choice([0, 2, 3, 4, 50]), 3)]),
        ('fd_readdir', [d(), ('c', r.choice([1, 23, 24, 25, 30, 100, 500]), None), v(r.choice([0, 1, 2, 3])), ptr(4)]),
        ('fd_seek', [fd(), v(r.choice([0, 7, -1, -4000])), v(r.choice([0, 1, 2])), ptr(8)]),
        ('fd_tell', [fd(), ptr(8)]),
        ('path_create_directory', [d(), ('s', new())]),
        ('path_filestat_get', [d(), v(r.choice([0, 1])), ('s', f()), ptr(64)]),
        ('path_filestat_set_times', [d(), v(1), ('s', f()), v(1000), v(2000), v(5)]),
        ('path_link', [v(3), v(0), ('s', f()), v(3), ('s', new())]),
        ('path_open', [v(3), v(1), ('s', r.choice([f(), new()])), v(r.choice([0, CREAT, CREAT | TRUNC, CREAT | 4])), v(ALL), v(ALL), v(r.choice([0, APPEND])), ptr(4)]),
        ('path_readlink', [v(3), ('s', r.choice([b'ln', b'long', b'f'])), ('c', r.choice([1, 2, 100, 199, 200, 201, 400]), None), ptr(4)]),
        ('path_remove_directory', [d(), ('s', r.choice([b'e', b'd/sub', f()]))]),
        ('path_rename', [v(3), ('s', f()), v(3), ('s', new())]),
        ('path_symlink', [('s', f()), v(3), ('s', new())]),
        ('path_unlink_file', [d(), ('s', f())]),
        ('poll_oneoff', [('i', b''.join(n)), ptr(32 * len(n)), v(len(n)), ptr(4)]),
        ('random_get', [('c', r.choice([1, 2, 100, 300]), 'all')]),
        ('sock_recv', [v(8), ('oi', [x + 1 for x in lens(r)][:2] or [1]), v(r.choice([0, 1])), ptr(4), ptr(2)]),
        ('sock_send', [v(8), ('ii', w()), v(0), ptr(4)]),
        ('sock_accept', [v(9), v(0), ptr(4)]),
    ])
    return k


def regions(spec):
    """the buffers of a call: [argument index, sub index, kind, size]"""
    out = []
    for x, a in enumerate(spec[1]):
        if a[0] in 'iso' and len(a[0]) == 1:
            out.append([x, None, a[0], a[1] if a[0] == 'o' else len(a[1])])
        elif a[0] == 'c':
            out.append([x, None, 'c', a[1]])
        elif a[0] in ('oi', 'ii'):
            out.append([x, None, 'arr', 8 * len(a[1])])
            for k, e in enumerate(a[1]):
                out.append([x, k, 'o' if a[0] == 'oi' else 'i', e if a[0] == 'oi' else len(e)])
    return out


def place(r, regs):
    """disjoint addresses for all buffers"""
    style = r.choice(['end', 'start', 'page', 'any', 'any'])
    order = list(range(len(regs)))
    r.shuffle(order)
    at = {}
    total = sum(x[3] for x in regs) + 40 * len(regs)
    gap = lambda: r.choice([0, 0, 1, 3, 17])
    if style == 'end':
        p = MEM
        for k in order:
            p -= regs[k][3]
            at[k] = p
            p -= gap()
    else:
        p = {'start': 0, 'page': 65536 - r.randint(0, total), 'any': r.randint(0, MEM - total - 1)}[style]
        p = max(0, p)
        for k in order:
            at[k] = p
            p += regs[k][3] + gap()
    return at, style


def build(r, spec, break_it):
    """(argument values, [(address, bytes to put)], [(out address, size)], what is invalid or None, fatal)"""
    regs = regions(spec)
    at, style = place(r, regs)
    addr = {(x[0], x[1]): at[k] for k, x in enumerate(regs)}
    size = {(x[0], x[1]): x[3] for x in regs}
    over_len = {}
    bad = None
    if break_it:
        cand = [x for x in regs if x[3] > 0 or x[2] in ('s', 'arr')]
        if spec[0] == 'fd_prestat_dir_name':
            cand = [x for x in cand if x[3] >= 3]
        if not cand:
            return None
        x = r.choice(cand)
        key, n = (x[0], x[1]), x[3]
        modes = []
        if n:
            modes += ['past', 'past', 'atend', 'far', 'wrap']
        if x[2] in ('s', 'arr') or x[1] is not None:
            modes += ['len']
        mode = r.choice(modes)
        cap = spec[1][x[0]]
        # an output with capacity only has to be refused where bytes would be put
        need = n if x[2] != 'c' or cap[2] in (None, 'all') else cap[2]
        if mode == 'past':
            addr[key] = MEM - need + r.randint(1, need)
        elif mode == 'atend':
            addr[key] = MEM
        elif mode == 'far':
            addr[key] = r.choice([MEM + 1, MEM + 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 8, 0xffffffff, 0xfffffff0])
        elif mode == 'wrap':
            addr[key] = (1 << 32) - r.randint(1, n)
        elif x[2] == 'arr':
            p = addr[key]
            over_len[key] = r.choice([(MEM - p) // 8 + 1, 1 << 28, (1 << 29) + len(cap[1]), 1 << 31, 0xffffffff])
        else:
            p = addr[key]
            over_len[key] = r.choice([MEM - p + 1, MEM + 1, (1 << 31) - 1, 1 << 31, 0xffffffff, (1 << 32) - p if p else 1 << 31])
        bad = (spec[0], x[0], x[2] if x[1] is None else 'iov ' + x[2], mode)
    vals, puts, outs = [], [], []
    for x, a in enumerate(spec[1]):
        if a[0] == 'v':
            vals.append(a[1])
            continue
        p = addr[(x, None)]
        if a[0] == 'i':
            vals.append(p)
            puts.append((p, a[1]))
        elif a[0] == 's':
            vals += [p, over_len.get((x, None), len(a[1]))]
            puts.append((p, a[1]))
        elif a[0] == 'o':
            vals.append(p)
            outs.append((p, a[1]))
        elif a[0] == 'c':
            vals += [p, a[1]]
            outs.append((p, a[1]))
        else:
            vals += [p, over_len.get((x, None), len(a[1]))]
            arr = b''
            for k, e in enumerate(a[1]):
                q, n = addr[(x, k)], size[(x, k)]
                arr += struct.pack('<II', q, over_len.get((x, k), n))
                if a[0] == 'ii':
                    puts.append((q, e))
                else:
                    outs.append((q, n))
            puts.append((p, arr))
    return vals, puts, outs, bad, style


def call(w, spec, b, fill):
    """one call in one world: (errno or 'trap', contents of the output buffers)"""
    g = w.g
    vals, puts, outs, bad, _ = b
    g.outs = []
    d = g.mem.data
    for p, n in outs:
        if p < MEM:
            n = min(n, MEM - p)
            d[p:p + n] = fill[:1] * n
            g.outs.append((p, n))
    for p, x in puts:
        if p < MEM:
            x = x[:MEM - p]
            d[p:p + len(x)] = x
    assert len(d) == MEM
    if bad is None or spec[0] in ('fd_prestat_dir_name',):
        pass
    try:
        e = g.raw(spec[0], vals)
    except wd.Trap as t:
        e = 'trap'
    return e, [g.get(p, n) for p, n in g.outs]


def offsets(w):
    out = []
    for fd in (5, 7):
        out.append(w.g.tell(fd))
    return out


def waiting(w):
    """what the socket still has for the guest"""
    try:
        return w.host.recv(1 << 16, socket.MSG_PEEK)
    except BlockingIOError:
        return b''


def mask(spec, e, outs):
    """what may differ between two worlds: inodes, times, random bytes"""
    if e != 0:
        return None
    n = spec[0]
    if n in ('fd_filestat_get', 'path_filestat_get'):
        return [outs[0][16:40]]
    if n in ('clock_time_get', 'random_get'):
        return None
    if n == 'fd_readdir':
        b, used = bytearray(outs[0]), int.from_bytes(outs[1], 'little')
        p = 0
        while p < used:
            b[p + 8:min(p + 16, len(b))] = bytes(min(p + 16, len(b)) - p - 8) if p + 8 < len(b) else b''
            if p + 20 > used:
                break
            p += 24 + int.from_bytes(b[p + 16:p + 20], 'little')
        return [bytes(b), outs[1]]
    return outs


def pages(w):
    m = w.g.mem
    if len(m.data) != MEM or m.size != wd.PAGES:
        return f'the memory is {len(m.data)} bytes and {m.size} pages long, was {MEM} and {wd.PAGES}'


def valid(job, r):
    """histories of valid calls in two worlds which differ in the memory background only"""
    with wd.Scratch() as ta, wd.Scratch() as tb:
        back = r.randbytes(MEM)
        worlds = [World(ta, back, r), World(tb, bytes(MEM) if r.random() < .5 else bytes(255 - x for x in back), r)]
        other = wd.Guest(dirs={}, runtime=worlds[0].g.rt)      # another program in the same runtime
        other.mem.data[:] = back
        hist = []
        try:
            for _ in range(scale(40, 60)):
                spec = specs(r)
                b = build(r, spec, False)
                fill = r.choice([b'\xa5', b'\x00', b'\xff'])
                res = [call(w, spec, b, fill) for w in worlds]
                hist.append((spec[0], str(spec[1])[:300], b[0], [x[0] for x in res]))
                job.count('valid_calls')
                job.case((spec[0], res[0][0], b[4], fill))
                for w in worlds:
                    if w.g.stray:
                        job.violation(f'stray write:{spec[0]}', f'{spec[0]}: {w.g.stray[0][2][:200]}', dict(history=hist, stray=str(w.g.stray[0])[:500]))
                        return
                if res[0][0] == 'trap':
                    job.violation(f'valid buffers refused:{spec[0]}', f'{spec[0]} with valid buffers ({b[4]} of the memory) ends the guest', dict(history=hist))
                    return
                m = [mask(spec, *x) for x in res]
                if res[0][0] != res[1][0] or m[0] != m[1]:
                    job.violation(f'depends on other memory:{spec[0]}', f'{spec[0]} gives {en(res[0][0])} {str(m[0])[:60]} or {en(res[1][0])} {str(m[1])[:60]} depending on memory it was not given', dict(history=hist))
                    return
                d = treediff(tree(ta), tree(tb))
                if d:
                    job.violation(f'depends on other memory:{spec[0]}', f'{spec[0]} changes files depending on memory it was not given: {d}', dict(history=hist))
                    return
                if bytes(other.mem.data) != back:
                    job.violation('other instance', f'{spec[0]} writes to the memory of another instance', dict(history=hist))
                    return
                job.count('twin_comparisons')
        finally:
            for w in worlds:
                w.close()
            other.close()


def invalid(job, r):
    with wd.Scratch() as tmp:
        back = r.randbytes(MEM)
        w = World(tmp, back, r)
        hist = []
        try:
            for _ in range(scale(60, 80)):
                spec = specs(r)
                b = build(r, spec, True)
                if not b:
                    continue
                before = tree(tmp, True), offsets(w), sorted(openfds().items())
                queue = waiting(w)
                nxt = next(n for n in range(200) if w.g.fdstat(n)[0])
                w.g.mem.data[:] = back
                e, outs = call(w, spec, b, b'\xa5')
                hist.append((spec[0], str(spec[1])[:300], b[0], str(b[3]), e))
                hist[:-3] = []
                job.count('invalid_calls')
                job.count('invalid_trapped' if e == 'trap' else 'invalid_errno')
                job.case(('bad',) + b[3] + (e,))
                what = f'{spec[0]} with an invalid {"iovec array" if b[3][2] == "arr" else b[3][2]} (argument {b[3][1]}, {b[3][3]})'
                key = f'invalid:{spec[0]}:{b[3][2]}'
                bad = pages(w)
                if not bad and e == 0:
                    # outputs with capacity which are not used up may lie over the end
                    if b[3][2] == 'c' and spec[0] in ('fd_readdir', 'path_readlink'):
                        p, n = b[0][1 if spec[0] == 'fd_readdir' else 3], w.g.u(b[0][-1], 4)
                        if p + n > MEM:
                            bad = f'succeeds and puts {n} bytes at {p}'
                    else:
                        bad = 'succeeds'
                if not bad and w.g.stray:
                    bad = w.g.stray[0][2][:200]
                if not bad:
                    d = treediff(before[0], tree(tmp, True))
                    if d and not (e == 0):
                        bad = f'fails with {en(e)}, but changes files: {d}'
                if not bad and sorted(openfds().items()) != before[2]:
                    bad = 'leaves a host descriptor open'
                if not bad and w.g.fdstat(nxt)[0] != E['BADF']:
                    bad = 'leaves a descriptor open'
                if not bad and offsets(w) != before[1]:
                    bad = f'moves a file offset from {before[1]} to {offsets(w)}'
                if not bad and waiting(w) != queue:
                    bad = f'takes {len(queue) - len(waiting(w))} bytes from the socket'
                if bad:
                    job.violation(key, f'{what}: {bad}', dict(history=hist, memory=MEM))
                    return
        finally:
            w.close()


def work(job):
    wd.drop()
    for _ in range(scale(36, 1400)):
        if job.late():
            break
        valid(job, job.rng)
        invalid(job, job.rng)
        invalid(job, job.rng)


def main():
    c = Check('W06', 'a distinct (function, which buffer is invalid and how or the placement of valid ones, errno)')
    c.run(work)
    c.require('valid_calls', 6000)
    c.require('invalid_calls', 20000)
    c.require('twin_comparisons', 6000)
    c.finish()
