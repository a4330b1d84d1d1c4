import os, resource, time
import wasidrv as wd
from harness import Check, scale
from wasidrv import ALL, APPEND, CREAT, E, NONBLOCK, R, en

LIMIT = 192 << 10          # RLIMIT_FSIZE of the workers: a real host limit files run into
HUGE = 1 << 40


class Desc:
    def __init__(self, f, rw, flags):
        self.f, self.rw, self.flags, self.pos = f, rw, flags, 0


class Sim:
    def __init__(self, job, r, tmp):
        self.job, self.r, self.tmp = job, r, tmp
        self.g = wd.Guest(dirs={'/': tmp})
        self.files = {n: bytearray() for n in 'fgh'}
        for n in self.files:
            if r.random() < .5:
                self.files[n] = bytearray(r.randbytes(r.choice([1, 7, 100, 5000])))
            with open(os.path.join(tmp, n), 'wb') as h:
                h.write(self.files[n])
        self.fds = {}
        self.hist = []

    def host(self, n):
        with open(os.path.join(self.tmp, n), 'rb') as h:
            return h.read()

    def amount(self):
        r = self.r
        return r.choice([0, 1, 2, 3, 4, 8, 9, r.randint(0, 40), r.randint(0, 40), r.randint(0, 3000)])

    def lens(self):
        r = self.r
        return [self.amount() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5, 9]))]

    def offset(self, d=None):
        r = self.r
        size = len(d.f[1]) if d else 100
        return r.choice([0, 1, r.randint(0, 50), max(0, size - r.randint(0, 9)), size, size + r.randint(0, 60), size // 2, r.randint(0, size + 1)])

    def odd(self):
        r = self.r
        return r.choice([-1, -5, -(1 << 63), (1 << 63) - 1, (1 << 63) - 10, HUGE, 1 << 62, LIMIT - 2, LIMIT, LIMIT + 5])

    def data(self):
        return [self.r.randbytes(n) for n in self.lens()]

    def step(self):
        r = self.r
        if not self.fds or (len(self.fds) < 6 and r.random() < .15):
            return self.open()
        fd = r.choice(list(self.fds))
        op = r.choice(['read', 'read', 'read', 'write', 'write', 'write', 'pread', 'pread', 'pwrite', 'pwrite', 'seek', 'seek', 'seek', 'tell', 'tell', 'allocate',
                       'setsize', 'flags', 'stat', 'times', 'sync', 'close'])
        return getattr(self, op)(fd, self.fds[fd])

    def note(self, *a):
        self.hist.append(a)
        self.job.case((a[0], a[2:] if a[0] in ('seek', 'flags') else None, len(self.fds), a[-1], self.fds[a[1]].rw if a[1] in self.fds else 0, self.fds[a[1]].flags if a[1] in self.fds else 0))

    def open(self):
        r = self.r
        n = r.choice(list(self.files))
        rw = r.choice([R['FD_READ'], R['FD_WRITE'], R['FD_READ'] | R['FD_WRITE'], R['FD_READ'] | R['FD_WRITE']])
        fl = r.choice([0, 0, 0, APPEND, NONBLOCK, APPEND | NONBLOCK, 2, 16, 8])
        of = r.choice([0, 0, 0, CREAT, 8 if rw & R['FD_WRITE'] else 0])
        e, fd = self.g.open(3, n, of, ALL & ~(R['FD_READ'] | R['FD_WRITE']) | rw, ALL, fl)
        if e:
            return f'path_open gives {en(e)}'
        if of == 8:
            del self.files[n][:]
        self.fds[fd] = Desc((n, self.files[n]), rw, fl)
        self.note('open', fd, n, rw, fl, of, en(e))

    def want(self, what, got, exp):
        return None if got == exp else f'{what} gives {en(got[0]) if isinstance(got, tuple) else got} {str(got)[:80]}, should be {str(exp)[:80]}'

    def read(self, fd, d):
        ls = self.lens()
        e, b = self.g.read(fd, ls)
        self.note('read', fd, len(ls), sum(ls), en(e))
        if not d.rw & R['FD_READ']:
            return None if e == E['NOTCAPABLE'] else f'fd_read without the right gives {en(e)}'
        exp = bytes(d.f[1][d.pos:d.pos + sum(ls)])
        d.pos += len(exp)
        self.job.count('bytes_read', len(exp))
        return self.want(f'fd_read({ls})', (e, b), (0, exp))

    def pread(self, fd, d):
        ls = self.lens()
        off = self.offset(d) if self.r.random() < .85 else self.odd()
        e, b = self.g.pread(fd, ls, off)
        self.note('pread', fd, len(ls), sum(ls), off, en(e))
        if not d.rw & R['FD_READ']:
            return None if e == E['NOTCAPABLE'] else f'fd_pread without the right gives {en(e)}'
        if off < 0:
            return None if e == E['INVAL'] else f'fd_pread at {off} gives {en(e)}'
        if off > HUGE and e:
            return None
        exp = bytes(d.f[1][off:off + sum(ls)])
        self.job.count('bytes_read', len(exp))
        return self.want(f'fd_pread({ls}, {off})', (e, b), (0, exp))

    def store(self, f, at, b):
        """kernel semantics of a write of b at offset `at`: (errno, n)"""
        if not b:
            return 0, 0
        if at >= LIMIT:
            return E['FBIG'], 0
        b = b[:LIMIT - at]
        if len(f) < at:
            f.extend(bytes(at - len(f)))
        f[at:at + len(b)] = b
        return 0, len(b)

    def write(self, fd, d):
        ds = self.data()
        e, n = self.g.write(fd, ds)
        b = b''.join(ds)
        self.note('write', fd, len(ds), len(b), en(e))
        if not d.rw & R['FD_WRITE']:
            return None if e == E['NOTCAPABLE'] else f'fd_write without the right gives {en(e)}'
        at = len(d.f[1]) if d.flags & APPEND else d.pos
        xe, xn = self.store(d.f[1], at, b)
        if xe:
            self.job.count('file_size_limit_hit')
            return None if e == xe else f'fd_write past the size limit gives {en(e)}'
        if b:
            d.pos = at + xn
        self.job.count('bytes_written', xn)
        return self.want(f'fd_write({[len(x) for x in ds]})', (e, n), (0, xn))

    def pwrite(self, fd, d):
        ds = self.data()
        off = self.offset(d) if self.r.random() < .85 else self.odd()
        e, n = self.g.pwrite(fd, ds, off)
        b = b''.join(ds)
        self.note('pwrite', fd, len(ds), len(b), off, en(e))
        if not d.rw & R['FD_WRITE']:
            return None if e == E['NOTCAPABLE'] else f'fd_pwrite without the right gives {en(e)}'
        if off < 0:
            return None if e == E['INVAL'] else f'fd_pwrite at {off} gives {en(e)}'
        if off > HUGE and not b:
            return None
        ats = [off]
        if d.flags & APPEND:
            ats.append(len(d.f[1]))        # POSIX and Linux differ on whether an appending descriptor minds the offset
        now = self.host(d.f[0])
        bad = None
        for at in ats:
            f = bytearray(d.f[1])
            xe, xn = self.store(f, at, b)
            if (e == xe or (e and xe and at > HUGE)) and (xe or n == xn) and now == f:
                d.f[1][:] = f
                self.job.count('bytes_written', xn)
                return None
            bad = bad or f'fd_pwrite({[len(x) for x in ds]}, {off}) gives {en(e)} {n}, should be {en(xe)} {xn} (file {len(now)} bytes, model {len(f)})'
        return bad

    def seek(self, fd, d):
        r = self.r
        w = r.choice([0, 0, 1, 1, 2, 2, 3, 255, 4, -1])
        off = r.choice([self.offset(d), r.randint(-60, 60), r.randint(-60, 60), self.odd()])
        e, n = self.g.seek(fd, off, w)
        base = {0: 0, 1: d.pos, 2: len(d.f[1])}.get(w)
        self.note('seek', fd, w, (off > 0) - (off < 0), en(e))
        if base is None:
            return None if e == E['INVAL'] else f'fd_seek with whence {w} gives {en(e)}'
        if base + off < 0:
            return None if e else f'fd_seek({off}, {w}) to {base + off} succeeds'
        if base + off > HUGE and e:
            return None
        d.pos = base + off
        return self.want(f'fd_seek({off}, {w})', (e, n), (0, d.pos))

    def tell(self, fd, d):
        e, n = self.g.tell(fd)
        self.note('tell', fd, en(e))
        return self.want('fd_tell', (e, n), (0, d.pos))

    def resize(self, what, d, e, n):
        if n < 0:
            return None if e else f'{what} to {n} succeeds'
        if n > LIMIT and n > len(d.f[1]):
            self.job.count('file_size_limit_hit')
            return None if e else f'{what} to {n} succeeds although the host forbids it'
        if not d.rw & R['FD_WRITE']:
            # the descriptor is not open for writing on the host
            return None if e or n == len(d.f[1]) else f'{what} on a descriptor which is not open for writing succeeds'
        if e:
            return f'{what}({n}) gives {en(e)}'
        if n > len(d.f[1]):
            d.f[1].extend(bytes(n - len(d.f[1])))
        else:
            del d.f[1][n:]
        return None

    def setsize(self, fd, d):
        n = self.offset(d) if self.r.random() < .85 else self.odd()
        e = self.g.call('fd_filestat_set_size', fd, n)
        self.note('setsize', fd, n, en(e))
        return self.resize('fd_filestat_set_size', d, e, n)

    def allocate(self, fd, d):
        off = self.offset(d) if self.r.random() < .85 else self.odd()
        n = self.amount() if self.r.random() < .85 else self.odd()
        e = self.g.call('fd_allocate', fd, off, n)
        self.note('allocate', fd, off, n, en(e))
        if off < 0 or n < 0 or off + n >= 1 << 63:
            return None if e else f'fd_allocate({off}, {n}) succeeds'
        if n == 0 and e:
            return None
        if n == 0 or off + n <= len(d.f[1]):
            return None if e == 0 or not d.rw & R['FD_WRITE'] else f'fd_allocate({off}, {n}) in a file of {len(d.f[1])} gives {en(e)}'
        return self.resize('fd_allocate', d, e, off + n)

    def flags(self, fd, d):
        fl = self.r.choice([0, APPEND, NONBLOCK, APPEND | NONBLOCK, d.flags, d.flags ^ APPEND, d.flags ^ NONBLOCK, d.flags | 32, 64, 0xffff])
        e = self.g.call('fd_fdstat_set_flags', fd, fl)
        self.note('flags', fd, fl, en(e))
        other = (fl ^ d.flags) & ~(APPEND | NONBLOCK)
        if other:
            if e:
                return None
            if fl & ~31:
                return f'fd_fdstat_set_flags({fl}) succeeds'
            # the sync flags cannot be changed on most hosts; success must show in fdstat
        elif e:
            return f'fd_fdstat_set_flags({fl}) gives {en(e)}'
        d.flags = fl
        e, st = self.g.fdstat(fd)
        return None if e == 0 and st[1] == fl else f'flags set to {fl}, fdstat says {st}'

    def stat(self, fd, d):
        e, st = self.g.fstat(fd)
        e2, st2 = self.g.stat(3, d.f[0])
        self.note('stat', fd, en(e))
        h = os.stat(os.path.join(self.tmp, d.f[0]))
        exp = dict(ino=h.st_ino, type=4, nlink=1, size=len(d.f[1]), mtim=h.st_mtime_ns, atim=h.st_atime_ns, ctim=h.st_ctime_ns)
        for w, x in (('fd_filestat_get', st), ('path_filestat_get', st2)):
            if x is None or any(x[k] != v for k, v in exp.items()):
                return f'{w} gives {x}, should be {exp}'
        _, fs = self.g.fdstat(fd)
        return None if fs[0] == 4 and fs[1] == d.flags else f'fdstat gives type and flags {fs[:2]}, should be 4 and {d.flags}'

    def times(self, fd, d):
        r = self.r
        fl = r.choice([0, 1, 4, 5, 2, 8, 10, 6, 9, 3, 12])
        at, mt = (r.choice([0, 1, 999999999, 10**9, 15 * 10**18 + 3, r.randint(0, 4 * 10**18)]) for _ in (0, 1))
        h0 = os.stat(os.path.join(self.tmp, d.f[0]))
        t0 = time.time_ns()
        e = self.g.call('fd_filestat_set_times', fd, at, mt, fl)
        t1 = time.time_ns()
        h = os.stat(os.path.join(self.tmp, d.f[0]))
        self.note('times', fd, fl, en(e))
        if fl & 3 == 3 or fl & 12 == 12:
            return None if e == E['INVAL'] and (h.st_atime_ns, h.st_mtime_ns) == (h0.st_atime_ns, h0.st_mtime_ns) else f'contradictory time flags {fl} give {en(e)}'
        if e:
            return f'fd_filestat_set_times gives {en(e)}'
        for nm, now, old, v, k, kn in (('atim', h.st_atime_ns, h0.st_atime_ns, at, 1, 2), ('mtim', h.st_mtime_ns, h0.st_mtime_ns, mt, 4, 8)):
            if fl & k and now != v or fl & kn and not t0 - 10**9 <= now <= t1 + 10**9 or not fl & (k | kn) and now != old:
                return f'fd_filestat_set_times({at}, {mt}, {fl}): {nm} is {now}, was {old}'

    def sync(self, fd, d):
        e = [self.g.call(self.r.choice(['fd_sync', 'fd_datasync']), fd), self.g.call('fd_advise', fd, 0, 10, self.r.randrange(6))]
        self.note('sync', fd, e)
        return None if e == [0, 0] else f'sync/advise gives {e}'

    def close(self, fd, d):
        e = self.g.call('fd_close', fd)
        self.note('close', fd, en(e))
        del self.fds[fd]
        return None if e == 0 else f'fd_close gives {en(e)}'

    def compare(self):
        for n, f in self.files.items():
            h = self.host(n)
            if h != f:
                k = next((i for i in range(min(len(h), len(f))) if h[i] != f[i]), min(len(h), len(f)))
                return f'file {n} is {len(h)} bytes, model {len(f)}; first difference at {k}'
        for fd, d in self.fds.items():
            e, n = self.g.tell(fd)
            if (e, n) != (0, d.pos):
                return f'the offset of {fd} is {n} ({en(e)}), should be {d.pos}'
        return None


# ---- vectors and transfers of any size ----
SIZES = [1023, 1024, 1025, 1500, 2049, 4100]


def shape(r):
    k = r.randrange(4)
    if k == 0:
        return [r.randrange(4) for _ in range(r.choice(SIZES))]
    if k == 1:
        return [0] * r.choice(SIZES) + [r.randrange(1, 50)]
    if k == 2:
        return [r.choice([65535, 65536, 65537, 131072, 200000, 1 << 20, (1 << 20) + 1, r.randrange(60000, 900000)])]
    return [r.randrange(20000, 90000) for _ in range(r.randrange(2, 9))]


def large(job, r):
    """vectors of thousands of buffers and transfers of up to a megabyte, through files, positions and appending descriptors"""
    with wd.Scratch() as tmp:
        g = wd.Guest(dirs={'/': tmp}, pages=40)
        model, pos = bytearray(), 0
        hist = []
        _, fd = g.open(3, 'f', CREAT, ALL, ALL, 0)
        for _ in range(r.randrange(6, 12)):
            op = r.choice(['write', 'pwrite', 'read', 'pread']) if model else 'write'
            ls = shape(r)
            off = r.choice([0, r.randrange(len(model) + 1), len(model)])
            hist.append([op, len(ls), sum(ls), off])
            say = lambda what: job.violation('large ' + op, f'{op} of {sum(ls)} bytes in {len(ls)} buffers {what}'[:260], dict(history=hist[-12:]))
            if op in ('write', 'pwrite'):
                ds = [r.randbytes(n) for n in ls]
                b = b''.join(ds)
                e, n = g.write(fd, ds) if op == 'write' else g.pwrite(fd, ds, off)
                if (e, n) != (0, len(b)):
                    return say(f'gives {en(e)} and writes {n} bytes')
                at = pos if op == 'write' else off
                if at > len(model):
                    model.extend(bytes(at - len(model)))
                model[at:at + n] = b
                pos += n * (op == 'write')
            else:
                if op == 'read' and pos == len(model):
                    _, pos = g.seek(fd, off, 0)
                e, b = g.read(fd, ls) if op == 'read' else g.pread(fd, ls, off)
                at = pos if op == 'read' else off
                exp = bytes(model[at:at + sum(ls)])
                if (e, b) != (0, exp):
                    return say(f'gives {en(e)} and {len(b)} bytes, should be {len(exp)}' + ', they differ' * (len(b) == len(exp)))
                pos += len(b) * (op == 'read')
            job.case(('large', op, min(len(ls), 1025), sum(ls) // 65536))
            job.count('large_transfers')
            job.count('large_vectors', len(ls) > 1024)
            job.evals += 1
            with open(os.path.join(tmp, 'f'), 'rb') as h:
                if h.read() != model:
                    return say('leaves other contents in the file')
            if g.tell(fd) != (0, pos):
                return say(f'leaves the offset at {g.tell(fd)}, not {pos}')
            if g.stray:
                return say(f'strays: {g.stray[0]}')
        g.close()


def sparse(job, r):
    """files far larger than any number of 31 or 32 bits, with next to nothing in them"""
    with wd.Scratch() as tmp:
        g = wd.Guest(dirs={'/': tmp})
        _, fd = g.open(3, 'f', CREAT, ALL, ALL, 0)
        parts, size, pos = {}, 0, 0               # byte at offset; everything else reads as zero
        spots = [(1 << 31) - 3, (1 << 32) - 3, 1 << 31, 1 << 32, 3 << 31, (1 << 33) + 7, r.randrange(1 << 36), 0]
        hist = []
        for _ in range(r.randrange(15, 30)):
            op = r.choice(['pwrite', 'write', 'pread', 'read', 'pread', 'seek', 'size', 'allocate', 'stat', 'append'])
            at = r.choice(spots) + r.randrange(-2, 6) * (r.random() < .5)
            at = max(at, 0)
            hist.append([op, at, pos, size])
            say = lambda what: job.violation('sparse ' + op, f'{op} at {at} (offset {pos}, size {size}) {what}'[:260], dict(history=hist))
            b = r.randbytes(r.randrange(1, 9))
            if op in ('pwrite', 'write', 'append'):
                if op == 'append':
                    e = g.call('fd_fdstat_set_flags', fd, APPEND)
                    if e:
                        return say(f'setting append gives {en(e)}')
                w = {'pwrite': at, 'write': pos, 'append': size}[op]
                e, n = g.pwrite(fd, [b], at) if op == 'pwrite' else g.write(fd, [b])
                if (e, n) != (0, len(b)):
                    return say(f'gives {en(e)}, {n}')
                for k, x in enumerate(b):
                    parts[w + k] = x
                size = max(size, w + n)
                if op != 'pwrite':
                    pos = w + n
                if op == 'append':
                    g.call('fd_fdstat_set_flags', fd, 0)
            elif op in ('pread', 'read'):
                w = at if op == 'pread' else pos
                e, got = g.pread(fd, [3, 5], at) if op == 'pread' else g.read(fd, [3, 5])
                exp = bytes(parts.get(k, 0) for k in range(w, max(w, min(w + 8, size))))
                if (e, got) != (0, exp):
                    return say(f'gives {en(e)} {got}, should be {exp}')
                if op == 'read':
                    pos += len(got)
            elif op == 'seek':
                w = r.randrange(3)
                d = at - [0, pos, size][w]
                e, n = g.seek(fd, d, w)
                if (e, n) != (0, at):
                    return say(f'by {d} from {w} gives {en(e)}, {n}')
                pos = at
            elif op == 'size':
                e = g.call('fd_filestat_set_size', fd, at)
                if e:
                    return say(f'gives {en(e)}')
                size = at
                parts = {k: v for k, v in parts.items() if k < size}
            elif op == 'allocate' and at <= 1 << 40:
                old = os.stat(os.path.join(tmp, 'f')).st_blocks
                if at > size and at - size > 1 << 20:
                    continue                      # a host which allocates for real has no room for it
                e = g.call('fd_allocate', fd, 0, max(1, at))
                if e:
                    return say(f'gives {en(e)} ({old} blocks)')
                size = max(size, at, 1)
            e, st = g.fstat(fd)
            e2, st2 = g.stat(3, 'f')
            h = os.stat(os.path.join(tmp, 'f'))
            if (e, e2) != (0, 0) or not st['size'] == st2['size'] == h.st_size == size:
                return say(f'leaves a size of {st and st["size"]} (by path {st2 and st2["size"]}, host {h.st_size}), should be {size}')
            if g.tell(fd) != (0, pos):
                return say(f'leaves the offset at {g.tell(fd)}, not {pos}')
            job.case(('sparse', op, at >> 31, pos >> 31, size >> 31))
            job.count('sparse_operations')
            job.evals += 1
        g.close()


def work(job):
    wd.drop(1 << 42)
    r = job.rng
    for fn, n in ((large, scale(3, 60)), (sparse, scale(12, 300))):
        for _ in range(n):
            if not job.late():
                try:
                    fn(job, r)
                except (wd.Trap, wd.Blocked) as e:
                    job.violation('ended', f'the guest was ended: {type(e).__name__} {e}'[:260], dict(workload=fn.__name__))
    resource.setrlimit(resource.RLIMIT_FSIZE, (LIMIT, LIMIT))
    for k in range(scale(160, 5000)):
        if job.late():
            break
        with wd.Scratch() as tmp:
            s = Sim(job, r, tmp)
            bad = None
            for _ in range(100):
                try:
                    bad = s.step()
                except (wd.Trap, wd.Blocked) as e:
                    bad = f'the guest was ended: {type(e).__name__} {e}'
                bad = bad or s.compare()
                job.count('file_ops')
                job.evals += 1
                if bad:
                    job.violation(bad.split('(')[0].split(' gives')[0][:60], bad[:300], dict(history=[[str(y) for y in x] for x in s.hist], problem=bad))
                    break
            s.g.close()
            job.count('histories')


def main():
    c = Check('W03', 'a distinct (operation, parameters, outcome, descriptor mode) in a history of file operations; after every operation host file contents '
              'and every descriptor offset are compared with a byte-array model', assumptions=['the scratch file system stores nanosecond times'])
    c.run(work)
    c.require('file_ops', 30000)
    c.require('bytes_read', 500000)
    c.require('bytes_written', 500000)
    c.require('file_size_limit_hit', 200)
    c.require('large_transfers', 100)
    c.require('large_vectors', 20)
    c.require('sparse_operations', 1000)
    c.finish()
