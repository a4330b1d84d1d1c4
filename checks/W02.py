import os
import wasidrv as wd
from harness import Check, scale
from wasidrv import ALL, CREAT, DIRECTORY, E, R, RIGHTS, TRUNC, en, openfds, tree, treediff

ANY = list(range(1, 77))


def names(m):
    return [n for k, n in enumerate(RIGHTS) if m >> k & 1]


PATHR = sum(R[n] for n in RIGHTS if n.startswith('PATH_'))
FDR = sum(R[n] for n in RIGHTS if n.startswith('FD_'))
# what a file or directory opened with it must be left with (the rest may be dropped as meaningless for the type)
KEEP_FILE = FDR & ~R['FD_READDIR']
KEEP_DIR = PATHR | R['FD_READDIR'] | R['FD_FILESTAT_GET'] | R['FD_FILESTAT_SET_TIMES'] | R['FD_FDSTAT_SET_FLAGS']

# calls on one descriptor: name -> (rights all needed, works on, call(g, fd))
ONE = {
    'fd_advise': ('FD_ADVISE', 'fd', lambda g, f: g.call('fd_advise', f, 0, 1, 0)),
    'fd_allocate': ('FD_ALLOCATE', 'f', lambda g, f: g.call('fd_allocate', f, 0, 40)),
    'fd_datasync': ('FD_DATASYNC', 'f', lambda g, f: g.call('fd_datasync', f)),
    'fd_sync': ('FD_SYNC', 'f', lambda g, f: g.call('fd_sync', f)),
    'fd_tell': ('FD_TELL', 'f', lambda g, f: g.tell(f)[0]),
    'fd_seek': ('FD_SEEK', 'f', lambda g, f: g.seek(f, 2, 0)[0]),
    'fd_read': ('FD_READ', 'f', lambda g, f: g.read(f, [3])[0]),
    'fd_write': ('FD_WRITE', 'f', lambda g, f: g.write(f, [b'w'])[0]),
    'fd_pread': ('FD_READ FD_SEEK', 'f', lambda g, f: g.pread(f, [3], 0)[0]),
    'fd_pwrite': ('FD_WRITE FD_SEEK', 'f', lambda g, f: g.pwrite(f, [b'p'], 1)[0]),
    'fd_fdstat_set_flags': ('FD_FDSTAT_SET_FLAGS', 'f', lambda g, f: g.call('fd_fdstat_set_flags', f, g.r.choice([0, 1]))),
    'fd_filestat_get': ('FD_FILESTAT_GET', 'fd', lambda g, f: g.fstat(f)[0]),
    'fd_filestat_set_size': ('FD_FILESTAT_SET_SIZE', 'f', lambda g, f: g.call('fd_filestat_set_size', f, g.r.randint(1, 9))),
    'fd_filestat_set_times': ('FD_FILESTAT_SET_TIMES', 'fd', lambda g, f: g.call('fd_filestat_set_times', f, 5, g.r.randint(1, 10**9), 5)),
    'fd_readdir': ('FD_READDIR', 'd', lambda g, f: g.readdir(f, 200)[0]),
    'path_create_directory': ('PATH_CREATE_DIRECTORY', 'd', lambda g, f: g.path('path_create_directory', f, g.new())),
    'path_filestat_get': ('PATH_FILESTAT_GET', 'd', lambda g, f: g.stat(f, 'keep')[0]),
    'path_filestat_set_times': ('PATH_FILESTAT_SET_TIMES', 'd', lambda g, f: g.utimes(f, 'keep', 1, 7, g.r.randint(1, 10**9), 5)),
    'path_readlink': ('PATH_READLINK', 'd', lambda g, f: g.readlink(f, 'ln')[0]),
    'path_symlink': ('PATH_SYMLINK', 'd', lambda g, f: g.symlink('keep', f, g.new())),
    'path_remove_directory': ('PATH_REMOVE_DIRECTORY', 'd', lambda g, f: g.path('path_remove_directory', f, 'emptydir')),
    'path_unlink_file': ('PATH_UNLINK_FILE', 'd', lambda g, f: g.path('path_unlink_file', f, 'victim')),
    'path_open': ('PATH_OPEN', 'd', lambda g, f: g.opened(g.open(f, 'keep', 0, R['FD_READ']))),
    'path_open creat': ('PATH_OPEN PATH_CREATE_FILE', 'd', lambda g, f: g.opened(g.open(f, g.new(), CREAT, R['FD_READ']))),
    'path_open creat existing': ('PATH_OPEN PATH_CREATE_FILE', 'd', lambda g, f: g.opened(g.open(f, 'keep', CREAT, R['FD_READ']))),
    'path_open trunc': ('PATH_OPEN PATH_FILESTAT_SET_SIZE', 'd', lambda g, f: g.opened(g.open(f, 'keep', TRUNC, R['FD_WRITE']))),
    'poll read': ('POLL_FD_READWRITE', 'fd', lambda g, f: g.poll(f, 1)),
    'poll write': ('POLL_FD_READWRITE', 'f', lambda g, f: g.poll(f, 2)),
}
TWO = {
    'path_rename': ('PATH_RENAME_SOURCE', 'PATH_RENAME_TARGET', lambda g, a, b: g.rename(a, 'mover', b, g.new())),
    'path_link': ('PATH_LINK_SOURCE', 'PATH_LINK_TARGET', lambda g, a, b: g.link(a, 0, 'keep', b, g.new())),
}


class Guest(wd.Guest):
    n = 0
    extra = None

    def new(self):
        self.n += 1
        return f'new{self.n}'

    def opened(self, ef):
        if ef[0] == 0:
            self.extra.append(ef[1])
        return ef[0]

    def poll(self, fd, kind):
        self.reset()
        sub = (1).to_bytes(8, 'little') + bytes([kind]) + bytes(7) + (fd & 0xffffffff).to_bytes(4, 'little') + bytes(28)
        # and a timer, so that the call returns in any case
        sub += (2).to_bytes(8, 'little') + bytes(8) + (1).to_bytes(4, 'little') + bytes(4) + (1000).to_bytes(8, 'little') + bytes(16)
        p, o, n = self.put(sub), self.out(64), self.out(4)
        e = self.raw('poll_oneoff', [p, o, 2, n])
        if e == 0:
            for k in range(self.u(n, 4)):
                if self.u(o + 32 * k, 8) == 1 and self.u(o + 32 * k + 8, 2):
                    return self.u(o + 32 * k + 8, 2)       # the error may be reported in the event
        return e


class Sim:
    def __init__(self, job, r, tmp):
        self.job, self.r, self.tmp = job, r, tmp
        for d in ('', 'sub', 'sub/in'):
            os.makedirs(os.path.join(tmp, d), exist_ok=True)
        self.g = Guest(dirs={'/': tmp})
        self.g.r, self.g.extra = r, []
        self.fds = {}
        self.hist = []
        e, st = self.g.fdstat(3)
        self.fds[3] = ['d', st[2], st[3], 0]
        self.closed = []

    def stock(self):
        """what the calls below work on is there"""
        for d in ('', 'sub', 'sub/in'):
            p = os.path.join(self.tmp, d)
            for n in ('keep', 'victim', 'mover'):
                if not os.path.exists(os.path.join(p, n)):
                    with open(os.path.join(p, n), 'w') as f:
                        f.write('content')
            if not os.path.isdir(os.path.join(p, 'emptydir')):
                os.mkdir(os.path.join(p, 'emptydir'))
            if not os.path.islink(os.path.join(p, 'ln')):
                os.symlink('keep', os.path.join(p, 'ln'))
            for n in os.listdir(p):
                if n.startswith('new'):
                    q = os.path.join(p, n)
                    os.rmdir(q) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q)

    def mask(self, full=.5):
        r = self.r
        m = ALL if r.random() < full else r.getrandbits(28)
        for _ in range(r.choice([0, 0, 1, 2])):
            m &= ~(1 << r.randrange(28))
        return m

    def state(self):
        out = {}
        for fd, (k, *_rest) in self.fds.items():
            if k == 'f':
                out[fd] = os.lseek(self.g.wasi.fd[fd].host_fd, 0, 1) if fd < len(self.g.wasi.fd) else None
        return tree(self.tmp, True), out

    def open(self):
        r, g = self.r, self.g
        self.stock()
        ds = [f for f, v in self.fds.items() if v[0] == 'd']
        d = r.choice(ds)
        # deeper directories only exist below the first one
        depth = self.fds[d][3]
        isdir = r.random() < .5 and depth < 2
        n = ('sub' if depth == 0 else 'in') if isdir else 'keep'
        rb, rr = self.mask(), self.mask()
        if isdir:
            rb &= ~R['FD_WRITE']
        else:
            rb = rb if r.random() < .7 else rb & ~(R['FD_READ'] if r.random() < .5 else R['FD_WRITE'])
        e, fd = g.open(d, n, DIRECTORY if isdir else 0, rb, rr)
        _, base, root, _ = self.fds[d]
        self.hist.append(('open', d, n, hex(rb), hex(rr), en(e), fd if not e else None))
        self.job.count('opens')
        if not base & R['PATH_OPEN']:
            return None if e == E['NOTCAPABLE'] else f'path_open without the right gives {en(e)}'
        if e:
            return f'path_open gives {en(e)}'
        if fd in self.fds:
            return f'path_open returned {fd}, which is open'
        e, st = g.fdstat(fd)
        if e:
            return f'fd_fdstat_get gives {en(e)}'
        t, fl, b, ro = st
        if t != (3 if isdir else 4):
            return f'fdstat type {t} of a {n}'
        for w, got, req in (('base', b, rb & root), ('inheriting', ro, rr & root)):
            if got & ~req:
                return f'path_open of {n} gives {w} rights {names(got & ~req)} beyond those asked for or inherited'
            keep = (KEEP_DIR if isdir else KEEP_FILE) if w == 'base' else KEEP_FILE | KEEP_DIR if isdir else 0
            if req & keep & ~got:
                return f'path_open of {n} drops {w} rights {names(req & keep & ~got)}'
        self.fds[fd] = ['d' if isdir else 'f', b, ro, depth + 1]
        self.job.case(('open', isdir, bin(rb & ~root & ALL).count('1') > 0, depth, b & R['FD_READ'], b & R['FD_WRITE']))
        return None

    def setrights(self):
        r, g = self.r, self.g
        fd = r.choice(list(self.fds))
        k, b, ro, _ = self.fds[fd]
        nb = b & self.mask(.3) if r.random() < .6 else b
        nr = ro & self.mask(.3) if r.random() < .6 else ro
        grow = r.random() < .4
        if grow:
            x = 1 << r.choice([q for q in range(64)])
            if r.random() < .5:
                nb |= x
            else:
                nr |= x
        e = g.call('fd_fdstat_set_rights', fd, nb, nr)
        self.hist.append(('set_rights', fd, hex(nb), hex(nr), en(e)))
        self.job.count('set_rights')
        more = bool(nb & ~b or nr & ~ro)
        if more:
            if e != E['NOTCAPABLE']:
                return f'fd_fdstat_set_rights adding {names(nb & ~b)} {names(nr & ~ro)} gives {en(e)}'
            nb, nr = b, ro
        elif e:
            return f'fd_fdstat_set_rights removing rights gives {en(e)}'
        e, st = g.fdstat(fd)
        if e or st[2:] != (nb, nr):
            return f'rights set to {nb:#x} {nr:#x}, fdstat says {st}'
        self.fds[fd][1:3] = [nb, nr]
        self.job.case(('set', k, more, bin(nb).count('1') // 4))
        return None

    def use(self):
        r, g = self.r, self.g
        what = r.choice(list(ONE))
        need, kinds, fn = ONE[what]
        need = [R[n] for n in need.split()]
        fd = r.choice(list(self.fds))
        k, b, ro, _ = self.fds[fd]
        self.stock()
        # most often only the rights in question differ from all
        before = self.state()
        g.extra.clear()
        e = fn(g, fd)
        self.hist.append((what, fd, k, hex(b), en(e)))
        miss = [n for n in need if not b & n]
        self.job.case((what, k, tuple(bool(b & n) for n in need), e))
        if miss:
            self.job.count('calls_lacking_a_right')
            if what == 'fd_tell' and b & R['FD_SEEK']:
                return None
            okay = [E['NOTCAPABLE']]
            if k not in kinds:
                okay = list(ANY)
            if 'trunc' in what:
                okay.append(E['PERM'])
            if e not in okay:
                return f'{what} on a {k} without {names(sum(miss))} gives {en(e)}'
        elif k in kinds:
            self.job.count('calls_with_all_rights')
            soft = what in ('fd_allocate', 'fd_filestat_set_size') and not b & R['FD_WRITE'] or what == 'fd_sync' or what == 'path_open trunc' and not ro & R['FD_WRITE']
            if e == E['NOTCAPABLE'] or (e and not soft):
                return f'{what} on a {k} with rights {names(b)} gives {en(e)}'
        elif e == 0 and what not in ('fd_datasync', 'fd_advise', 'poll write', 'poll read', 'fd_fdstat_set_flags', 'fd_sync'):
            return f'{what} on a {k} succeeds'
        if e and k in kinds and miss:
            d = treediff(before[0], tree(self.tmp, True)) or (before[1] != self.state()[1] and 'an offset moved')
            if d:
                return f'{what} fails with {en(e)} for lack of a right, but: {d}'
        for x in g.extra:
            if g.call('fd_close', x):
                return f'fd_close({x}) fails'
            self.closed.append(x)
        return None

    def use2(self):
        r, g = self.r, self.g
        what = r.choice(list(TWO))
        ra, rb, fn = TWO[what]
        ds = [f for f, v in self.fds.items() if v[0] == 'd']
        a, b = r.choice(ds), r.choice(ds)
        self.stock()
        before = self.state()
        e = fn(g, a, b)
        miss = not self.fds[a][1] & R[ra], not self.fds[b][1] & R[rb]
        self.hist.append((what, a, b, miss, en(e)))
        self.job.case((what, a == b, miss, e))
        if any(miss):
            self.job.count('calls_lacking_a_right')
            if e != E['NOTCAPABLE']:
                return f'{what} without {ra if miss[0] else rb} gives {en(e)}'
            d = treediff(before[0], tree(self.tmp, True))
            return d and f'{what} fails for lack of a right, but: {d}'
        self.job.count('calls_with_all_rights')
        return None if e == 0 else f'{what} with the rights gives {en(e)}'

    def bad(self):
        """descriptors which are not open"""
        r, g = self.r, self.g
        fd = r.choice(self.closed + [-1, -2, -len(g.wasi.fd), len(g.wasi.fd), len(g.wasi.fd) + 7, 1 << 30, -(1 << 31), (1 << 31) - 1])
        self.stock()
        before = self.state()
        if r.random() < .2:
            what = r.choice(list(TWO))
            ok = r.choice([3, fd])
            a, b = r.choice([(fd, ok), (ok, fd)])
            e = TWO[what][2](g, a, b)
            if self.fds[3][1] & R[TWO[what][0]] == 0 or self.fds[3][1] & R[TWO[what][1]] == 0:
                if e == E['NOTCAPABLE']:
                    e = E['BADF']
        elif r.random() < .2:
            what = r.choice(['fd_close', 'fd_renumber', 'fd_fdstat_get', 'fd_prestat_get', 'fd_fdstat_set_rights', 'sock_shutdown'])
            args = {'fd_close': [fd], 'fd_renumber': [fd, 3], 'fd_fdstat_get': [fd, 64], 'fd_prestat_get': [fd, 64], 'fd_fdstat_set_rights': [fd, 0, 0], 'sock_shutdown': [fd, 1]}[what]
            e = g.call(what, *args)
        else:
            what = r.choice(list(ONE))
            e = ONE[what][2](g, fd)
        self.hist.append((what, 'not open', fd, en(e)))
        self.job.count('calls_on_closed')
        self.job.case(('bad', what, fd in self.closed, e))
        if e != E['BADF']:
            return f'{what} on descriptor {fd}, which is not open, gives {en(e)}'
        d = treediff(before[0], tree(self.tmp, True))
        return d and f'{what} on a descriptor which is not open: {d}'

    def close(self):
        fds = [f for f in self.fds if f != 3]
        if fds:
            fd = self.r.choice(fds)
            del self.fds[fd]
            self.closed.append(fd)
            self.hist.append(('close', fd))
            e = self.g.call('fd_close', fd)
            return None if e == 0 else f'fd_close gives {en(e)}'

    def stdio(self):
        g = self.g
        for fd, can, cant in ((0, 'FD_READ', 'FD_WRITE'), (1, 'FD_WRITE', 'FD_READ'), (2, 'FD_WRITE', 'FD_READ')):
            e, st = g.fdstat(fd)
            if e or st[2] & R[cant] or not st[2] & R[can]:
                return f'fdstat of standard stream {fd}: {en(e)} {st}'
            for what, (need, kinds, fn) in ONE.items():
                if what.startswith('poll'):
                    continue
                need = sum(R[n] for n in need.split())
                if st[2] & need != need and fn(g, fd) not in (E['NOTCAPABLE'], E['NOTDIR'], E['SPIPE']):
                    return f'{what} on standard stream {fd} without the right is not refused'
                self.job.count('calls_lacking_a_right')
        return None

    def run(self, n):
        bad = self.stdio()
        for _ in range(n):
            if bad:
                return bad
            q = self.r.random()
            try:
                bad = (self.open() if q < .15 or len(self.fds) < 3 else self.setrights() if q < .25 else self.close() if q < .28 else
                       self.bad() if q < .38 else self.use2() if q < .5 else self.use())
            except (wd.Trap, wd.Blocked) as e:
                bad = f'the guest was ended: {type(e).__name__} {e}'
            for fd, (k, b, ro, _) in self.fds.items():
                if bad:
                    break
                e, st = self.g.fdstat(fd)
                if e or st[2:] != (b, ro) or st[0] != (3 if k == 'd' else 4):
                    bad = f'the rights of {fd} are {st} ({en(e)}), should be {b:#x} {ro:#x}'
        return bad


def work(job):
    wd.drop()
    r = job.rng
    for k in range(scale(200, 4000)):
        if job.late():
            break
        with wd.Scratch() as tmp:
            s = Sim(job, r, tmp)
            bad = s.run(90)
            s.g.close()
            if bad:
                job.violation(' '.join(bad.split()[:4])[:60], bad[:300], dict(history=[[str(y) for y in x] for x in s.hist], problem=bad))
            job.count('histories')


def single(job):
    """every call with all rights but one"""
    wd.drop()
    r = job.rng
    todo = [(w, n, via) for w in ONE for n in ONE[w][0].split() for via in ('set', 'open', 'inherit')]
    for w, n, via in todo[job.n::job.total]:
        need, kinds, fn = ONE[w]
        for kind in kinds:
            with wd.Scratch() as tmp:
                s = Sim(job, r, tmp)
                s.stock()
                m = ALL & ~R[n]
                e, d = s.g.open(3, 'sub', DIRECTORY, ALL & ~R['FD_WRITE'], ALL if via != 'inherit' else m)
                if via == 'inherit' and not m & R['PATH_OPEN']:
                    s.g.close()
                    continue
                e, fd = s.g.open(d, 'keep' if kind == 'f' else 'in', 0 if kind == 'f' else DIRECTORY, (m if via == 'open' else ALL) & ~(R['FD_WRITE'] if kind == 'd' else 0), ALL)
                if e:
                    job.violation('single open', f'opening a {kind} gives {en(e)}', dict(what=w, right=n, via=via))
                    s.g.close()
                    continue
                if via == 'set':
                    _, st = s.g.fdstat(fd)
                    s.g.call('fd_fdstat_set_rights', fd, st[2] & m, st[3])
                s.stock()
                before = tree(tmp, True)
                e = fn(s.g, fd)
                job.case(('single', w, n, via, kind, e))
                job.count('single_missing_right')
                ok = e in (E['NOTCAPABLE'],) or ('trunc' in w and e == E['PERM']) or (w == 'fd_tell') or (kind == 'd' and e and w in ('fd_advise',))
                if not ok or (w != 'fd_tell' and treediff(before, tree(tmp, True))):
                    job.violation(f'missing right:{w}', f'{w} on a {kind} lacking only {n} (taken away by {via}) gives {en(e)}', dict(what=w, right=n, via=via, errno=en(e)))
                s.g.close()


def kernelflags(n):
    with open(f'/proc/self/fdinfo/{n}') as f:
        return int(next(x for x in f if x.startswith('flags:')).split()[1], 8)


def flags(job):
    """the flags fdstat reports are the ones the host descriptor has"""
    wd.drop()
    r = job.rng
    for k in range(scale(60, 1500)):
        if job.late():
            break
        with wd.Scratch() as tmp:
            with open(os.path.join(tmp, 'f'), 'wb') as f:
                f.write(b'0123456789')
            os.mkdir(os.path.join(tmp, 'd'))
            os.mkfifo(os.path.join(tmp, 'p'))
            keep = os.open(os.path.join(tmp, 'p'), os.O_RDWR | os.O_NONBLOCK)
            g = wd.Guest(dirs={'.': tmp})
            hist, have, bad = [], {}, None
            for step in range(12):
                if not have or r.random() < .5:
                    n = r.choice(['f', 'f', 'p', 'd', 'new%d' % step])
                    ff = r.choice([0, 0, 1, 2, 4, 8, 16, r.randrange(32)])
                    rw = r.choice([R['FD_READ'], R['FD_WRITE'], R['FD_READ'] | R['FD_WRITE']]) if n != 'd' else R['FD_READ']
                    was = openfds()
                    e, fd = g.open(3, n, (CREAT if n[:3] == 'new' else 0) | (DIRECTORY if n == 'd' else 0), ALL & ~(R['FD_READ'] | R['FD_WRITE']) | rw, ALL, ff, 1)
                    new = [x for x in openfds() if x not in was]
                    hist.append(('open', n, ff, rw, en(e), fd))
                    if e or len(new) != 1:
                        bad = f'opening {n!r} with flags {ff} gives {en(e)} and makes {len(new)} host descriptors'
                        break
                    have[fd] = new[0], ff, n, rw
                else:
                    fd = r.choice(list(have))
                    host, was, n, rw = have[fd]
                    ff = r.choice([was ^ 1, was ^ 4, was ^ 5, was ^ r.choice([2, 8, 16]), r.randrange(32), 0])
                    e = g.call('fd_fdstat_set_flags', fd, ff)
                    hist.append(('set_flags', fd, n, ff, en(e)))
                    if e == 0:
                        have[fd] = host, ff, n, rw
                    elif not (was ^ ff) & ~5:
                        bad = f'fd_fdstat_set_flags from {was} to {ff} gives {en(e)}'
                        break
                for fd, (host, ff, n, rw) in have.items():
                    e, st = g.fdstat(fd)
                    kf = kernelflags(host)
                    if e or st[1] != ff:
                        bad = f'fdstat reports the flags {st[1]} of {n!r}, asked for were {ff}'
                    for bit, name, on in ((1, 'append', kf & os.O_APPEND), (4, 'nonblock', kf & os.O_NONBLOCK)):
                        if bool(st[1] & bit) != bool(on):
                            bad = f'fdstat of {n!r} reports the flags {st[1]}, {name} is {"on" if on else "off"} on the host'
                    full, data = kf & os.O_SYNC == os.O_SYNC, bool(kf & os.O_DSYNC)
                    if (full, data) != (bool(st[1] & 24), bool(st[1] & 26)):
                        bad = f'fdstat of {n!r} reports the flags {st[1]}, sync is {full}, dsync is {data} on the host'
                    acc = {os.O_RDONLY: R['FD_READ'], os.O_WRONLY: R['FD_WRITE'], os.O_RDWR: R['FD_READ'] | R['FD_WRITE']}[kf & os.O_ACCMODE]
                    if acc & rw != rw:
                        bad = f'{n!r} opened for {names(rw)} cannot do that on the host'
                    job.count('host_flags_compared')
                    job.case(('flags', n[:3], ff, rw, hist[-1][0], hist[-1][-1]))
                if bad:
                    break
            g.close()
            os.close(keep)
            if bad:
                job.violation('flags: ' + ' '.join(x for x in bad.split() if x.isalpha())[:60], bad, dict(history=[[str(y) for y in x] for x in hist], problem=bad))


def main():
    c = Check('W02', 'a distinct (call, descriptor kind, which needed rights it has, errno) observed; calls refused for lack of rights are checked to leave tree and offsets alone')
    c.run(work)
    c.run(single)
    c.run(flags)
    c.require('host_flags_compared', 5000)
    c.require('calls_lacking_a_right', 5000)
    c.require('calls_with_all_rights', 3000)
    c.require('calls_on_closed', 2000)
    c.require('single_missing_right', 50)
    c.finish()
