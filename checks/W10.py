"""Failures: faults injected into every host operation a call makes, hostile arguments, and real host limits.  Monitors: the guest is
never ended, the errno is defined and corresponds to the failure, and a failing call leaves tree, offsets and descriptors alone."""
import errno, fcntl, os, resource, socket, struct
import wasidrv as wd
from harness import Check, scale
from wasidrv import ALL, APPEND, CREAT, DIRECTORY, E, EXCL, FROM_HOST, NONBLOCK, R, TRUNC, en, openfds, tree, treediff

# ---- fault injection: the n-th host operation of the next call fails ----
OPS = '''stat fstat lstat open read pread readv preadv write pwrite writev pwritev lseek ftruncate truncate posix_fallocate fsync fdatasync
mkdir rmdir unlink remove rename replace link symlink readlink listdir scandir utime posix_fadvise dup statvfs access sync get_blocking
set_blocking'''.split()
STATE = dict(on=False, n=0, at=0, err=0, seen=[], hit=None)


def wrap(mod, name):
    real = getattr(mod, name)

    def f(*a, **k):
        if STATE['on']:
            STATE['n'] += 1
            STATE['seen'].append(name)
            if STATE['n'] == STATE['at']:
                STATE['hit'] = name
                raise OSError(STATE['err'], os.strerror(STATE['err']))
        return real(*a, **k)
    setattr(mod, name, f)


def install():
    for n in OPS:
        if hasattr(os, n):
            wrap(os, n)
    wrap(fcntl, 'fcntl')


class Fault:
    def __init__(self, at, err):
        self.at, self.err = at, err

    def __enter__(self):
        STATE.update(on=True, n=0, at=self.at, err=self.err, seen=[], hit=None)

    def __exit__(self, *_):
        STATE['on'] = False


# what has to fail when its host operation does
PRIMARY = {
    'fd_read': 'read readv preadv', 'fd_write': 'write writev pwritev', 'fd_pread': 'pread preadv', 'fd_pwrite': 'pwrite pwritev',
    'fd_seek': 'lseek', 'fd_tell': 'lseek', 'fd_filestat_get': 'stat fstat', 'fd_filestat_set_size': 'ftruncate truncate',
    'fd_allocate': 'ftruncate truncate posix_fallocate', 'fd_sync': 'fsync', 'fd_datasync': 'fdatasync fsync', 'fd_filestat_set_times': 'utime',
    'fd_readdir': 'listdir scandir', 'fd_fdstat_set_flags': 'fcntl', 'path_create_directory': 'mkdir', 'path_remove_directory': 'rmdir',
    'path_unlink_file': 'unlink remove', 'path_rename': 'rename replace', 'path_link': 'link', 'path_symlink': 'symlink', 'path_open': 'open',
    'path_filestat_get': 'stat lstat fstat', 'path_filestat_set_times': 'utime', 'path_readlink': 'readlink',
}
CLEAR = [getattr(errno, x) for x in '''EIO ENOSPC EACCES EROFS EMFILE ENFILE EPERM EDQUOT EBUSY ENOMEM ELOOP EFBIG ETXTBSY ENXIO EOVERFLOW ESTALE ETIMEDOUT
ENODEV EMLINK EXDEV ENOTSUP ENAMETOOLONG ENOSYS EINTR ENOLCK EMSGSIZE'''.split()]
VAGUE = [getattr(errno, x) for x in 'ENOENT EINVAL ENOTDIR EEXIST EISDIR ENOTEMPTY EBADF EAGAIN ESPIPE EFAULT ENOTBLK EREMOTEIO EKEYEXPIRED EUCLEAN'.split()]
# all errnos of the ABI which stand for a host error (but EDEADLK: the host has two names for its number, and nothing here raises it)
EXACT = {k: v for k, v in FROM_HOST.items() if k != errno.EDEADLK}


class World:
    def __init__(self, tmp, r):
        self.tmp, self.r = tmp, r
        for d in ('d', 'd/in', 'e'):
            os.mkdir(os.path.join(tmp, d))
        for n, k in (('f', 300), ('g', 20), ('d/x', 5)):
            with open(os.path.join(tmp, n), 'wb') as f:
                f.write(bytes(range(256))[:k] * 1)
        os.symlink('f', os.path.join(tmp, 'ln'))
        os.symlink('d', os.path.join(tmp, 'dl'))
        self.g = wd.Guest(args=['a'], envs={'k': 'v'}, dirs={'/': tmp, 'two': os.path.join(tmp, 'd')}, stdin=b'0123456789')
        g = self.g
        for n, k, base in (('f', 0, ALL), ('d', DIRECTORY, ALL & ~R['FD_WRITE']), ('g', 0, ALL)):
            e, _ = g.open(3, n, k, base, ALL)
            assert e == 0
        # 3 '/', 4 'two', 5 f, 6 d, 7 g
        self.next = 8

    def state(self):
        out = [tree(self.tmp, True), sorted(openfds().items())]
        for fd in range(12):
            s = self.g.fdstat(fd)
            out.append((s, self.g.tell(fd) if s[0] == 0 and s[1][0] == 4 else None))
        return out

    def diff(self, before, made=False):
        now = self.state()
        d = treediff(before[0], now[0])
        if d and not made:
            return 'the tree changed: ' + d
        if before[1] != now[1]:
            a, b = dict(before[1]), dict(now[1])
            return f'host descriptors changed: {[(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:3]}'
        for k in range(12):
            if before[2 + k] != now[2 + k]:
                return f'descriptor {k} changed: {before[2 + k]} is now {now[2 + k]}'
        return None


def calls(r):
    """(function, call) for calls which succeed without faults"""
    n = 'new%d' % r.randrange(10**9)
    deep = r.choice(['', 'd/', 'dl/', 'd/../', './'])
    return r.choice([
        ('fd_read', lambda g: g.read(5, [10, 20])[0]), ('fd_write', lambda g: g.write(5, [b'abc', b'de'])[0]),
        ('fd_pread', lambda g: g.pread(5, [10], 3)[0]), ('fd_pwrite', lambda g: g.pwrite(5, [b'xyz'], 2)[0]),
        ('fd_seek', lambda g: g.seek(5, 4, 0)[0]), ('fd_tell', lambda g: g.tell(5)[0]), ('fd_filestat_get', lambda g: g.fstat(r.choice([3, 5, 6]))[0]),
        ('fd_filestat_set_size', lambda g: g.call('fd_filestat_set_size', 5, 100)), ('fd_allocate', lambda g: g.call('fd_allocate', 7, 10, 1000)),
        ('fd_sync', lambda g: g.call('fd_sync', 5)), ('fd_datasync', lambda g: g.call('fd_datasync', 5)),
        ('fd_filestat_set_times', lambda g: g.call('fd_filestat_set_times', 5, 10, 20, 5)), ('fd_readdir', lambda g: g.readdir(6, 200)[0]),
        ('fd_fdstat_set_flags', lambda g: g.call('fd_fdstat_set_flags', 5, APPEND)), ('path_create_directory', lambda g: g.path('path_create_directory', 3, deep + n)),
        ('path_remove_directory', lambda g: g.path('path_remove_directory', 3, 'e')), ('path_unlink_file', lambda g: g.path('path_unlink_file', 3, 'd/x')),
        ('path_rename', lambda g: g.rename(3, 'f', r.choice([3, 4]), n)), ('path_link', lambda g: g.link(3, r.choice([0, 1]), r.choice(['f', 'ln']), 3, deep + n)),
        ('path_symlink', lambda g: g.symlink('f', 3, deep + n)), ('path_open', lambda g: g.open(3, r.choice(['f', 'ln', 'd/x', 'dl/x', 'd/../f']), 0, ALL)[0]),
        ('path_open', lambda g: g.open(3, deep + n, CREAT, ALL)[0]), ('path_open', lambda g: g.open(3, 'f', TRUNC, ALL)[0]),
        ('path_open', lambda g: g.open(3, 'd', DIRECTORY, ALL & ~R['FD_WRITE'])[0]),
        ('path_filestat_get', lambda g: g.stat(3, r.choice(['f', 'ln', 'd/x', 'dl/x']), r.choice([0, 1]))[0]),
        ('path_filestat_set_times', lambda g: g.utimes(3, r.choice(['f', 'd/x']), r.choice([0, 1]), 5, 6, 5)), ('path_readlink', lambda g: g.readlink(3, 'ln')[0]),
    ])


def inject(job, r):
    with wd.Scratch() as tmp:
        w = World(tmp, r)
        g = w.g
        try:
            for _ in range(12):
                name, fn = calls(r)
                at, err = r.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9]), r.choice(CLEAR if r.random() < .75 else VAGUE)
                before = w.state()
                wit = dict(call=name, fails=None, errno=errno.errorcode[err], operation=at)
                try:
                    with Fault(at, err):
                        e = fn(g)
                except wd.Trap as t:
                    wit['fails'] = STATE['hit']
                    job.violation(f'guest ended:{name}', f'{name}: {STATE["hit"]} failing with {errno.errorcode[err]} ends the guest: {t}'[:250], wit)
                    return
                hit = STATE['hit']
                if hit is None:
                    job.count('faults_not_reached')
                    if e:
                        job.violation(f'no fault:{name}', f'{name} gives {en(e)} without any fault', wit)
                    break            # the call took effect: start over in a new world
                job.count('faults_injected')
                job.case((name, hit, err, e))
                wit['fails'] = hit
                if not 0 <= e <= 76:
                    job.violation(f'undefined errno:{name}', f'{name}: {hit} failing with {errno.errorcode[err]} gives errno {e}', wit)
                    return
                if e == 0:
                    # a help which failed need not make the call fail, its own operation must
                    if hit in PRIMARY[name].split() and STATE['seen'].count(hit) == STATE['seen'][:at].count(hit) and not (hit in ('readlink', 'stat', 'fstat', 'lstat') and name != 'path_readlink'):
                        if not (hit == 'readlink' and err in VAGUE):
                            job.violation(f'success:{name}', f'{name} reports success although {hit} failed with {errno.errorcode[err]}', wit)
                            return
                    break
                # a file which was opened, and cannot be examined then, may stay: it was made or truncated by the open
                d = w.diff(before, made=name == 'path_open' and hit != 'open' and 'open' in STATE['seen'][:at])
                if d:
                    job.violation(f'left behind:{name}', f'{name} gives {en(e)} ({hit} failed with {errno.errorcode[err]}), but {d}'[:280], wit)
                    return
                job.count('failures_without_effect')
                if err in CLEAR and hit in PRIMARY[name].split() and e != EXACT.get(err, e):
                    job.violation(f'wrong errno:{name}', f'{name}: {hit} failing with {errno.errorcode[err]} is reported as {en(e)}', wit)
                    return
        finally:
            w.g.close()


def mapping(job, r):
    """every host error has its own number"""
    with wd.Scratch() as tmp:
        w = World(tmp, r)
        try:
            for err, want in sorted(EXACT.items()):
                with Fault(1, err):
                    try:
                        e = w.g.tell(5)[0]
                    except wd.Trap as t:
                        e = f'the end of the guest: {t}'
                if STATE['hit'] != 'lseek':
                    continue
                job.count('errnos_mapped')
                job.case(('map', err, e))
                if e != want and os.strerror(err) != os.strerror(next(k for k, v in EXACT.items() if v == e)) if isinstance(e, int) and e in EXACT.values() else e != want:
                    job.violation(f'errno {errno.errorcode[err]}', f'{errno.errorcode[err]} is reported as {en(e)}', dict(errno=errno.errorcode[err], want=en(want), got=str(e)))
            for err in (errno.EKEYEXPIRED, errno.EUCLEAN, errno.ENOTBLK, 4095, 9999):
                with Fault(1, err):
                    try:
                        e = w.g.tell(5)[0]
                    except wd.Trap as t:
                        e = f'the end of the guest: {t}'
                if STATE['hit'] == 'lseek' and not (isinstance(e, int) and 0 < e <= 76):
                    job.violation('errno without number', f'host errno {err} is reported as {e}', dict(errno=err, got=str(e)))
        finally:
            w.g.close()


# ---- hostile arguments ----
def anypath(r):
    good = [b'f', b'd/x', b'ln', b'd', b'd/../g', b'new', b'd/new', b'e', b'dl/x', b'./f', b'd//x', b'f/']
    bad = [b'', b'\0', b'f\0', b'f\0x', b'\xff', b'd/\xfe\xff', b'\xc3', b'\xed\xa0\x80', b'n' * 255, b'n' * 256, b'n/' * 200, b'x' * 5000, b'a/' * 2100, b'/', b'/etc', b'..', b'../..',
           b'.', b'd/../../x', b'\xe2\x80\xae', b'\n', b'%n%s', b'~', b'f/x', b'nope/x', b'\xf4\x90\x80\x80', b'\x80', b'd/.', b'd/..', b'ln/']
    return r.choice(good) if r.random() < .45 else r.choice(bad)


def anyfd(r):
    return r.choice([0, 1, 2, 3, 3, 3, 4, 5, 5, 5, 6, 6, 7, 7, 8, 9, 77, -1, -3, 1 << 30, 1 << 31, (1 << 32) - 1])


BIG = [0, 1, 2, 5, 300, 1000, 4096, 1 << 20, 1 << 31, 1 << 32, 1 << 40, (1 << 62), (1 << 63) - 1, (1 << 63) - 100, 1 << 63, (1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 300]
FLAGS = [0, 0, 1, 2, 3, 4, 5, 8, 15, 16, 31, 32, 64, 255, 256, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff]


def hostile(r, g):
    """(name, call, path was unusable)"""
    fl = lambda: r.choice(FLAGS)
    i64 = lambda: r.choice(BIG) if r.random() < .8 else r.getrandbits(64)
    p, q = anypath(r), anypath(r)
    fd, fd2 = anyfd(r), anyfd(r)
    lens = [r.choice([0, 1, 5, 400]) for _ in range(r.choice([0, 1, 2]))]
    rt = lambda: r.choice([0, ALL, ALL & ~R['FD_WRITE'], R['FD_READ'], (1 << 64) - 1, 1 << 63, r.getrandbits(64)])
    broken = lambda *x: any(b'\0' in y or not utf8(y) for y in x)
    a, b, c, d, ff, sig = i64(), i64(), fl(), fl(), fl(), r.choice([0, 31, 32, 64, 96, 128, 255, 224])
    # values no flag or enumeration has
    undefined = {'fd_seek': c > 2, 'fd_fdstat_set_flags': c > 31, 'path_open flags': ff > 31, 'clock_time_get': c > 3, 'proc_raise': sig > 30, 'sock_shutdown': not 0 < c < 4}
    t = [
        ('fd_advise', lambda: g.call('fd_advise', fd, a, b, c), False), ('fd_allocate', lambda: g.call('fd_allocate', fd, a, b), False),
        ('fd_filestat_set_size', lambda: g.call('fd_filestat_set_size', fd, a), False), ('fd_filestat_set_times', lambda: g.call('fd_filestat_set_times', fd, a, b, c), False),
        ('fd_fdstat_set_flags', lambda: g.call('fd_fdstat_set_flags', fd, c), False), ('fd_seek', lambda: g.seek(fd, a, c)[0], False),
        ('fd_pread', lambda: g.pread(fd, lens, a)[0], False), ('fd_pwrite', lambda: g.pwrite(fd, [bytes(n) for n in lens], a)[0], False),
        ('fd_read', lambda: g.read(fd, lens)[0], False), ('fd_write', lambda: g.write(fd, [bytes(n) for n in lens])[0], False),
        ('fd_readdir', lambda: g.readdir(fd, r.choice([0, 1, 30, 500]), a)[0], False), ('fd_tell', lambda: g.tell(fd)[0], False),
        ('fd_filestat_get', lambda: g.fstat(fd)[0], False), ('fd_fdstat_get', lambda: g.fdstat(fd)[0], False), ('fd_prestat_get', lambda: g.prestat(fd)[0], False),
        ('fd_sync', lambda: g.call('fd_sync', fd), False), ('fd_datasync', lambda: g.call('fd_datasync', fd), False),
        ('path_create_directory', lambda: g.path('path_create_directory', fd, p), broken(p)), ('path_remove_directory', lambda: g.path('path_remove_directory', fd, p), broken(p)),
        ('path_unlink_file', lambda: g.path('path_unlink_file', fd, p), broken(p)), ('path_filestat_get', lambda: g.stat(fd, p, c)[0], broken(p)),
        ('path_filestat_set_times', lambda: g.utimes(fd, p, c, a, b, d), broken(p)), ('path_readlink', lambda: g.readlink(fd, p, r.choice([0, 1, 50]))[0], broken(p)),
        ('path_rename', lambda: g.rename(fd, p, fd2, q), broken(p, q)), ('path_link', lambda: g.link(fd, c, p, fd2, q), broken(p, q)),
        ('path_symlink', lambda: g.symlink(p, fd, q), broken(p, q)), ('path_open', lambda: g.open(fd, p, c, rt(), rt(), d, 1)[0], broken(p)),
        ('path_open flags', lambda: g.open(r.choice([3, fd]), p, c & 15, ALL, ALL, ff, 1)[0], broken(p)),
        ('path_open', lambda: g.open(3, p, r.randrange(16), rt(), rt(), r.choice([0, 1, 4, 16]), 1)[0], broken(p)),
        ('path_symlink', lambda: g.symlink(p, 3, q), broken(p, q)), ('path_link', lambda: g.link(3, c & 1, p, 3, q), broken(p, q)), ('path_rename', lambda: g.rename(3, p, 3, q), broken(p, q)),
        ('path_filestat_set_times', lambda: g.utimes(3, p, c & 1, a, b, r.randrange(16)), broken(p)), ('fd_filestat_set_times', lambda: g.call('fd_filestat_set_times', 5, a, b, r.randrange(16)), False),
        ('clock_time_get', lambda: g.time(c)[0], False), ('sched_yield', lambda: g.call('sched_yield'), False), ('proc_raise', lambda: g.call('proc_raise', sig), False),
        ('fd_renumber', lambda: g.call('fd_renumber', r.choice([99, -1, 8, 1 << 31]), fd), False), ('fd_close', lambda: g.call('fd_close', r.choice([99, -1, 1 << 31, (1 << 32) - 1])), False),
        ('sock_shutdown', lambda: g.call('sock_shutdown', fd, c), False), ('sock_accept', lambda: sock_accept(g, fd, c), False),
        ('sock_recv', lambda: sock_recv(g, fd, lens, c), False), ('sock_send', lambda: sock_send(g, fd, lens, c), False),
        ('poll_oneoff', lambda: poll(r, g, fd, a, c), False),
    ]
    x = r.choice(t)
    return x[0].split()[0], x[1], x[2], undefined.get(x[0], False), (fd, p[:40], fd2, q[:40], a, b, c, d, ff, sig)


def sock_accept(g, fd, fl):
    g.reset()
    return g.raw('sock_accept', [fd, fl, g.out(4)])


def sock_recv(g, fd, lens, fl):
    g.reset()
    p, n, _ = g.iovs(lens=lens)
    a, b = g.out(4), g.out(2)
    return g.raw('sock_recv', [fd, p, n, fl, a, b])


def sock_send(g, fd, lens, fl):
    g.reset()
    p, n, _ = g.iovs(data=[bytes(n) for n in lens])
    a = g.out(4)
    return g.raw('sock_send', [fd, p, n, fl, a])


def poll(r, g, fd, t, fl):
    g.reset()
    subs = [struct.pack('<QBxxxxxxxI', 1, r.choice([0, 1, 2, 3, 99]), fd & 0xffffffff) + r.randbytes(28), struct.pack('<QBxxxxxxxIxxxxQQHxxxxxx', 2, 0, 1, 1000, t, 0)]
    p, o, n = g.put(b''.join(subs)), g.out(64), g.out(4)
    return g.raw('poll_oneoff', [p, o, 2, n])


def utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def args(job, r):
    with wd.Scratch() as tmp:
        w = World(tmp, r)
        try:
            hist = []
            for _ in range(40):
                name, fn, broken, undefined, info = hostile(r, w.g)
                before = w.state()
                hist.append([name, [str(x) for x in info]])
                hist[:-3] = []
                try:
                    e = fn()
                except wd.Trap as t:
                    job.violation(f'guest ended:{name}', f'{name} {info} ends the guest: {t}'[:280], dict(history=hist))
                    return
                job.count('hostile_calls')
                job.case((name, 'args', e, broken))
                if not isinstance(e, int) or not 0 <= e <= 76:
                    job.violation(f'undefined errno:{name}', f'{name} {info} gives errno {e}'[:280], dict(history=hist))
                    return
                if broken:
                    job.count('broken_names')
                    if e == 0:
                        job.violation(f'success:{name}', f'{name} with a name that is not utf-8 or contains a null byte succeeds: {info}'[:280], dict(history=hist))
                        return
                if undefined:
                    job.count('undefined_values')
                    if e == 0:
                        job.violation(f'undefined:{name}', f'{name} with a flag, signal, clock or position kind that does not exist succeeds: {info}'[:280], dict(history=hist))
                        return
                if e:
                    d = w.diff(before)
                    job.count('failures_without_effect')
                    if d:
                        job.violation(f'left behind:{name}', f'{name} {info} gives {en(e)}, but {d}'[:280], dict(history=hist))
                        return
                elif name == 'path_open':
                    if len(openfds()) > 60:
                        break
                if w.g.stray:
                    job.violation(f'stray:{name}', f'{name} {info}: {w.g.stray[0][2]}'[:280], dict(history=hist))
                    return
        finally:
            w.g.close()


# ---- real limits ----
def real(job, r):
    with wd.Scratch() as tmp, wd.Scratch('/dev/shm') as shm:
        for d in ('closed', 'noexec', 'ro', 'd'):
            os.mkdir(os.path.join(tmp, d))
        for n in ('f', 'secret', 'closed/x', 'noexec/x', 'ro/x'):
            with open(os.path.join(tmp, n), 'w') as f:
                f.write('text')
        os.mkfifo(os.path.join(tmp, 'fifo'))
        os.mkfifo(os.path.join(tmp, 'fifo0'))
        os.symlink('loop2', os.path.join(tmp, 'loop1'))
        os.symlink('loop1', os.path.join(tmp, 'loop2'))
        os.makedirs(os.path.join(tmp, 'd/deep/er'))
        os.symlink('lb', os.path.join(tmp, 'd/la'))
        os.symlink('../d/la', os.path.join(tmp, 'd/lb'))
        os.symlink('../../d/deep/../la', os.path.join(tmp, 'd/deep/lc'))
        for n, m in (('secret', 0), ('closed', 0), ('noexec', 0o600), ('ro', 0o500)):
            os.chmod(os.path.join(tmp, n), m)
        chain = 'f'
        for k in range(45):
            os.symlink(chain, os.path.join(tmp, f'c{k}'))
            chain = f'c{k}'
        g = wd.Guest(dirs={'/': tmp, 'shm': shm, 'xdev': '/dev'})
        rd, wr = R['FD_READ'], R['FD_WRITE']
        DENY = {'ACCES', 'PERM'}
        cases = [
            ('open unreadable', lambda: g.open(3, 'secret', 0, rd)[0], DENY), ('open in closed', lambda: g.open(3, 'closed/x', 0, rd)[0], DENY),
            ('stat in closed', lambda: g.stat(3, 'closed/x')[0], DENY), ('stat in noexec', lambda: g.stat(3, 'noexec/x')[0], DENY), ('create in ro', lambda: g.open(3, 'ro/new', CREAT, wr)[0], DENY),
            ('unlink in ro', lambda: g.path('path_unlink_file', 3, 'ro/x'), DENY), ('mkdir in ro', lambda: g.path('path_create_directory', 3, 'ro/d'), DENY),
            ('rename into ro', lambda: g.rename(3, 'f', 3, 'ro/f'), DENY), ('rename from ro', lambda: g.rename(3, 'ro/x', 3, 'x'), DENY), ('link into ro', lambda: g.link(3, 0, 'f', 3, 'ro/f'), DENY),
            ('symlink into ro', lambda: g.symlink('x', 3, 'ro/l'), DENY), ('open closed dir', lambda: g.open(3, 'closed', DIRECTORY, R['FD_READDIR'] | rd)[0], DENY),
            ('loop', lambda: g.open(3, 'loop1', 0, rd)[0], {'LOOP'}), ('stat loop', lambda: g.stat(3, 'loop1', 1)[0], {'LOOP'}), ('below loop', lambda: g.stat(3, 'loop1/x', 0)[0], {'LOOP'}),
            ('loop in a directory', lambda: g.open(3, 'd/la', 0, rd)[0], {'LOOP'}), ('loop further below', lambda: g.stat(3, 'd/deep/lc', 1)[0], {'LOOP'}),
            ('below such a loop', lambda: g.path('path_create_directory', 3, 'd/deep/er/../lc/x'), {'LOOP'}), ('absent further below', lambda: g.stat(3, 'd/deep/er/x')[0], {'NOENT'}),
            ('out from further below', lambda: g.stat(3, 'd/deep/er/../../../../x')[0], {'PERM', 'ACCES', 'NOTCAPABLE'}), ('through a file below', lambda: g.stat(3, 'd/deep/../../f/x')[0], {'NOTDIR'}),
            ('long chain', lambda: g.open(3, 'c44', 0, rd)[0], {'LOOP'}), ('long name', lambda: g.path('path_create_directory', 3, 'n' * 256), {'NAMETOOLONG'}),
            ('long name open', lambda: g.open(3, 'n' * 256, CREAT, wr)[0], {'NAMETOOLONG'}), ('across devices', lambda: g.rename(3, 'f', 4, 'f'), {'XDEV'}),
            ('link across devices', lambda: g.link(3, 0, 'f', 4, 'f'), {'XDEV'}), ('fifo without reader', lambda: g.open(3, 'fifo0', 0, wr, 0, NONBLOCK)[0], {'NXIO'}),
            ('into itself', lambda: g.rename(3, 'd', 3, 'd/e'), {'INVAL'}), ('link directory', lambda: g.link(3, 0, 'd', 3, 'd2'), {'PERM', 'ACCES', 'ISDIR', 'MLINK'}),
        ]
        e, full = g.open(5, 'full', 0, wr, 0)
        if e == 0:
            cases += [('full device', lambda: g.write(full, [b'x' * 10])[0], {'NOSPC'})]
        os.set_blocking(0, True)
        e, fifo = g.open(3, 'fifo', 0, rd, 0, NONBLOCK)
        if e == 0:
            h = os.open(os.path.join(tmp, 'fifo'), os.O_WRONLY)
            cases += [('empty fifo', lambda: g.read(fifo, [5])[0], {'AGAIN'})]
        e, fifo2 = g.open(3, 'fifo', 0, ALL & ~rd | R['FD_SEEK'], 0, NONBLOCK)
        cases += [('seek fifo', lambda: g.seek(fifo2, 0, 1)[0], {'SPIPE'}), ('pwrite fifo', lambda: g.pwrite(fifo2, [b'x'], 0)[0], {'SPIPE'}), ('resize fifo', lambda: g.call('fd_filestat_set_size', fifo2, 5), {'INVAL'})]
        e, ffd = g.open(3, 'f', 0, ALL, 0)
        lim = resource.getrlimit(resource.RLIMIT_FSIZE)[0]
        cases += [('beyond the size limit', lambda: g.pwrite(ffd, [b'x'], lim + 5)[0], {'FBIG'}), ('resize beyond the limit', lambda: g.call('fd_filestat_set_size', ffd, lim + 5), {'FBIG'}),
                  ('allocate beyond the limit', lambda: g.call('fd_allocate', ffd, lim, 5), {'FBIG'}), ('negative seek', lambda: g.seek(ffd, -1, 0)[0], {'INVAL'}),
                  ('negative pread', lambda: g.pread(ffd, [5], -1)[0], {'INVAL'}), ('negative pwrite', lambda: g.pwrite(ffd, [b'x'], -1)[0], {'INVAL'}), ('negative size', lambda: g.call('fd_filestat_set_size', ffd, -1), {'INVAL'})]
        r.shuffle(cases)
        try:
            for what, fn, want in cases:
                before = tree2(tmp), sorted(openfds().items()), g.fdstat(ffd), g.tell(ffd)
                try:
                    e = fn()
                except wd.Trap as t:
                    job.violation(f'guest ended:{what}', f'{what}: the guest is ended: {t}'[:250], dict(case=what))
                    continue
                job.count('real_failures')
                job.case(('real', what, e))
                if en(e) not in want:
                    job.violation(f'real:{what}', f'{what} gives {en(e)}, not {" or ".join(sorted(want))}', dict(case=what, got=en(e)))
                elif (tree2(tmp), sorted(openfds().items()), g.fdstat(ffd), g.tell(ffd)) != before:
                    job.violation(f'left behind:{what}', f'{what} fails with {en(e)} and changes something', dict(case=what))
            # the descriptor table of the host is full
            soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
            for room in (0, 1, 2, 3):
                top = 1 + max(openfds())
                used = len(openfds()) - 1
                fill = []
                resource.setrlimit(resource.RLIMIT_NOFILE, (top + 8, hard))
                try:
                    while True:
                        fill.append(os.dup(0))
                except OSError:
                    pass
                for _ in range(room):
                    os.close(fill.pop())
                res = []
                for what, fn in (('open', lambda: g.open(3, 'f', 0, rd)[0]), ('open in', lambda: g.open(3, 'd/nope', CREAT, wr)[0]), ('mkdir', lambda: g.path('path_create_directory', 3, 'd/new')),
                                 ('stat', lambda: g.stat(3, 'd/../f')[0]), ('rename', lambda: g.rename(3, 'f', 3, 'd/f')), ('readdir', lambda: g.readdir(3, 300)[0])):
                    try:
                        e = fn()
                        res.append((what, e))
                        if e == 0 and what.startswith('open'):
                            g.call('fd_close', len(g.wasi.fd) - 1)
                        if e == 0 and what == 'mkdir':
                            g.path('path_remove_directory', 3, 'd/new')
                        if e == 0 and what == 'rename':
                            g.rename(3, 'd/f', 3, 'f')
                        if e == 0 and what == 'open in':
                            g.path('path_unlink_file', 3, 'd/nope')
                    except wd.Trap as t:
                        res.append((what, f'the end of the guest: {t}'))
                for x in fill:
                    os.close(x)
                resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
                for what, e in res:
                    job.count('descriptor_limit_calls')
                    job.case(('limit', what, room, e))
                    if e not in (0, E['MFILE'], E['NFILE']):
                        job.violation(f'limit:{what}', f'{what} with room for {room} host descriptors gives {en(e)}', dict(results=str(res)))
                if len(openfds()) - 1 != used:
                    job.violation('limit leak', f'{len(openfds()) - 1 - used} host descriptors left over after calls failing for lack of descriptors', dict(results=str(res)))
        finally:
            g.close()
            for n in ('secret', 'closed', 'noexec', 'ro'):
                os.chmod(os.path.join(tmp, n), 0o700)


def tree2(tmp):
    """as far as it can be read"""
    out = {}
    for top, ds, fs in os.walk(tmp):
        for n in ds + fs:
            try:
                st = os.lstat(os.path.join(top, n))
            except PermissionError:
                continue
            out[os.path.join(top, n)] = (st.st_ino, st.st_size, st.st_nlink, st.st_mtime_ns, st.st_ctime_ns, st.st_mode)
    return out


def memory(job, r):
    """buffers for far more than the host has memory for: the guest hears about it"""
    with wd.Scratch() as tmp:
        data = r.randbytes(3000)
        with open(os.path.join(tmp, 'f'), 'wb') as f:
            f.write(data)
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        g = wd.Guest(dirs={'/': tmp}, pages=64, stdin=data)
        soft = resource.getrlimit(resource.RLIMIT_AS)
        try:
            e, fd = g.open(3, 'f', 0, R['FD_READ'] | R['FD_WRITE'] | R['FD_SEEK'] | R['FD_TELL'])
            assert e == 0
            sk = g.sock(a, 'stream')
            a.setblocking(False)
            b.setblocking(False)
            b.send(data)
            big = 2 << 20
            for name, k in r.sample([('fd_pread', 0), ('fd_read', 0), ('fd_read', 1), ('fd_write', 0), ('fd_pwrite', 0), ('sock_recv', 0), ('sock_send', 0)], 4):
                n = r.choice([400, 3000, 20000])
                g.mem.data[:n * 8] = struct.pack('<II', big, big) * n
                at, out = r.choice([0, 7, 2990]), 1 << 20
                g.raw('fd_seek', [fd, at, 0, out]) if name in ('fd_read', 'fd_write') else None
                args = {'fd_pread': [fd, 0, n, at, out], 'fd_read': [0 if k else fd, 0, n, out], 'fd_write': [fd, 0, n, out], 'fd_pwrite': [fd, 0, n, at, out],
                        'sock_recv': [sk, 0, n, 0, out, out + 8], 'sock_send': [sk, 0, n, 0, out]}[name]
                now = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
                resource.setrlimit(resource.RLIMIT_AS, (min(now + (160 << 20), 1 << 40), soft[1]))
                try:
                    e = g.raw(name, args)
                except wd.Trap as t:
                    e = f'trap {t}'
                finally:
                    resource.setrlimit(resource.RLIMIT_AS, soft)
                job.count('beyond_memory')
                job.case(('memory', name, k, n, e))
                say = lambda what: job.violation(f'memory:{name}', f'{name} with {n} buffers of {big} bytes each {what}'[:240], dict(call=name, buffers=n))
                if isinstance(e, str):
                    return say(f'ends the guest: {e}')
                reads = name in ('fd_pread', 'fd_read', 'sock_recv')
                cnt = g.u(out, 4)
                want = data if k or name == 'sock_recv' else data[at:]
                if e == 0 and reads and (cnt > len(want) or not cnt or g.get(big, cnt) != want[:cnt]):
                    return say(f'succeeds, with {cnt} bytes which are not those of the file')
                if e == 0:
                    break                    # the data or the file is different from now on
                if en(e) not in ('NOMEM', 'NOBUFS', 'INVAL', 'OVERFLOW', '2BIG', 'FBIG', 'AGAIN', 'PIPE', 'IO', 'NOSPC'):
                    return say(f'gives {en(e)}')
                if open(os.path.join(tmp, 'f'), 'rb').read() != data:
                    return say(f'fails with {en(e)}, but changes the file')
                if name in ('fd_read', 'fd_write') and not k and g.tell(fd)[-1] != at:
                    return say(f'fails with {en(e)}, but moves the offset from {at} to {g.tell(fd)}')
        finally:
            g.close()
            a.close()
            b.close()


def work(job):
    wd.drop()
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 20, 1 << 20))
    install()
    r = job.rng
    for k in range(scale(100, 6000)):
        if job.late():
            break
        for _ in range(7):
            inject(job, r)
        args(job, r)
        if k % 10 == 0:
            real(job, r)
        if k % 50 == 0:
            mapping(job, r)
        if k % 25 == 1:
            memory(job, r)


def main():
    c = Check('W10', 'a distinct (function, host operation made to fail or argument shape, host error, errno reported)')
    c.run(work)
    c.require('faults_injected', 2500)
    c.require('hostile_calls', 10000)
    c.require('broken_names', 800)
    c.require('failures_without_effect', 8000)
    c.require('real_failures', 1500)
    c.require('descriptor_limit_calls', 1000)
    c.require('errnos_mapped', 500)
    c.require('undefined_values', 1000)
    c.require('beyond_memory', 40)
    c.finish()
