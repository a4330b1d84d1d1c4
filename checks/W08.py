"""Directory iteration, the way guests do it: parse the whole records, continue with the last cookie while the buffer comes back full."""
import os, socket, struct
import wasidrv as wd
from harness import Check, scale
from wasidrv import ALL, DIRECTORY, E, FT, R, en

KINDS = {0o040000: (3,), 0o100000: (4,), 0o120000: (7,), 0o010000: (0,), 0o140000: (0, 5, 6)}


def name(r):
    q = r.random()
    if q < .3:
        return ('e%d' % r.randrange(500)).encode()
    if q < .45:
        return bytes([r.choice(b'abc')]) * r.choice([1, 2, 8, 100, 200, 254, 255])
    if q < .6:
        return r.choice(['é', '日本', 'ß', '\U0001f600', 'nai\u0308ve', 'ÿ']).encode() * r.choice([1, 2, 20])
    if q < .75:
        return bytes(r.choice([x for x in range(1, 256) if x != 47]) for _ in range(r.choice([1, 2, 3, 10, 60])))
    if q < .85:
        return r.choice([b'...', b'.hidden', b'..x', b' ', b'\n', b'-', b'~', b'*', b'. ', b'.\xff', b'\xff\xfe', b'%s', b'a\\b'])
    return b'x%d' % r.randrange(20)


def fill(r, d, n, socks):
    for _ in range(n):
        p = os.path.join(os.fsencode(d), name(r))
        if p.endswith((b'/.', b'/..')) or os.path.lexists(p):
            continue
        k = r.choice(['file', 'file', 'file', 'dir', 'link', 'dangling', 'dirlink', 'loop', 'fifo', 'hard', 'sock'])
        if k == 'file':
            with open(p, 'wb') as f:
                f.write(b'x' * r.randrange(3))
        elif k == 'dir':
            os.mkdir(p)
        elif k == 'link':
            os.symlink(r.choice([b'.', b'..', b'target', b'/etc/passwd']), p)
        elif k == 'dangling':
            os.symlink(b'no such thing' * r.choice([1, 9]), p)
        elif k == 'dirlink':
            os.symlink(b'../other', p)
        elif k == 'loop':
            os.symlink(os.path.basename(p), p)
        elif k == 'fifo':
            os.mkfifo(p)
        elif k == 'hard':
            os.link(os.path.join(d, '..', 'target'), p)
        elif len(p) < 100:
            s = socket.socket(socket.AF_UNIX)
            s.bind(p)
            s.close()


def truth(d):
    """what the host says is there"""
    out = {}
    st = os.stat(d)
    out[b'.'] = ({st.st_ino}, (3,))
    out[b'..'] = ({st.st_ino, os.stat(os.path.join(d, '..')).st_ino}, (3,))
    for e in os.listdir(os.fsencode(d)):
        st = os.lstat(os.path.join(os.fsencode(d), e))
        out[e] = ({st.st_ino}, KINDS[st.st_mode & 0o170000])
    return out


def parse(buf, used):
    """whole records and the rest"""
    recs, p = [], 0
    while used - p >= 24:
        nxt, ino, n, t = struct.unpack_from('<QQIB', buf, p)
        if used - p < 24 + n:
            break
        recs.append((nxt, ino, n, t, bytes(buf[p + 24:p + 24 + n])))
        p += 24 + n
    return recs, bytes(buf[p:used])


class Iter:
    def __init__(self, job, r, g, fd, want):
        self.job, self.r, self.g, self.fd, self.want = job, r, g, fd, want
        self.log = []

    def call(self, n, cookie):
        e, used, buf = self.g.readdir(self.fd, n, cookie)
        self.log.append((n, cookie, en(e), used))
        self.log[:-12] = []
        self.job.count('readdir_calls')
        if e:
            raise Bad(f'fd_readdir(buffer of {n}, cookie {cookie}) gives {en(e)}')
        if used > n:
            raise Bad(f'fd_readdir(buffer of {n}) reports {used} bytes used')
        if self.g.stray:
            raise Bad(f'fd_readdir(buffer of {n}): {self.g.stray[0][2][:150]}')
        return used, buf

    def size(self):
        r = self.r
        return r.choice([0, 1, 7, 8, 16, 20, 23, 24, 25, 26, 30, 48, 49, 50, 51, 64, 100, 279, 280, 512, 4096, r.randint(1, 400), r.randint(25, 90)])

    def full(self, cookie=0):
        """entries from cookie on, as wasi-libc reads them"""
        out, fixed, idle = [], self.r.choice([None, None, self.size()]), 0
        rest = None
        while True:
            n = max(fixed, 280) if fixed is not None and idle else fixed if fixed is not None else self.size()
            if idle > 3:
                n = 300
            used, buf = self.call(n, cookie)
            recs, tail = parse(buf, used)
            if rest and buf[:min(len(rest), used)] != rest[:used]:
                raise Bad(f'the entry after cookie {cookie} begins {rest[:40]!r} in one call and {bytes(buf[:40])!r} in the next')
            rest = None
            out += recs
            for x in recs:
                cookie = x[0]
            if used < n:
                if tail:
                    raise Bad(f'{used} of {n} bytes used, yet the last entry is cut short: {tail!r}')
                return out
            rest = tail
            idle = 0 if recs else idle + 1
            self.job.case(('fill', n if n < 80 else n // 100, len(recs), len(tail)))
            if len(out) > len(self.want) + 5:
                raise Bad(f'the iteration does not end: {len(out)} entries of {len(self.want)} so far')

    def compare(self, got, want, start=0):
        names = [x[4] for x in got]
        for nxt, ino, n, t, nm in got:
            self.job.count('entries')
            if nm not in want:
                raise Bad(f'entry {nm!r} is not in the directory')
            inos, types = want[nm]
            if ino not in inos:
                raise Bad(f'entry {nm!r} has inode {ino}, is {inos}')
            if t not in types:
                raise Bad(f'entry {nm!r} has type {t}, should be {types}')
        if len(set(names)) != len(names):
            raise Bad(f'entry {next(x for x in names if names.count(x) > 1)!r} is listed twice')
        if len({x[0] for x in got}) != len(got):
            raise Bad('two entries have the same cookie')


class Bad(Exception):
    pass


def one(job, r, it):
    want = it.want
    first = it.full()
    it.compare(first, want)
    miss = set(want) - {x[4] for x in first}
    if miss:
        raise Bad(f'entries are missing: {sorted(miss)[:3]} ({len(first)} of {len(want)} listed)')
    job.count('iterations')
    # again, in other portions
    again = it.full()
    if again != first:
        raise Bad('a second iteration differs from the first')
    # every cookie restarts right after its entry
    idx = list(range(len(first)))
    r.shuffle(idx)
    for k in idx[:6] + idx[-1:]:
        rest = it.full(first[k][0])
        if rest != first[k + 1:]:
            raise Bad(f'restarting after entry {k} of {len(first)} gives {[x[4][:20] for x in rest][:3]}, should be {[x[4][:20] for x in first[k + 1:]][:3]}')
        job.count('restarts')
        job.case(('restart', k if k < 4 else 9, len(first) - k if len(first) - k < 4 else 9))
    # exact fits
    k = r.randrange(len(first))
    total = sum(24 + x[2] for x in first[k:])
    c = first[k - 1][0] if k else 0
    for n in {total - 1, total, total + 1, 24 + first[k][2], 24 + first[k][2] - 1}:
        used, buf = it.call(n, c)
        recs, tail = parse(buf, used)
        if used != min(n, total):
            raise Bad(f'a buffer of {n} bytes for {total} bytes of entries comes back with {used} used')
        if recs != first[k:k + len(recs)]:
            raise Bad(f'a buffer of {n} bytes holds other entries than the iteration gave')
        job.count('exact_fits')
    # cookies nobody got: any answer, as long as it is well-formed
    it.g.readdir(it.fd, 100, r.choice([len(first) + 1, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]))
    job.count('foreign_cookies')


def history(job, r, tmp):
    for d in ('dir', 'other', 'elsewhere'):
        os.mkdir(os.path.join(tmp, d))
    with open(os.path.join(tmp, 'target'), 'w'):
        pass
    d = os.path.join(tmp, 'dir')
    fill(r, d, r.choice([0, 1, 2, 5, 12, 30, 60]), [])
    g = wd.Guest(dirs={'/': tmp})
    e, fd = g.open(3, 'dir', DIRECTORY, ALL & ~R['FD_WRITE'], ALL)
    e2, fd2 = g.open(3, 'dir', DIRECTORY, ALL & ~R['FD_WRITE'], ALL)
    assert not e and not e2
    it = None
    try:
        for step in range(r.choice([1, 2, 3])):
            where = r.choice(['fd', 'fd', 'preopen', 'renamed'])
            if where == 'renamed' and d.endswith('/dir'):
                new = os.path.join(tmp, 'elsewhere', 'moved')
                os.rename(d, new)
                # something else takes its place
                q = r.choice(['nothing', 'dir', 'dir', 'link', 'file'])
                if q == 'dir':
                    os.mkdir(d)
                    for k in range(r.randrange(4)):
                        open(os.path.join(d, f'impostor{k}'), 'w').close()
                elif q == 'link':
                    os.symlink('other', d)
                elif q == 'file':
                    open(d, 'w').close()
                job.count('moved away')
                os.mkdir(os.path.join(tmp, 'elsewhere', 'other'))
                os.rename(os.path.join(tmp, 'target'), os.path.join(tmp, 'elsewhere', 'target'))
                d = new
            use, path = (3, tmp) if where == 'preopen' else (r.choice([fd, fd2]), d)
            it = Iter(job, r, g, use, truth(path))
            one(job, r, it)
            job.case(('dir', where, len(it.want), step))
            # change it, then iterate from the start
            for n in os.listdir(os.fsencode(d))[:]:
                if r.random() < .3:
                    p = os.path.join(os.fsencode(d), n)
                    if os.path.isdir(p) and not os.path.islink(p):
                        os.rmdir(p)
                    else:
                        os.unlink(p)
            fill(r, d, r.choice([0, 3, 10]), [])
    except Bad as e:
        import re
        key = re.sub(r"\d+|b'.*?'", 'N', ' '.join(str(e).split()[:4]))[:50]
        job.violation(key, str(e)[:300], dict(calls=it.log, entries=[repr(x) for x in it.want][:80], problem=str(e)))
    except wd.Trap as e:
        job.violation('guest ended', f'the guest was ended: {e}'[:200], dict(calls=it and it.log))
    finally:
        g.close()


def crowd(job, r, tmp, n):
    """a directory of very many entries"""
    d = os.path.join(tmp, 'dir')
    os.mkdir(d)
    top = os.open(d, os.O_RDONLY)
    for k in range(n):
        os.mknod(f'{k:x}', 0o100644, dir_fd=top)
    os.close(top)
    g = wd.Guest(dirs={'/': tmp}, pages=6)
    _, fd = g.open(3, 'dir', DIRECTORY, ALL & ~R['FD_WRITE'], ALL)
    it = Iter(job, r, g, fd, truth(d))
    it.size = lambda: r.choice([65535, 65536, 70000, 131072, 250000, 300000])
    try:
        first = it.full()
        it.compare(first[::97] + first[-3:], it.want)
        got = [x[4] for x in first]
        if len(got) != len(set(got)) or set(got) != set(it.want) or len({x[0] for x in first}) != len(first):
            raise Bad(f'{len(got)} entries ({len(set(got))} different names, {len(set(x[0] for x in first))} different cookies) are listed of {len(it.want)}')
        for k in [0, 1, 127, 128, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, len(first) - 2, len(first) - 1]:
            if k < len(first) and (n < 9000 or k > 60000 or k < 2):
                used, buf = it.call(300, first[k][0])
                recs, _ = parse(buf, used)
                if recs != first[k + 1:k + 1 + len(recs)] or not recs and k + 1 < len(first):
                    raise Bad(f'restarting after entry {k} of {len(first)} gives {[x[4] for x in recs][:3]}, should be {[x[4] for x in first[k + 1:]][:3]}')
                job.count('crowd_restarts')
        job.case(('crowd', n))
        job.count('crowds')
        job.count('crowd_entries', len(first))
    except Bad as e:
        job.violation('crowd', f'directory of {n}: {e}'[:300], dict(calls=it.log, problem=str(e)))
    except wd.Trap as e:
        job.violation('guest ended', f'the guest was ended: {e}'[:200], dict(calls=it.log))
    finally:
        g.close()


def work(job):
    wd.drop()
    for n in [(300, 1100), (5000,), (600, 4097)][job.n % 3] + ((66000,) if job.n == 1 else ()):
        with wd.Scratch() as tmp:
            crowd(job, job.rng, tmp, n)
    for _ in range(scale(500, 15000)):
        if job.late():
            break
        with wd.Scratch() as tmp:
            history(job, job.rng, tmp)


def main():
    c = Check('W08', 'a distinct (buffer size, whole records, bytes cut) of a filled buffer, restart position or directory shape')
    c.run(work)
    c.require('iterations', 3000)
    c.require('entries', 3000)
    c.require('restarts', 800)
    c.require('exact_fits', 600)
    c.require('moved away', 100)
    c.require('crowds', 10)
    c.require('crowd_entries', 66000)
    c.finish()
