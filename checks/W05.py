"""Descriptor lifecycle.  The model is a map from guest descriptor numbers to the object each was opened on (every object has its own
inode and host path).  After every call the monitor compares it with what the guest sees (fdstat type, inode, badf) and with what the
kernel says this process holds open (/proc/self/fd), and checks that descriptors pywasm has nothing to do with are untouched."""
import io, os, resource, signal, socket
from collections import Counter
import wasidrv as wd
from harness import Check, scale
from wasidrv import ALL, CREAT, DIRECTORY, E, EXCL, R, TRUNC, en, openfds

END = ['return', 'exit', 'boom', 'error', 'nested']


class Boom(Exception):
    pass


class Sim:
    def __init__(self, job, r, tmp, stdin):
        self.job, self.r, self.tmp = job, r, tmp
        self.hist = []
        self.files, self.dirs = [], []
        for d in ('', 'd0', 'd1', 'd1/in'):
            p = os.path.join(tmp, d)
            os.makedirs(p, exist_ok=True)
        for k in range(6):
            for d in ('', 'd0', 'd1'):
                with open(os.path.join(tmp, d, f'f{k}'), 'w') as f:
                    f.write('x' * k)
        os.symlink('f0', os.path.join(tmp, 'ln'))
        os.symlink('nowhere', os.path.join(tmp, 'dangling'))
        os.symlink('loop', os.path.join(tmp, 'loop'))
        self.base = {k: self.ident(k) for k in openfds()}
        self.base = {k: v for k, v in self.base.items() if v}
        self.sent = {}
        dirs = {'/': tmp}
        if r.random() < .5:
            dirs['/other'] = os.path.join(tmp, 'd0')
        if r.random() < .4:                  # one more name for a directory is one more descriptor
            dirs['/again'] = r.choice([tmp, os.path.join(tmp, 'd0'), tmp + '/d1/../d0/'])
        if r.random() < .3:
            dirs['dev'] = '/dev'
        self.dev = None
        self.capture = r.random() < .7
        self.g = wd.Guest(dirs=dirs, capture=self.capture, stdin=stdin)
        # number -> (kind, inode, host path or None for the standard streams, tag)
        self.fds = {n: ('std', None, None, n) for n in range(3)}
        for n, (k, v) in enumerate(sorted(dirs.items())):
            self.fds[3 + n] = ('d', os.stat(v).st_ino, os.path.realpath(v), '')
            if k == 'dev':
                self.dev = 3 + n
        self.pipes = [self.g.wasi.fd[n].pipe for n in range(3)]
        self.token = 0
        self.gone = set()

    def ident(self, fd):
        try:
            st = os.fstat(fd)
            return st.st_dev, st.st_ino, os.readlink(f'/proc/self/fd/{fd}')
        except OSError:
            return None

    # ---- the monitor ----
    def check(self):
        want = Counter(v[2] for v in self.base.values()) + Counter(v[2] for v in self.sent.values())
        want += Counter(p for k, _, p, _ in self.fds.values() if p)
        have = Counter(openfds().values())
        have = Counter({k: n for k, n in have.items() if not k.endswith(f'/proc/{os.getpid()}/fd')})
        want = Counter({k: n for k, n in want.items() if not k.endswith(f'/proc/{os.getpid()}/fd')})
        if have != want:
            lost, more = want - have, have - want
            return f'host descriptors: {len(list(lost.elements()))} missing {list(lost)[:3]}, {len(list(more.elements()))} left over {list(more)[:3]}'
        for fd, v in list(self.base.items()) + list(self.sent.items()):
            if not v[2].endswith('/fd') and self.ident(fd) != v:
                return f'host descriptor {fd}, which pywasm does not own, was {v} and is {self.ident(fd)}'
        self.job.count('kernel_table_checks')
        g = self.g
        top = max(list(self.fds) + list(self.gone) + [0]) + 2
        for n in range(top):
            e, st = g.fdstat(n)
            if n not in self.fds:
                if e != E['BADF']:
                    return f'descriptor {n} is closed, fdstat gives {en(e)}'
                self.job.count('closed_descriptors_probed')
                continue
            k, ino, p, tag = self.fds[n]
            if e:
                return f'descriptor {n} is open ({tag or p}), fdstat gives {en(e)}'
            if st[0] != {'d': 3, 'f': 4, 'std': 2, 'c': 2}[k]:
                return f'descriptor {n} ({tag or p}) is of type {st[0]}'
            if k != 'std' and st[2] & R['FD_FILESTAT_GET']:
                e, s = g.fstat(n)
                if e or s['ino'] != ino:
                    return f'descriptor {n} should denote {p} (inode {ino}), filestat gives {en(e)} {s and s["ino"]}'
                self.job.count('identity_checks')
        return None

    def identify_streams(self):
        """which number writes to which captured stream"""
        g = self.g
        for n, (k, _, _, tag) in self.fds.items():
            if k == 'std' and self.capture and tag in (1, 2):
                self.token += 1
                t = f'<{self.token}>'.encode()
                e, k = g.write(n, [t])
                if e or not self.pipes[tag].getvalue().endswith(t):
                    return f'descriptor {n} is standard stream {tag}, writing to it gives {en(e)} and does not reach it'
                if self.pipes[3 - tag].getvalue().endswith(t):
                    return f'writing to standard stream {tag} also reaches the other'
                self.job.count('stream_identity_checks')
        return None

    # ---- operations ----
    def dirfds(self):
        return [n for n, v in self.fds.items() if v[0] == 'd' and v[3] != 'leaf']

    def open(self):
        r, g = self.r, self.g
        ds = self.dirfds()
        if not ds:
            return None
        d = r.choice(ds)
        root = self.fds[d][2]
        if root == '/dev':
            name, kind = r.choice(['null', 'zero']), 'c'
            e, fd = g.open(d, name, 0, R['FD_READ'] | R['FD_FILESTAT_GET'], 0)
        else:
            cand = [(f'f{k}', 'f') for k in range(6)]
            if root == self.tmp:
                cand += [('d0', 'd'), ('d1', 'd'), ('ln', 'f'), ('d1/in', 'd')]
            if root.endswith('d1/in'):
                cand = [('.', 'd')]
            name, kind = r.choice(cand)
            e, fd = g.open(d, name, DIRECTORY if kind == 'd' else r.choice([0, CREAT, TRUNC, CREAT | TRUNC]),
                           (ALL & ~R['FD_WRITE']) if kind == 'd' else r.choice([ALL, R['FD_READ'] | R['FD_FILESTAT_GET'], R['FD_WRITE'] | R['FD_FILESTAT_GET'], R['FD_FILESTAT_GET']]), r.choice([ALL, ALL, ALL & ~R['FD_FDSTAT_SET_FLAGS']]),
                       r.choice([0, 0, 4, 4, 1, 5]) if kind == 'f' else 0)
        self.hist.append(('open', d, name, en(e), fd if not e else None))
        if e:
            return f'opening {name} gives {en(e)}'
        if fd in self.fds:
            return f'path_open returned {fd}, which is open'
        p = os.path.realpath(os.path.join(root, name))
        self.fds[fd] = (kind, os.stat(p).st_ino, p, '')
        self.gone.discard(fd)
        self.job.count('opens')
        self.job.case(('open', kind, fd == max(self.fds)))
        return None

    def fail(self):
        """calls which must leave nothing behind"""
        r, g = self.r, self.g
        ds = [d for d in self.dirfds() if self.fds[d][2] == self.tmp]
        if not ds:
            return None
        d = r.choice(ds)
        # (name, oflags, base rights)
        name, fl, base = r.choice([
            ('nope', 0, ALL), ('f0', CREAT | EXCL, ALL), ('f0', DIRECTORY, R['FD_READ']), ('f0/x', 0, ALL), ('dangling', 0, ALL), ('loop', 0, ALL),
            ('..', 0, ALL), ('d0/../..', 0, ALL), ('/d0', DIRECTORY, R['FD_READ']), ('', 0, ALL), ('d0', 0, R['FD_WRITE']), ('d0', CREAT | EXCL, ALL), ('x' * 300, CREAT, ALL),
            ('d1/in/nope/f', CREAT, ALL), (b'\xff\xfe', CREAT, ALL), ('a\0b', CREAT, ALL), ('ln', CREAT | EXCL, ALL)])
        what = r.choice(['path_open', 'path_open', 'path_open', 'bad pointer', 'stat', 'readlink', 'utimes', 'rename', 'link', 'symlink', 'mkdir', 'rmdir', 'unlink', 'readdir'])
        if what == 'path_open':
            e, _ = g.open(d, name, fl, base, ALL)
        elif what == 'bad pointer':
            g.reset()
            b = b'f1'
            p = g.put(b)
            try:
                e = g.raw('path_open', [d, 1, p, 2, 0, R['FD_READ'], 0, 0, r.choice([131072, 131070, -4, 1 << 31])])
            except wd.Trap:
                e = 'trap'
        elif what == 'stat':
            e = g.stat(d, name if fl != CREAT else 'nope')[0]
        elif what == 'readlink':
            e = g.readlink(d, r.choice([name, 'f0', 'ln']))[0]
        elif what == 'utimes':
            e = g.utimes(d, r.choice(['nope', 'd0/../..', 'f0/x', 'f0', 'loop']), 1, 5, 5, 5)
        elif what == 'rename':
            e = g.rename(d, r.choice(['nope', '..', 'f0/x']), d, r.choice(['d1/in/q', 'new/x', '../x']))
        elif what == 'link':
            e = g.link(d, 1, r.choice(['nope', '..', 'd0', 'f0/x', 'f0']), d, r.choice(['d1/no/q', 'f1', 'd0']))
        elif what == 'symlink':
            e = g.symlink('f0', d, r.choice(['f1', 'no/x', '../x', '']))
        elif what == 'mkdir':
            e = g.path('path_create_directory', d, r.choice(['d0', 'f0/x', 'no/x', '../x', '']))
        elif what == 'rmdir':
            e = g.path('path_remove_directory', d, r.choice(['d1', 'f0', 'no', '..', '.', '']))
        elif what == 'unlink':
            e = g.path('path_unlink_file', d, r.choice(['d1', 'f0/x', 'no', '..', '.', '']))
        else:
            e = g.readdir(d, r.choice([0, 10, 300]), r.choice([0, 3, 99]))[0]
        self.hist.append(('failing', what, d, name[:20], fl, en(e)))
        self.job.count('failing_calls')
        self.job.case(('fail', what, e))
        if e == 0 and what in ('path_open', 'bad pointer'):
            return f'{what} of {name!r} succeeds'
        return None

    def close(self, fd=None):
        r, g = self.r, self.g
        if fd is None:
            fd = r.choice(list(self.fds) + list(self.gone)[:3] + [-1, 99, 1 << 31, max(self.fds, default=0) + 1])
        e = g.call('fd_close', fd)
        self.hist.append(('close', fd, en(e)))
        self.job.case(('close', fd in self.fds and self.fds[fd][0], fd in self.gone, e))
        self.job.count('closes' if fd in self.fds else 'closes_of_closed')
        if fd not in self.fds:
            return None if e == E['BADF'] else f'fd_close({fd}), not open, gives {en(e)}'
        if e:
            return f'fd_close({fd}) gives {en(e)}'
        del self.fds[fd]
        self.gone.add(fd)
        self.sentinel()
        return None

    def sentinel(self):
        """the embedder opens something of its own: it gets the host number which was freed just now"""
        if self.r.random() < .7 and len(self.sent) < 24:
            fd = os.open(os.path.join(self.tmp, 'f0'), os.O_RDONLY)
            self.sent[fd] = self.ident(fd)
            self.job.count('sentinels')

    def renumber(self):
        r, g = self.r, self.g
        odd = list(self.gone)[:2] + [-1, 99, max(self.fds, default=0) + 1]
        a = r.choice(list(self.fds) * 3 + odd) if self.fds else 99
        b = r.choice(list(self.fds) * 3 + odd + [a] * 2) if self.fds else 99
        before = self.about(a) if a in self.fds else None
        e = g.call('fd_renumber', a, b)
        self.hist.append(('renumber', a, b, en(e)))
        k = lambda x: self.fds[x][0] if x in self.fds else None
        self.job.case(('renumber', k(a), k(b), a == b, a < 3, b < 3, e))
        if a not in self.fds or b not in self.fds:
            return None if e == E['BADF'] else f'fd_renumber({a}, {b}), one of which is not open, gives {en(e)}'
        if e:
            return f'fd_renumber({a}, {b}) gives {en(e)}'
        self.job.count('renumbers')
        if a != b:
            self.fds[b] = self.fds.pop(a)
            self.gone.add(a)
            self.sentinel()
        after = self.about(b)
        return None if after == before else f'fd_renumber({a}, {b}): status, preopen length and name were {before}, are {after}'

    def about(self, fd):
        g = self.g
        e, st = g.fdstat(fd)
        g.reset()
        o = g.out(8)
        e2 = g.raw('fd_prestat_get', [fd, o])
        n = g.u(o + 4, 4) if e2 == 0 else 0
        q = g.out(n)
        e3 = g.raw('fd_prestat_dir_name', [fd, q, n])
        return e, st, e2, n, e3, g.get(q, n) if e3 == 0 else None

    def use(self):
        """reading and writing goes to the object the number denotes"""
        r, g = self.r, self.g
        fs = [n for n, v in self.fds.items() if v[0] == 'f']
        if not fs:
            return None
        n = r.choice(fs)
        p = self.fds[n][2]
        e, st = g.fdstat(n)
        if not st[2] & R['FD_WRITE'] or not st[2] & R['FD_SEEK'] or st[1] & 1:
            return None
        self.token += 1
        t = f'[{self.token}]'.encode()
        before = {v[2]: os.stat(v[2]).st_mtime_ns for v in self.fds.values() if v[0] == 'f' and v[2] != p}
        e, k = g.pwrite(n, [t], 0)
        with open(p, 'rb') as f:
            got = f.read(len(t))
        self.job.count('io_identity_checks')
        if e or got != t:
            return f'writing to descriptor {n} gives {en(e)}, {p} starts with {got!r}'
        return None

    def step(self):
        q = self.r.random()
        if q < .3:
            return self.open()
        if q < .5:
            return self.renumber()
        if q < .68:
            return self.close()
        if q < .88:
            return self.fail()
        if q < .95:
            return self.use()
        return self.identify_streams()

    def body(self, n):
        for _ in range(n):
            self.bad = self.step() or self.check()
            if self.bad:
                return

    def run(self, n, end):
        g, self.bad = self.g, None
        sig = None
        try:
            self.bad = self.check()
            if not self.bad:
                def prog():
                    self.body(n)
                    if self.bad:
                        return
                    if end == 'exit':
                        g.exit(7)
                    if end == 'boom':
                        g.boom()
                    if end == 'error':
                        raise Boom('raised by a host function')
                    if end == 'nested':
                        raise KeyboardInterrupt
                try:
                    res = g.main(prog)
                except wd.Blocked:
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    res = e
                if self.bad:
                    return
                self.hist.append(('end', end, str(res)[:60]))
                # everything opened for the guest is closed now, and only that
                for f in [f for f, v in self.fds.items() if v[0] != 'std']:
                    del self.fds[f]
                    self.gone.add(f)
                for _ in range(2):
                    self.sentinel()
                self.bad = self.check()
                if self.bad:
                    self.bad = f'after the program ended ({end}): {self.bad}'
                    return
                self.job.count('program_ends')
                self.job.case(('end', end, len(self.gone) > 6))
                # a second end closes nothing again
                try:
                    g.main(lambda: None)
                except Exception:
                    pass
                self.bad = self.check()
        except wd.Trap as e:
            self.bad = f'the guest was ended: {e}'
        except wd.Blocked as e:
            self.bad = str(e)
        finally:
            for fd in self.sent:
                try:
                    os.close(fd)
                except OSError:
                    pass


def crowd(job, r, n):
    """a program with very many descriptors"""
    with wd.Scratch() as tmp:
        for k in range(64):
            with open(os.path.join(tmp, f'f{k}'), 'w') as f:
                f.write(f'{k:02}')
        before = wd.openfds()
        g = wd.Guest(dirs={'/': tmp})
        say = lambda what: job.violation('crowd', f'with {n} descriptors: {what}'[:260], dict(n=n))
        own = {}

        def go():
            nonlocal own
            for k in range(n):
                e, fd = g.open(3, f'f{k % 64}', 0, ALL, ALL, 0)
                if e:
                    return say(f'opening number {k} gives {en(e)}')
                if fd in own or fd <= 3:
                    return say(f'opening gives {fd}, which is in use')
                own[fd] = k % 64
            live = list(own)
            r.shuffle(live)
            gone = []
            for fd in live[:n // 3]:
                e = g.call('fd_close', fd)
                if e:
                    return say(f'closing {fd} gives {en(e)}')
                del own[fd]
                gone.append(fd)
            live = list(own)
            for _ in range(n // 4):
                a, b = r.sample(live, 2)
                e = g.call('fd_renumber', a, b)
                if e:
                    return say(f'renumbering {a} to {b} gives {en(e)}')
                own[b] = own.pop(a)
                gone.append(a)
                live.remove(a)
            job.count('crowd_descriptors', n)
            for fd in gone:
                e, _ = g.pread(fd, [2], 0)
                if e != wd.E['BADF']:
                    return say(f'the closed descriptor {fd} gives {en(e)}')
            for fd, k in own.items():
                e, b = g.pread(fd, [2], 0)
                if (e, b) != (0, b'%02d' % k):
                    return say(f'descriptor {fd} reads {b} ({en(e)}), should be f{k}')
            held = len(wd.openfds()) - len(before)
            if held != len(own) + 1:
                return say(f'{held} host descriptors are open for {len(own)} files and a directory')
        try:
            g.main(go)
        except (wd.Trap, wd.Blocked) as e:
            return say(f'the guest was ended: {type(e).__name__} {e}')
        if wd.openfds() != before:
            say(f'{len(wd.openfds())} host descriptors are open after the program, {len(before)} before')


def deep(job, r):
    """long walks, over many directories and links, succeeding and failing: none leaves a host descriptor behind"""
    n = r.choice([3, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 300])
    with wd.Scratch() as tmp:
        at = tmp
        for k in range(n):
            at += '/d'
            os.mkdir(at)
            if k % 7 == 0:
                os.symlink('d/' * r.choice([1, 2, 3]) + r.choice(['f', 'none', 'd', '../d', '..']), at + '/l')
        with open(at + '/f', 'w') as f:
            f.write('f')
        os.symlink('f', at + '/s')
        for k in range(45):
            os.symlink(f'c{k + 1}' if k < 44 else 'd', f'{tmp}/c{k}')
        before = wd.openfds()
        g = wd.Guest(dirs={'/': tmp})
        mine = wd.openfds()
        names = ['d/' * n + 'f', 'd/' * n + 's', 'd/' * n + 'none', 'd/' * n, 'd/' * (n + 1), 'd/' * (n // 2) + '../' * (n // 2) + 'd', 'd/' * n + '../' * n + '..',
                 'd/' * n + 'f/', 'd/' * n + 'f/x', 'c0', 'c0/', 'c10/d', 'c20/x', 'c4/d/d', 'c44/' + 'd/' * (n - 2), 'd/' * (n // 2) + 'l', 'd/l', 'd/l/', 'd/l/d']
        r.shuffle(names)
        for nm in names:
            foll = r.choice([0, 1])
            other = r.choice(names)
            for what, fn in (('path_open', lambda: g.open(3, nm, r.choice([0, wd.DIRECTORY]), R['FD_READ'], 0, 0, foll)),
                             ('path_filestat_get', lambda: g.stat(3, nm, foll)[0]),
                             ('path_filestat_set_times', lambda: g.utimes(3, nm, foll, 5, 5, 5)),
                             ('path_readlink', lambda: g.readlink(3, nm, 50)[0]),
                             ('path_create_directory', lambda: g.path('path_create_directory', 3, nm)),
                             ('path_remove_directory', lambda: g.path('path_remove_directory', 3, nm + '/x')),
                             ('path_unlink_file', lambda: g.path('path_unlink_file', 3, nm + 'x')),
                             ('path_symlink', lambda: g.symlink('x', 3, nm)),
                             ('path_link', lambda: g.link(3, foll, nm, 3, other)),
                             ('path_rename', lambda: g.rename(3, nm + 'x', 3, other))):
                e = fn()
                if what == 'path_open':
                    e, fd = e
                    if e == 0:
                        g.call('fd_close', fd)
                job.count('deep_walks')
                job.count('deep_walks_succeeding', e == 0)
                now = wd.openfds()
                if now != mine:
                    return job.violation(f'deep:{what}', f'{what} of a name of {nm.count("/")} parts ({en(e)}) leaves {len(now)} host descriptors open instead of {len(mine)}',
                                         dict(name=nm, depth=n, errno=en(e)))
        job.case(('deep', n))
        g.close()
        if wd.openfds() != before:
            job.violation('deep:end', 'host descriptors are left over', dict(depth=n))


def work(job):
    wd.drop()
    r = job.rng
    most = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 100
    for n in [(260, 1100), (520,), (270, 300), (2200,)][job.n % 4]:
        if n < most:
            crowd(job, r, n)
    for _ in range(scale(5, 60)):
        deep(job, r)
    # the standard streams of this worker: real files, of which pywasm may not close any
    for k in range(scale(150, 6000)):
        if job.late():
            break
        with wd.Scratch() as tmp:
            s = Sim(job, r, tmp, b'input')
            s.run(r.choice([5, 25, 40]), r.choice(END))
            if s.bad:
                import re
                job.violation(re.sub(r'\d+', 'N', ' '.join(s.bad.split('[')[0].replace(tmp, '').split()[:5]))[:60], s.bad[:300], dict(history=[[str(y) for y in x] for x in s.hist], capture=s.capture, problem=s.bad))
            s.g.close()
            job.count('histories')


def main():
    c = Check('W05', 'a distinct (operation, kinds of descriptors involved, outcome); after every operation all guest numbers and the whole host descriptor table are compared with the model')
    c.run(work)
    c.require('kernel_table_checks', 10000)
    c.require('closes', 1500)
    c.require('renumbers', 1500)
    c.require('failing_calls', 2000)
    c.require('program_ends', 500)
    c.require('sentinels', 1000)
    c.require('crowd_descriptors', 500)
    c.require('deep_walks', 5000)
    c.require('deep_walks_succeeding', 400)
    c.finish()
