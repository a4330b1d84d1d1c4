"""Random histories of WASI path operations on a guest tree, mirrored by the kernel on a twin tree (twin.py), compared after each step."""
import os, posixpath
import twin as tw
import wasidrv as wd
from twin import DOTS, ESCAPE, Twin, dotted
from wasidrv import ALL, APPEND, CREAT, DIRECTORY, E, EXCL, R, TRUNC, en, tree, treediff

OPS = ['open', 'open', 'open', 'mkdir', 'mkdir', 'rmdir', 'unlink', 'rename', 'rename', 'link', 'symlink', 'symlink', 'readlink', 'stat',
       'stat', 'utimes', 'write', 'close', 'fdcheck', 'truncfd', 'host']
COMP = ['a', 'b', 'c', 'd', 'é', 'x.y', '..z', 'a b']


class Sim:
    def __init__(self, job, r, guest, pairs, outside=(), hostile=False, tag=''):
        """pairs: guest fd of each preopen -> (guest-side host directory, twin directory)"""
        self.job, self.r, self.g, self.hostile, self.tag = job, r, guest, hostile, tag
        self.pairs, self.outside = pairs, list(outside)
        self.tw = Twin(None)
        for fd, (_, b) in pairs.items():
            self.tw.fds[fd] = os.open(b, os.O_RDONLY | os.O_DIRECTORY)
        self.kind = {fd: 'dir' for fd in pairs}
        self.hist = []
        self.seen_escape = self.seen_ok = 0
        self.before_out = [tree(o, True) for o in self.outside]

    # ---- generators ----
    def pick(self, new=False):
        """a directory descriptor and a name for it: mostly one that exists, or a new one in a directory that exists"""
        r = self.r
        fd = self.dirfd()
        if r.random() < .35:
            return fd, self.name()
        root = os.readlink(f'/proc/self/fd/{self.tw.fds[fd]}')
        have, dirs = [], ['']
        for top, ds, fs in os.walk(root):
            rel = os.path.relpath(top, root)
            for x in ds + fs:
                if not (rel + x).isprintable():
                    continue            # no name a guest can give
                q = x if rel == '.' else rel + '/' + x
                have.append(q)
                if x in ds:
                    dirs.append(q + '/')
        if new or not have:
            s = r.choice(dirs) + r.choice(COMP[:5])
        else:
            s = r.choice(have)
        if r.random() < .1:
            s += '/'
        if r.random() < .05 and '/' in s:
            s = s.replace('/', r.choice(['//', '/./']), 1)
        if r.random() < .06 and dirs[1:]:
            d = r.choice(dirs[1:])
            s = d + '../' * d.count('/') + s
        if r.random() < .02:
            s = '/' + s         # absolute, and still no name for what is inside
        return fd, s

    def name(self, deep=3):
        r = self.r
        q = r.random()
        if q < .03:
            return r.choice(['', '.', './', 'n' * 256, 'n' * 255, 'a/' * 30 + 'b', './/'])
        parts = [r.choice(COMP[:5] if r.random() < .9 else COMP) for _ in range(r.choice([1, 1, 1, 2, 2, 3][:2 * deep]))]
        if r.random() < .12:
            parts.insert(r.randint(0, len(parts)), '.')
        if r.random() < .12:
            k = r.randint(1, len(parts))
            parts.insert(k, '..')
            if r.random() < .7:
                parts.insert(k + 1, r.choice(COMP[:4]))
        if self.hostile and r.random() < .35:
            parts = self.nasty(parts)
        elif r.random() < .02:
            parts = ['..'] + parts
        s = '/'.join(parts)
        if r.random() < .06:
            s = s.replace('/', '//', 1)
        if r.random() < .1:
            s += r.choice(['/', '//', '/.'])
        return s

    def nasty(self, parts):
        r = self.r
        up = ['..'] * r.randint(1, 4)
        outs = [posixpath.basename(o) for o in self.outside] or ['x']
        k = r.random()
        if k < .2:
            return up + [r.choice(outs)] + (parts[:1] if r.random() < .5 else ['secret'])
        if k < .3:
            return [r.choice(self.outside or ['/tmp/none'])] + (['secret'] if r.random() < .5 else [])       # an absolute name
        if k < .5:
            return parts[:1] + ['..', '..', r.choice(outs), 'secret']
        if k < .8:
            return [r.choice(['evil', 'evil2', 'out', 'rel', 'loop', 'chain', 'abs'])] + (['secret'] if r.random() < .6 else parts[:1] if r.random() < .5 else [])
        if k < .9:
            return ['d', 'up'] + r.choice([['b'], ['..', 'secret'], [r.choice(outs), 'secret'], []])
        a = r.choice(list(self.pairs.values()))[0]
        return [r.choice([a, a + '/../' + r.choice(outs), posixpath.basename(a) + 'x'])] + ['secret']

    def dirfd(self):
        r = self.r
        d = [f for f, k in self.kind.items() if k == 'dir']
        if r.random() < .55:
            return r.choice(list(self.pairs))
        return r.choice(d)

    # ---- one step ----
    def step(self):
        r, g = self.r, self.g
        op = r.choice(OPS)
        if op in ('write', 'close', 'fdcheck', 'truncfd'):
            fds = [f for f in self.kind if f not in self.pairs]
            if not fds:
                return None
            return getattr(self, 'do_' + op)(r.choice(fds))
        return getattr(self, 'do_' + op)()

    def check(self, what, esc, got, exp, dots=False, also=()):
        """errno as expected?"""
        self.job.count('path_ops')
        if esc == ESCAPE:
            self.seen_escape += 1
            self.job.count('escape_attempts')
            if got == 0:
                return f'{what} leads out of the directory but succeeds'
            return None
        if exp == 0:
            self.seen_ok += 1
            self.job.count('path_ops_succeeding')
        else:
            self.job.count('path_ops_failing')
        if got == exp or got in also:
            return None
        if dots and exp and got in DOTS:
            return None
        if exp and got and esc == 'loop':
            return None
        return f'{what} gives {en(got)}, should give {en(exp)}'

    def one(self, what, fd, name, foll, guest, kernel, dots=False, also=()):
        """an operation on one name; returns (problem, guest value, kernel value)"""
        esc = self.tw.walk(self.tw.fds[fd], name, foll)
        res = guest()
        ge, gv = res if isinstance(res, tuple) else (res, None)
        ke, kv = (None, None) if esc == ESCAPE else self.tw.run(lambda: kernel(self.tw.fds[fd]))
        self.hist.append((what, fd, name[:80], en(ge)))
        self.job.case((what, self.tag, esc, ge, foll, len(name.split('/')), name[-1:] == '/', '..' in name))
        return self.check(f'{what}({fd}, {name[:80]!r})', esc, ge, ke, dots, also), (gv if ge == 0 else None), (kv if ke == 0 else None)

    def do_mkdir(self):
        fd, n = self.pick(True)
        return self.one('path_create_directory', fd, n, None, lambda: self.g.path('path_create_directory', fd, n),
                        lambda d: os.mkdir(n, dir_fd=d), dotted(n))[0]

    def do_rmdir(self):
        fd, n = self.pick()
        return self.one('path_remove_directory', fd, n, None, lambda: self.g.path('path_remove_directory', fd, n),
                        lambda d: os.rmdir(n, dir_fd=d), dotted(n))[0]

    def do_unlink(self):
        fd, n = self.pick()
        return self.one('path_unlink_file', fd, n, None, lambda: self.g.path('path_unlink_file', fd, n),
                        lambda d: os.unlink(n, dir_fd=d), dotted(n))[0]

    def do_readlink(self):
        fd, n = self.pick()
        k = self.r.choice([0, 1, 2, 3, 5, 300])
        bad, a, b = self.one('path_readlink', fd, n, False, lambda: self.g.readlink(fd, n, k), lambda d: os.fsencode(os.readlink(n, dir_fd=d)))
        if not bad and a is not None and a != b[:k]:
            bad = f'path_readlink({n!r}, {k}) reads {a!r}, the link is {b!r}'
        return bad

    def stats(self, what, a, b):
        if a is None or b is None:
            return None
        t = {0o040000: 'dir', 0o100000: 'file', 0o120000: 'link'}.get(b.st_mode & 0o170000, 'unknown')
        if a['type'] != wd.FT[t]:
            return f'{what}: type {a["type"]}, is a {t}'
        if a['nlink'] != b.st_nlink or (t != 'dir' and a['size'] != b.st_size):
            return f'{what}: links {a["nlink"]} size {a["size"]}, should be {b.st_nlink} and {b.st_size}'
        x, y = self.names_of(0, a['ino']), self.names_of(1, b.st_ino)
        if b.st_nlink and [n for n, _ in x] != [n for n, _ in y]:
            return f'{what}: inode is that of {[n for n, _ in x]}, should be that of {[n for n, _ in y]}'
        for _, st in x[:1]:
            if (a['atim'] if t == 'file' else st.st_atime_ns, a['mtim'], a['ctim']) != (st.st_atime_ns, st.st_mtime_ns, st.st_ctime_ns):
                return f'{what}: times {a["atim"]} {a["mtim"]} {a["ctim"]}, are {st.st_atime_ns} {st.st_mtime_ns} {st.st_ctime_ns}'
        return None

    def names_of(self, side, ino):
        out = []
        for fd, p in sorted(self.pairs.items()):
            root = p[side]
            for top, ds, fs in os.walk(root):
                for n in [''] + ds + fs if top == root else ds + fs:
                    q = os.path.join(top, n) if n else root
                    st = os.lstat(q)
                    if st.st_ino == ino:
                        out.append((f'{fd}:{os.path.relpath(q, root)}', st))
        return sorted(out, key=lambda x: x[0])

    def do_stat(self):
        fd, n = self.pick()
        foll = self.r.choice([0, 1])
        bad, a, b = self.one('path_filestat_get', fd, n, bool(foll), lambda: self.g.stat(fd, n, foll), lambda d: os.stat(n, dir_fd=d, follow_symlinks=bool(foll)))
        return bad or self.stats(f'path_filestat_get({fd}, {n!r}, follow={foll})', a, b)

    def do_utimes(self):
        r = self.r
        fd, n = self.pick()
        foll = r.choice([0, 1])
        at, mt = (r.choice([0, 1, 10**9, 1234567890123456789, 15 * 10**18 // 10 * 10]) for _ in (0, 1))
        fl = r.choice([0, 1, 4, 5, 5, 2, 8, 10, 9, 6, 3, 12, 15])
        if fl & 3 == 3 or fl & 12 == 12:
            esc = self.tw.walk(self.tw.fds[fd], n, bool(foll))
            e = self.g.utimes(fd, n, foll, at, mt, fl)
            self.hist.append(('utimes', fd, n, fl, en(e)))
            return None if e == E['INVAL'] or (e and esc == ESCAPE) else f'contradictory time flags {fl} give {en(e)}'

        def kernel(d):
            st = os.stat(n, dir_fd=d, follow_symlinks=bool(foll))
            os.utime(n, ns=(at if fl & 1 else st.st_atime_ns, mt if fl & 4 else st.st_mtime_ns), dir_fd=d, follow_symlinks=bool(foll))
            return os.stat(n, dir_fd=d, follow_symlinks=bool(foll))
        import time
        t0 = time.time_ns()
        esc0 = self.tw.walk(self.tw.fds[fd], n, bool(foll))
        seen = {}

        def guest():
            # looking at the tree in between would itself change access times
            old = self.g.stat(fd, n, foll)[1] if esc0 != ESCAPE else None
            e = self.g.utimes(fd, n, foll, at, mt, fl)
            seen['all'] = (old,) + (self.g.stat(fd, n, foll) if e == 0 else (0, None))
            return e
        bad, _, b = self.one('path_filestat_set_times', fd, n, bool(foll), guest, kernel)
        if bad or b is None:
            return bad
        old, e, a = seen['all']
        t1 = time.time_ns()
        if e:
            return f'path_filestat_get after set_times gives {en(e)}'
        for f, v, now, k in (('atim', at, 2, 1), ('mtim', mt, 8, 4)):
            if f == 'atim' and a['type'] == wd.FT['link']:
                continue        # looking a link up is an access
            if fl & k and a[f] != v:
                return f'{f} of {n!r} set to {v}, is {a[f]}'
            if fl & now and not t0 - 2 * 10**9 <= a[f] <= t1 + 2 * 10**9:
                return f'{f} of {n!r} set to now, is {a[f]}'
            if not fl & (k | now) and old and a[f] != old[f]:
                return f'{f} of {n!r} was {old[f]}, changed to {a[f]} unasked'
        return None

    def do_rename(self):
        return self.two('path_rename')

    def do_link(self):
        return self.two('path_link')

    def two(self, what):
        r = self.r
        (f1, n1), (f2, n2) = self.pick(), self.pick(r.random() < .6)
        foll = r.choice([0, 1])
        a, b = self.tw.fds[f1], self.tw.fds[f2]
        w1 = self.tw.walk(a, n1, None if what == 'path_rename' else bool(foll))
        w2 = self.tw.walk(b, n2, None)
        esc = ESCAPE if ESCAPE in (w1, w2) else 'loop' if 'loop' in (w1, w2) else 'in'
        if what == 'path_rename':
            ge = self.g.rename(f1, n1, f2, n2)
            k = lambda: os.rename(n1, n2, src_dir_fd=a, dst_dir_fd=b)
        else:
            ge = self.g.link(f1, foll, n1, f2, n2)
            k = lambda: os.link(n1, n2, src_dir_fd=a, dst_dir_fd=b, follow_symlinks=bool(foll))
        ke = None if esc == ESCAPE else self.tw.run(k)[0]
        self.hist.append((what, f1, n1[:60], f2, n2[:60], foll, en(ge)))
        self.job.case((what, self.tag, esc, ge, foll, len(n1.split('/')), len(n2.split('/'))))
        also = ()
        if ke and ge:
            # with two names in error the order in which they are looked at is not defined
            also = {self.alone(a, n1), self.alone(b, n2)} - {0}
        return self.check(f'{what}({f1}, {n1[:60]!r}, {f2}, {n2[:60]!r}, follow={foll})', esc, ge, ke, dotted(n1) or dotted(n2), also)

    def alone(self, d, n):
        """what is wrong with the directory part of this name"""
        head = n.rstrip('/').rpartition('/')[0]
        e = self.tw.run(lambda: os.stat((head or '.') + '/', dir_fd=d))[0]
        if not e and not n:
            e = E['NOENT']
        return e

    def do_symlink(self):
        r = self.r
        fd, n = self.pick(r.random() < .8)
        t = r.choice([self.name(2), self.name(), '../' + self.name(1), self.name(1), n])
        if r.random() < .05:
            t = '/' + t
        d = self.tw.fds[fd]
        esc = self.tw.walk(d, n, None)
        flat = posixpath.normpath(posixpath.join(posixpath.dirname(n), t))
        out = t.startswith('/') or flat == '..' or flat.startswith('../')
        ge = self.g.symlink(t, fd, n)
        self.hist.append(('path_symlink', t[:60], fd, n[:60], en(ge)))
        head = posixpath.dirname(n)
        # where the directory part goes through links or '..', what "leads out" means textually is not certain
        vague = '..' in head.split('/') or any(os.path.islink(os.path.join(self.tw.where(d), *head.split('/')[:k + 1])) for k in range(len(head.split('/'))) if head)
        self.job.case(('symlink', self.tag, esc, out, ge, vague))
        if esc == ESCAPE:
            return self.check(f'path_symlink(.., {fd}, {n!r})', esc, ge, None)
        if ge == E['PERM'] and (out or vague):
            return None
        if out and not vague:
            if ge == 0:
                return f'path_symlink({t!r}, {n!r}) makes a link which leads out'
            return None
        ke = self.tw.run(lambda: os.symlink(t, n, dir_fd=d))[0]
        return self.check(f'path_symlink({t[:60]!r}, {fd}, {n[:60]!r})', esc, ge, ke, dotted(n), () if t else range(1, 77))

    def slashed(self, fd, n):
        """whether a link on the way ends with a slash: 'name/' is then what would be made"""
        at = os.path.join(os.readlink(f'/proc/self/fd/{self.tw.fds[fd]}'), n)
        for _ in range(41):
            if not os.path.islink(at):
                return False
            t = os.readlink(at)
            if t.endswith(('/', '/.', '/..')):
                return True
            at = os.path.join(os.path.dirname(at), t)
        return False

    def do_open(self):
        r = self.r
        fd, n = self.pick(r.random() < .4)
        of = r.choice([0, 0, CREAT, CREAT, CREAT | EXCL, TRUNC, CREAT | TRUNC, DIRECTORY, DIRECTORY, DIRECTORY | TRUNC, EXCL, CREAT | EXCL | TRUNC, DIRECTORY | CREAT])
        foll = r.choice([0, 1])
        rw = r.choice([R['FD_READ'], R['FD_READ'], R['FD_WRITE'], R['FD_READ'] | R['FD_WRITE'], 0])
        if of & DIRECTORY and r.random() < .8:
            rw &= ~R['FD_WRITE']
        base = ALL & ~(R['FD_READ'] | R['FD_WRITE']) | rw
        ff = r.choice([0, 0, 0, APPEND])
        kf = {0: os.O_RDONLY, R['FD_READ']: os.O_RDONLY, R['FD_WRITE']: os.O_WRONLY}.get(rw, os.O_RDWR)
        kf |= (of & CREAT and os.O_CREAT) | (of & DIRECTORY and os.O_DIRECTORY) | (of & EXCL and os.O_EXCL) | (of & TRUNC and os.O_TRUNC)
        kf |= (ff & APPEND and os.O_APPEND) | (0 if foll else os.O_NOFOLLOW)
        mode = None if of & CREAT and of & EXCL else bool(foll)
        also = ()
        if of & CREAT and (n.rstrip('/') != n or of & DIRECTORY or self.slashed(fd, n)):
            also = range(1, 77)     # creating 'name/' never succeeds; which errno is the host's affair
        bad, new, k = self.one(f'path_open[{of},{foll},{ff}]', fd, n, mode, lambda: self.g.open(fd, n, of, base, ALL, ff, foll),
                               lambda d: os.open(n, kf, 0o644, dir_fd=d), dotted(n) and bool(of & CREAT), also if also else ())
        if bad or new is None or k is None:
            if k is not None:
                os.close(k)
            return bad
        self.hist[-1] += (new,)
        if new in self.tw.fds:
            os.close(k)
            return f'path_open returned {new}, which is open already'
        self.tw.fds[new] = k
        import stat
        self.kind[new] = 'dir' if stat.S_ISDIR(os.fstat(k).st_mode) else 'file'
        self.rw = getattr(self, 'rw', {})
        self.rw[new] = rw
        e, st = self.g.fdstat(new)
        if e or st[0] != wd.FT[self.kind[new]] or st[1] != ff:
            return f'path_open made a {self.kind[new]}, fdstat says {en(e)} {st}'
        return self.do_fdcheck(new)

    def do_write(self, fd):
        if self.kind[fd] == 'dir' or not self.rw[fd] & R['FD_WRITE']:
            return None
        data = bytes(self.r.choice(b'xyz') for _ in range(self.r.randint(0, 5)))
        e, n = self.g.write(fd, [data])
        self.hist.append(('fd_write', fd, data, en(e)))
        os.write(self.tw.fds[fd], data)
        return None if (e, n) == (0, len(data)) else f'fd_write({fd}, {data}) gives {en(e)} {n}'

    def do_truncfd(self, fd):
        if self.kind[fd] == 'dir' or not self.rw[fd] & R['FD_WRITE']:
            return None
        n = self.r.randint(0, 9)
        e = self.g.call('fd_filestat_set_size', fd, n)
        self.hist.append(('fd_filestat_set_size', fd, n, en(e)))
        os.ftruncate(self.tw.fds[fd], n)
        return None if e == 0 else f'fd_filestat_set_size gives {en(e)}'

    def do_close(self, fd):
        e = self.g.call('fd_close', fd)
        self.hist.append(('fd_close', fd, en(e)))
        os.close(self.tw.fds.pop(fd))
        del self.kind[fd]
        return None if e == 0 else f'fd_close({fd}) gives {en(e)}'

    def do_fdcheck(self, fd):
        """the descriptor still denotes the file it was opened on"""
        self.job.count('descriptor_identity_checks')
        k = self.tw.fds[fd]
        e, a = self.g.fstat(fd)
        self.hist.append(('fd_filestat_get', fd, en(e)))
        if e:
            return f'fd_filestat_get({fd}) gives {en(e)}'
        bad = self.stats(f'fd_filestat_get({fd})', a, os.fstat(k))
        if bad:
            return bad
        if self.kind[fd] == 'file' and self.rw[fd] & R['FD_READ']:
            e, d = self.g.pread(fd, [100], 0)
            if (e, d) != (0, os.pread(k, 100, 0)):
                return f'fd_pread({fd}) gives {en(e)} {d}, the file is {os.pread(k, 100, 0)}'
        if self.kind[fd] == 'dir':
            e, used, buf = self.g.readdir(fd, 4096)
            if e:
                return f'fd_readdir({fd}) gives {en(e)}'
            names, p = [], 0
            while p + 24 <= used:
                n = int.from_bytes(buf[p + 16:p + 20], 'little')
                names.append(buf[p + 24:p + 24 + n])
                p += 24 + n
            real = sorted(os.fsencode(x) for x in os.listdir(k))
            if used < 4096 and sorted(x for x in names if x not in (b'.', b'..')) != real:
                return f'fd_readdir({fd}) lists {names}, should be {real}'
        return None

    def do_host(self):
        """another process changes the tree; the same is done to the twin"""
        r = self.r
        a, b = r.choice(list(self.pairs.values()))
        tops = [os.path.relpath(t, a) for t, _, _ in os.walk(a)]
        top = r.choice(tops)
        n = os.path.join(top, r.choice(COMP[:5]))
        what = r.choice(['link', 'link', 'link', 'mkdir', 'file', 'odd', 'move', 'remove'])
        arg = None
        if what == 'link':
            arg = r.choice([b't\xff', b'\xc3', b'a/\xed\xa0\x80', b'/a', b'/', b'../..', b'..', b'../../x', b'.', b'a', b'b/', b'x' * 255, b'y' * 256,
                            b'a/' * 1000, b'./' * 1500 + b'a', b'a/../' * 3 + b'b', b'//', b'..//a', 'é'.encode(), b'a\nb', b'\x7f'])
        if what == 'odd':
            what, n = r.choice(['mkdir', 'file', 'link']), os.path.join(top, r.choice(['\udcff', 'a\udc80b', 'new\nline', '\udced\udca0\udc80']))
            arg = b'a'
        if what == 'move':
            arg = os.path.join(r.choice(tops), r.choice(COMP[:5]))
        res = []
        for root in (a, b):
            p = os.path.normpath(os.path.join(root, n))
            try:
                if what == 'link':
                    os.symlink(arg, os.fsencode(p))
                elif what == 'mkdir':
                    os.mkdir(p)
                elif what == 'file':
                    os.close(os.open(p, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o644))
                elif what == 'move':
                    os.rename(p, os.path.normpath(os.path.join(root, arg)))
                elif os.path.isdir(p) and not os.path.islink(p):
                    os.rmdir(p)
                else:
                    os.unlink(p)
                res.append(0)
            except OSError as e:
                res.append(e.errno)
        assert res[0] == res[1], ('the trees differ', what, n, arg, res)
        self.hist.append(('host', what, ascii(n), ascii(arg)[:60], res[0]))
        self.job.count('host_changes', res[0] == 0)
        self.job.case(('host', what, res[0]))

    def compare(self):
        """whole trees, and everything outside"""
        for fd, (a, b) in self.pairs.items():
            d = treediff(tree(a), tree(b))
            if d:
                return f'the tree of descriptor {fd} differs from the model (guest vs model): {d}'
        for o, was in zip(self.outside, self.before_out):
            d = treediff(tree(o, True), was)
            if d:
                return f'something outside changed ({posixpath.basename(o)}; now vs before): {d}'
        return None

    def run(self, steps):
        """a problem (text) or None"""
        try:
            for _ in range(steps):
                try:
                    bad = self.step()
                except (wd.Trap, wd.Blocked) as e:
                    bad = f'the guest was ended: {type(e).__name__} {e}'
                bad = bad or self.compare()
                self.job.evals += 1
                if bad:
                    return bad
            return None
        finally:
            self.tw.close()
