import os, posixpath
import wasidrv as wd
from harness import Check, scale
from pathsim import Sim
from wasidrv import CREAT, DIRECTORY, E, EXCL, TRUNC, en, tree, treediff

NAMES = ['/', '.', '/p', 'p', '/a/b', './x', 'tmp', '/tmp', '/g', '/g0', '/g/0', 'é', '/..', 'a b', '//']


def secrets(d):
    """what a guest must not get at"""
    os.makedirs(os.path.join(d, 'sub'))
    with open(os.path.join(d, 'secret'), 'w') as f:
        f.write('secret content')
    with open(os.path.join(d, 'sub', 'deep'), 'w') as f:
        f.write('deep secret')
    os.symlink('secret', os.path.join(d, 'ln'))


def traps(d, out, rel):
    """symbolic links a host tree may contain; rel leads from d's parent to the outside directory"""
    ln = lambda t, n: os.symlink(t, os.path.join(d, n))
    os.mkdir(os.path.join(d, 'd'))
    with open(os.path.join(d, 'd', 'b'), 'w') as f:
        f.write('inner')
    with open(os.path.join(d, 'a'), 'w') as f:
        f.write('file')
    ln('../' + rel, 'evil')
    ln('../' + rel + '/secret', 'evil2')
    ln(out, 'abs')
    ln(out + '/secret', 'out')
    ln('chain2', 'chain')
    ln('d/up/evil', 'chain2')
    ln('loop', 'loop')
    ln('d/b', 'rel')
    ln('./d/../d', 'inner')
    ln('..', 'd/up')
    ln('../..', 'd/up2')
    ln('up2/' + rel, 'd/evil3')
    ln('/', 'slash')
    ln('../' + rel + '/newfile', 'dangling')
    ln('missing/target', 'void')


def histories(job):
    wd.drop()
    r = job.rng
    for k in range(scale(60, 2500)):
        if job.late():
            break
        with wd.Scratch() as tmp:
            n = r.choice([1, 1, 2, 3])
            names = r.sample(NAMES, n)
            dirs, pairs, hosts = {}, {}, []
            G, T = os.path.join(tmp, 'G'), os.path.join(tmp, 'T')
            os.makedirs(G)
            os.makedirs(T)
            out = [os.path.join(G, 'out'), os.path.join(G, 'g0x')]
            for o in out:
                secrets(o)
            for q in range(n):
                hosts.append((os.path.join(G, f'g{q}'), os.path.join(T, f'g{q}')))
                for d in hosts[-1]:
                    os.mkdir(d)
                    traps(d, out[0], r.choice(['out', 'out']))
            # preopens are numbered in the order of their (normalised) guest names
            norm = sorted({os.path.normpath(x): h for x, h in zip(names, hosts)}.items())
            dirs = {x: h[0] for x, h in zip(names, hosts)}
            for q, (nm, h) in enumerate(norm):
                pairs[3 + q] = h
            if r.random() < .3:      # given by a name relative to the working directory
                os.chdir(G)
                dirs = {x: r.choice([os.path.relpath(h), './' + os.path.relpath(h) + '/', h + '/.']) for x, h in dirs.items()}
            g = wd.Guest(dirs=dirs)
            s = Sim(job, r, g, pairs, outside=out, hostile=True, tag='hostile')
            bad = s.run(80)
            os.chdir('/')
            g.close()
            job.count('histories')
            if bad:
                job.violation('history:' + bad.split('(')[0].split(':')[0][:50], bad[:300], dict(preopens=list(dirs.items()), history=s.hist[-100:], problem=bad))


def matrix(job):
    """every path operation x every escape, one by one, on a fresh tree"""
    wd.drop()
    r = job.rng
    todo = []
    for name in NAMES:
        for esc in ESCAPES:
            for op in MATRIX:
                todo.append((name, esc, op))
    r.shuffle(todo)
    todo = [t for k, t in enumerate(todo)][:scale(450, 10 ** 6)] if scale(0, 1) == 0 else todo[job.n::job.total]
    for name, esc, op in todo:
        if job.late():
            break
        with wd.Scratch() as tmp:
            G = os.path.join(tmp, 'G')
            h = os.path.join(G, 'g0')
            os.makedirs(h)
            out = [os.path.join(G, 'out'), os.path.join(G, 'g0x')]
            for o in out:
                secrets(o)
            traps(h, out[0], 'out')
            path = esc.replace('@OUT', out[0]).replace('@HOME', h)
            was = [tree(o, True) for o in out], tree(h)
            g = wd.Guest(dirs={name: h})
            try:
                e, got = MATRIX[op](g, path)
            except (wd.Trap, wd.Blocked) as x:
                e, got = 'ended', str(x)
            now = [tree(o, True) for o in out], tree(h)
            job.case((name, esc, op))
            job.count('escape_matrix')
            bad = None
            if e == 0:
                bad = f'{op} {esc!r} under preopen {name!r} succeeds ({str(got)[:60]})'
            elif e == 'ended':
                bad = f'{op} {esc!r} under preopen {name!r} ends the guest: {got}'
            for a, b in zip(was[0] + [was[1]], now[0] + [now[1]]):
                if treediff(a, b):
                    bad = f'{op} {esc!r} under preopen {name!r} ({en(e)}) changed {treediff(a, b)}'
            g.close()
            if bad:
                job.violation('escape:' + op, bad, dict(preopen=name, path=path, op=op, errno=en(e)))


# leading out as a directory part, or as a followed last part
ESCAPES = ['/a', '/d/b', '/d', '/rel', '//a', '/./d', '/nothing', '../out/secret', '../out', '..', '../g0x/secret', '../../G/out/secret', 'd/../../out/secret', 'd/../../g0x', './../out/secret', 'd/up/../out/secret',
           'evil/secret', 'evil/', 'evil/new', 'abs/secret', 'abs/', 'chain/secret', 'chain/', 'd/evil3/secret', 'd/up2/out/secret', 'slash/tmp', '@OUT/secret', '@OUT',
           '@HOME/../out/secret', '@HOME/a', '/', '//', 'inner/../../out/secret', 'inner/up/evil/secret', 'evil//secret', 'evil/../g0x/secret', './/../g0x/secret',
           'd/up/../g0x', 'inner/up2/out/new', '..//out', 'd/../d/../../out', '../g0/a', '../g0', 'evil/ln', 'evil/sub/deep', 'abs/new', 'evil/../g0/a']
FOLLOWED = ['evil', 'evil2', 'abs', 'out', 'chain', 'chain2', 'd/evil3', 'd/up2', 'slash', 'dangling', 'inner/evil3', 'd/up/out']


def put(g, n):
    """open for writing and write"""
    e, fd = g.open(3, n, CREAT, follow=1)
    if e == 0:
        g.write(fd, [b'xx'])
    return e, fd


MATRIX = {
    'open': lambda g, n: g.open(3, n, base=wd.R['FD_READ']),
    'open dir': lambda g, n: g.open(3, n, DIRECTORY, base=wd.R['FD_READ'] | wd.R['FD_READDIR']),
    'create': put,
    'create excl': lambda g, n: g.open(3, n, CREAT | EXCL),
    'truncate': lambda g, n: g.open(3, n, TRUNC, base=wd.R['FD_WRITE']),
    'mkdir': lambda g, n: (g.path('path_create_directory', 3, n), None),
    'rmdir': lambda g, n: (g.path('path_remove_directory', 3, n), None),
    'unlink': lambda g, n: (g.path('path_unlink_file', 3, n), None),
    'stat': lambda g, n: g.stat(3, n, 1),
    'lstat': lambda g, n: g.stat(3, n, 0),
    'utimes': lambda g, n: (g.utimes(3, n, 1, 5, 5, 5), None),
    'readlink': lambda g, n: g.readlink(3, n),
    'rename from': lambda g, n: (g.rename(3, n, 3, 'moved'), None),
    'rename to': lambda g, n: (g.rename(3, 'a', 3, n), None),
    'link from': lambda g, n: (g.link(3, 1, n, 3, 'linked'), None),
    'link from nofollow': lambda g, n: (g.link(3, 0, n, 3, 'linked'), None),
    'link to': lambda g, n: (g.link(3, 0, 'a', 3, n), None),
    'symlink at': lambda g, n: (g.symlink('a', 3, n), None),
    'symlink target': lambda g, n: symlink_out(g, n),
}


def symlink_out(g, n):
    e = g.symlink(n, 3, 'mine')
    if e:
        return e, None
    # making it may be allowed; going through it is not
    r = [g.stat(3, 'mine', 1)[0], g.open(3, 'mine', base=2)[0], g.stat(3, 'mine/secret', 1)[0]]
    g.path('path_unlink_file', 3, 'mine')
    return (0 if 0 in r else 99), r


LOOK = ['open', 'open dir', 'create', 'truncate', 'stat', 'utimes', 'link from']


def followed(job):
    """links which lead out as the last part, for operations which follow it; and not followed: the link itself is operated on"""
    wd.drop()
    r = job.rng
    todo = [(name, esc, op) for name in NAMES for esc in FOLLOWED for op in LOOK]
    r.shuffle(todo)
    for name, esc, op in todo[:scale(160, 10 ** 6)]:
        if job.late():
            break
        with wd.Scratch() as tmp:
            G = os.path.join(tmp, 'G')
            h = os.path.join(G, 'g0')
            os.makedirs(h)
            out = [os.path.join(G, 'out'), os.path.join(G, 'g0x')]
            for o in out:
                secrets(o)
            traps(h, out[0], 'out')
            was = [tree(o, True) for o in out] + [tree(h)]
            g = wd.Guest(dirs={name: h})
            try:
                e, got = MATRIX[op](g, esc)
                bad = f'{op} through the link {esc!r} under preopen {name!r} succeeds' if e == 0 else None
            except (wd.Trap, wd.Blocked) as x:
                e, bad = 'ended', f'{op} through the link {esc!r} under preopen {name!r} ends the guest: {x}'
            now = [tree(o, True) for o in out] + [tree(h)]
            for a, b in zip(was, now):
                bad = bad or (treediff(a, b) and f'{op} through {esc!r} ({en(e)}) changed {treediff(a, b)}')
            job.case(('followed', name, esc, op))
            job.count('escape_links')
            # what stays inside goes on working under every preopen name
            if not bad:
                for n, want in (('d/b', b'inner'), ('rel', b'inner'), ('./d/../rel', b'inner'), ('inner/b', b'inner'), ('d/up/a', b'file'), ('inner/up/rel', b'inner')):
                    e, fd = g.open(3, n, base=2 | 4)
                    if e or g.pread(fd, [20], 0) != (0, want):
                        bad = f'{n!r} is inside preopen {name!r} but opening gives {en(e)}'
                        break
                    g.call('fd_close', fd)
                    job.count('inner_paths_working')
            g.close()
            if bad:
                job.violation('link:' + op, bad, dict(preopen=name, path=esc, op=op))


def seen(v):
    """the numbers and byte strings in a result"""
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in seen(x)]
    return [v]


HOOKED = [x for x in 'access chdir chmod chown close dup fstat getcwd lchown link listdir lseek lstat makedirs mkdir open readlink remove rename replace rmdir '
          'scandir stat symlink truncate ftruncate unlink utime'.split()]
RACE = dict(at=-1, n=0, fn=None)


def hook(fn):
    def call(*a, **k):
        if RACE['fn']:
            RACE['n'] += 1
            if RACE['n'] == RACE['at']:
                f, RACE['fn'] = RACE['fn'], None
                f()
                RACE['fn'] = lambda: None
        return fn(*a, **k)
    return call


# what another process turns into a symbolic link in the middle of a call, and where that leads
SWAPS = [('a', ''), ('a/b', 'b'), ('a/b', ''), ('a/x', 'x'), ('f', 'x'), ('f', 'b'), ('a', 'b'), ('l', ''), ('l', 'b'), ('m', 'x'), ('m', 'b'), ('n', 'new'), ('n', 'x'), ('n', 'b'), ('n', ''), ('a/n', 'new'),
         ('a/n', 'b'), ('a/e', 'e'), ('a/e', 'b'), ('a/y', 'x')]
RACED = ['a', 'a/', 'a/.', 'a/x', 'a/x/', 'a/b', 'a/b/', 'a/b/.', 'a/b/..', 'a/b/x', 'a/b/../x', 'a/b/../b/x', 'a/e', 'a/e/', 'a/e/.', 'a/y', 'l', 'l/', 'l/.', 'l/x', 'l/b/x', 'l/b/', 'f', 'f/', 'm', 'm/', 'n', 'n/', 'n/.',
         'a/n', 'a/n/', 'l/n', './a//b/./x', 'a/../a/x', 'a/../f']


RACEOPS = {k: v for k, v in MATRIX.items() if k != 'symlink target'} | {
    'open nofollow': lambda g, n: g.open(3, n, base=wd.R['FD_READ'], follow=0),
    'open dir nofollow': lambda g, n: g.open(3, n, DIRECTORY, base=wd.R['FD_READ'], follow=0),
    'truncate nofollow': lambda g, n: g.open(3, n, TRUNC, base=wd.R['FD_WRITE'], follow=0),
    'utimes nofollow': lambda g, n: (g.utimes(3, n, 0, 5, 5, 5), None),
    'rename to': lambda g, n: (g.rename(3, 'z', 3, n), None),
    'rename dir to': lambda g, n: (g.rename(3, 'zd', 3, n), None),
    'link to': lambda g, n: (g.link(3, 0, 'z', 3, n), None),
}


def swaps(job):
    """a part of the name becomes a link to the outside between two host calls of one guest call"""
    wd.drop()
    r = job.rng
    real = {x: getattr(os, x) for x in HOOKED}
    for x in HOOKED:
        setattr(os, x, hook(real[x]))
    todo = [(p, s, op) for p in RACED for s in SWAPS for op in RACEOPS if (s[0] in p or s[0][-1] in p or p[0] in 'lm' and s[0][0] in 'alfm')]
    r.shuffle(todo)
    if scale(0, 1):
        todo = todo[job.n::job.total]
    for p, (what, to), op in todo[:scale(260, 10 ** 6)]:
        if job.late():
            break
        at = 1
        while at < 60:
            with wd.Scratch() as tmp:
                G = os.path.join(tmp, 'G')
                h, out = os.path.join(G, 'g0'), os.path.join(G, 'out')
                for d in (os.path.join(h, 'a'), out):
                    os.makedirs(os.path.join(d, 'b'))
                    os.mkdir(os.path.join(d, 'e'))
                    for n in ('x', 'b/x'):
                        with open(os.path.join(d, n), 'w') as f:
                            f.write('inside' if d != out else 'secret')
                    os.symlink('x' if d != out else 'TARGET', os.path.join(d, 'y'))
                os.mkdir(os.path.join(h, 'zd'))
                for n in 'fz':
                    with open(os.path.join(h, n), 'w') as f:
                        f.write('inside')
                os.symlink('a', os.path.join(h, 'l'))
                os.symlink('f', os.path.join(h, 'm'))
                inos = {os.lstat(q).st_ino for d, ds, fs in os.walk(out) for q in [d] + [os.path.join(d, n) for n in fs]}
                was = tree(out, True)
                dest = os.path.join(out, to) if r.random() < .3 else os.path.relpath(os.path.join(out, to), os.path.dirname(os.path.join(h, what)))

                def swap():
                    q = os.path.join(h, what)
                    if os.path.lexists(q):
                        real['rename'](q, os.path.join(G, 'aside'))
                    real['symlink'](dest, q)

                g = wd.Guest(dirs={r.choice(NAMES): h})
                hits, bad, got = 0, None, None
                RACE.update(at=at, n=0, fn=swap)
                try:
                    e, got = RACEOPS[op](g, p)
                except (wd.Trap, wd.Blocked) as x:
                    e = 'ended'
                hits, RACE['fn'] = RACE['n'], None
                now = tree(out, True)
                how = f'{op} {p!r} with {what!r} made a link to {dest!r} before host call {at}'
                if treediff(was, now):
                    bad = f'{how} ({en(e) if e != "ended" else e}) changed {treediff(was, now)}'
                elif e == 0:
                    if op.split()[0] in ('open', 'create', 'truncate') and isinstance(got, int):
                        got = [got, g.fstat(got)[1]]
                    vals = seen(got)
                    if set(v for v in vals if isinstance(v, int) and v > 1000) & inos:
                        bad = f'{how} reaches the file outside: {str(got)[:80]}'
                    elif any(isinstance(v, (bytes, str)) and ('TARGET' in str(v)) for v in vals):
                        bad = f'{how} reports the link outside: {str(got)[:80]}'
                for d, ds, fs in os.walk(h):
                    for n in ds + fs:
                        if not bad and os.lstat(os.path.join(d, n)).st_ino in inos:
                            bad = f'{how} brought {n!r} in'
                g.close()
                job.case(('swap', p, what, to, op, at, e))
                if hits >= at:
                    job.count('swapped_inside_a_call')
                if bad:
                    job.violation('race:' + op, bad, dict(path=p, op=op, swapped=what, to=dest, at=at))
            if hits < at:
                break
            at += 1


def main():
    c = Check('W01', 'a distinct (preopen naming, escape form, operation) tried, or (operation, path shape, outcome) met in a history over a hostile tree; canary '
              'trees outside and a kernel-run twin inside are compared after every call',
              assumptions=['changes by other processes during a call are limited to names turned into links, at any point between two host calls'])
    c.run(histories)
    c.run(matrix)
    c.run(followed)
    c.run(swaps)
    c.require('escape_matrix', 2000)
    c.require('escape_links', 500)
    c.require('inner_paths_working', 2000)
    c.require('escape_attempts', 3000)
    c.require('swapped_inside_a_call', 2000)
    c.finish()
