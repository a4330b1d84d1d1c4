import os
import wasidrv as wd
from harness import Check, scale
from pathsim import Sim


def work(job):
    wd.drop()
    r = job.rng
    for k in range(scale(300, 6000)):
        if job.late():
            break
        with wd.Scratch() as tmp:
            n = r.choice([1, 1, 2])
            dirs, pairs = {}, {}
            for q in range(n):
                a, b = os.path.join(tmp, f'g{q}'), os.path.join(tmp, f't{q}')
                os.mkdir(a)
                os.mkdir(b)
                dirs[f'/p{q}'] = a
                pairs[3 + q] = (a, b)
            g = wd.Guest(dirs=dirs)
            s = Sim(job, r, g, pairs)
            bad = s.run(120)
            g.close()
            if bad:
                key = bad.split('(')[0].split(':')[0][:60]
                job.violation(key, bad[:300], dict(history=s.hist[-120:], problem=bad))
            job.count('histories')


def large(job):
    """links to long names, read with buffers of every size; names in hundreds"""
    wd.drop()
    r = job.rng
    with wd.Scratch() as tmp:
        g = wd.Guest(dirs={'/': tmp})
        sizes = [1, 2, 23, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4000, 4094, 4095, r.randrange(1, 4096)]
        for k, n in enumerate(sizes):
            t = ('/'.join('abcdefgh'[(q + k) % 8] * r.choice([1, 7, 60]) for q in range(4096)))[:n]
            t = t[:-1] + 'z' if t[-1] == '/' else t
            by = r.random() < .5
            if by:
                e = g.symlink(t, 3, f'l{k}')
                if e or os.readlink(f'{tmp}/l{k}') != t:
                    job.violation('large:symlink', f'path_symlink to a name of {n} bytes gives {wd.en(e)}', dict(target=t))
                    continue
            else:
                os.symlink(t, f'{tmp}/l{k}')
            for size in {0, 1, n - 1, n, n + 1, 5000, r.randrange(5000)}:
                e, got = g.readlink(3, f'l{k}', size)
                job.count('long_links')
                job.case(('readlink', n, size))
                if e or got != t.encode()[:size]:
                    job.violation('large:readlink', f'a link to a name of {n} bytes read with a buffer of {size} gives {wd.en(e)} and {len(got)} bytes', dict(target=t, got=got.hex()))
            st = g.stat(3, f'l{k}', 0)
            if st[0] or st[1]['size'] != n:
                job.violation('large:stat', f'a link to a name of {n} bytes has the size {st[1:]}', dict(target=t))
        e, fd = g.open(3, 'one', 1)
        for k in range(1, 301):
            if r.random() < .5:
                os.link(f'{tmp}/one', f'{tmp}/h{k}')
            else:
                g.link(3, 0, r.choice(['one', f'h{k - 1}']) if k > 1 else 'one', 3, f'h{k}')
            if k in (1, 2, 126, 127, 254, 255, 256, 257, 300) or r.random() < .1:
                want = os.stat(f'{tmp}/one').st_nlink
                for how, st in (('path', g.stat(3, f'h{k}')), ('fd', g.fstat(fd))):
                    job.count('link_counts')
                    if want != k + 1 or st[0] or st[1]['nlink'] != want:
                        job.violation(f'large:links:{how}', f'a file with {want} of {k + 1} names has {st[1:]} links', dict(how=how))
        g.close()


def main():
    c = Check('W04', 'a distinct (operation, path shape, follow mode, outcome) met in a history of path operations; after every operation the '
              'guest tree is compared with a twin tree the kernel operated on')
    c.run(work)
    c.run(large)
    c.require('path_ops_succeeding', 20000)
    c.require('path_ops_failing', 10000)
    c.require('descriptor_identity_checks', 1000)
    c.require('host_changes', 3000)
    c.require('long_links', 500)
    c.require('link_counts', 200)
    c.finish()
