"""random_get: all bytes ever delivered go into one log; blocks of 16 bytes must never repeat, not even after the host's generators are put
back to an earlier state or the process forks, and their distribution is tested against chance."""
import contextlib, os, random, time, zlib
import wasidrv as wd
from harness import Check, scale

EDGE = wd.PAGES * 65536


def get(g, n, p=None):
    g.reset()
    if p is None:
        p = g.out(n, fill=0)
    else:
        g.outs = [(p, n)]
        g.mem.data[p:p + n] = bytes(n)
    e = g.raw('random_get', [p, n])
    return e, g.get(p, n)


@contextlib.contextmanager
def frozen(real={}):
    """every clock of the process stands still, and its number is the same, as under libraries which fake time"""
    names = [x for x in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time') for x in (x, x + '_ns')]
    old = {x: getattr(time, x) for x in names}
    pid = os.getpid
    try:
        for x in names:
            setattr(time, x, (lambda v: lambda: v)(1700000000123456789 if x.endswith('_ns') else 1700000000.5))
        os.getpid = lambda: 4242
        yield
    finally:
        os.getpid = pid
        for x in names:
            setattr(time, x, old[x])


def work(job):
    wd.drop()
    r = job.rng
    log, hist, total, bits = {}, [0] * 256, 0, 0

    def take(g, n, how, p=None):
        nonlocal total, bits
        state = random.getstate()
        e, b = get(g, n, p)
        job.count('calls')
        job.case((how, min(n, 64), p is None, e))
        if random.getstate() != state:
            job.violation('disturbs', f'random_get ({how}) changes the state of the host program\'s random module', dict(how=how, n=n))
        if e:
            job.violation('errno', f'random_get of {n} bytes gives {wd.en(e)}', dict(how=how, n=n))
            return b''
        if g.stray:
            job.violation('stray', f'random_get of {n} bytes: {g.stray[0][2]}', dict(how=how, n=n))
            g.stray.clear()
        for k in range(0, n - 15, 16):
            x = b[k:k + 16]
            if x in log:
                job.violation(f'repeat:{how}', f'random_get ({how}) delivers 16 bytes it has delivered before ({log[x]})', dict(how=how, earlier=log[x], bytes=x.hex()))
                return b
            log[x] = how
            job.count('blocks')
        for x in b:
            hist[x] += 1
        total += n
        return b

    def holes(n):
        """every byte of the buffer is written: one which stays 0 through 12 calls was not"""
        g = wd.Guest()
        acc = bytearray(n)
        for _ in range(12):
            _, b = get(g, n)
            acc = bytearray(x | y for x, y in zip(acc, b))
        job.count('coverage')
        for at, x in enumerate(acc):
            if not x:
                job.violation('hole', f'byte {at} of {n} is never written by random_get', dict(n=n, at=at))
                return
        g.close()

    def large(n):
        """a long buffer: 16 zero bytes in a row were not written, 16 bytes seen before are a repetition"""
        g = wd.Guest(pages=(n + (1 << 17)) >> 16)
        e, b = get(g, n)
        job.count('large')
        job.case(('large', n))
        if e or g.stray:
            job.violation('large', f'random_get of {n} bytes gives {wd.en(e)} {g.stray[:1]}', dict(n=n))
        elif bytes(16) in b or not any(b[-16:]):
            at = b.find(bytes(16))
            job.violation('hole', f'bytes from {at} of {n} are never written by random_get', dict(n=n, at=at))
        else:
            seen = set()
            for at in range(0, min(n, 4 << 20) - 15, 16):
                x = b[at:at + 16]
                if x in seen or x in log:
                    return job.violation('repeat:large', f'random_get of {n} bytes delivers 16 bytes it has delivered before (at {at})', dict(n=n, at=at))
                seen.add(x)
            job.count('large_bytes', n)
        g.close()

    for n in (5000, 32767, 65535, 65536, 65537, 100001, 1 << 20, (1 << 20) + 1)[job.n % 2::2] + ((35 << 20,) if job.n == 0 else ()):
        large(n)
    for k in range(scale(250, 4000)):
        if job.late():
            break
        g = wd.Guest()
        for _ in range(10):
            take(g, r.choice([0, 1, 2, 15, 16, 17, 100, 256, 1000, 4096]), 'plain')
        for n in (0, 1, 16, 300):
            take(g, n, 'at the end of the memory', EDGE - n)
            take(g, n, 'at the start of the memory', 0)
        # reseeding the host's generator changes nothing
        s = r.getrandbits(30)
        for _ in range(2):
            random.seed(s)
            take(g, r.choice([16, 64, 400]), 'after the same random.seed')
        st = random.getstate()
        take(g, 64, 'plain')
        random.setstate(st)
        take(g, 64, 'after random.setstate')
        # neither does a clock which stands still
        for _ in range(2):
            with frozen():
                f = wd.Guest()
                take(f, r.choice([16, 48]), 'with the clocks standing still')
            f.close()
            job.count('frozen')
        # another object, the same calls
        h = wd.Guest()
        take(h, 64, 'from a second WASI object')
        h.close()
        if k % 3 == 0:
            # children of one process
            for c in range(2):
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        e, b = get(g, 64)
                        os.write(wr, b)
                    finally:
                        os._exit(0)
                os.close(wr)
                b = b''
                while x := os.read(rd, 100):
                    b += x
                os.close(rd)
                os.waitpid(pid, 0)
                job.count('forks')
                for at in range(0, len(b) - 15, 16):
                    if b[at:at + 16] in log:
                        job.violation('repeat:fork', 'random_get in a forked process delivers bytes delivered before', dict(bytes=b[at:at + 16].hex()))
                    log[b[at:at + 16]] = 'a fork'
            take(g, 64, 'after a fork')
        if k % 10 == 0:
            for n in (1, 2, 3, 16, 33, 256, 1025):
                holes(n)
        g.close()
    # evenly distributed: chi-square with 255 degrees of freedom beyond 500 has a chance below 1e-17
    chi = sum((x - total / 256) ** 2 / (total / 256) for x in hist)
    job.count('bytes', total)
    if total > 20000 and chi > 500:
        job.violation('uneven', f'the values of {total} random bytes are not evenly distributed (chi-square {chi:.0f})', dict(total=total, histogram=hist))
    blob = b''.join(list(log)[:4000])
    if len(blob) > 20000 and len(zlib.compress(blob, 9)) < len(blob):
        job.violation('compressible', 'random bytes can be compressed', dict(n=len(blob)))


def main():
    c = Check('W12', 'a distinct (history before the call, length class, place of the buffer, errno)')
    c.run(work)
    for k, n in (('calls', 20000), ('blocks', 100000), ('coverage', 500), ('forks', 500), ('bytes', 300000)):
        c.require(k, n)
    c.require('large', 9)
    c.require('frozen', 400)
    c.finish()
