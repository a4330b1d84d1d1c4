"""Clocks against the host's own, and poll_oneoff against what is really ready and the time that has really passed."""
import os, socket, struct, threading, time
import wasidrv as wd
from harness import Check, scale
from wasidrv import ALL, E, NONBLOCK, R, en

HOST = {0: time.time_ns, 1: time.monotonic_ns, 2: time.process_time_ns, 3: time.thread_time_ns}
MS = 10**6


def burn(sec):
    def go():
        end = time.thread_time() + sec
        while time.thread_time() < end:
            pass
    t = threading.Thread(target=go)
    t.start()
    t.join()


def clocks(job, r):
    g = wd.Guest()
    last = {}
    mono0 = None
    for _ in range(60):
        c = r.choice([0, 1, 1, 2, 3])
        a = HOST[c]()
        h0 = time.monotonic_ns()
        e, t = g.time(c)
        h1 = time.monotonic_ns()
        b = HOST[c]()
        job.count('clock_readings')
        job.case(('clock', c, e, t > last.get(c, (0,))[0]))
        if e:
            return 'clock errno', f'clock_time_get({c}) gives {en(e)}'
        if c == 0 and not a - 50 * MS <= t <= b + 50 * MS:
            return 'realtime', f'the realtime clock says {t}, is between {a} and {b}'
        if c in (2, 3) and not a <= t <= b:
            return 'cpu time', f'clock {c} says {t}, is between {a} and {b}'
        if c == 1:
            if mono0 is None:
                mono0 = t, h0, h1
            # the epoch is free, the rate is not
            lo, hi = h0 - mono0[2], h1 - mono0[1]
            if not lo <= t - mono0[0] <= hi:
                return 'monotonic rate', f'the monotonic clock advanced by {t - mono0[0]} while {lo} to {hi} ns passed'
        if c != 0 and c in last and t < last[c][0]:
            return 'backwards', f'clock {c} went from {last[c][0]} to {t}'
        last[c] = t,
        g.reset()
        o = g.out(8)
        if g.raw('clock_res_get', [c, o]) or not 0 < g.u(o, 8) <= 10**9:
            return 'resolution', f'clock_res_get({c}) reports {g.u(o, 8)}'
        if r.random() < .3:
            time.sleep(r.choice([0, .0005, .002]))
    for c in (4, 5, 100, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
        for f in ('clock_time_get', 'clock_res_get'):
            g.reset()
            o = g.out(8)
            g.outs = []          # nothing may be written
            e = g.raw(f, [c, 0, o] if f == 'clock_time_get' else [c, o])
            job.count('unknown_clocks')
            if e != E['INVAL']:
                return 'unknown clock', f'{f} of clock {c} gives {en(e)}'
    if g.stray:
        return 'stray', str(g.stray[0])[:200]
    g.close()


class Poll:
    def __init__(self, job, r, tmp):
        self.job, self.r = job, r
        self.keep = []
        os.mkfifo(os.path.join(tmp, 'empty'))
        os.mkfifo(os.path.join(tmp, 'data'))
        os.mkfifo(os.path.join(tmp, 'ended'))
        os.mkfifo(os.path.join(tmp, 'room'))
        os.mkfifo(os.path.join(tmp, 'full'))
        with open(os.path.join(tmp, 'file'), 'w') as f:
            f.write('x')
        self.g = g = wd.Guest(dirs={'/': tmp}, stdin=b'some', budget=25)
        self.tmp = tmp
        # (number, reading is ready, writing is ready); None: not to be asked
        self.fds = {}
        POLL = R['POLL_FD_READWRITE']
        for n in ('empty', 'data', 'ended'):
            e, fd = g.open(3, n, 0, POLL | R['FD_READ'], 0, NONBLOCK)
            assert e == 0, e
            w = os.open(os.path.join(tmp, n), os.O_WRONLY | os.O_NONBLOCK)
            if n == 'data':
                os.write(w, b'abc')
            if n == 'ended':
                os.close(w)
            else:
                self.keep.append(w)
            if n == 'empty':
                self.w_empty = w
            self.fds[n] = fd, n != 'empty', None
        for n in ('room', 'full'):
            self.keep.append(os.open(os.path.join(tmp, n), os.O_RDONLY | os.O_NONBLOCK))
            e, fd = g.open(3, n, 0, POLL | R['FD_WRITE'], 0, NONBLOCK)
            assert e == 0, e
            if n == 'full':
                w = os.open(os.path.join(tmp, n), os.O_WRONLY | os.O_NONBLOCK)
                try:
                    while True:
                        os.write(w, b'x' * 65536)
                except BlockingIOError:
                    pass
                try:
                    while True:
                        os.write(w, b'x')
                except BlockingIOError:
                    pass
                os.close(w)
            self.fds[n] = fd, None, n == 'room'
        e, fd = g.open(3, 'file', 0, ALL, 0)
        self.fds['file'] = fd, True, True
        for n in ('sock', 'sockdata', 'sockfull', 'sockeof'):
            a, b = socket.socketpair()
            a.setblocking(False)
            b.setblocking(False)
            if n == 'sockdata':
                a.send(b'xyz')
            if n == 'sockeof':
                a.shutdown(socket.SHUT_WR)
            if n == 'sockfull':
                try:
                    while True:
                        b.send(b'x' * 65536)
                except BlockingIOError:
                    pass
                try:
                    while True:
                        b.send(b'x')
                except BlockingIOError:
                    pass
            self.fds[n] = g.sock(b, 'stream'), n in ('sockdata', 'sockeof'), n != 'sockfull'
            self.keep.append(a)
            b.close()
            if n == 'sock':
                self.a_sock = a
        self.fds['stdin'] = 0, True, None            # captured
        self.fds['stdout'] = 1, None, True
        e, fd = g.open(3, 'file', 0, ALL & ~POLL, 0)
        self.noright = fd
        e, fd = g.open(3, 'file', 0, ALL, 0)
        g.call('fd_close', fd)
        self.closed = fd

    def close(self):
        self.g.close()
        for x in self.keep:
            x.close() if isinstance(x, socket.socket) else os.close(x)

    def clock(self, ud, soon):
        """(bytes, description) of a clock subscription"""
        r = self.r
        c = r.choice([0, 1])
        d = r.choice([0, 1, 1000, MS // 2, MS, 2 * MS, 5 * MS, 9 * MS, r.randint(0, 12 * MS)]) if soon else r.choice([10**12, 10**15, 1 << 62, 1 << 63, (1 << 64) - 1])
        abs_ = r.random() < .4
        at = d
        if abs_:
            now = self.g.time(c)[1]
            at = r.choice([0, 1, now - 10**9, now, now + d, now + d]) if soon else min(now + d, (1 << 64) - 1)
        b = struct.pack('<QB', ud, 0) + r.randbytes(7) + struct.pack('<I', c) + r.randbytes(4) + struct.pack('<QQH', at, r.getrandbits(64) if r.random() < .5 else 0, 1 if abs_ else 0) + r.randbytes(6)
        return b, ('clock', c, abs_, at)

    def fdsub(self, ud, kind, n, fd):
        r = self.r
        return struct.pack('<QB', ud, kind) + r.randbytes(7) + struct.pack('<I', fd & 0xffffffff) + r.randbytes(28), ('fd', kind, n, fd)

    def one(self):
        r, g = self.r, self.g
        n = r.choice([1, 1, 2, 2, 3, 5, 8, 30])
        subs = []
        mode = r.choice(['timer', 'ready', 'mixed', 'mixed', 'event', 'bad', 'fds'])
        uds = [r.choice([k, (1 << 64) - 1 - k, r.getrandbits(64)]) for k in range(n)]
        if r.random() < .1:
            uds = [uds[0]] * n
        later = None
        for ud in uds:
            q = r.random()
            if mode == 'timer' or mode in ('mixed', 'bad') and q < .4:
                subs.append(self.clock(ud, r.random() < .6))
                continue
            cand = []
            for nm, (fd, rd, wr) in self.fds.items():
                if rd is not None:
                    cand.append((1, nm, fd, rd))
                if wr is not None:
                    cand.append((2, nm, fd, wr))
            if mode == 'timer' or mode == 'event' or (mode == 'mixed' and q < .8):
                cand = [c for c in cand if not c[3]]
            k, nm, fd, _ = r.choice(cand)
            subs.append(self.fdsub(ud, k, nm, fd))
        bad = None
        if mode == 'bad':
            k = r.randrange(n)
            bad = r.choice(['closed', 'unused', 'negative', 'noright'])
            fd = {'closed': self.closed, 'unused': 500, 'negative': -1, 'noright': self.noright}[bad]
            subs[k] = self.fdsub(uds[k], r.choice([1, 2]), bad, fd)
        quick = any(self.ready(s[1]) for s in subs)
        soon = quick or any(s[1][0] == 'clock' and self.left(s[1]) < 30 * MS for s in subs)
        delay = None
        if mode == 'event' and any(s[1][0] == 'fd' and s[1][2] in ('empty', 'sock') and s[1][1] == 1 for s in subs):
            delay = r.choice([1, 3, 8]) / 1000
        elif not soon and mode != 'bad':
            # something has to happen
            k = r.randrange(n)
            subs[k] = self.clock(uds[k], True)
        start = {c: g.time(c)[1] for c in (0, 1)}
        g.reset()
        p, o, cnt = g.put(b''.join(s[0] for s in subs)), g.out(32 * n), g.out(4)
        trig = {}
        th = None
        if delay is not None:
            def fire():
                time.sleep(delay)
                trig['t'] = time.monotonic_ns()
                os.write(self.w_empty, b'!')
                self.a_sock.send(b'!')
            th = threading.Thread(target=fire)
        m0 = time.monotonic_ns()
        g.outs = [(p_, n_) for p_, n_ in ((o, 32 * n), (cnt, 4))]
        if th:
            th.start()
        try:
            e = g.raw('poll_oneoff', [p, o, n, cnt])
        except wd.Blocked:
            return 'never returns', f'poll_oneoff does not return within 25 s although {"a descriptor was ready" if quick else "a deadline or event came"}', subs
        finally:
            if th:
                th.join()
        m1 = time.monotonic_ns()
        evs = []
        if e == 0:
            k = g.u(cnt, 4)
            evs = [(g.u(o + 32 * x, 8), g.u(o + 32 * x + 8, 2), g.u(o + 32 * x + 10, 1)) for x in range(min(k, n))]
        end = {c: g.time(c)[1] for c in (0, 1)}
        # take back what the thread sent
        if th:
            os.set_blocking(self.w_empty, False)
            g2 = g.read(self.fds['empty'][0], [50])
            g.reset()
            pv, nv, _ = g.iovs(lens=[50])
            a, b = g.out(4), g.out(2)
            g.raw('sock_recv', [self.fds['sock'][0], pv, nv, 0, a, b])
        self.job.count('polls')
        self.job.count('events', len(evs))
        self.job.case((mode, n, e, len(evs), bad, tuple(sorted({s[1][:3] for s in subs}))[:6]))
        if e:
            if bad and e == (E['NOTCAPABLE'] if bad == 'noright' else E['BADF']):
                self.job.count('bad_descriptors')
                return None
            return 'errno', f'poll_oneoff gives {en(e)}', subs
        if not 1 <= k <= n:
            return 'number of events', f'poll_oneoff of {n} subscriptions returns {k} events', subs
        if bad:
            self.job.count('bad_descriptors')
        free = list(range(n))
        for ud, err, kind in evs:
            # a distinct subscription this event can stand for
            fit = [x for x in free if uds[x] == ud and (0 if subs[x][1][0] == 'clock' else subs[x][1][1]) == kind]
            if not fit:
                return 'foreign event', f'event with userdata {ud:#x} of kind {kind} has no subscription left', subs
            okay = None
            why = ''
            for x in fit:
                s = subs[x][1]
                if s[0] == 'fd' and s[2] in ('closed', 'unused', 'negative', 'noright'):
                    good = err == (E['NOTCAPABLE'] if s[2] == 'noright' else E['BADF'])
                    why = f'bad descriptor ({s[2]}) reported with {en(err)}'
                elif err:
                    good, why = False, f'event for {s} has errno {en(err)}'
                elif s[0] == 'clock':
                    now = end[s[1]]
                    if s[2]:
                        good = now >= s[3]
                        why = f'absolute deadline {s[3]} of clock {s[1]} reported at {now}, {s[3] - now} ns early'
                    else:
                        good = now - start[s[1]] >= s[3]
                        why = f'timeout of {s[3]} ns on clock {s[1]} reported after {now - start[s[1]]} ns'
                    self.job.count('deadlines_met', int(good))
                else:
                    good = self.ready(s) or ('t' in trig and trig['t'] <= m1 and s[2] in ('empty', 'sock') and s[1] == 1)
                    why = f'descriptor {s[2]} reported ready to {"read" if s[1] == 1 else "write"}, is not'
                    self.job.count('fd_events')
                if good:
                    okay = x
                    break
            if okay is None:
                return 'event', why, subs
            free.remove(okay)
        # what was ready before the call and stays so is not left out
        for x in free:
            s = subs[x][1]
            if bad is None and (len(set(uds)) == n or all(t[1][0] == 'fd' for t in subs) and delay is None) and (s[0] == 'fd' and self.ready(s) or s[0] == 'clock' and s[2] and s[3] <= start[s[1]]):
                return 'left out', f'{s} was ready all along, poll_oneoff reports {len(evs)} of {n} events without it', subs
        self.job.count('polls_complete')
        if not quick and not bad and delay is None:
            self.job.count('waits')
        # how late
        if quick and m1 - m0 > 10 * 10**9:
            return 'late', f'something was ready at once, poll_oneoff took {(m1 - m0) / 1e9:.1f} s', subs
        if th and 't' not in trig:
            return None
        return None

    def left(self, s):
        now = self.g.time(s[1])[1]
        return s[3] - now if s[2] else s[3]

    def ready(self, s):
        if s[0] != 'fd' or s[2] not in self.fds:
            return False
        return bool(self.fds[s[2]][s[1]])


def polls(job, r):
    with wd.Scratch() as tmp:
        p = Poll(job, r, tmp)
        try:
            for _ in range(60):
                bad = p.one()
                if not bad and p.g.stray:
                    bad = 'stray', str(p.g.stray[0])[:200], []
                if bad:
                    return bad[0], bad[1], [str(s[1]) for s in bad[2]]
            # none at all
            p.g.reset()
            a, b, c = p.g.alloc(48), p.g.alloc(32), p.g.out(4)
            e = p.g.raw('poll_oneoff', [a, b, 0, c])
            if e != E['INVAL']:
                return 'no subscriptions', f'poll_oneoff without subscriptions gives {en(e)}'
            # unknown kinds and clocks
            for body in (struct.pack('<QB', 1, 3), struct.pack('<QB', 1, 255), struct.pack('<QBxxxxxxxI', 1, 0, 4), struct.pack('<QBxxxxxxxI', 1, 0, 0xffffffff)):
                p.g.reset()
                a, b, c = p.g.put(body + bytes(48 - len(body))), p.g.out(32), p.g.out(4)
                e = p.g.raw('poll_oneoff', [a, b, 1, c])
                job.count('malformed_subscriptions')
                if e == 0 and p.g.u(b + 8, 2) == 0:
                    return 'malformed', f'a subscription to an unknown kind or clock ({body[:20].hex()}) succeeds'
        finally:
            p.close()


def many(job, r):
    """descriptors with high host numbers"""
    with wd.Scratch() as tmp:
        g = wd.Guest(dirs={'/': tmp})
        with open(os.path.join(tmp, 'f'), 'w'):
            pass
        try:
            for n in range(1300):
                e, fd = g.open(3, 'f', 0, R['FD_READ'] | R['POLL_FD_READWRITE'], 0)
                if e:
                    return          # the host allows fewer
            a, b = socket.socketpair()
            b.send(b'x')
            last = g.sock(a, 'stream')
            a.close()
            job.count('high_descriptors', 3)
            for x in (fd, last):
                for kind in (1, 2):
                    if x == fd and kind == 2:
                        continue
                    g.reset()
                    p, o, c = g.put(struct.pack('<QBxxxxxxxI', 7, kind, x) + bytes(28)), g.out(32), g.out(4)
                    e = g.raw('poll_oneoff', [p, o, 1, c])
                    if e or g.u(c, 4) != 1 or g.u(o, 8) != 7 or g.u(o + 8, 2):
                        return 'high descriptors', f'poll_oneoff of descriptor {x}, which is ready, gives {en(e)} with 1300 files open'
            b.close()
        finally:
            g.close()


def work(job):
    wd.drop()
    if job.n == 0:
        bad = many(job, job.rng)
        if bad:
            job.violation(bad[0], bad[1], dict(detail=bad))
    burn(.2)
    r = job.rng
    for k in range(scale(60, 2000)):
        if job.late():
            break
        for fn in (clocks, polls):
            try:
                bad = fn(job, r)
            except wd.Trap as e:
                bad = 'guest ended', f'the guest was ended: {e}'
            if bad:
                job.violation(f'{fn.__name__}:{bad[0]}', bad[1][:300], dict(what=fn.__name__, detail=[str(x)[:3000] for x in bad]))


def main():
    c = Check('W09', 'a distinct (subscription mix, number of subscriptions and events, outcome) of a poll or clock reading')
    c.run(work)
    c.require('clock_readings', 2000)
    c.require('polls_complete', 10000)
    c.require('polls', 2500)
    c.require('waits', 300)
    c.require('deadlines_met', 600)
    c.require('fd_events', 1000)
    c.require('bad_descriptors', 200)
    c.finish()
