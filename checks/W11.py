"""Sockets: host peers hold the other ends, a byte-exact model of what is in flight decides every count, flag and byte; threads play slow
peers, several connections are used at a time, and the kernel's own ends (EOF, EPIPE at the peer) tell what a shutdown really did."""
import gc, os, select, socket, struct, threading, time
import wasidrv as wd
from harness import Check, scale
from wasidrv import DIRECTORY, E, NONBLOCK, R, en, openfds

PEEK, WAITALL, TRUNCATED = 1, 2, 1
STREAM, DGRAM = 6, 5
SHAPES = [[], [0], [1], [5], [0, 3, 0], [1, 1, 1], [7, 0, 90], [100], [3, 900], [0, 0], [64, 64, 64, 64], [1000, 1], [5000], [2, 2, 2, 2, 2, 2, 2, 2, 2, 2]]


def recv(g, fd, lens, flags=0):
    g.reset()
    p, n, bufs = g.iovs(lens=lens)
    a, b = g.out(4), g.out(2)
    e = g.raw('sock_recv', [fd, p, n, flags, a, b])
    if e:
        return e, b'', None
    return (*g._scatter(e, a, bufs), g.u(b, 2))


def send(g, fd, data, flags=0):
    g.reset()
    p, n, _ = g.iovs(data=data)
    a = g.out(4)
    e = g.raw('sock_send', [fd, p, n, flags, a])
    return e, (g.u(a, 4) if e == 0 else None)


def accept(g, fd, flags=0):
    g.reset()
    a = g.out(4)
    e = g.raw('sock_accept', [fd, flags, a])
    return e, (g.u(a, 4) if e == 0 else None)


def shut(g, fd, how):
    return g.call('sock_shutdown', fd, how)


def pair(kind, small=False):
    """a connected pair of host sockets"""
    if kind == 'unix':
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
    elif kind == 'unixd':
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_DGRAM)
    elif kind == 'inet':
        with socket.socket() as l:
            l.bind(('127.0.0.1', 0))
            l.listen(1)
            b = socket.create_connection(l.getsockname())
            a, _ = l.accept()
        for x in (a, b):
            x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    else:
        a, b = socket.socket(socket.AF_INET, socket.SOCK_DGRAM), socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        a.bind(('127.0.0.1', 0))
        b.bind(('127.0.0.1', 0))
        a.connect(b.getsockname())
        b.connect(a.getsockname())
    if small:
        for x in (a, b):
            x.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
            if kind == 'unix':
                x.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
    return a, b


def waits(s):
    """the bytes (or b'' for the end) waiting at a host socket, BlockingIOError without any"""
    if not select.select([s], [], [], 0)[0]:
        raise BlockingIOError
    return s.recv(1)


def arrive(a, n):
    """wait until n bytes can be read from socket a (loopback delivery is not instant)"""
    end = time.time() + 5
    while n and time.time() < end:
        try:
            if len(a.recv(n, socket.MSG_PEEK | socket.MSG_DONTWAIT)) >= n:
                return True
        except BlockingIOError:
            pass
        time.sleep(.0005)
    return not n


def scratchguest(tmp, **k):
    os.makedirs(os.path.join(tmp, 'd'), exist_ok=True)
    with open(os.path.join(tmp, 'f'), 'w') as f:
        f.write('text')
    return wd.Guest(dirs={'/': tmp}, **k)


# ---- streams: one guest end, one peer end, a model of the bytes in between ----
def stream(job, r):
    kind = r.choice(['unix', 'unix', 'inet'])
    host, peer = pair(kind)
    peer.settimeout(5)
    with wd.Scratch() as tmp:
        g = scratchguest(tmp, budget=20.0)
        try:
            nb = r.random() < .4
            fd = g.sock(host, 'stream')
            if nb:
                e = g.call('fd_fdstat_set_flags', fd, NONBLOCK)
                if e:
                    return job.violation('nonblock', f'fd_fdstat_set_flags NONBLOCK on a socket gives {en(e)}', dict(kind=kind))
            inbox = b''                          # sent by the peer, not received by the guest
            rd = wr = closed = False             # shut down by the guest, shut down by the peer
            hist = []
            say = lambda key, what: job.violation(key, f'{kind}{" nonblocking" if nb else ""}: {what}'[:260], dict(kind=kind, nonblocking=nb, history=hist[-12:]))
            fds = openfds()
            for step in range(r.randrange(10, 40)):
                if g.stray:
                    return say('stray', f'{g.stray[0]}')
                op = r.choices(['peer', 'recv', 'read', 'send', 'write', 'shut', 'peershut'], [8, 9, 2, 6, 2, .6, .4])[0]
                if op == 'peer' and not closed and not (rd and kind == 'unix') and len(inbox) < 9000:
                    b = r.randbytes(r.choice([1, 2, 9, 50, 300, 2000]))
                    if rd:
                        continue
                    hist.append(['peer sends', len(b)])
                    peer.sendall(b)
                    inbox += b
                    if not arrive(host, len(inbox)):
                        return say('lost', f'{len(inbox)} bytes should be waiting for the guest, and are not: something took them')
                elif op in ('recv', 'read'):
                    lens = list(r.choice(SHAPES))
                    r.shuffle(lens)
                    total = sum(lens)
                    flags = 0 if op == 'read' else r.choice([0, 0, 0, PEEK, WAITALL, PEEK | WAITALL])
                    ended = closed or rd
                    if not inbox and not ended and not nb:
                        continue                 # would wait
                    if flags & WAITALL and not nb and not ended and len(inbox) < total:
                        continue
                    hist.append([op, lens, flags, len(inbox)])
                    if op == 'read':
                        e, got = g.read(fd, lens)
                        ro = 0
                    else:
                        e, got, ro = recv(g, fd, lens, flags)
                    job.count('received')
                    job.case(('recv', op, kind, nb, flags, min(total, 3), len(lens), bool(inbox), ended, total > len(inbox), e))
                    if not total and e == 0 and got == b'':
                        continue
                    if not inbox and not ended:
                        if not total:
                            if e not in (0, E['AGAIN']):
                                return say('empty', f'{op} into nothing gives {en(e)}')
                            continue
                        job.count('again')
                        if e != E['AGAIN']:
                            return say('again', f'{op} with nothing to read on a nonblocking socket gives {en(e)} with {len(got)} bytes')
                        continue
                    if e:
                        return say('recv errno', f'{op} of {total} bytes with {len(inbox)} waiting gives {en(e)}')
                    if not isinstance(got, bytes):
                        return say('count', f'{op} reports {got[1]} bytes, the buffers hold {total}')
                    most = min(total, len(inbox))
                    if got != inbox[:len(got)]:
                        at = next((k for k in range(min(len(got), len(inbox))) if got[k] != inbox[k]), len(inbox))
                        return say('bytes', f'{op} into {lens} delivers other bytes than sent, from byte {at} of {len(got)}')
                    if not got and most:
                        return say('none', f'{op} reports the end of the stream with {len(inbox)} bytes waiting')
                    if flags & WAITALL and len(got) != most:
                        return say('waitall', f'{op} with waitall delivers {len(got)} of {most} bytes')
                    if ro:
                        return say('roflags', f'{op} on a stream reports flags {ro:#x}')
                    if flags & PEEK:
                        job.count('peeked')
                    else:
                        inbox = inbox[len(got):]
                elif op in ('send', 'write'):
                    data = [r.randbytes(r.choice([0, 1, 3, 20, 100, 700])) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
                    want = b''.join(data)
                    hist.append([op, [len(x) for x in data]])
                    if wr or rd is None:
                        e, n = g.write(fd, data) if op == 'write' else send(g, fd, data)
                        if want:
                            job.count('broken_pipes')
                            if e != E['PIPE']:
                                return say('pipe', f'{op} after shutdown gives {en(e)}, not PIPE')
                        continue
                    e, n = g.write(fd, data) if op == 'write' else send(g, fd, data)
                    job.count('sent')
                    job.case((op, kind, nb, min(len(want), 2), len(data), e))
                    if e:
                        return say('send errno', f'{op} of {len(want)} bytes gives {en(e)}')
                    if n > len(want) or want and not n:
                        return say('send count', f'{op} of {len(want)} bytes reports {n}')
                    got = b''
                    while len(got) < n:
                        try:
                            x = peer.recv(n - len(got))
                        except (TimeoutError, socket.timeout):
                            return say('send lost', f'{op} reports {n} bytes, the peer gets {len(got)}')
                        if not x:
                            return say('send lost', f'{op} reports {n} bytes, the peer gets {len(got)} and the end')
                        got += x
                    if got != want[:n]:
                        return say('sent bytes', f'{op} of {[len(x) for x in data]}: the peer gets other bytes')
                    try:
                        x = waits(peer)
                        return say('send twice', f'{op} reports {n} bytes, the peer gets more')
                    except BlockingIOError:
                        pass
                elif op == 'shut':
                    how = r.choice([1, 2, 3, 0, 4, 5, 255])
                    hist.append(['shutdown', how])
                    e = shut(g, fd, how)
                    job.count('shutdowns')
                    job.case(('shut', kind, how, rd, wr, closed, e))
                    if how not in (1, 2, 3):
                        if e != E['INVAL']:
                            return say('shutdown flags', f'sock_shutdown with flags {how} gives {en(e)}')
                        continue
                    if e:
                        if rd or wr or closed:
                            if e not in (E['NOTCONN'], E['INVAL']):
                                return say('shutdown', f'a second sock_shutdown gives {en(e)}')
                            return
                        return say('shutdown', f'sock_shutdown {how} gives {en(e)}')
                    if how & 1:
                        rd = True
                        if kind == 'unix' and not closed:
                            try:
                                peer.send(b'x')
                                return say('shutdown reads', 'after the shutdown of reads the peer can still send')
                            except (BrokenPipeError, ConnectionResetError):
                                pass
                    elif kind == 'unix' and not rd and not closed:
                        try:
                            peer.send(b'x')
                            inbox += b'x'
                        except OSError as x:
                            return say('shutdown writes', f'after the shutdown of writes the peer cannot send: {x}')
                    if how & 2:
                        wr = True
                        try:
                            if peer.recv(10):
                                return say('shutdown writes', 'the peer gets bytes after the shutdown of writes')
                        except (TimeoutError, socket.timeout):
                            return say('shutdown writes', 'the peer does not see the shutdown of writes')
                    elif not wr:
                        try:
                            x = waits(peer)
                            return say('shutdown reads', f'after the shutdown of reads only the peer gets {x!r}')
                        except BlockingIOError:
                            pass
                    s = g.fdstat(fd)
                    if s[0] or s[1][0] != STREAM:
                        return say('shutdown closes', f'after sock_shutdown fd_fdstat_get gives {en(s[0])} {s[1]}')
                    if kind == 'inet' and rd:
                        return                  # what the kernel does with data arriving now is its own affair
                elif op == 'peershut' and not closed:
                    hist.append(['peer shuts down writes'])
                    peer.shutdown(socket.SHUT_WR)
                    closed = True
                    if kind == 'inet':
                        end = time.time() + 5
                        while not inbox and time.time() < end:
                            try:
                                host.recv(1, socket.MSG_PEEK | socket.MSG_DONTWAIT)
                                break
                            except BlockingIOError:
                                time.sleep(.0005)
                gc.collect(0)
            if openfds() != fds:
                say('leak', f'the calls leave host descriptors: {len(openfds()) - len(fds)} more')
            # closing the descriptor: the peer only sees the end once the embedder's own duplicate is gone
            host.close()
            if g.call('fd_close', fd):
                return say('close', 'fd_close of a socket fails')
            for f in (lambda: recv(g, fd, [5])[0], lambda: send(g, fd, [b'a'])[0], lambda: accept(g, fd)[0], lambda: shut(g, fd, 3)):
                e = f()
                if e != E['BADF']:
                    return say('closed', f'a call on a closed socket gives {en(e)}')
            try:
                while peer.recv(1000):
                    pass
            except (TimeoutError, socket.timeout):
                return say('close', 'the peer does not see the end after fd_close')
            except ConnectionResetError:
                pass
            job.count('streams')
        finally:
            g.close()
            host.close()
            peer.close()


# ---- a long transfer both ways against a peer with its own pace ----
def transfer(job, r):
    kind = r.choice(['unix', 'inet'])
    host, peer = pair(kind, small=r.random() < .6)
    peer.settimeout(20)
    up, down = r.randbytes(r.choice([3000, 20000, 90000])), r.randbytes(r.choice([3000, 20000, 90000]))
    got, r2, r3 = bytearray(), __import__('random').Random(r.random()), __import__('random').Random(r.random())
    paced = r.random() < .5

    def reader():
        try:
            while len(got) < len(up):
                x = peer.recv(r2.choice([1, 10, 500, 5000, 50000]))
                if not x:
                    break
                got.extend(x)
                if paced and r2.random() < .02:
                    time.sleep(.001)
        except OSError:
            pass

    def writer():
        k = 0
        try:
            while k < len(down):
                n = r3.choice([1, 10, 300, 2000, 9000])
                peer.sendall(down[k:k + n])
                k += n
                if paced and r3.random() < .05:
                    time.sleep(.001)
            peer.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    with wd.Scratch() as tmp:
        g = scratchguest(tmp, budget=20.0)
        ts = [threading.Thread(target=reader, daemon=True), threading.Thread(target=writer, daemon=True)]
        try:
            nb = r.random() < .5
            fd = g.sock(host, 'stream')
            if nb:
                g.call('fd_fdstat_set_flags', fd, NONBLOCK)
            say = lambda key, what: job.violation(key, f'{kind} transfer{" nonblocking" if nb else ""}: {what}'[:260], dict(kind=kind, nonblocking=nb, up=len(up), down=len(down), seen=len(seen), sent=sent))
            for t in ts:
                t.start()
            seen, sent, over, end = b'', 0, False, time.time() + 60
            while (sent < len(up) or not over) and time.time() < end:
                if r.random() < .5 and sent < len(up) or over:
                    k = r.choice([1, 7, 100, 1000, 6000, 30000])
                    part, data = up[sent:sent + k], []
                    while part:
                        c = r.choice([0, 1, 50, 4000])
                        data.append(part[:c])
                        part = part[c:]
                        if len(data) > 30:
                            data.append(part)
                            break
                    e, n = send(g, fd, data)
                    if e == E['AGAIN'] and nb:
                        job.count('again')
                        continue
                    if e or not 0 < n <= sum(len(x) for x in data):
                        return say('send', f'sock_send of {sum(len(x) for x in data)} bytes gives {en(e)} and {n}')
                    if n < sum(len(x) for x in data):
                        job.count('partial_sends')
                    sent += n
                elif not over:
                    lens = list(r.choice(SHAPES[2:]))
                    flags = r.choice([0, 0, 0, PEEK, WAITALL])
                    if not sum(lens):
                        continue
                    e, b, ro = recv(g, fd, lens, flags)
                    if e == E['AGAIN'] and nb:
                        job.count('again')
                        continue
                    if e or not isinstance(b, bytes):
                        return say('recv', f'sock_recv gives {en(e)} {b}')
                    if not b and not flags & PEEK:
                        over = True
                    if b != down[len(seen):len(seen) + len(b)]:
                        return say('order', f'sock_recv delivers other bytes than the peer sent, at {len(seen)}')
                    if flags & WAITALL and not nb and len(b) < min(sum(lens), len(down) - len(seen)):
                        return say('waitall', f'sock_recv with waitall delivers {len(b)} of {sum(lens)} bytes in the middle of the stream')
                    if flags & WAITALL and not nb:
                        job.count('waits_for_all')
                    if not flags & PEEK:
                        seen += b
                if g.stray:
                    return say('stray', f'{g.stray[0]}')
            ts[0].join(20)
            if not over or seen != down:
                return say('end', f'the guest got {len(seen)} of {len(down)} bytes when the stream ended')
            if bytes(got) != up:
                return say('peer', f'the peer got {len(got)} of {len(up)} bytes, or other ones')
            job.count('transfers')
            job.count('bytes_moved', len(up) + len(down))
            job.case(('transfer', kind, nb, paced, len(up), len(down)))
        finally:
            g.close()
            host.close()
            peer.close()


# ---- long vectors, long messages ----
def bulk(job, r):
    kind = r.choice(['unix', 'inet', 'unixd'])
    host, peer = pair(kind)
    peer.settimeout(20)
    with wd.Scratch() as tmp:
        g = scratchguest(tmp, budget=20.0, pages=12)
        try:
            fd = g.sock(host, 'dgram' if kind == 'unixd' else 'stream')
            for _ in range(3):
                n = r.choice([1023, 1024, 1025, 1500, 3000])
                lens = r.choice([[r.randrange(3) for _ in range(n)], [0] * n + [7], [70000, 5], [r.randrange(20000, 40000) for _ in range(3)], [150000]])
                if kind == 'unixd' and sum(lens) > 90000:
                    continue
                total = sum(lens)
                send_ = r.random() < .5
                via = r.choice(['sock', 'fd'])
                say = lambda key, what: job.violation('bulk ' + key, f'{kind}: {"sending" if send_ else "receiving"} {total} bytes in {len(lens)} buffers ({via}) {what}'[:260],
                                                      dict(kind=kind, buffers=len(lens), total=total))
                got = bytearray()
                if send_:
                    data = [r.randbytes(x) for x in lens]

                    def sink():
                        try:
                            while len(got) < total:
                                x = peer.recv(1 << 18)
                                if not x:
                                    break
                                got.extend(x)
                        except OSError:
                            pass
                    t = threading.Thread(target=sink, daemon=True)
                    t.start()
                    e, m = send(g, fd, data) if via == 'sock' else g.write(fd, data)
                    if e or m != total:
                        return say('send', f'gives {en(e)} and {m}')
                    t.join(20)
                    if bytes(got) != b''.join(data):
                        return say('peer', f'gives the peer {len(got)} bytes or other ones')
                else:
                    data = r.randbytes(total)

                    def source():
                        try:
                            peer.sendall(data)
                        except OSError:
                            pass
                    t = threading.Thread(target=source, daemon=True)
                    t.start()
                    if not total:
                        continue
                    if via == 'sock' and kind != 'unixd':
                        e, b, ro = recv(g, fd, lens, WAITALL)
                    else:
                        arrive(host, total if kind != 'unixd' else 1)
                        e, b = recv(g, fd, lens)[:2] if via == 'sock' else g.read(fd, lens)
                        while e == 0 and kind != 'unixd' and 0 < len(b) < total:
                            e, x = g.read(fd, lens[:1] if lens[0] else [min(9000, total - len(b))])
                            b += x
                    t.join(20)
                    if e or b != data[:len(b)] or len(b) != total:
                        return say('recv', f'gives {en(e)} and {len(b)} bytes' + ' of other content' * (not e and b != data[:len(b)]))
                if g.stray:
                    return say('stray', f'{g.stray[0]}')
                job.count('bulk')
                job.case(('bulk', kind, send_, via, min(len(lens), 1025), total >> 16))
        finally:
            g.close()
            host.close()
            peer.close()


# ---- calls which have to wait ----
def waiting(job, r):
    kind = r.choice(['unix', 'inet'])
    host, peer = pair(kind)
    with wd.Scratch() as tmp:
        g = scratchguest(tmp, budget=20.0)
        try:
            fd = g.sock(host, 'stream')
            parts = [r.randbytes(r.choice([1, 5, 60])) for _ in range(r.randrange(1, 4))]
            data = b''.join(parts)
            fin = r.random() < .4
            turn = [r.choice([0, NONBLOCK]) for _ in range(r.choice([0, 1, 2, 3]))] + [0]
            if len(turn) > 1:
                for x in turn:               # the last one to be set is what counts
                    e = g.call('fd_fdstat_set_flags', fd, x)
                    if e or g.fdstat(fd)[1][1] != x:
                        return job.violation('flags', f'{kind}: fd_fdstat_set_flags {x} on a socket gives {en(e)}, the descriptor then has {g.fdstat(fd)[1]}', dict(kind=kind, turn=turn))
                job.count('turned_flags')

            def slow():
                for x in parts:
                    time.sleep(.012)
                    peer.sendall(x)
                if fin:
                    time.sleep(.012)
                    peer.shutdown(socket.SHUT_WR)
            t = threading.Thread(target=slow, daemon=True)
            all_ = r.random() < .7
            want = len(data) + (r.choice([0, 10]) if fin else 0)
            cut = r.randrange(want + 1)
            lens = [x for x in (cut, want - cut)]
            t0 = time.time()
            t.start()
            look = kind == 'inet' and r.random() < .4
            e, b, ro = recv(g, fd, lens, (WAITALL if all_ else 0) | (PEEK if look else 0))
            dt = time.time() - t0
            t.join()
            if look:                         # looking does not take anything
                job.count('waits_to_look')
                e2, b2, _ = recv(g, fd, lens, WAITALL)
                if e2 or b2 != data:
                    return job.violation('peek', f'{kind}: after a look at {len(b)} of {len(data)} bytes sock_recv gives {en(e2)} and {len(b2)}', dict(lens=lens, waitall=all_))
            job.count('waits')
            job.case(('wait', kind, all_, len(parts), fin, want > len(data), e))
            wit = dict(kind=kind, flags=turn, parts=[len(x) for x in parts], waitall=all_, fin=fin, lens=lens)
            if e or not isinstance(b, bytes) or not b or b != data[:len(b)]:
                return job.violation('wait', f'{kind}: a sock_recv which has to wait gives {en(e)} and {len(b)} bytes', wit)
            if all_ and b != data:
                return job.violation('waitall', f'{kind}: sock_recv with waitall delivers {len(b)} of {len(data)} bytes after {dt:.3f} s', wit)
        except wd.Blocked as x:
            job.violation('blocked', f'{kind}: {x}', dict(kind=kind))
        finally:
            g.close()
            host.close()
            peer.close()


# ---- datagrams ----
def datagrams(job, r):
    kind = r.choice(['unixd', 'unixd', 'udp'])
    host, peer = pair(kind)
    peer.settimeout(5)
    with wd.Scratch() as tmp:
        g = scratchguest(tmp, budget=20.0)
        try:
            fd = g.sock(host, 'dgram')
            nb = r.random() < .5
            if nb:
                g.call('fd_fdstat_set_flags', fd, NONBLOCK)
            box, hist = [], []
            say = lambda key, what: job.violation(key, f'{kind}: {what}'[:260], dict(kind=kind, nonblocking=nb, history=hist[-12:]))
            for _ in range(r.randrange(10, 30)):
                op = r.choices(['peer', 'recv', 'send'], [3, 5, 3])[0]
                if op == 'peer' and len(box) < 8:
                    b = r.randbytes(r.choice([0, 1, 2, 9, 50, 300, 2000]))
                    hist.append(['peer sends', len(b)])
                    peer.send(b)
                    box.append(b)
                elif op == 'recv':
                    lens = list(r.choice(SHAPES))
                    total, flags = sum(lens), r.choice([0, 0, 0, PEEK, WAITALL, PEEK | WAITALL])
                    if not box and not nb:
                        continue
                    hist.append(['recv', lens, flags, [len(x) for x in box]])
                    e, b, ro = recv(g, fd, lens, flags)
                    job.count('datagrams_received')
                    job.case(('dgram', kind, flags, min(total, 2), len(lens), (len(box[0]) > total) - (len(box[0]) < total) if box else None, e, ro))
                    if not box:
                        job.count('again')
                        if e != E['AGAIN'] and total:
                            return say('again', f'sock_recv without a datagram on a nonblocking socket gives {en(e)}')
                        continue
                    if e:
                        return say('dgram errno', f'sock_recv of a datagram of {len(box[0])} bytes into {total} gives {en(e)}')
                    if not isinstance(b, bytes):
                        return say('count', f'sock_recv of a datagram of {len(box[0])} bytes into {total} reports {b[1]} bytes')
                    if b != box[0][:total]:
                        return say('dgram', f'sock_recv delivers {len(b)} bytes of a datagram of {len(box[0])} into {lens}, or other ones')
                    if (ro & TRUNCATED != 0) != (len(box[0]) > total) or ro & ~TRUNCATED:
                        return say('truncated', f'sock_recv of a datagram of {len(box[0])} bytes into {total} reports flags {ro:#x}')
                    if len(box[0]) > total:
                        job.count('truncated')
                    if not flags & PEEK:
                        box.pop(0)
                elif op == 'send':
                    data = [r.randbytes(r.choice([0, 1, 3, 20, 100, 700])) for _ in range(r.choice([1, 1, 2, 3, 5]))]
                    want = b''.join(data)
                    hist.append(['send', [len(x) for x in data]])
                    e, n = send(g, fd, data)
                    job.count('datagrams_sent')
                    job.case(('dgram send', kind, min(len(want), 2), len(data), e))
                    if e or n != len(want):
                        return say('dgram send', f'sock_send of a datagram of {len(want)} bytes gives {en(e)} and {n}')
                    try:
                        b = peer.recv(70000)
                    except (TimeoutError, socket.timeout):
                        return say('dgram lost', f'a datagram of {len(want)} bytes does not arrive')
                    if b != want:
                        return say('dgram bytes', f'sock_send of {[len(x) for x in data]}: the peer gets a datagram of {len(b)} bytes')
                    try:
                        waits(peer)
                        return say('dgram twice', 'one sock_send sends two datagrams')
                    except BlockingIOError:
                        pass
                if g.stray:
                    return say('stray', f'{g.stray[0]}')
        finally:
            g.close()
            host.close()
            peer.close()


# ---- accept ----
def accepting(job, r):
    with wd.Scratch() as tmp:
        kind = r.choice(['unix', 'inet'])
        l = socket.socket(socket.AF_UNIX if kind == 'unix' else socket.AF_INET, socket.SOCK_STREAM)
        cwd = os.getcwd()
        if kind == 'unix':
            os.chdir(tmp)
            l.bind('s')
            os.chdir(cwd)
        else:
            l.bind(('127.0.0.1', 0))
        l.listen(20)
        g = scratchguest(tmp, budget=20.0)
        waiting_, conns, hist = [], [], []
        say = lambda key, what: job.violation(key, f'{kind}: {what}'[:260], dict(kind=kind, nonblocking_listener=nb, history=hist[-12:]))
        try:
            nb = r.random() < .6
            lis = g.sock(l, 'stream')
            if nb:
                g.call('fd_fdstat_set_flags', lis, NONBLOCK)

            def dial():
                c = socket.socket(l.family, socket.SOCK_STREAM)
                c.settimeout(5)
                if kind == 'unix':
                    c.connect(os.path.join(tmp, 's')) if len(tmp) < 90 else None
                else:
                    c.connect(l.getsockname())
                return c
            for _ in range(r.randrange(8, 30)):
                op = r.choices(['dial', 'accept', 'talk', 'close', 'misuse'], [4, 5, 8, 2, 1])[0]
                if op == 'dial' and len(waiting_) < 6:
                    hist.append(['dial'])
                    waiting_.append(dial())
                elif op == 'accept':
                    late = None
                    if not waiting_:
                        if not nb:
                            late = []
                            t = threading.Thread(target=lambda: (time.sleep(.02), late.append(dial())), daemon=True)
                            t.start()
                        else:
                            e, _ = accept(g, lis, r.choice([0, NONBLOCK]))
                            job.count('again')
                            hist.append(['accept without a connection', en(e)])
                            if e != E['AGAIN']:
                                return say('accept again', f'sock_accept without a connection on a nonblocking listener gives {en(e)}')
                            continue
                    flags = r.choice([0, NONBLOCK, NONBLOCK, 1, 2, 8, 16, 32, 1 << 16, NONBLOCK | 1])
                    if flags & ~NONBLOCK and not late is None:
                        flags = 0
                    before = openfds()
                    e, fd = accept(g, lis, flags)
                    if late is not None:
                        t.join()
                        waiting_.extend(late)
                    hist.append(['accept', flags, en(e), fd])
                    job.case(('accept', kind, nb, flags, len(waiting_) > 1, e))
                    if flags & ~NONBLOCK:
                        if e == 0:
                            return say('accept flags', f'sock_accept with flags {flags:#x} succeeds')
                        if openfds() != before:
                            return say('accept leak', f'a refused sock_accept ({en(e)}) leaves a host descriptor')
                        continue
                    if e:
                        return say('accept', f'sock_accept with a connection waiting gives {en(e)}')
                    job.count('accepted')
                    if fd in [c[0] for c in conns] or fd <= lis:
                        return say('accept number', f'sock_accept gives the number {fd} of an open descriptor')
                    st = g.fdstat(fd)
                    if st[0] or st[1][0] != STREAM or st[1][1] != flags:
                        return say('accept fdstat', f'fd_fdstat_get of a connection accepted with flags {flags} gives {en(st[0])}, type, flags, rights {st[1]}')
                    gc.collect()
                    conns.append((fd, waiting_.pop(0), flags))
                elif op == 'talk' and conns:
                    fd, c, flags = r.choice(conns)
                    a, b = r.randbytes(r.choice([1, 10, 500])), r.randbytes(r.choice([1, 10, 500]))
                    hist.append(['talk', fd])
                    job.count('conversations')
                    if flags & NONBLOCK:
                        e, x, _ = recv(g, fd, [5])
                        job.count('again')
                        if e != E['AGAIN']:
                            return say('accepted nonblock', f'sock_recv on a connection accepted as nonblocking, with nothing there, gives {en(e)}')
                        c.sendall(a)
                        t = None
                    else:
                        t = threading.Thread(target=lambda: (time.sleep(r.choice([0, .003])), c.sendall(a)), daemon=True)
                        t.start()
                    got, end = b'', time.time() + 10
                    while len(got) < len(a) and time.time() < end:
                        e, x, _ = recv(g, fd, [r.choice([1, 7, 600]), 3])
                        if e == E['AGAIN'] and flags & NONBLOCK:
                            time.sleep(.0005)
                            continue
                        if e or not x:
                            return say('talk', f'sock_recv on accepted connection {fd} gives {en(e)} and {len(x)} bytes')
                        got += x
                    if t:
                        t.join()
                    if got != a:
                        return say('talk bytes', f'accepted connection {fd} delivers the bytes of another peer, or other bytes')
                    e, n = send(g, fd, [b[:3], b[3:]])
                    if e or n != len(b):
                        return say('talk send', f'sock_send on accepted connection {fd} gives {en(e)} {n}')
                    x = b''
                    while len(x) < len(b):
                        y = c.recv(1000)
                        if not y:
                            break
                        x += y
                    if x != b:
                        return say('talk peer', f'the peer of accepted connection {fd} gets other bytes')
                    job.case(('talk', kind, flags, len(conns)))
                elif op == 'close' and conns:
                    fd, c, flags = conns.pop(r.randrange(len(conns)))
                    hist.append(['close', fd])
                    e = g.call('fd_close', fd)
                    if e:
                        return say('accepted close', f'fd_close of accepted connection {fd} gives {en(e)}')
                    try:
                        if c.recv(5):
                            return say('accepted close', 'the peer gets bytes when the connection is closed')
                    except (TimeoutError, socket.timeout):
                        return say('accepted close', f'the peer does not see the end after fd_close of accepted connection {fd}')
                    job.count('accepted_closed')
                    e = recv(g, fd, [5])[0]
                    if e != E['BADF']:
                        return say('accepted close', f'sock_recv on the closed connection {fd} gives {en(e)}')
                    c.close()
                elif op == 'misuse' and conns:
                    e, _ = accept(g, r.choice(conns)[0], 0)
                    hist.append(['accept on a connection', en(e)])
                    if e not in (E['INVAL'], E['NOTSUP'], E['NOTCAPABLE']):
                        return say('misuse', f'sock_accept on a connection gives {en(e)}')
                    if not waiting_:
                        e, _, _ = recv(g, lis, [5])
                        e2, _ = send(g, lis, [b'abc'])
                        if e not in (E['NOTCONN'], E['INVAL']) or e2 not in (E['NOTCONN'], E['PIPE'], E['INVAL']):
                            return say('misuse', f'sock_recv and sock_send on a listener give {en(e)} and {en(e2)}')
                if g.stray:
                    return say('stray', f'{g.stray[0]}')
            # every connection still open is usable, also after the listener is gone
            g.call('fd_close', lis)
            for fd, c, flags in conns:
                c.sendall(b'last')
                if True:
                    e, b, _ = recv(g, fd, [2, 9])
                    if e == E['AGAIN']:
                        time.sleep(.01)
                        e, b, _ = recv(g, fd, [2, 9])
                    if e or not b or not b'last'.startswith(b):
                        return say('listener closed', f'after the listener is closed sock_recv on connection {fd} gives {en(e)} {b}')
                    job.count('survivors')
        except wd.Blocked as x:
            job.violation('blocked', f'{kind}: {x}', dict(kind=kind, history=hist[-12:]))
        finally:
            g.close()
            for c in waiting_ + [c[1] for c in conns]:
                c.close()
            l.close()
            os.chdir(cwd)


# ---- everything which is refused ----
def refused(job, r):
    with wd.Scratch() as tmp:
        g = scratchguest(tmp, budget=20.0)
        host, peer = pair('unix')
        dh, dp = pair('unixd')
        uh, up = pair('udp')
        keep = [host, peer, dh, dp, uh, up]
        try:
            e, f = g.open(3, 'f', 0, R['FD_READ'] | R['FD_WRITE'])
            assert e == 0
            say = lambda what, got, want: job.violation(f'refused:{what}', f'{what} gives {en(got)}, not {want}', dict(case=what, got=en(got)))
            both = lambda fd: [('sock_recv', lambda: recv(g, fd, [3])[0]), ('sock_send', lambda: send(g, fd, [b'abc'])[0]), ('sock_accept', lambda: accept(g, fd)[0]),
                               ('sock_shutdown', lambda: shut(g, fd, 3))]
            for what, fd in (('a file', f), ('a directory', 3), ('stdin', 0), ('stdout', 1)):
                for n, fn in both(fd):
                    e = fn()
                    job.count('refusals')
                    job.case((n, what, e))
                    if e != E['NOTSOCK'] and not (fd != f and e in (E['NOTCAPABLE'], E['BADF'])):
                        say(f'{n} on {what}', e, 'NOTSOCK')
            for fd in (99, -1, 1 << 31, (1 << 32) - 1):
                for n, fn in both(fd):
                    e = fn()
                    job.count('refusals')
                    job.case((n, 'bad', fd, e))
                    if e != E['BADF']:
                        say(f'{n} on descriptor {fd}', e, 'BADF')
            # each call needs its own right, and does nothing without it
            allr = R['FD_READ'] | R['FD_WRITE'] | R['SOCK_SHUTDOWN'] | R['SOCK_ACCEPT']
            l = socket.socket()
            l.bind(('127.0.0.1', 0))
            l.listen(1)
            l.setblocking(False)
            c = socket.create_connection(l.getsockname())
            keep += [l, c]
            for n, s, right, fn in (('sock_recv', host, 'FD_READ', lambda fd: recv(g, fd, [3])[0]), ('sock_send', host, 'FD_WRITE', lambda fd: send(g, fd, [b'abc'])[0]),
                                    ('sock_shutdown', host, 'SOCK_SHUTDOWN', lambda fd: shut(g, fd, 3)), ('sock_accept', l, 'SOCK_ACCEPT', lambda fd: accept(g, fd)[0])):
                peer.send(b'waiting') if n == 'sock_recv' else None
                for have in (allr & ~R[right], 0, R[right]):
                    fd = g.sock(s, 'stream', rights=have)
                    e = fn(fd)
                    job.count('refusals')
                    job.case((n, 'rights', have, e))
                    if have & R[right]:
                        if e and not (n == 'sock_send' and e == E['PIPE']):
                            say(f'{n} with its right', e, 'SUCCESS')
                    elif e != E['NOTCAPABLE']:
                        say(f'{n} without {right}', e, 'NOTCAPABLE')
                    elif n == 'sock_recv' and host.recv(99, socket.MSG_PEEK) != b'waiting':
                        say(f'{n} without {right}, taking bytes,', e, 'nothing taken')
                    elif n == 'sock_send':
                        try:
                            waits(peer)
                            say(f'{n} without {right}, sending bytes,', e, 'nothing sent')
                        except BlockingIOError:
                            pass
                    g.call('fd_close', fd)
                if n == 'sock_send':
                    peer.recv(50)
                if n == 'sock_recv':
                    host.recv(50)
            # what the host reports
            host2, peer2 = pair('unix')
            peer2.close()
            host3, peer3 = pair('inet')
            host3.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            peer3.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            peer3.close()
            time.sleep(.005)
            raw, rawd = socket.socket(), socket.socket(type=socket.SOCK_DGRAM)
            keep += [host2, host3, raw, rawd]
            ud, rd_, raw_, rawd_, h2, h3, dd = g.sock(uh, 'dgram'), g.sock(dh, 'dgram'), g.sock(raw, 'stream'), g.sock(rawd, 'dgram'), g.sock(host2, 'stream'), g.sock(host3, 'stream'), 0
            up.close()
            uh.setblocking(False)
            cases = [
                ('sock_send to a peer which is gone', lambda: send(g, h2, [b'a'])[0], {'PIPE'}), ('sock_recv from a connection reset', lambda: recv(g, h3, [5])[0], {'CONNRESET'}),
                ('sock_recv on an unconnected socket', lambda: recv(g, raw_, [5])[0], {'NOTCONN'}), ('sock_send on an unconnected socket', lambda: send(g, raw_, [b'a'])[0], {'PIPE', 'NOTCONN'}),
                ('sock_shutdown of an unconnected socket', lambda: shut(g, raw_, 3), {'NOTCONN'}), ('sock_send without an address', lambda: send(g, rawd_, [b'a'])[0], {'DESTADDRREQ'}),
                ('sock_accept on a datagram socket', lambda: accept(g, rd_)[0], {'NOTSUP', 'INVAL'}), ('sock_accept without listening', lambda: accept(g, raw_)[0], {'INVAL'}),
                ('sock_send of a datagram too large', lambda: send(g, ud, [bytes(40000), bytes(40000)])[0], {'MSGSIZE', 'CONNREFUSED'}),
            ]
            for what, fn, want in cases:
                before = openfds()
                try:
                    e = fn()
                except wd.Trap as t:
                    job.violation(f'ended:{what}', f'{what} ends the guest: {t}'[:200], dict(case=what))
                    continue
                job.count('host_errors')
                job.case((what, e))
                if en(e) not in want:
                    say(what, e, ' or '.join(sorted(want)))
                if openfds() != before:
                    say(f'{what}, leaving a host descriptor,', e, 'nothing left')
            send(g, ud, [b'x'])
            time.sleep(.003)
            e = send(g, ud, [b'x'])[0]
            if e != E['CONNREFUSED'] and e != 0:
                say('sock_send to nobody', e, 'CONNREFUSED')
        finally:
            g.close()
            for x in keep:
                x.close()


def work(job):
    wd.drop()
    r = job.rng
    for k in range(scale(70, 3000)):
        if job.late():
            break
        for _ in range(4):
            stream(job, r)
        transfer(job, r)
        for _ in range(2):
            datagrams(job, r)
            accepting(job, r)
        if k % 2 >= 0:
            waiting(job, r)
        if k % 4 == 0:
            refused(job, r)
            bulk(job, r)


def main():
    c = Check('W11', 'a distinct (call, socket kind, blocking, flags, buffer shape class, state of the connection, errno)')
    c.run(work)
    for k, n in (('received', 3000), ('peeked', 600), ('again', 500), ('sent', 2000), ('shutdowns', 150), ('broken_pipes', 50), ('transfers', 100), ('waits_for_all', 300), ('partial_sends', 30),
                 ('waits', 100), ('datagrams_received', 1500), ('truncated', 400), ('datagrams_sent', 1000), ('accepted', 300), ('conversations', 800), ('accepted_closed', 150), ('survivors', 300),
                 ('refusals', 500), ('host_errors', 150), ('bulk', 100)):
        c.require(k, n)
    c.finish()
