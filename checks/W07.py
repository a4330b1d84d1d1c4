"""Environment, preopens, stdio and exit codes as a guest program sees them."""
import io, os, pickle, select, signal, struct, sys, time
import pw, wasidrv as wd
import pywasm.wasi
from harness import Check, scale
from wasidrv import ALL, E, R, en
from wb import Func, Module

WORDS = ['', 'a', 'prog.wasm', '--flag=1', 'with space', 'é', '日本語', '\U0001f600', 'x' * 300, '=', 'a=b=c', '-', '\t\n', 'ß' * 50, '"quoted"', '\x7f', '\x01']
SHORT = WORDS[:8]


def strings(job, r):
    args = [r.choice(WORDS) + r.choice(['', '', 'q', 'ü', str(r.random())]) for _ in range(r.choice([0, 1, 1, 2, 5, 20]))]
    keys = {r.choice(['K', 'PATH', 'Ü', 'a b', '日', '_', 'HOME', 'k', '']) + r.choice(['', '', '1', 'ö', str(r.randrange(99))]) for _ in range(r.choice([0, 1, 2, 5, 15]))}
    envs = {k: r.choice(WORDS) for k in sorted(keys, key=lambda _: r.random())}
    q = r.random()
    if q < .03:
        args = [f'{k}' for k in range(r.choice([127, 128, 255, 256, 257, 1000, 1025]))]
        envs = {f'k{k}': str(k * k) for k in range(r.choice([127, 128, 255, 256, 257, 1000, 1025]))}
    elif q < .06:
        args = args[:2] + [r.choice('xé日') * r.choice([255, 256, 4095, 4096, 30000, 65535, 65536, 70000])] + args[2:]
        envs['big'] = r.choice('xé日') * r.choice([255, 256, 4095, 4096, 30000, 65535, 65536, 70000])
    given = list(args), dict(envs)
    g = wd.Guest(args=args, envs=envs, pages=12 if q < .06 else wd.PAGES)
    job.count('large_lists', q < .06)
    for _ in range(2):
        a, e = g.args(), g.environ()
        job.count('string_lists')
        if a != given[0]:
            return 'args', f'args_get gives {str(a)[:150]}, configured {str(given[0])[:150]}', given
        if not isinstance(e, list) or sorted(e) != sorted(f'{k}={v}' for k, v in given[1].items()):
            return 'environ', f'environ_get gives {str(e)[:150]}, configured {str(given[1])[:150]}', given
        if e not in (sorted(e), [f'{k}={v}' for k, v in given[1].items()], [f'{k}={v}' for k, v in sorted(given[1].items())]):
            return 'environ order', f'environ_get gives {str(e)[:150]}, configured {str(given[1])[:150]}', given
    if g.stray:
        return 'stray', str(g.stray[0])[:200], given
    job.case(('strings', len(args), len(envs), tuple(sorted(any(ord(c) > 127 for c in x) for x in args)), tuple(len(x) > 100 for x in args)[:3]))
    g.close()


def preopens(job, r):
    with wd.Scratch() as tmp:
        pool = ['/', '.', 'dir', '/usr/é', 'a/b', '/data', '日本', 'x' * 100, 'a b', '/a', '..data', '/tmp']
        odd = ['./', 'a//b', '/x/../y', 'q/', './r', '//']
        if r.random() < .03:
            pool += [f'/d{k}' for k in range(60)]
        names = r.sample(pool, r.choice([0, 1, 2, 3, 5]) if len(pool) < 60 else 40) + (r.sample(odd, 1) if r.random() < .3 else [])
        r.shuffle(names)
        dirs = {}
        for k, n in enumerate(names):
            d = os.path.join(tmp, f'host{k}')
            os.mkdir(d)
            with open(os.path.join(d, 'who'), 'w') as f:
                f.write(n)
            dirs[n] = d if r.random() < .7 else d + r.choice(['/', '/.', '/../' + f'host{k}'])
        norm = {os.path.normpath(n) for n in names}
        if len(norm) != len(names):
            return
        g = wd.Guest(dirs=dirs)
        seen = []
        for fd in range(3, 3 + len(names)):
            e, name = g.prestat(fd)
            job.count('preopens')
            if e or not isinstance(name, bytes):
                return 'prestat', f'descriptor {fd} should be a preopened directory, prestat gives {en(e)} {name}', list(dirs.items())
            name = name.decode()
            e, x = g.open(fd, 'who', 0, R['FD_READ'] | R['FD_SEEK'], 0)
            got = g.pread(x, [400], 0)[1].decode() if e == 0 else en(e)
            if e == 0:
                g.call('fd_close', x)
            if name not in (got, os.path.normpath(got)):
                return 'prestat name', f'descriptor {fd} is called {name!r} and is the directory configured as {got!r}', list(dirs.items())
            seen.append(got)
            n = len(name.encode())
            # a name which does not fit
            for cap in {n - 1, 0, n // 2} - {n}:
                g.reset()
                p = g.alloc(cap)
                g.mem.data[p:p + n] = b'\x5a' * n
                e = g.raw('fd_prestat_dir_name', [fd, p, cap])
                if e == 0 or g.get(p, n) != b'\x5a' * n:
                    return 'prestat fit', f'fd_prestat_dir_name with {cap} bytes for a name of {n} gives {en(e)} or writes past them', list(dirs.items())
                job.count('names_not_fitting')
        if sorted(seen) != sorted(names):
            return 'prestat set', f'preopens enumerate as {seen}, configured {names}', list(dirs.items())
        for fd in (3 + len(names), 4 + len(names), 0, 1, 2, -1, 99):
            e = g.prestat(fd)[0]
            if e != E['BADF']:
                return 'prestat end', f'fd_prestat_get({fd}) gives {en(e)} with {len(names)} preopens', list(dirs.items())
        if names:
            # files opened later are no preopens
            e, x = g.open(3, 'who', 0, R['FD_READ'], 0)
            e2 = g.prestat(x)[0]
            if e or e2 != E['BADF']:
                return 'prestat end', f'fd_prestat_get of an opened file gives {en(e2)}', list(dirs.items())
            # nor are directories, whatever they are called
            fd = r.randrange(3, 3 + len(names))
            for n in ['.', 'sub'] + [x for x in names if x.strip('/.') and not x.startswith('..')][:3]:
                e, x = g.open(fd, n.lstrip('/'), wd.DIRECTORY, R['FD_READDIR'], 0)
                if e and n == '.':
                    return 'prestat end', f'opening . in a preopen gives {en(e)}', list(dirs.items())
                if e == 0:
                    job.count('directories_opened')
                    g.reset()
                    q = g.out(300)
                    e2, e3 = g.raw('fd_prestat_get', [x, q]), g.raw('fd_prestat_dir_name', [x, q, 300])
                    if e2 != E['BADF'] or e3 != E['BADF']:
                        return 'prestat end', f'fd_prestat_get and fd_prestat_dir_name of the opened directory {n!r} give {en(e2)} and {en(e3)}', list(dirs.items())
        if g.stray:
            return 'stray', str(g.stray[0])[:200], list(dirs.items())
        job.case(('preopens', len(names), any(n in odd for n in names), any(ord(c) > 127 for n in names for c in n)))
        g.close()


def script(r, big=False):
    out = []
    for _ in range(r.choice([1, 3, 10, 25])):
        q = r.random()
        iov = [r.choice([0, 1, 5, 50, 700]) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        if big and r.random() < .02:
            iov = r.choice([[r.randrange(3) for _ in range(1100)], [66000], [9000, 0, 30000]])
        if q < .6:
            out.append(('w', r.choice([1, 1, 2]), [r.randbytes(n) for n in iov]))
        else:
            out.append(('r', 0, iov))
    return out


def play(g, ops, stdin_len=None):
    """the guest program; returns what it did: bytes written per stream, bytes read, problems"""
    wrote, read, bad = {1: b'', 2: b''}, b'', None
    for o in ops:
        if o[0] == 'w':
            e, n = g.write(o[1], o[2])
            data = b''.join(o[2])
            if e or n > len(data) or (data and not n):
                bad = bad or f'fd_write of {len(data)} bytes to {o[1]} gives {en(e)} {n}'
                break
            wrote[o[1]] += data[:n]
        else:
            e, b = g.read(0, o[2])
            if e or not isinstance(b, bytes):
                bad = bad or f'fd_read of {o[2]} from stdin gives {en(e)} {b}'
                break
            read += b
            if sum(o[2]) and not b and stdin_len is not None and len(read) < stdin_len:
                bad = bad or f'fd_read reports the end of stdin after {len(read)} of {stdin_len} bytes'
    return wrote, read, bad


def captured(job, r):
    data = r.randbytes(r.choice([0, 1, 10, 1000, 5000]))
    g = wd.Guest(stdin=data, capture=True, pages=4)
    ops = script(r, True)
    res = {}
    end = r.choice(['return', 'exit', 'boom'])

    def prog():
        res['r'] = play(g, ops, len(data))
        if end == 'exit':
            g.exit(3)
        if end == 'boom':
            g.boom()
    try:
        code = g.main(prog)
    except wd.Trap as t:
        return 'stdio trap', str(t), [str(o)[:200] for o in ops]
    except Exception as e:
        if end != 'boom':
            return 'stdio trap', f'{type(e).__name__} {e}', [str(o)[:200] for o in ops]
    wrote, read, bad = res['r']
    job.count('captured_programs')
    if bad:
        return 'captured', bad, [str(o)[:300] for o in ops]
    if not data.startswith(read):
        return 'captured stdin', f'read {read[:40]!r}..., stdin is {data[:40]!r}...', [str(o)[:200] for o in ops]
    for n in (1, 2):
        p = g.wasi.fd[n].pipe
        got = p.read()           # as the examples do: main leaves the pipes at their start
        p.seek(0)
        if got != wrote[n] or p.read() != wrote[n]:
            return 'captured stdout', f'stream {n}: {len(wrote[n])} bytes {wrote[n][:40]!r} written, captured {len(got)} {got[:40]!r} ({end})', [str(o)[:200] for o in ops]
    job.count('bytes_through_stdio', len(read) + len(wrote[1]) + len(wrote[2]))
    job.case(('captured', end, len(ops), len(data) > 0, bool(wrote[2])))


def streams(fi, fo, fe, high):
    """makes these the standard streams of this process, with buffers as Python usually has them, on descriptors 0 to 2 or others"""
    fds = []
    for n, x in enumerate((fi, fo, fe)):
        if high:
            fds.append(os.dup(x))
        else:
            os.dup2(x, n)
            fds.append(n)
    sys.stdin = open(fds[0], closefd=False)
    sys.stdout = open(fds[1], 'w', closefd=False)
    sys.stderr = open(fds[2], 'w', closefd=False)
    return fds


def dialog(job, r):
    """a program that asks and waits for answers, which come only after the question has arrived; it reads them in pieces and polls between them.
    Several programs one after the other share the streams."""
    turns = []
    for _ in range(r.randrange(1, 6)):
        q = [(r.choice([1, 2]), r.randbytes(r.choice([1, 5, 80]))) for _ in range(r.choice([1, 1, 3]))]
        a = r.randbytes(r.choice([1, 7, 300, 5000]))
        turns.append((q, a))
    cut = r.choice([0, 0, 1, 2])
    pieces = [r.choice([1, 3, 100, 4000]) for _ in range(40)]
    fi, wi = os.pipe()
    ro, fo = os.pipe()
    rr, wr = os.pipe()
    high = r.random() < .3
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            mine = streams(fi, fo, fo, high)
            for x in (fi, fo, wi, ro, rr):
                os.close(x)
            signal.alarm(60)
            bad = None

            def part(todo):
                nonlocal bad
                for q, a in todo:
                    for n, b in q:
                        e, k = g.write(n, [b])
                        if e or k != len(b):
                            bad = f'fd_write of {len(b)} bytes to {n} gives {en(e)} {k}'
                            return
                    got = b''
                    for size in [0] + pieces + [5000] * 9:
                        if len(got) >= len(a):
                            break
                        g.reset()
                        subs = [struct.pack('<QBxxxxxxxI', 1, 1, 0) + bytes(28), struct.pack('<QBxxxxxxxIxxxxQQHxxxxxx', 2, 0, 1, 20 * 10 ** 9, 0, 0)]
                        ps, o, n = g.put(b''.join(subs)), g.out(64), g.out(4)
                        e = g.raw('poll_oneoff', [ps, o, 2, n])
                        if e or g.u(n, 4) != 1 or g.u(o, 8) != 1:
                            bad = f'poll_oneoff for stdin gives {en(e)} and {g.u(n, 4)} events, the first for {g.u(o, 8)}, although {len(a) - len(got)} bytes are to be read'
                            return
                        e, b = g.read(0, [size // 2, size - size // 2])
                        if e or len(b) > size or (size and not b):
                            bad = f'fd_read of {size} bytes gives {en(e)} {b!r}'[:150]
                            return
                        got += b
                    if got != a:
                        bad = f'read {got[:30]!r} ({len(got)} bytes) instead of {a[:30]!r} ({len(a)} bytes)'
                        return
            for todo in (turns[:cut], turns[cut:]):
                g = wd.Guest(capture=False, pages=2)
                try:
                    if bad is None and g.main(lambda: part(todo)) != 0:
                        bad = 'main does not return 0'
                except BaseException as e:
                    bad = f'{type(e).__name__} {e}'
            for x in mine:
                os.fstat(x)
            os.write(wr, pickle.dumps(bad))
            code = 0
        finally:
            os._exit(code)
    for x in (fi, fo, wr):
        os.close(x)
    out, at, bad = b'', 0, None
    for q, a in turns:
        want = b''.join(b for _, b in q)
        got = b''
        while len(got) < len(want) and bad is None:
            if not select.select([ro], [], [], 30)[0]:
                bad = f'a question of {len(want)} bytes does not arrive: {got[:30]!r}'
                break
            b = os.read(ro, len(want) - len(got))
            if not b:
                bad = 'the end of the output comes before the question'
            got += b
        if bad is None and got != want:
            bad = f'the question {want[:30]!r} arrives as {got[:30]!r}'
        if bad:
            break
        try:
            os.write(wi, a)
        except BrokenPipeError:
            bad = 'nobody reads the answers'
            break
        job.count('bytes_through_stdio', len(a) + len(want))
    if bad is None or 'end of the output' in bad or 'nobody' in bad:
        b = b''
        while select.select([rr], [], [], 60)[0]:
            x = os.read(rr, 4096)
            if not x:
                break
            b += x
        bad = (pickle.loads(b) if b else 'the program did not end normally') or bad
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    for x in (wi, ro, rr):
        os.close(x)
    job.count('dialogs')
    job.case(('dialog', high, cut, len(turns)))
    if bad:
        return 'dialog', bad, [repr(turns)[:2000], high, cut]


def real(job, r):
    """pipes, files and terminals the process really has"""
    data = r.randbytes(r.choice([0, 1, 10, 3000, 30000]))
    ops = script(r, True) + [('r', 0, [100, 4000])] * r.choice([0, 1, 5])
    with wd.Scratch() as tmp:
        use_files = r.random() < .4
        if use_files:
            with open(os.path.join(tmp, 'in'), 'wb') as f:
                f.write(data)
            fi = os.open(os.path.join(tmp, 'in'), os.O_RDONLY)
            fo = os.open(os.path.join(tmp, 'out'), os.O_WRONLY | os.O_CREAT)
            fe = os.open(os.path.join(tmp, 'err'), os.O_WRONLY | os.O_CREAT)
        else:
            fi, wi = os.pipe()
            ro, fo = os.pipe()
            re_, fe = os.pipe()
        rr, wr = os.pipe()
        high = r.random() < .3
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                mine = streams(fi, fo, fe, high)
                for x in (fi, fo, fe) + (() if use_files else (wi, ro, re_)):
                    os.close(x)
                signal.alarm(60)
                g = wd.Guest(capture=False, pages=4)
                res = {}

                def prog():
                    res['r'] = play(g, ops, None)
                try:
                    res['code'] = g.main(prog)
                except BaseException as e:
                    res['code'] = f'{type(e).__name__} {e}'
                # the streams belong to this process and are still there
                for x in mine:
                    os.fstat(x)
                os.write(wr, pickle.dumps(res))
                code = 0
            finally:
                os._exit(code)
        for x in (fi, fo, fe, wr):
            os.close(x)
        outs = {}
        if not use_files:
            todo = {rr: 'res', ro: 1, re_: 2}
            left = data
            os.set_blocking(wi, False)
            outs = {'res': b'', 1: b'', 2: b''}
            while todo:
                rd, w, _ = select.select(list(todo), [wi] if left is not None else [], [], 90)
                if not rd and not w:
                    break
                if w:
                    if left:
                        try:
                            left = left[os.write(wi, left[:r.choice([1, 100, 9999])]):]
                        except BrokenPipeError:
                            left = b''
                    if not left:
                        os.close(wi)
                        left = None
                for x in rd:
                    b = os.read(x, 65536)
                    if b:
                        outs[todo[x]] += b
                    else:
                        os.close(x)
                        del todo[x]
            if left is not None:
                os.close(wi)
            for x in todo:
                os.close(x)
        else:
            outs['res'] = b''
            while True:
                b = os.read(rr, 65536)
                if not b:
                    break
                outs['res'] += b
            os.close(rr)
        st = os.waitpid(pid, 0)[1]
        if use_files:
            for n, x in ((1, 'out'), (2, 'err')):
                with open(os.path.join(tmp, x), 'rb') as f:
                    outs[n] = f.read()
        if st or not outs['res']:
            return 'real streams', f'the program did not end normally (status {st})', [str(o)[:200] for o in ops]
        res = pickle.loads(outs['res'])
        if 'r' not in res or res['code'] != 0:
            return 'real streams', f'main gives {res.get("code")}', [str(o)[:200] for o in ops]
        wrote, read, bad = res['r']
        job.count('real_programs')
        if bad:
            return 'real streams', bad, [str(o)[:300] for o in ops]
        if not data.startswith(read):
            return 'real stdin', f'read {read[:40]!r}, stdin is {data[:40]!r}', [str(o)[:200] for o in ops]
        for n in (1, 2):
            if outs[n] != wrote[n]:
                return 'real stdout', f'stream {n}: {len(wrote[n])} bytes written, {len(outs[n])} arrived: {outs[n][:40]!r} for {wrote[n][:40]!r}', [str(o)[:200] for o in ops]
        job.count('bytes_through_stdio', len(read) + len(wrote[1]) + len(wrote[2]))
        job.case(('real', use_files, len(ops), len(data) > 0, len(read) == len(data)))


CODES = [0, 1, 2, 3, 7, 42, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - 2]


def exit_module(shape, code):
    """(import proc_exit) (_start: some nesting around proc_exit(code), then a store which must not happen)"""
    m = Module()
    m.imports.append(('wasi_snapshot_preview1', 'proc_exit', 'func', m.type(('i32',), ())))
    void = m.type((), ())
    m.mems.append((1, 1))
    k = code - (1 << 32) if code >> 31 else code
    quit_ = [('i32.const', k), ('call', 0)]
    mark = [('i32.const', 8), ('i32.const', 77), ('i32.store', 2, 0)]
    body = {
        'plain': quit_,
        'block': [('block', None), ('block', None)] + quit_ + [('end',), ('end',)],
        'loop': [('loop', None), *quit_, ('br', 0), ('end',)],
        'if': [('i32.const', 1), ('if', None), *quit_, ('else',), ('end',)],
        'operands': [('i64.const', 5), ('f64.const', 0), ('i32.const', 9)] + quit_ + [('drop',), ('drop',), ('drop',)],
        'call': [('call', 2)],
        'indirect': [('i32.const', 0), ('call_indirect', void, 0)],
        'recursive': [('i32.const', 0), ('call', 3)],
        'return': None,
        'trap': None,
        'host': None,
    }[shape]
    if shape == 'return':
        body = [('i32.const', 1), ('drop',)]
    if shape == 'trap':
        body = [('unreachable',)]
    m.funcs.append(Func(void, [], body + mark))                              # 1: _start
    m.funcs.append(Func(void, [], [('block', None)] + quit_ + [('end',)] + mark))   # 2
    m.funcs.append(Func(m.type(('i32',), ()), [], [('local.get', 0), ('i32.const', 20), ('i32.ge_s',), ('if', None), *quit_, ('end',),
                                                    ('local.get', 0), ('i32.const', 1), ('i32.add',), ('call', 3)] + mark))  # 3
    m.exports.append(('_start', 'func', 1))
    m.exports.append(('memory', 'memory', 0))
    return m


def exits(job, r):
    rt = pw.core.Runtime()
    for _ in range(6):
        shape = r.choice(['plain', 'block', 'loop', 'if', 'operands', 'call', 'recursive', 'return', 'trap', 'guest'])
        code = r.choice(CODES) if r.random() < .8 else r.randrange(1 << 32)
        keep = r.random() < .2
        wasi = pywasm.wasi.Preview1(['x'], {}, {})
        if keep:
            wasi.return_on_exit = 0
        wasi.bind(rt)
        if shape == 'guest':
            g = wd.Guest(args=['x'], runtime=rt)
            if keep:
                g.wasi.return_on_exit = 0
            try:
                got = g.main(lambda: g.exit(code))
            except BaseException as e:
                got = e
            mark = 0
        else:
            inst = rt.instance(pw.core.ModuleDesc.from_reader(io.BytesIO(exit_module(shape, code).encode())))
            try:
                got = wasi.main(rt, inst)
            except BaseException as e:
                got = e
            mark = rt.exported_memory(inst, 'memory').data[8]
        job.count('exits')
        job.case(('exit', shape, code if code in CODES else 'other', keep))
        w = dict(shape=shape, code=code, return_on_exit=not keep, got=repr(got)[:200])
        if shape == 'trap':
            if not isinstance(got, Exception) or mark:
                return 'trap', f'main of a program which traps gives {got!r}', w
        elif shape == 'return':
            if type(got) is not int or got != 0 or mark != 77:
                return 'return', f'main of a program which returns gives {got!r}', w
        elif keep:
            if not isinstance(got, SystemExit) or got.code & 0xffffffff != code or mark:
                return 'exit process', f'proc_exit({code}) with return_on_exit off gives {got!r}', w
        elif type(got) is not int or got & 0xffffffff != code or mark:
            return 'exit code', f'proc_exit({code}) ({shape}): main returns {got!r}{", and the program went on" if mark else ""}', w


def host_module():
    """f(n): s = 0; do s += 100 + host(n) + n, 3 times; return s, with operands and labels pending around the call"""
    m = Module()
    h = m.type(('i32',), ('i32',))
    m.imports.append(('env', 'run', 'func', h))
    m.func(('i32',), ('i32',), [
        ('i64.const', 77),
        ('i32.const', 0), ('local.set', 1),
        ('loop', 'i64'),
        ('i64.const', 5),
        ('i32.const', 100),
        ('block', 'i32'), ('f64.const', 1), ('drop',), ('local.get', 0), ('call', 0), ('local.get', 0), ('i32.add',), ('end',),
        ('i32.add',),
        ('local.get', 1), ('i32.add',), ('local.set', 1),
        ('local.get', 2), ('i32.const', 1), ('i32.add',), ('local.tee', 2), ('i32.const', 3), ('i32.lt_u',), ('br_if', 0),
        ('end',),
        ('i64.sub',), ('i64.const', 72), ('i64.ne',), ('if', None), ('unreachable',), ('end',),
        ('local.get', 1)], locals=['i32', 'i32'], export='f')
    return m.encode()


HOST = host_module()


def nested(job, r):
    """programs run to their end by host functions, in the middle of other computations of the same runtime"""
    rt = pw.core.Runtime()
    i32 = pw.core.ValType.i32()
    plan, done, depth = [], [], [0]

    def run(machine, args):
        depth[0] += 1
        if args[0] > 0 and r.random() < .6:
            call(args[0] - 1)
        shape = r.choice(['plain', 'block', 'loop', 'if', 'operands', 'call', 'recursive', 'return', 'trap', 'trap'])
        code = r.choice(CODES)
        plan.append(f'{"  " * depth[0]}{shape} {code}')
        wasi = pywasm.wasi.Preview1(['x'], {}, {})
        wasi.bind(rt)
        inst = rt.instance(pw.core.ModuleDesc.from_reader(io.BytesIO(exit_module(shape, code).encode())))
        try:
            got = wasi.main(rt, inst)
        except Exception:
            got = 13 if shape == 'trap' else None
        want = {'return': 0, 'trap': 13}.get(shape, code)
        if got is None or got & 0xffffffff != want:
            done.append(f'{shape} {code} gives {got}')
        if args[0] > 0 and r.random() < .3:
            call(args[0] - 1)
        depth[0] -= 1
        total[-1] += want
        job.count('programs_in_programs')
        return [(want ^ 0x80000000) - 0x80000000]
    total = []

    def call(n):
        total.append(0)
        got = rt.invocate(outer, 'f', [n])
        want = (3 * (100 + n) + total.pop()) & 0xffffffff
        if got[0] & 0xffffffff != want:
            done.append(f'f({n}) is {got}, expected {want}')
    rt.imports['env'] = {'run': rt.allocate_func_host(pw.core.FuncType([i32], [i32]), run)}
    outer = rt.instance(pw.core.ModuleDesc.from_reader(io.BytesIO(HOST)))
    try:
        call(r.randrange(3))
    except Exception as e:
        done.append(f'{type(e).__name__} {str(e)[:100]} ends the outer computation')
    st = rt.machine.stack
    if not done and (st.frame or st.label or st.value):
        done.append('leaves the stack of the runtime unbalanced')
    job.case(('nested', tuple(sorted({x.split()[0] for x in plan}))))
    if done:
        return 'program in a program', f'{done[0]} (programs run by a host function of another computation: {[x.strip() for x in plan][:4]})', plan[:20]


def work(job):
    wd.drop()
    r = job.rng
    for k in range(scale(300, 9000)):
        if job.late():
            break
        for fn in (strings, preopens, captured, captured, exits, nested) + ((real, dialog) if k % 2 == 0 else ()):
            bad = fn(job, r)
            if bad:
                job.violation(f'{fn.__name__}:{bad[0]}', bad[1][:300], dict(what=fn.__name__, witness=bad[2]))


def main():
    c = Check('W07', 'a distinct configuration shape (number and kind of strings, preopens, program shape and end, exit code) run to its end')
    c.run(work)
    c.require('string_lists', 600)
    c.require('dialogs', 300)
    c.require('large_lists', 20)
    c.require('preopens', 500)
    c.require('captured_programs', 800)
    c.require('real_programs', 200)
    c.require('exits', 2000)
    c.require('programs_in_programs', 4000)
    c.finish()
