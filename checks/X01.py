"""The command line: `python -m pywasm` is started as an unprivileged process on generated modules with generated options; stdout, stderr and
the exit status are compared with a model of the interface.  WASI guests report everything they are given (arguments, environment,
preopened directories and what is in them, standard input) as bytes on stdout."""
import itertools, math, os, re, struct, subprocess, sys, tempfile
import gorun, pw, wasidrv as wd, wb
from harness import Check, scale

NUM = ['i32', 'i64', 'f32', 'f64', 'v128']
NAMES = ['f', 'main', 'run', 'add', '_start', 'a b', 'é中', '-x', 'x=y', 'F', 'f ', 'memory', "it's", '0']
CODES = [0, 1, 2, 3, 7, 42, 77, 124, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 511, 65535, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0xffffff00]


def start(argv, cwd, stdin=b'', timeout=120):
    env = dict(PATH=os.environ.get('PATH', '/usr/bin:/bin'), PYTHONPATH=pw.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', PYTHONUTF8='1', HOST_ONLY='secret')
    p = subprocess.run([sys.executable, '-m', 'pywasm'] + argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


# ---------------------------------------------------------------- plain modules

def value(r, t):
    """(text of the argument, the bytes of the value it means)"""
    if t in ('i32', 'i64'):
        bits = int(t[1:])
        n = r.choice([0, 1, -1, 7, 1 << 31, (1 << 31) - 1, -(1 << 31), (1 << (bits - 1)) - 1, -(1 << (bits - 1)), r.getrandbits(bits - 1), -r.getrandbits(bits - 1)])
        if t == 'i32' and n == 1 << 31:
            n = -5
        s = str(n)
        if r.random() < .15:
            s = s.replace('-', '-00') if n < 0 else '0' + s      # decimal all the same
        return s, (n & ((1 << bits) - 1)).to_bytes(bits // 8, 'little')
    if t in ('f32', 'f64'):
        s = r.choice(['0', '-0.0', '1', '-1.5', '0.1', '3.141592653589793', '1e-3', '-2E+10', 'inf', '-inf', 'nan', '1e300', '5e-324', '1e-45', '16777217', '123456789', '.5', '7.',
                      repr(r.uniform(-1e6, 1e6)), repr(math.ldexp(r.random(), r.randrange(-140, 120)))])
        x = float(s)
        if t == 'f64':
            return s, struct.pack('<d', x)
        try:
            return s, struct.pack('<f', x)
        except OverflowError:
            return s, struct.pack('<f', math.copysign(math.inf, x))
    b = bytes(r.choice([0, 255, 128, r.getrandbits(8)]) for _ in range(16))
    return '0x' + b.hex(), b


def const(t, b):
    if t == 'v128':
        return ('v128.const', b)
    return (t + '.const', int.from_bytes(b, 'little'))


def parse(text):
    """the printed list -> [value]"""
    if not re.fullmatch(r"\[.*\]\n", text, re.S):
        return None
    try:
        return eval(text, {'__builtins__': {}}, dict(nan=math.nan, inf=math.inf, bytearray=bytes, bytes=bytes))
    except Exception:
        return None


def agrees(t, b, x):
    if t in ('i32', 'i64'):
        return type(x) is int and x == int.from_bytes(b, 'little', signed=True)
    if t in ('f32', 'f64'):
        w = struct.unpack('<f' if t == 'f32' else '<d', b)[0]
        return type(x) is float and (math.isnan(x) if math.isnan(w) else x == w and math.copysign(1, x) == math.copysign(1, w))
    if t == 'v128':
        return isinstance(x, bytes) and x == b
    return x is None


def plain(job, sc, serial):
    r = job.rng
    m = wb.Module()
    names = r.sample(NAMES, r.randint(2, 5))
    if r.random() < .4 and '_start' not in names:
        names[0] = '_start'
    funcs = {}
    g = None
    if r.random() < .3:
        # a function which is not exported comes first: names, not positions, count
        m.func([], ['i32'], [('i32.const', 4242)])
    if r.random() < .3:
        m.mems.append((1, None))
        m.exports.append(('mem', 'memory', 0))
    m.globals.append(('i32', True, [('i32.const', 99)]))
    m.exports.append(('glob', 'global', 0))
    for n in names:
        ps = [r.choice(NUM) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        outs, body = [], []
        for _ in range(r.choice([0, 1, 1, 1, 2, 4])):
            k = r.random()
            if ps and k < .75:
                a = r.randrange(len(ps))
                body.append(('local.get', a))
                outs.append((ps[a], a))
            elif k < .9:
                t = r.choice(NUM)
                b = value(r, t)[1]
                body.append(const(t, b))
                outs.append((t, b))
            else:
                t = r.choice(['funcref', 'externref'])
                body.append(('ref.null', t))
                outs.append((t, None))
        end = r.choice(['ok'] * 12 + ['trap', 'deep'])
        if end == 'trap':
            body = body + [('unreachable',)]
        idx = len(m.funcs)
        if end == 'deep':
            body = [('local.get', k) for k in range(len(ps))] + [('call', idx)]
        m.func(ps, [t for t, _ in outs], body, export=n)
        funcs[n] = (ps, outs, end)
    boot = r.choice([None] * 12 + ['ok', 'trap'])
    if boot:
        m.func([], [], [('unreachable',)] if boot == 'trap' else [('i32.const', 1), ('global.set', 0)])
        m.start = len(m.funcs) - 1
    path = f'{sc}/p{serial}.wasm'
    with open(path, 'wb') as f:
        f.write(m.encode())
    for _ in range(3):
        n = r.choice(names)
        ps, outs, end = funcs[n]
        vals = [value(r, t) for t in ps]
        texts = [v[0] for v in vals]
        fault = r.choice([None] * 11 + ['name', 'kind', 'few', 'many', 'text', 'file', 'cut', 'dir', 'empty'])
        func = n
        if fault == 'name':
            func = r.choice([x.strip() for x in names if x != x.strip()] or ['none']) if r.random() < .3 else r.choice(['nothing', n + 'x', n.upper() + '!', n[:-1] or 'zz', ' ' + n, n + ' ', n.strip(), n.swapcase(), '/' + n, '.' + n])
            while func in funcs:
                func += '?'
        elif fault == 'kind':
            func = 'glob'
            texts = r.choice([texts, []])
        elif fault == 'few' and texts:
            texts = texts[:-1]
        elif fault == 'many':
            texts = texts + ['0']
        elif fault == 'text' and texts:
            k = r.randrange(len(texts))
            texts[k] = {'i32': 'one', 'i64': '1.5', 'f32': 'x', 'f64': '', 'v128': '0x00'}[ps[k]]
        file = path
        if fault == 'file':
            file = sc + '/missing.wasm'
        elif fault in ('cut', 'empty'):
            file = f'{sc}/c{serial}.wasm'
            whole = m.encode()
            with open(file, 'wb') as f:
                f.write(whole[:-r.randint(1, min(len(whole) - 9, 6))] if fault == 'cut' else b'')
        elif fault == 'dir':
            file = sc
        if fault in ('few', 'text') and not vals:
            fault = None
        argv = []
        if func != '_start' or r.random() < .5:
            argv.append([f'--func={func}'] if func.startswith('-') or r.random() < .5 else ['--func', func])
        rest = [[f'--func-args={x}'] if x.startswith('-') or r.random() < .5 else ['--func-args', x] for x in texts]
        at = r.randint(0, len(rest))
        argv = rest[:at] + argv + rest[at:]
        argv.insert(r.randint(0, len(argv)), [file if r.random() < .5 else os.path.relpath(file, sc)])
        argv = [x for l in argv for x in l]
        want_ok = fault is None and end == 'ok' and boot != 'trap'
        if end == 'deep' and fault is None and r.random() < .5:
            continue        # runaway recursion takes a second: fewer of these
        code, out, err = start(argv, sc)
        job.count('runs')
        what = fault or (boot == 'trap' and 'start traps') or end
        job.case(('plain', what, tuple(ps), tuple(t for t, _ in outs)))
        rep = dict(module=m.encode().hex(), argv=argv, status=code, stdout=out.decode(errors='replace')[:2000], stderr=err.decode(errors='replace')[-600:])
        if not want_ok:
            job.count('failures')
            if code == 0:
                job.violation(f'status:{what}', f'the command line exits with 0 although {what}', rep)
            if out:
                job.violation(f'printed:{what}', f'the command line prints {out[:60]!r} although {what}', rep)
            if code < 0:
                job.violation(f'killed:{what}', f'the command line dies of signal {-code}', rep)
            continue
        if code != 0:
            job.violation('failed', f'a call which returns ends with status {code}: {err.decode(errors="replace")[-80:]!r}', rep)
            continue
        if err:
            job.violation('stderr', f'a call which returns prints {err[:80]!r} on stderr', rep)
        got = parse(out.decode(errors='replace'))
        if got is None:
            job.violation('format', f'the results of a call are printed as {out[:80]!r}', rep)
            continue
        want = [(t, vals[b][1] if isinstance(b, int) else b) for t, b in outs]
        job.count('results', len(want))
        job.count('arguments', len(texts))
        if len(got) != len(want):
            job.violation('count', f'{len(got)} results printed instead of {len(want)}', rep)
            continue
        for (t, b), x in zip(want, got):
            if not agrees(t, b, x):
                job.violation(f'value:{t}', f'a result of type {t} with bytes {b and b.hex()} is printed as {x!r}', rep)
    os.remove(path)


# ---------------------------------------------------------------- WASI commands

def reporter(end, code, more):
    """the guest: reports args, environment, preopens, what it finds in them and its standard input; then ends"""
    m = wb.Module()
    use = ['args_sizes_get', 'args_get', 'environ_sizes_get', 'environ_get', 'fd_prestat_get', 'fd_prestat_dir_name', 'path_open', 'path_create_directory', 'fd_read', 'fd_write', 'proc_exit']
    F = {}
    for n in use:
        m.imports.append(('wasi_snapshot_preview1', n, 'func', m.type(['i32'] if n == 'proc_exit' else wd.FUNCS[n], [] if n == 'proc_exit' else ['i32'])))
        F[n] = len(m.imports) - 1
    m.mems.append((8, None))
    m.exports.append(('memory', 'memory', 0))
    BUF, PTR, IOV, NAME = 0x20000, 0x10000, 64, 512
    m.datas.append(wb.Data('active', b'probemarkE!', [('i32.const', NAME)]))
    c = lambda n: ('i32.const', n)
    ld = lambda a: [c(a), ('i32.load', 2, 0)]

    def st(a, body):
        return [c(a)] + body + [('i32.store', 2, 0)]
    # write(fd, ptr, len)
    w = m.func(['i32', 'i32', 'i32'], [], st(IOV, [('local.get', 1)]) + st(IOV + 4, [('local.get', 2)]) +
               [('local.get', 0), c(IOV), c(1), c(IOV + 8), ('call', F['fd_write']), ('if', None), ('unreachable',), ('end',)])

    def write(fd, p, n):
        return [c(fd)] + p + n + [('call', w)]
    quit_ = m.func([], [], [c(code), ('call', F['proc_exit']), *write(1, [c(NAME)], [c(9)]), ('unreachable',)])
    b = []
    for get, siz in (('args_get', 'args_sizes_get'), ('environ_get', 'environ_sizes_get')):
        b += [c(0), c(4), ('call', F[siz]), ('if', None), ('unreachable',), ('end',), c(PTR), c(BUF), ('call', F[get]), ('if', None), ('unreachable',), ('end',)]
        b += write(1, [c(0)], [c(8)]) + write(1, [c(BUF)], ld(4))
    loop = [('local.get', 0), c(0), ('call', F['fd_prestat_get']), ('br_if', 1)]
    loop += write(1, [c(0)], [c(8)])
    loop += [('local.get', 0), c(BUF), *ld(4), ('call', F['fd_prestat_dir_name']), ('br_if', 1)] + write(1, [c(BUF)], ld(4))
    loop += [c(20), ('local.get', 0), c(1), c(NAME), c(5), c(0), ('i64.const', 2), ('i64.const', 0), c(0), c(16), ('call', F['path_open']), ('i32.store', 2, 0)] + write(1, [c(20)], [c(4)])
    loop += ld(20) + [('i32.eqz',), ('if', None)] + st(24, [c(BUF)]) + st(28, [c(64)]) + [*ld(16), c(24), c(1), c(32), ('call', F['fd_read']), ('drop',)] + write(1, [c(32)], [c(4)]) + \
        write(1, [c(BUF)], ld(32)) + [('end',)]
    loop += [c(20), ('local.get', 0), c(NAME + 5), c(4), ('call', F['path_create_directory']), ('i32.store', 2, 0)] + write(1, [c(20)], [c(4)])
    loop += [('local.get', 0), c(1), ('i32.add',), ('local.set', 0), ('br', 0)]
    b += [c(3), ('local.set', 0), ('block', None), ('loop', None)] + loop + [('end',), ('end',)]
    b += [('block', None), ('loop', None)] + st(24, [c(BUF)]) + st(28, [c(more)]) + [c(0), c(24), c(1), c(32), ('call', F['fd_read']), ('br_if', 1), *ld(32), ('i32.eqz',), ('br_if', 1)] + \
        write(1, [c(BUF)], ld(32)) + [('br', 0), ('end',), ('end',)]
    b += write(2, [c(NAME + 9)], [c(2)])
    if end == 'exit':
        b += [c(code), ('call', F['proc_exit'])] + write(1, [c(NAME)], [c(9)])
    elif end == 'deep exit':
        b += [('block', None), ('loop', None), c(1), ('if', None), ('call', quit_), ('end',), ('end',), ('end',)]
    elif end == 'trap':
        b += [('unreachable',)]
    elif end == 'div':
        b += [c(1), c(0), ('i32.div_s',), ('drop',)]
    m.func([], [], b, locals=['i32'], export='_start' if end != 'no start' else 'start')
    # functions named like the defaults of the other mode are not run
    m.func([], [], write(1, [c(NAME)], [c(9)]), export='main')
    return m.encode()


WORDS = ['', 'a', 'hello world', 'x' * 300, 'é中\U0001f600', '--flag', '-v', 'a=b', 'a:b', '=', ':', '"quoted"', '$HOME', '*', 'new\nline', ' lead', 'trail ']


def command(job, sc, serial):
    r = job.rng
    end = r.choice(['exit'] * 5 + ['deep exit'] * 2 + ['return'] * 2 + ['trap', 'div', 'no start'])
    code = r.choice(CODES)
    blob = reporter(end, code, r.choice([1000, 7, 65536]))
    path = f'{sc}/w{serial}.wasm'
    with open(path, 'wb') as f:
        f.write(blob)
    file = path if r.random() < .5 else os.path.relpath(path, sc)
    args = [r.choice(WORDS) for _ in range(r.choice([0, 1, 2, 3, 8]))]
    keys = r.sample(['A', 'B', 'PATH', 'HOME', 'Ключ', 'a b', 'x.y', 'LANG'], r.choice([0, 1, 2, 4]))
    envs = [(k, r.choice(WORDS)) for k in keys]
    dirs, made = [], []
    for k, gname in enumerate(r.sample(['/', '.', 'data', '/data', '/a/b', 'é', 'a b', 'a/x', 'c'], r.choice([0, 1, 1, 2, 3]))):
        host = f'{sc}/d{serial}-{k}' + r.choice(['', '', ':with:colons', 'é', '=x', ' sp'])
        os.mkdir(host)
        probe = r.choice([None, b'', b'contents %d' % k, bytes(r.getrandbits(8) for _ in range(40))])
        if probe is not None:
            with open(host + '/probe', 'wb') as f:
                f.write(probe)
        mark = r.random() < .3
        if mark:
            os.mkdir(host + '/mark')
        dirs.append((gname, host, probe, mark))
    stdin = r.choice([b'', b'x', b'line\nline\r\n\0\xff', bytes(r.getrandbits(8) for _ in range(3000)), b'z' * 70000])
    fault = r.choice([None] * 12 + ['file', 'cut', 'hostdir'])
    if fault == 'file':
        file = sc + '/missing.wasm'
    elif fault == 'cut':
        with open(path, 'wb') as f:
            f.write(blob[:-3])
    opts = [['--wasi', 'preview1']]
    opts += [[f'--wasi-args={x}'] if x.startswith('-') or r.random() < .5 else ['--wasi-args', x] for x in args]
    seqs = [[f'--wasi-envs={k}={v}'] if r.random() < .5 else ['--wasi-envs', f'{k}={v}'] for k, v in envs] + \
           [[f'--wasi-dirs={g}:{h if r.random() < .5 else os.path.relpath(h, sc)}'] if r.random() < .5 else ['--wasi-dirs', f'{g}:{h}'] for g, h, _, _ in dirs]
    if fault == 'hostdir':
        seqs.append(['--wasi-dirs', f'gone:{sc}/nonexistent'])
    # options of different kinds are mixed, the order within a kind is kept
    for x in seqs:
        opts.append(x)
    heads = dict(a=[o for o in opts if 'wasi-args' in o[0]], e=[o for o in opts if 'wasi-envs' in o[0]], d=[o for o in opts if 'wasi-dirs' in o[0]], w=[opts[0]], f=[[file]])
    pool = [k for k, l in heads.items() for _ in l]
    r.shuffle(pool)
    argv = [x for k in pool for x in heads[k].pop(0)]
    rc, out, err = start(argv, sc, stdin)
    job.count('commands')
    job.case(('command', end, code, fault, len(args), len(envs), len(dirs)))
    rep = dict(module=blob.hex()[:20000], argv=argv, status=rc, stdout=out.hex()[:4000], stderr=err.decode(errors='replace')[-600:], cwd=sc)
    fails = fault or (end if end in ('trap', 'div', 'no start') else None)
    if rc < 0:
        job.violation('killed', f'the command line dies of signal {-rc}', rep)
        return
    if fails:
        job.count('failures')
        if rc == 0:
            job.violation(f'status:{fails}', f'the command line exits with 0 although {fails}', rep)
    else:
        want = code & 0xff if 'exit' in end else 0
        job.count('statuses')
        if rc != want:
            job.violation('exit', f'the guest exits with {code if "exit" in end else "no code"} ({end}) and the process with {rc} instead of {want}: {err.decode(errors="replace")[-60:]}', rep)
        if err != b'E!':
            job.violation('stderr', f'stderr is {err[-60:]!r} instead of what the guest wrote', rep)
    if not fault and end != 'no start':
        def block(strs):
            b = b''.join(x.encode() + b'\0' for x in strs)
            return struct.pack('<II', len(strs), len(b)) + b
        # arguments come in order; variables and directories in any
        head, tail = block([file] + args), stdin
        per = []
        for g, h, probe, mark in dirs:
            n = g.encode()
            per.append(struct.pack('<II', 0, len(n)) + n + (struct.pack('<I', 44) if probe is None else struct.pack('<II', 0, len(probe)) + probe) + struct.pack('<I', 20 if mark else 0))
        exps = [head + block([f'{k}={v}' for k, v in e]) + b''.join(d) + tail for e in itertools.permutations(envs) for d in itertools.permutations(per)]
        job.count('strings', len(args) + len(envs))
        job.count('directories', len(dirs))
    else:
        exps = [b'']
    if out not in exps:
        exp = max(exps, key=lambda e: len(os.path.commonprefix([e, out])))
        at = len(os.path.commonprefix([exp, out]))
        job.violation('stdout', f'stdout differs from what the guest was to see, at byte {at}: {out[max(0, at - 20):at + 20]!r} instead of {bytes(exp[max(0, at - 20):at + 20])!r}', dict(rep, expected=exp.hex()[:4000]))
    for g, h, probe, mark in dirs:
        if not fault and end != 'no start' and not os.path.isdir(h + '/mark'):
            job.violation('directory', f'the guest made a directory in {g} and it is not in {h}', rep)
    os.remove(path)


def usage(job, sc):
    """--version and wrong usage"""
    import pywasm
    for argv in (['--version'], ['-v']):
        rc, out, err = start(argv, sc)
        job.count('usage')
        if rc or out.decode().split() != ['pywasm', str(pywasm.version)]:
            job.violation('version', f'{argv[0]} gives status {rc} and {out[:60]!r}', dict(argv=argv))
    for argv in ([], ['--wasi', 'preview9', 'x.wasm'], ['--func'], ['--nosuch', 'x.wasm'], ['a.wasm', 'b.wasm']):
        rc, out, err = start(argv, sc)
        job.count('usage')
        if rc == 0 or out:
            job.violation('usage', f'wrong usage {argv} gives status {rc} and prints {out[:60]!r}', dict(argv=argv))


def work(job):
    wd.drop()
    with wd.Scratch() as sc:
        if job.n == 0:
            usage(job, sc)
        for k in range(scale(9, 700)):
            if job.late():
                break
            plain(job, sc, k)
            for q in range(3):
                command(job, sc, f'{k}-{q}')


PROGS = None


def program(job):
    if job.n >= scale(4, 8):
        return
    wd.drop()
    with wd.Scratch() as sc:
        for k in range(scale(1, 12)):
            if job.late():
                break
            gorun.once(job, sc, PROGS, k, scale(60, 150))


def main():
    global PROGS
    c = Check('X01', 'a distinct (mode, outcome, parameter and result types | way of ending, exit code, numbers of arguments, variables and directories | seed of a Go program)')
    c.run(work)
    where = tempfile.mkdtemp(prefix='vfgo', dir='/tmp')
    try:
        PROGS = gorun.build(where)
        if PROGS:
            c.run(program, wall=scale(400, 3000))
        else:
            c.counters['go_missing'] = 1
    finally:
        wd._rm(where)
    for k, n in (('runs', 100), ('commands', 120), ('failures', 60), ('results', 80), ('arguments', 90), ('statuses', 70), ('strings', 150), ('directories', 80)):
        c.require(k, n)
    if not c.counters.get('go_missing') and not c.counters.get('go_slow'):
        c.require('go_programs', 4)
    c.finish()
