"""The host boundary: every value crosses as itself.  Random signatures; the same bits are followed from the embedder through wasm, host
functions, memory, globals, tables and back; misuse has to be refused before anything runs.  The oracle is identity on bit patterns."""
import io, random, struct
import pw
from harness import Check, scale
from values import rval
from wb import Data, Elem, Messy, Module

core = pw.core
NUM = ['i32', 'i64', 'f32', 'f64']
ALL = NUM + ['v128', 'funcref', 'externref']
NAT = {'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'v128': 16}


def bits(r, t, funcs=(None,)):
    """a bit pattern: int, 16 bytes, or None/int for references"""
    if t == 'externref':
        return r.choice([None, 0, 1, 7, r.getrandbits(31), (1 << 31) - 1, -1, -r.getrandbits(31), -1 << 31])
    if t == 'funcref':
        return r.choice(list(funcs))
    if t == 'v128':
        return r.randbytes(16) if r.random() < .8 else r.choice([bytes(16), b'\xff' * 16])
    v = rval(r, t)
    if t == 'f32' and v & 0x7f800000 == 0x7f800000 and v & 0x7fffff:
        v |= 0x400000               # a python float cannot carry the payload of a signalling f32
    return v


def py(t, v):
    return pw.to_py(t, v)


def show(t, x):
    """what a value from the public API denotes"""
    if t in ('externref', 'funcref'):
        assert x is None or isinstance(x, int), x
        return x
    if t in ('i32', 'i64'):
        n = int(t[1:])
        if not isinstance(x, int) or isinstance(x, bool) or not -(1 << n - 1) <= x < 1 << n - 1:
            return f'{x!r} is not a signed {t}'
        return x & (1 << n) - 1
    if t in ('f32', 'f64'):
        if not isinstance(x, float):
            return f'{x!r} is not a float'
        if t == 'f64':
            return struct.unpack('<Q', struct.pack('<d', x))[0]
        b = struct.unpack('<I', struct.pack('<f', x))[0]
        if x == x and struct.unpack('<f', struct.pack('<I', b))[0] != x:
            return f'{x!r} is not an f32'
        return b
    if not isinstance(x, (bytes, bytearray)) or len(x) != 16:
        return f'{x!r} is not a v128'
    return bytes(x)


def same(ts, got, want):
    return len(got) == len(ts) and [show(t, x) for t, x in zip(ts, got)] == list(want)


def load(rt, m, r=None):
    e = Messy(r, .2) if r is not None and r.random() < .3 else None
    return rt.instance(core.ModuleDesc.from_reader(io.BytesIO(m.encode(e))))


def loadop(t, store):
    return {'v128': 'v128'}.get(t, t) + ('.store' if store else '.load')


def journey(job, r):
    """one module full of forwarding functions over random signatures"""
    rt = core.Runtime()
    m = Module()
    log = []
    reply = {}
    spoil = [False]
    nh = r.randrange(1, 4)
    sigs = []
    rt.imports = {'e': {}}
    refs = []
    for h in range(nh):
        p = [r.choice(ALL) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 17]))]
        q = [r.choice(ALL) for _ in range(r.choice([0, 1, 1, 2, 4, 8]))]
        sigs.append((p, q))
        keep = []

        def fn(machine, args, h=h, keep=keep):
            log.append((h, [x[:] if isinstance(x, bytearray) else x for x in args]))
            for x in keep + (list(args) if spoil[0] else []):                          # what was handed over before is the host's to change
                if isinstance(x, bytearray):
                    x[:] = b'\xAA' * len(x)
            keep[:] = list(args)
            out = list(reply[h]())
            keep.extend(x for x in out if isinstance(x, bytearray))
            return out
        rt.imports['e'][f'h{h}'] = rt.allocate_func_host(pw.functype(p, q), fn)
        m.imports.append(('e', f'h{h}', 'func', m.type(p, q)))
    # globals made by the embedder
    gts = [r.choice(ALL) for _ in range(r.choice([0, 1, 3]))]
    gv = [bits(r, t) for t in gts]
    for k, (t, v) in enumerate(zip(gts, gv)):
        mut = r.random() < .6
        rt.imports['e'][f'g{k}'] = rt.allocate_global(core.GlobalType(pw.VT[t](), int(mut)), pw.valinst(t, v) if t != 'v128' else core.ValInst.from_v128(bytearray(v)))
        m.imports.append(('e', f'g{k}', 'global', (t, mut)))
    muts = [i[3][1] for i in m.imports if i[2] == 'global']
    m.mems.append((1, 1))
    m.exports.append(('mem', 'memory', 0))
    m.tables.append(('funcref', (nh, nh)))
    m.elems.append(Elem('active', list(range(nh)), 0, [('i32.const', 0)]))
    fwd = []
    for h, (p, q) in enumerate(sigs):
        get = [('local.get', k) for k in range(len(p))]
        m.func(p, q, get + [('call', h)], export=f'call{h}')
        m.func(p, q, get + [('i32.const', h), ('call_indirect', m.type(p, q), 0)], export=f'icall{h}')
        m.func(p, q, get + [('call', h)] + [('drop',)] * len(q) + get + [('call', h)], export=f'again{h}')
        m.exports.append((f'self{h}', 'func', h))
        fwd += [(f'call{h}', h), (f'icall{h}', h), (f'self{h}', h), (f'again{h}', h)]
        perm = list(range(len(p)))
        r.shuffle(perm)
        m.func(p, [p[k] for k in perm], [('local.get', k) for k in perm], export=f'perm{h}')
        reply[('perm', h)] = perm
    for t in NAT:
        m.func([t], [], [('i32.const', 64), ('local.get', 0), (loadop(t, True), 0, 0)], export=f'st_{t}')
        m.func([], [t], [('i32.const', 64), (loadop(t, False), 0, 0)], export=f'ld_{t}')
    cons = []
    for k in range(4):
        q = [r.choice(NUM + ['v128', 'externref']) for _ in range(r.randrange(1, 6))]
        v = [None if t == 'externref' else bits(r, t) for t in q]
        m.func([], q, [(f'{t}.const', x) if t != 'externref' else ('ref.null', 'externref') for t, x in zip(q, v)], export=f'const{k}')
        cons.append((q, v))
    # a plain function whose reference travels, and a table for it
    uid = r.getrandbits(30)
    target = m.func([], ['i32'], [('i32.const', uid)], export='target')
    m.func([], ['funcref'], [('ref.func', target)], export='ref')
    m.tables.append(('funcref', (4, 4)))
    m.func(['i32', 'funcref'], [], [('local.get', 0), ('local.get', 1), ('table.set', 1)], export='tset')
    m.func(['i32'], ['i32'], [('local.get', 0), ('call_indirect', m.type((), ('i32',)), 1)], export='tcall')
    m.func(['funcref'], ['i32'], [('local.get', 0), ('ref.is_null',)], export='isnull')
    m.func(['externref'], ['i32'], [('local.get', 0), ('ref.is_null',)], export='isnullx')
    for k, t in enumerate(gts):
        m.func([], [t], [('global.get', k)], export=f'gget{k}')
        if muts[k]:
            m.func([t], [], [('local.get', 0), ('global.set', k)], export=f'gset{k}')
        m.exports.append((f'g{k}', 'global', k))
    use = {x for x in range(nh)}
    m.elems.append(Elem('declarative', [target], 0))
    inst = load(rt, m, r)
    mem = rt.exported_memory(inst, 'mem')
    say = lambda key, what, **w: job.violation(key, what[:260], dict(module=m.encode().hex()[:4000], **{k: repr(v)[:600] for k, v in w.items()}))
    ref = rt.invocate(inst, 'ref', [])[0]
    if ref is None:
        return say('funcref null', 'ref.func reaches the embedder as null')
    funcs = [None, ref]
    for h in range(nh):
        reply[h] = lambda: []
    for _ in range(12):
        # embedder -> (wasm ->) host -> (wasm ->) embedder
        nm, h = r.choice(fwd)
        p, q = sigs[h]
        a, b = [bits(r, t, funcs) for t in p], [bits(r, t, funcs) for t in q]
        reply[h] = lambda q=q, b=b: [py(t, x) for t, x in zip(q, b)]
        args = [py(t, x) for t, x in zip(p, a)]
        copy = [bytearray(x) if isinstance(x, bytearray) else x for x in args]
        log.clear()
        spoil[0] = r.random() < .5
        got = rt.invocate(inst, nm, args)
        job.count('journeys')
        job.count('values_in', len(p))
        job.count('values_out', len(q))
        job.case((nm[:2], tuple(p)[:4], tuple(q)[:4], len(p), len(q)))
        if len(log) != 1 + (nm[:2] == 'ag') or log[0][0] != h:
            return say('calls', f'{nm} calls the host function {len(log)} times', p=p, q=q)
        if not same(p, log[0][1], a):
            return say('host arguments', f'{nm}: the host gets {[show(t, x) for t, x in zip(p, log[0][1])]} for {a}', p=p, a=a, got=log)
        if not same(p, log[-1][1], a):
            return say('host arguments again', f'{nm}: the host gets {[show(t, x) for t, x in zip(p, log[-1][1])]} for {a} after it changed what it got before', p=p, a=a, got=log)
        if not same(q, got, b):
            return say('host results', f'{nm}: the embedder gets {[show(t, x) for t, x in zip(q, got)]} for {b}', q=q, b=b, got=got)
        if len(args) != len(copy) or any(type(x) is not type(y) or (x != y and x == x) for x, y in zip(args, copy)):
            return say('arguments changed', f'{nm} changes the list of arguments it was given', before=copy, after=args)
        # embedder -> wasm -> embedder, in another order
        h = r.randrange(nh)
        p = sigs[h][0]
        a = [bits(r, t, funcs) for t in p]
        perm = reply[('perm', h)]
        got = rt.invocate(inst, f'perm{h}', [py(t, x) for t, x in zip(p, a)])
        job.count('permutations')
        if not same([p[k] for k in perm], got, [a[k] for k in perm]):
            return say('order', f'a function which returns its arguments as {perm} returns {[show(p[k], x) for k, x in zip(perm, got)]} for {a}', p=p, a=a, got=got)
        k = r.randrange(4)
        got = rt.invocate(inst, f'const{k}', [])
        if not same(cons[k][0], got, cons[k][1]):
            return say('constants', f'constants {cons[k][1]} reach the embedder as {got}', q=cons[k][0], got=got)
        # the bits of an argument, and of a result
        t = r.choice(list(NAT))
        v = bits(r, t)
        raw = v if t == 'v128' else v.to_bytes(NAT[t], 'little')
        mem.data[56:96] = b'\xA5' * 40
        rt.invocate(inst, f'st_{t}', [py(t, v)])
        job.count('bit_patterns')
        job.case(('bits', t, v if t != 'v128' else None))
        if bytes(mem.data[56:96]) != b'\xA5' * 8 + raw + b'\xA5' * (32 - len(raw)):
            return say(f'bits in:{t}', f'{t} {raw.hex()} given as {py(t, v)!r} arrives as {bytes(mem.data[64:64 + len(raw)]).hex()}', t=t, v=v)
        v = bits(r, t)
        mem.put(64, bytearray(v if t == 'v128' else v.to_bytes(NAT[t], 'little')))
        got = rt.invocate(inst, f'ld_{t}', [])
        if not same([t], got, [v]):
            return say(f'bits out:{t}', f'{t} with bits {v} is returned as {got}', t=t, v=v)
        if t == 'v128' and isinstance(got[0], bytearray):
            got[0][:] = b'\x55' * 16
            if mem.get(64, 16) != v:
                return say('alias', 'changing a returned v128 changes the memory of the guest', v=v)
        # the accessors of a memory
        u = r.getrandbits(64)
        at = r.choice([0, 1, 63, 65536 - 8])
        n, f = r.choice([(1, 'u8'), (2, 'u16'), (4, 'u32'), (8, 'u64'), (4, 'i32'), (8, 'i64')])
        w = u & (1 << 8 * n) - 1
        x = w - (1 << 8 * n) if f[0] == 'i' and w >> 8 * n - 1 else w
        getattr(mem, 'put_' + f)(at, x)
        job.count('accessors')
        if bytes(mem.data[at:at + n]) != w.to_bytes(n, 'little') or getattr(mem, 'get_' + f)(at) != x or bytes(mem.get(at, n)) != w.to_bytes(n, 'little') or len(mem.data) != 65536:
            return say(f'accessor {f}', f'put_{f}({at}, {x}) leaves {bytes(mem.data[at:at + n]).hex()} and get_{f} gives {getattr(mem, "get_" + f)(at)}', f=f, x=x)
        # globals of the embedder, seen from both sides
        if gts:
            k = r.randrange(len(gts))
            t = gts[k]
            if muts[k] and r.random() < .5:
                gv[k] = bits(r, t, funcs)
                if r.random() < .5:
                    x = py(t, gv[k])
                    rt.invocate(inst, f'gset{k}', [x])
                    if t == 'v128':                 # still the embedder's own
                        x[:] = b'\x77' * 16
                else:
                    g = rt.exported_global(inst, f'g{k}')
                    g.data = core.ValInst.from_all(pw.VT[t](), py(t, gv[k])) if gv[k] is not None else core.ValInst.zero(pw.VT[t]())
            a, b = rt.invocate(inst, f'gget{k}', []), rt.exported_global(inst, f'g{k}').data.into_all()
            job.count('globals')
            if not same([t], a, [gv[k]]) or not same([t], [b], [gv[k]]):
                return say(f'global {t}', f'a global {t} holding {gv[k]} reads as {a} in wasm and {b} for the embedder', t=t, v=gv[k])
            if t == 'v128':
                for x in (a[0], b):
                    if isinstance(x, bytearray):
                        x[:] = b'\x66' * 16
                if not same([t], rt.invocate(inst, f'gget{k}', []), [gv[k]]):
                    return say('alias of a global', 'changing a v128 which was read from a global changes the global', v=gv[k])
        x = bits(r, 'externref')
        if rt.invocate(inst, 'isnullx', [x]) != [int(x is None)]:
            return say('null', f'external reference {x} given by the embedder: ref.is_null gives {rt.invocate(inst, "isnullx", [x])}')
        # a function reference keeps its identity, null stays null
        slot = r.randrange(4)
        x = r.choice(funcs)
        rt.invocate(inst, 'tset', [slot, x])
        if rt.invocate(inst, 'isnull', [x]) != [int(x is None)]:
            return say('null', f'reference {x} given by the embedder: ref.is_null gives {rt.invocate(inst, "isnull", [x])}')
        if x is not None:
            job.count('references')
            got = rt.invocate(inst, 'tcall', [slot])
            if got != [uid]:
                return say('reference', 'a function reference which went through the embedder calls another function', got=got)


BITS = ['', 'a', 'b', 'A', 'ab', '0', ' ', '.', '/', '\0', '\n', '_', 'e\u0301', '\u00e9', '\u212b', '\u00c5', '\ufeff', '\u200b', '\U0001f600', '$', '__', 'main', '_start', 'memory', 'ss', '\u00df', 'I', 'i', '\u0131', '\u0130']


def names(job, r):
    """every export is found under exactly its own name, whatever the others are called"""
    rt = core.Runtime()
    m = Module()
    m.mems.append((1, 1))
    pool = {''.join(r.choice(BITS) for _ in range(r.choice([0, 1, 1, 2, 3]))) for _ in range(r.choice([4, 12, 40, 120]))}
    for x in list(pool)[:6]:
        pool |= {x + x, x + ' ', ' ' + x, x.upper(), x.lower(), x[:-1], x[1:]}
    pool = sorted(pool)
    r.shuffle(pool)
    what = {}
    for nm in pool:
        k = r.choice(['func', 'func', 'global', 'memory', 'none'])
        v = r.getrandbits(31)
        what[nm] = k, v
        if k == 'func':
            m.func([], ['i32'], [('i32.const', v)], export=nm)
        elif k == 'global':
            m.globals.append(('i32', r.random() < .5, [('i32.const', v)]))
            m.exports.append((nm, 'global', len(m.globals) - 1))
        elif k == 'memory':
            m.exports.append((nm, 'memory', 0))
    r.shuffle(m.exports)
    if not m.funcs:
        m.func([], ['i32'], [('i32.const', 1)], export=None)
    inst = load(rt, m, r)
    for nm in pool:
        k, v = what[nm]
        for how, fn in (('func', lambda: rt.invocate(inst, nm, [])[0]), ('global', lambda: rt.exported_global(inst, nm).data.into_i32()), ('memory', lambda: len(rt.exported_memory(inst, nm).data))):
            try:
                got = fn()
            except Exception:
                got = 'refused'
            want = 'refused' if how != k else 65536 if k == 'memory' else v
            job.count('names_looked_up')
            if got != want:
                return job.violation(f'name:{how}', f'{how} export {nm!r} gives {got}, not {want}', dict(module=m.encode().hex()[:8000], name=nm))
    job.case(('names', len(pool), sum(1 for x in what.values() if x[0] != 'none')))


def misuse(job, r):
    """what has to be refused, before anything happens"""
    rt = core.Runtime()
    m = Module()
    log, bad = [], [None]
    p = [r.choice(ALL) for _ in range(r.randrange(0, 4))]
    q = [r.choice(ALL) for _ in range(r.randrange(0, 4))]

    def host(machine, args):
        log.append(len(args))
        return bad[0]
    rt.imports = {'e': {'h': rt.allocate_func_host(pw.functype(p, q), host)}}
    m.imports.append(('e', 'h', 'func', m.type(p, q)))
    m.mems.append((1, 1))
    m.tables.append(('funcref', (1, 1)))
    m.globals.append(('i32', True, [('i32.const', 5)]))
    bump = [('i32.const', 0), ('i32.const', 0), ('i32.load', 0, 0), ('i32.const', 1), ('i32.add',), ('i32.store', 0, 0)]
    m.func(p, q, bump + [('local.get', k) for k in range(len(p))] + [('call', 0)] + bump, export='go')
    m.func(p, q, bump + [('local.get', k) for k in range(len(p))] + [('call', 0)], export='go2')
    for t in (0, 1):
        m.func(['i32', 'i32'], ['i32'], bump + [('local.get', t)], export=f'pick{t}')
    m.exports += [('mem', 'memory', 0), ('tab', 'table', 0), ('glob', 'global', 0), ('host', 'func', 0), ('', 'func', 3), ('Pick0', 'func', 4)]
    inst = load(rt, m, r)
    mem = rt.exported_memory(inst, 'mem')
    good = [py(t, bits(r, t)) for t in q]
    args = [py(t, bits(r, t)) for t in p]
    bad[0] = good
    ran = lambda: mem.get_u32(0)

    def refuse(what, fn, host_may_run=False, wasm_may_run=0):
        log.clear()
        before = ran()
        try:
            got = fn()
        except Exception:
            got = 'refused'
        job.count('refused')
        job.case((what, len(p), len(q)))
        wit = dict(p=p, q=q, what=what, got=repr(got)[:200])
        if got != 'refused':
            job.violation(f'accepted:{what}', f'{what} is accepted and gives {got!r}'[:200], wit)
        elif ran() - before > wasm_may_run or (log and not host_may_run):
            job.violation(f'executed:{what}', f'{what} is refused, but code has run', wit)
        else:
            # and nothing is left over
            k, (a, b) = r.randrange(2), (r.getrandbits(20), r.getrandbits(20))
            bad[0] = good
            if rt.invocate(inst, f'pick{k}', [a, b]) != [(a, b)[k]] or len(rt.invocate(inst, 'go', args)) != len(q):
                job.violation(f'after:{what}', f'after {what} was refused, the next calls are wrong', wit)
            st = pw.depths(rt)
            if any(st):
                job.violation(f'stacks:{what}', f'after {what} was refused, the interpreter stacks hold {st}', wit)

    for nm in ('go', 'host', 'pick0', 'pick1', 'Pick0'):
        n = 2 if 'ick' in nm else len(p)
        base = [1, 2] if 'ick' in nm else args
        for k in {0, 1, n - 1, n + 1, n + 5} - {n, -1}:
            a = (base + [0] * 9)[:k]
            refuse(f'{nm} with {k} arguments instead of {n}' if nm[0] in 'pP' else f'{"a wasm" if nm == "go" else "a host"} function with {"too few" if k < n else "too many"} arguments', lambda: rt.invocate(inst, nm, a))
    for nm in ('nope', 'go ', 'Go', 'go3', 'PICK0', 'memory'):
        refuse('an unknown export', lambda: rt.invocate(inst, nm, []))
    for nm in ('mem', 'tab', 'glob'):
        for a in ([], [0], args):
            refuse(f'invoking the {nm} export', lambda: rt.invocate(inst, nm, a))
    for nm in ('go', 'mem', 'tab', 'nope'):
        refuse('a wrong global export', lambda: rt.exported_global(inst, nm))
    for nm in ('go', 'glob', 'tab', 'nope'):
        refuse('a wrong memory export', lambda: rt.exported_memory(inst, nm))
    for via, w in (('go', 1), ('go2', 1), ('host', 0)):
        for n in {0, 1, len(q) - 1, len(q) + 1, len(q) + 3} - {len(q), -1}:
            def fn():
                bad[0] = (good + [0] * 9)[:n]
                return rt.invocate(inst, via, args)
            refuse(f'{via}: a host function with {"too few" if n < len(q) else "too many"} results', fn, True, w)
        if q:
            def fn():
                bad[0] = None
                return rt.invocate(inst, via, args)
            refuse(f'{via}: a host function with None for results', fn, True, w)
    if rt.invocate(inst, '', [3, 4]) != [3] or rt.invocate(inst, 'Pick0', [3, 4]) != [4]:
        job.violation('names', 'exports with similar names are mixed up', dict())


def reentry(job, r):
    """host functions which invoke exports of the same and other instances and instantiate modules, to any depth: results as computed by
    the same recursion in Python"""
    rt = core.Runtime()
    insts = []
    rt.imports = {'e': {}}
    made = [0]
    depth = r.randrange(2, 14)
    plan = [(r.choice(['go', 'go', 'other', 'module', 'both', 'direct']), r.getrandbits(16), r.choice(['f64', 'i64', 'v128', 'i32'])) for _ in range(depth)]
    if r.random() < .15:
        plan[r.randrange(depth)] = ('far', r.getrandbits(16), 'i32')
    say = lambda key, what: job.violation(key, what[:240], dict(plan=plan))

    def model(n, x):
        """what level n makes of x"""
        if n >= depth:
            return (x * 3 + 1) & 0xffffffff
        kind, k, _ = plan[n]
        y = model(n + 1, (x + k) & 0xffffffff)
        if kind == 'both':
            y = model(n + 1, y)
        return (y ^ k ^ x) & 0xffffffff

    def host(machine, args):
        n, x = args[0], args[1] & 0xffffffff
        if n >= depth:
            return [py('i32', x * 3 + 1)]
        kind, k, t = plan[n]
        call = lambda z: rt.invocate(r2.choice(insts) if kind == 'other' else insts[0], kind if kind in ('direct', 'far') else 'go', [n + 1, py('i32', z)])[0] & 0xffffffff
        if kind == 'module':
            small = Module()
            small.imports.append(('e', 'h', 'func', small.type(['i32', 'i32'], ['i32'])))
            small.globals.append(('i32', True, [('i32.const', 0)]))
            st = small.func([], [], [('i32.const', n + 1), ('i32.const', (x + k) & 0xffffffff), ('call', 0), ('global.set', 0)])
            small.exports.append(('g', 'global', 0))
            small.start = st
            i = rt.instance(core.ModuleDesc.from_reader(io.BytesIO(small.encode())))
            made[0] += 1
            y = rt.exported_global(i, 'g').data.into_all() & 0xffffffff
        else:
            y = call((x + k) & 0xffffffff)
        if kind == 'both':
            y = call(y)
        return [py('i32', y ^ k ^ x)]

    r2 = random.Random(r.random())
    rt.imports['e']['h'] = rt.allocate_func_host(pw.functype(['i32', 'i32'], ['i32']), host)
    m = Module()
    m.imports.append(('e', 'h', 'func', m.type(['i32', 'i32'], ['i32'])))
    m.func(['i32', 'i32'], ['i32'], [('local.get', 0), ('local.get', 1), ('call', 0)], export='direct')
    m.mems.append((1, 1))
    # keeps things on the stack, in locals and in blocks around the call
    m.func(['i32', 'i32'], ['i32'], [
        ('i32.const', 7), ('local.get', 0), ('local.set', 2), ('block', 'i32'), ('loop', 'i32'), ('local.get', 2), ('local.get', 1), ('call', 0),
        ('br', 1), ('end',), ('end',), ('local.get', 0), ('local.get', 2), ('i32.sub',), ('i32.add',), ('i32.add',), ('i32.const', 7), ('i32.sub',)], locals=['i32'], export='go')
    # the same from below hundreds of activations and blocks
    rec = len(m.imports) + len(m.funcs)
    m.func(['i32', 'i32', 'i32'], ['i32'], [
        ('i32.const', 3), ('block', 'i32'), ('block', 'i32'), ('local.get', 0), ('i32.eqz',), ('if', 'i32'), ('local.get', 1), ('local.get', 2), ('call', 0), ('else',),
        ('local.get', 0), ('i32.const', 1), ('i32.sub',), ('local.get', 1), ('local.get', 2), ('call', rec), ('end',), ('end',), ('end',), ('i32.add',), ('i32.const', 3), ('i32.sub',)])
    m.func(['i32', 'i32'], ['i32'], [('i32.const', 200), ('local.get', 0), ('local.get', 1), ('call', rec)], export='far')
    for _ in range(2):
        insts.append(rt.instance(core.ModuleDesc.from_reader(io.BytesIO(m.encode()))))

    for _ in range(3):
        x = r.getrandbits(32)
        total = 1
        for kind, _, _ in plan:
            total *= 2 if kind == 'both' else 1
        if total > 64:
            return
        try:
            got = rt.invocate(insts[0], 'go', [0, py('i32', x)])
        except Exception as e:
            return say('reentry raises', f'host functions invoking exports {depth} levels deep: {type(e).__name__}: {e}')
        job.count('reentries')
        job.count('modules_made_inside', made[0])
        job.case(('reentry', depth, tuple(k for k, _, _ in plan)[:5]))
        if got[0] & 0xffffffff != model(0, x):
            return say('reentry', f'host functions invoking exports {depth} levels deep give {got[0] & 0xffffffff:#x}, not {model(0, x):#x}')
        if any(pw.depths(rt)):
            return say('reentry stacks', f'after nested invocations the interpreter stacks hold {pw.depths(rt)}')


def work(job):
    r = job.rng
    for k in range(scale(220, 5000)):
        if job.late():
            break
        for _ in range(2):
            journey(job, r)
        if k % 2 == 0:
            misuse(job, r)
        for _ in range(2):
            reentry(job, r)


def naming(job):
    for k in range(scale(40, 600)):
        if job.late():
            break
        names(job, job.rng)


def main():
    c = Check('C15', 'a distinct (path over the boundary, leading parameter and result types, counts), bit pattern by type, or refused misuse')
    c.run(work)
    c.run(naming)
    c.require('names_looked_up', 20000)
    for k, n in (('journeys', 4000), ('values_in', 15000), ('values_out', 5000), ('permutations', 4000), ('bit_patterns', 4000), ('accessors', 4000), ('globals', 1500), ('references', 1500),
                 ('refused', 2500), ('reentries', 700), ('modules_made_inside', 300)):
        c.require(k, n)
    c.finish()
