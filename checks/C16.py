"""Limits: runaway recursion of every shape must end in an exception soon and leave the runtime usable, ordinary depth, nesting and long
loops must complete with interpreter stacks and memory that do not grow with the number of iterations, growth stays within maxima."""
import gc, io, os, resource, sys, time, tracemalloc
import pw
from harness import Check, scale
from wb import Elem, Messy, Module

core = pw.core
M32 = 0xffffffff
LOW, HIGH = 300, 50000      # a few hundred frames have to work, tens of thousands are not bounded in any useful way


def i32(x):
    x &= M32
    return x - (1 << 32) if x >> 31 else x


def load(rt, m, r=None):
    e = Messy(r, .2) if r is not None and r.random() < .2 else None
    return rt.instance(core.ModuleDesc.from_reader(io.BytesIO(m.encode(e))))


def rss():
    return int(open('/proc/self/statm').read().split()[1]) * 4096


def noise(r, n):
    """operands left below a call, their number, and what removes them after it"""
    out = []
    for _ in range(n):
        t = r.choice(['i32', 'i64', 'f64'])
        out.append((f'{t}.const', r.getrandbits(30)))
    return out, [('drop',)] * n


# ---- recursion ----
def family(r, stop, host=False):
    """a module set with functions calling each other; stop: recursion ends when the parameter is 0 (else never).
    Returns (modules, make), run(n) gives n+(n-1)+...+1 computed by recursion."""
    k = r.randrange(1, 6)
    kind = r.choice(['direct', 'mutual', 'indirect', 'cross', 'host'] if host else ['direct', 'mutual', 'indirect', 'cross'])
    if kind == 'direct':
        k = 1
    mods = []
    nmod = k if kind == 'cross' else 1
    depth = [0]
    # operands waiting in every activation
    few = r.choice([0, 0, 1, 4, 4, 40, 150])
    locs = [r.choice(['i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref']) for _ in range(r.choice([0, 0, 3, 30]))]

    def body(r, fin, call, after):
        """if stop and n == 0 return 0; deeper = call(n-1); return deeper + n"""
        pre, post = noise(r, few)
        b = [('global.get', 0), ('i32.const', 1), ('i32.add',), ('global.set', 0)]
        if stop:
            b += [('local.get', 0), ('i32.eqz',), ('if', None), ('i32.const', 0), ('return',), ('end',)]
        shape = r.choice(['plain', 'block', 'loop', 'if', 'deep'])
        inner = [('local.get', 0), ('i32.const', 1), ('i32.sub',)] + call
        if shape == 'plain':
            b += pre + inner + [('local.set', 1)] + post
        elif shape == 'block':
            b += pre + [('block', 'i32')] + inner + [('end',), ('local.set', 1)] + post
        elif shape == 'loop':
            b += pre + [('loop', 'i32')] + inner + [('end',), ('local.set', 1)] + post
        elif shape == 'if':
            b += pre + [('i32.const', 1), ('if', 'i32')] + inner + [('else',), ('i32.const', 99), ('end',), ('local.set', 1)] + post
        else:
            b += pre + [('block', 'i32'), ('loop', 'i32'), ('block', 'i32')] + inner + [('br', 2), ('end',), ('end',), ('end',), ('local.set', 1)] + post
        return b + [('local.get', 1), ('local.get', 0), ('i32.add',)]

    def host(rt, insts):
        def fn(machine, args):
            return rt.invocate(insts[0], 'f0', [args[0]])
        return fn
    for x in range(nmod):
        m = Module()
        t = m.type(('i32',), ('i32',))
        if kind == 'host':
            m.imports.append(('e', 'h', 'func', t))
        if kind == 'cross':
            # calls whatever is in the shared table at the next place
            m.imports.append(('e', 't', 'table', ('funcref', (8, 8))))
        m.imports.append(('e', 'depth', 'global', ('i32', True)))
        if kind == 'indirect':
            m.tables.append(('funcref', (k, k)))
        base = m.nimp('func')
        for f in range(1 if kind == 'cross' else k):
            nxt = (f + 1) % k
            if kind == 'host':
                call = [('call', 0)] if f == k - 1 else [('call', base + nxt)]
            elif kind == 'indirect':
                call = [('i32.const', nxt), ('call_indirect', t, 0)]
            elif kind == 'cross':
                call = [('i32.const', (x + 1) % k), ('call_indirect', t, 0)]
            else:
                call = [('call', base + nxt)]
            m.func(['i32'], ['i32'], body(r, None, call, None), locals=['i32'] + locs, export=f'f{f}')
        if kind == 'indirect':
            m.elems.append(Elem('active', list(range(base, base + k)), 0, [('i32.const', 0)]))
        if kind == 'cross':
            m.elems.append(Elem('active', [base], 0, [('i32.const', x)]))
        m.func(['i32', 'i32'], ['i32'], [('local.get', 0), ('local.get', 1), ('i32.mul',)], export='mul')
        mods.append(m)

    def make(rt):
        insts = []
        rt.imports['e'] = {
            'h': rt.allocate_func_host(pw.functype(['i32'], ['i32']), host(rt, insts)), 't': rt.allocate_table(core.TableType(pw.VT['funcref'](), pw.limits(8, 8))),
            'depth': rt.allocate_global(core.GlobalType(pw.VT['i32'](), 1), pw.valinst('i32', 0))}
        g = rt.machine.store.glob[rt.imports['e']['depth'].data]
        for m in mods:
            insts.append(load(rt, m, r))
        return insts, g
    return kind, k, make


def runaway(job, r):
    kind, k, make = family(r, False, host=True)
    rt = core.Runtime()
    insts, g = make(rt)
    wit = dict(kind=kind, functions=k)
    seen = []
    before = rss()
    for turn in range(3):
        g.data = pw.valinst('i32', 0)
        t0 = time.process_time()
        pw.guard(25)
        try:
            got = rt.invocate(insts[0], 'f0', [r.choice([1, 0, -1, 5000])])
            pw.guard(0)
            job.violation('returns', f'endless recursion ({kind}, {k} functions) returns {got}', wit)
            return
        except pw.Hang:
            job.violation('endless', f'endless recursion ({kind}, {k} functions) does not end within 25 s of CPU time', wit)
            return
        except MemoryError:
            pw.guard(0)
            job.violation('memory', f'endless recursion ({kind}, {k} functions) ends for lack of memory only', wit)
            return
        except Exception as e:
            pw.guard(0)
            wit['raises'] = type(e).__name__
            e.__traceback__ = None
        job.count('runaways')
        d = g.data.into_all() & M32
        seen.append(d)
        job.case(('runaway', kind, k, d // 64))
        if d > HIGH:
            job.violation('bound', f'endless recursion ({kind}, {k} functions) gets {d} levels deep', wit)
            return
        if d < (8 if kind == 'host' else LOW):
            job.violation('shallow', f'endless recursion ({kind}, {k} functions) gets {d} levels deep only', wit)
            return
        a, b = r.getrandbits(15), r.getrandbits(15)
        if rt.invocate(insts[-1], 'mul', [a, b]) != [a * b] or any(pw.depths(rt)):
            job.violation('after', f'after endless recursion ({kind}) the runtime is not usable: stacks {pw.depths(rt)}', wit)
            return
    if len(set(seen)) > 1:
        job.violation('drift', f'the depth at which endless recursion ({kind}, {k} functions) ends changes from call to call: {seen}', wit)
    if rss() - before > 500 << 20:
        job.violation('memory', f'endless recursion ({kind}, {k} functions) takes {rss() - before >> 20} MiB', wit)


def startup(job, r):
    """a start function which never ends its recursion: instantiation raises, the runtime works"""
    rt = core.Runtime()
    m = Module()
    f = m.func([], [], [])
    m.funcs[f].body = [('call', f)]
    m.start = f
    ok = Module()
    ok.func(['i32'], ['i32'], [('local.get', 0)], export='id')
    a = load(rt, ok)
    for _ in range(3):
        try:
            load(rt, m, r)
            job.violation('start', 'a start function which calls itself forever is instantiated', dict())
        except Exception:
            pass
        job.count('starts')
        job.case(('start', rt.invocate(a, 'id', [7])[0]))
        if any(pw.depths(rt)):
            job.violation('start stacks', f'after a failing start function the stacks hold {pw.depths(rt)}', dict())


def ordinary(job, r):
    kind, k, make = family(r, True)
    rt = core.Runtime()
    insts, g = make(rt)
    for n in r.sample([0, 1, 2, 10, 50, 100, 150, 200, 256, 300, 350, 400], 4):
        g.data = pw.valinst('i32', 0)
        wit = dict(kind=kind, functions=k, depth=n)
        try:
            got = rt.invocate(insts[0], 'f0', [n])
        except Exception as e:
            job.violation('ordinary raises', f'recursion {n} levels deep ({kind}, {k} functions) raises {type(e).__name__}: {e}', wit)
            return
        job.count('recursions')
        job.count('frames', n)
        job.case(('recursion', kind, k, n))
        if got != [n * (n + 1) // 2] or g.data.into_all() != n + 1:
            job.violation('ordinary', f'recursion {n} levels deep ({kind}, {k} functions) gives {got} in {g.data.into_all()} calls', wit)
            return


def tower(job, r):
    """wasm a hundred frames deep, then a host function, then wasm a hundred frames deep, and so on"""
    rt = core.Runtime()
    storeys = r.randrange(1, 6)
    high = r.choice([10, 50, 90])
    m = Module()
    t = m.type(('i32', 'i32'), ('i32',))
    m.imports.append(('e', 'h', 'func', m.type(('i32',), ('i32',))))
    #  f(n, storey): n == 0 ? h(storey) : f(n-1, storey) + n
    pre, post = noise(r, r.choice([0, 0, 1, 30]))
    open_ = r.choice([0, 0, 1, 6, 20])
    m.func(['i32', 'i32'], ['i32'], pre + [(r.choice(['block', 'loop']), 'i32') for _ in range(open_)] + [
        ('local.get', 0), ('i32.eqz',), ('if', 'i32'), ('local.get', 1), ('call', 0), ('else',), ('local.get', 0), ('i32.const', 1), ('i32.sub',), ('local.get', 1),
        ('call', 1), ('local.get', 0), ('i32.add',), ('end',)] + [('end',)] * open_ + [('local.set', 0)] + post + [('local.get', 0)], export='f')
    insts = []

    def host(machine, args):
        if args[0] == 0:
            return [5]
        return [rt.invocate(insts[0], 'f', [high, args[0] - 1])[0] * 3]
    rt.imports['e'] = {'h': rt.allocate_func_host(pw.functype(['i32'], ['i32']), host)}
    insts.append(load(rt, m, r))
    want = 5 + high * (high + 1) // 2
    for _ in range(storeys):
        want = want * 3 + high * (high + 1) // 2
    try:
        got = rt.invocate(insts[0], 'f', [high, storeys])
    except Exception as e:
        job.violation('tower raises', f'{storeys} storeys of wasm {high} frames high with host functions in between: {type(e).__name__}: {e}', dict(storeys=storeys, high=high))
        return
    job.count('towers')
    job.case(('tower', storeys, high))
    if got != [i32(want)]:
        job.violation('tower', f'{storeys} storeys of wasm {high} frames high with host functions in between give {got}, not {i32(want)}', dict(storeys=storeys, high=high))


# ---- nesting ----
def nested(job, r):
    depth = r.choice([1, 2, 10, 31, 32, 33, 50, 63, 64, 65, 80, 99, 100])
    kinds = [r.choice(['block', 'loop', 'if', 'else']) for _ in range(depth - 1)] + ['block']   # outermost first, innermost is a block
    step = lambda n: [('local.get', 1), ('i32.const', 7), ('i32.mul',), ('i32.const', n), ('i32.add',), ('local.set', 1)]
    code, tail = [], []
    for lvl, kd in enumerate(kinds):
        if kd in ('block', 'loop'):
            code += [(kd, None)]
        elif kd == 'if':
            code += [('i32.const', 1), ('if', None)]
        else:
            code += [('i32.const', 0), ('if', None)] + step(900 + lvl) + [('else',)]
        if kd == 'loop':
            # the second time around leave by the innermost block
            code += [('local.get', 2), ('i32.const', 1), ('i32.add',), ('local.tee', 2), ('i32.const', depth), ('i32.gt_u',), ('if', None), ('i32.const', 0), ('local.set', 0), ('end',)]
        code += step(lvl)
        tail = ([('else',)] + step(800 + lvl) if kd == 'if' else []) + [('end',)] + step(500 + lvl) + tail
    how = r.choice(['br_table', 'br_if', 'br'])
    target = r.randrange(depth)
    nloops = kinds.count('loop')
    if how == 'br_table':
        leave = [('local.get', 0), ('br_table', list(range(depth)), 0)]
    elif how == 'br_if':
        leave = []
        for d in range(depth):
            leave += [('local.get', 0), ('i32.const', d), ('i32.eq',), ('br_if', d)]
        leave += [('unreachable',)]
    else:
        leave = [('local.get', 0), ('i32.eqz',), ('br_if', 0), ('br', target)]
    m = Module()
    m.func(['i32'], ['i32'], code + leave + tail + [('local.get', 1)], locals=['i32', 'i32'], export='f')
    rt = core.Runtime()
    try:
        inst = load(rt, m, r)
    except Exception as e:
        return job.violation('nesting rejected', f'{depth} nested blocks are not accepted: {type(e).__name__}: {e}', dict(depth=depth, kinds=kinds))
    for sel in ([target, 0] if how == 'br' else [r.randrange(depth), target, 0, depth - 1]):
        acc, cnt, cur = 0, 0, sel
        lvl, phase = 0, 'in'
        while True:
            if lvl == depth:
                # the innermost code: branch outwards
                d = cur if how != 'br' or cur == 0 else target
                to = depth - 1 - d
                if kinds[to] == 'loop':
                    lvl = to
                    continue
                lvl = to
                break
            if kinds[lvl] == 'loop':
                cnt += 1
                if cnt > depth:
                    cur = 0
            acc = (acc * 7 + lvl) & M32
            lvl += 1
        while lvl >= 0:
            acc = (acc * 7 + 500 + lvl) & M32
            lvl -= 1
        try:
            got = rt.invocate(inst, 'f', [sel])
        except Exception as e:
            return job.violation('nesting raises', f'{depth} nested blocks left by {how} {sel}: {type(e).__name__}: {e}', dict(depth=depth, kinds=kinds, select=sel))
        job.count('nestings')
        job.case(('nested', depth, how, kinds[depth - 1 - sel], nloops > 0))
        if got != [i32(acc)]:
            return job.violation('nesting', f'{depth} nested blocks left by {how} {sel} give {got}, not {i32(acc)}', dict(depth=depth, kinds=kinds, select=sel, how=how))


# ---- loops ----
def fragments(r, aux):
    """(code over locals 0=i 1=acc 2=tmp at one label depth, python effect) of one loop body part; leaves nothing behind"""
    c = r.getrandbits(8)
    add = lambda code: [('local.get', 1)] + code + [('i32.add',), ('local.set', 1)]
    pre, post = noise(r, r.choice([0, 1, 3]))
    return r.choice([
        (add([('local.get', 0), ('i32.const', c), ('i32.mul',)]), lambda i, a: a + i * c),
        # a block left with operands on the stack
        ([('block', None)] + pre + [('local.get', 0), ('i32.const', 1), ('i32.and',), ('br_if', 0)] + post + add([('i32.const', c)]) + [('end',)], lambda i, a: a if i & 1 else a + c),
        ([('block', None)] + pre + [('br', 0), ('end',)] + add([('i32.const', c)]), lambda i, a: a + c),
        ([('block', None), ('block', None), ('block', None)] + pre + [('local.get', 0), ('i32.const', 3), ('i32.rem_u',), ('br_table', [0, 1], 2), ('end',)] + add([('i32.const', 1)]) + [('end',)]
         + add([('i32.const', c)]) + [('end',)], lambda i, a: a + (1 + c if i % 3 == 0 else c if i % 3 == 1 else 0)),
        ([('local.get', 0), ('i32.const', 2), ('i32.and',), ('if', None)] + add([('i32.const', c)]) + [('else',)] + add([('local.get', 0)]) + [('end',)], lambda i, a: a + (c if i & 2 else i)),
        ([('block', None), ('local.get', 0), ('i32.const', 4), ('i32.and',), ('if', None)] + pre + [('br', 1), ('else',)] + add([('i32.const', c)]) + [('end',)] + add([('i32.const', 2)]) + [('end',)],
         lambda i, a: a if i & 4 else a + c + 2),
        # an inner loop
        ([('i32.const', 3), ('local.set', 2), ('loop', None)] + add([('local.get', 2)]) + [('local.get', 2), ('i32.const', 1), ('i32.sub',), ('local.tee', 2), ('br_if', 0), ('end',)], lambda i, a: a + 6),
        # functions which return from inside blocks, with operands left
        (add([('local.get', 0), ('call', aux['early'])]), lambda i, a: a + (11 if i & 1 else 22)),
        (add([('local.get', 0), ('i32.const', 0), ('call_indirect', aux['type'], 0)]), lambda i, a: a + (11 if i & 1 else 22)),
        (add([('local.get', 0), ('call', aux['outer'])]), lambda i, a: a + (5 if i & 1 else 6)),
        ([('local.get', 0), ('call', aux['two']), ('local.set', 2)] + [('local.get', 1), ('i32.add',), ('local.get', 2), ('i32.add',), ('local.set', 1)], lambda i, a: a + i + 1),
        (add([('block', 'i32')] + pre + [('i32.const', c), ('br', 0), ('end',)]), lambda i, a: a + c),
        (add([('loop', 'i32'), ('i32.const', c), ('end',)]), lambda i, a: a + c),
        (add([('local.get', 0), ('i32.const', c), ('local.get', 0), ('i32.const', 1), ('i32.and',), ('select',)]), lambda i, a: a + (i if i & 1 else c)),
        (add([('i32.const', 1), ('call', aux['host'])]), lambda i, a: a + 1),
    ])


def loops(job, r):
    rt = core.Runtime()
    m = Module()
    probes = []
    state = {}
    t = m.type(('i32',), ('i32',))
    m.imports.append(('e', 'h', 'func', t))
    m.imports.append(('e', 'probe', 'func', m.type((), ())))
    m.tables.append(('funcref', (1, 1)))

    def probe(machine, args):
        probes.append((pw.depths(rt), tracemalloc.get_traced_memory()[0] if state.get('trace') else 0))
        return []
    rt.imports['e'] = {'h': rt.allocate_func_host(pw.functype(['i32'], ['i32']), lambda machine, args: [args[0]]), 'probe': rt.allocate_func_host(pw.functype([], []), probe)}
    aux = dict(host=0, type=t)
    aux['early'] = m.func(['i32'], ['i32'], [('i64.const', 5), ('block', None), ('loop', None), ('f64.const', 1), ('local.get', 0), ('i32.const', 1), ('i32.and',), ('if', None), ('i64.const', 9), ('i32.const', 11),
                                             ('return',), ('end',), ('drop',), ('end',), ('end',), ('drop',), ('i32.const', 22)])
    aux['outer'] = m.func(['i32'], ['i32'], [('block', None), ('i64.const', 3), ('i32.const', 5), ('local.get', 0), ('i32.const', 1), ('i32.and',), ('br_if', 1), ('drop',), ('drop',), ('end',), ('i32.const', 6)])
    aux['two'] = m.func(['i32'], ['i32', 'i32'], [('local.get', 0), ('i32.const', 1)])
    m.elems.append(Elem('active', [aux['early']], 0, [('i32.const', 0)]))
    frs = [fragments(r, aux) for _ in range(r.choice([1, 2, 3]))]
    body = [x for f in frs for x in f[0]]
    every = [('local.get', 0), ('i32.const', 127), ('i32.and',), ('i32.eqz',), ('if', None), ('call', 1), ('end',)]
    count = [('local.get', 0), ('i32.const', 1), ('i32.add',), ('local.tee', 0)]
    shape = r.choice(['tail', 'while', 'params', 'continue'])
    if shape == 'tail':
        loop = [('loop', None)] + every + body + count + [('local.get', 3), ('i32.lt_u',), ('br_if', 0), ('end',)]
    elif shape == 'while':
        loop = [('block', None), ('loop', None), ('local.get', 0), ('local.get', 3), ('i32.ge_u',), ('br_if', 1)] + every + body + count + [('drop',), ('br', 0), ('end',), ('end',)]
    elif shape == 'continue':
        # continues from within an inner block, operands left behind
        loop = [('loop', None)] + every + body + [('block', None), ('i64.const', 1), ('f32.const', 0)] + count + [
            ('local.get', 3), ('i32.lt_u',), ('br_if', 1), ('drop',), ('drop',), ('end',), ('end',)]
    else:
        loop = [('i32.const', 0), ('i64.const', 0), ('loop', m.type(('i32', 'i64'), ('i32', 'i64')))] + every + body + [('i64.const', 1), ('i64.add',)] + count + [
            ('local.get', 3), ('i32.lt_u',), ('br_if', 0), ('end',), ('drop',), ('drop',)]
    # parameter 0 is the bound; i, acc, tmp, bound are locals 0..3 after a shuffle
    mv = [('local.get', 0), ('local.set', 3), ('i32.const', 0), ('local.set', 0)]
    m.func(['i32'], ['i32'], mv + loop + [('local.get', 1)], locals=['i32', 'i32', 'i32'], export='run')
    inst = load(rt, m, r)

    def model(n):
        a = 0
        for i in range(n):
            for _, f in frs:
                a = f(i, a) & M32
        return a
    n = scale(r.choice([800, 1100]), r.choice([900, 3000, 10000]))
    state['trace'] = r.random() < .35
    if state['trace']:
        gc.collect()
        tracemalloc.start()
    try:
        for k in (n, 3 * n):
            probes.clear()
            try:
                got = rt.invocate(inst, 'run', [k])
            except Exception as e:
                return job.violation('loop raises', f'a loop of {k} iterations ({shape}): {type(e).__name__}: {e}', dict(module=m.encode().hex(), n=k))
            job.count('loops')
            job.count('iterations', k)
            job.count('probes', len(probes))
            wit = dict(module=m.encode().hex(), n=k, shape=shape)
            job.case(('loop', shape, len(frs), k, got[0] & 255))
            if got != [i32(model(k))]:
                return job.violation('loop', f'a loop of {k} iterations ({shape}) gives {got}, not {i32(model(k))}', wit)
            if len({p[0] for p in probes}) > 1:
                return job.violation('stacks grow', f'the interpreter stacks (frames, labels, values) grow over {k} iterations ({shape}): {probes[0][0]} to {probes[-1][0]}', wit)
            if state['trace'] and len(probes) > 8:
                late, early = probes[-1][1], probes[3][1]
                job.count('memory_probes', len(probes))
                if late - early > 24 * 1024 + 200 * len(probes):
                    return job.violation('memory grows', f'{late - early} bytes more are held at the end of a loop of {k} iterations ({shape}) than at its beginning', wit)
            if any(pw.depths(rt)):
                return job.violation('stacks left', f'after a loop the stacks hold {pw.depths(rt)}', wit)
    finally:
        if state['trace']:
            tracemalloc.stop()


# ---- growth ----
def growth(job, r):
    rt = core.Runtime()
    mx = r.choice([None, 0, 1, 2, 5, 20, 40])
    lo = r.choice([0, 0, 1, 2, 5]) if mx is None else r.randrange(0, min(mx, 5) + 1)
    tmx = r.choice([None, 0, 1, 3, 50, 900])
    tlo = r.choice([0, 1, 4]) if tmx is None else r.randrange(0, min(tmx, 9) + 1)
    rtype = r.choice(['funcref', 'externref'])
    who = r.choice(['own', 'embedder', 'other'])
    decl = lambda m, own: None

    def module(own):
        m = Module()
        if own:
            m.mems.append((lo, mx))
            m.tables.append((rtype, (tlo, tmx)))
        else:
            # any importer may declare looser limits than the memory has
            loose = (r.choice([0, lo]), None if mx is None else r.choice([None, mx, mx + 5, 65536]))
            tloose = (r.choice([0, tlo]), None if tmx is None else r.choice([None, tmx, tmx + 7]))
            m.imports += [('x', 'm', 'memory', loose), ('x', 't', 'table', (rtype, tloose))]
        m.exports += [('m', 'memory', 0), ('t', 'table', 0)]
        m.func(['i32'], ['i32'], [('local.get', 0), ('memory.grow',)], export='mg')
        m.func([], ['i32'], [('memory.size',)], export='ms')
        m.func(['i32'], ['i32'], [('ref.null', rtype), ('local.get', 0), ('table.grow', 0)], export='tg')
        m.func([], ['i32'], [('table.size', 0)], export='ts')
        m.func(['i32'], ['i32'], [('local.get', 0), ('i32.load8_u', 0, 0)], export='peek')
        m.func(['i32'], ['i32'], [('local.get', 0), ('table.get', 0), ('ref.is_null',)], export='tpeek')
        return m
    insts = []
    if who == 'embedder':
        rt.imports['x'] = {'m': rt.allocate_memory(core.MemType(pw.limits(lo, mx))), 't': rt.allocate_table(core.TableType(pw.VT[rtype](), pw.limits(tlo, tmx)))}
        insts.append(load(rt, module(False), r))
    else:
        insts.append(load(rt, module(True), r))
        if who == 'other':
            rt.imports['x'] = {e.name: e.data for e in insts[0].exps if e.name in ('m', 't')}
    if who != 'own':
        insts += [load(rt, module(False), r) for _ in range(2)]
    size, tsize = lo, tlo
    mem = rt.exported_memory(insts[0], 'm')
    wit = dict(min=lo, max=mx, table=[tlo, tmx], who=who, hist=[])
    say = lambda key, what: job.violation(key, f'{who} [{lo}, {mx}] table [{tlo}, {tmx}]: {what}'[:240], wit)
    for _ in range(14):
        i = r.choice(insts)
        if r.random() < .5:
            top = 65536 if mx is None else min(mx, 65536)
            n = r.choice([0, 1, 1, 2, 3, max(0, top - size), top - size + 1, 65536, 65536 - size, 65537 - size, 65535, 0x10000 - lo + 1, M32, 1 << 31, M32 - size + 1, 1 << 16 | 1, r.getrandbits(32), 70000])
            if size + n > 60 and size + n <= top:
                n = 1
            n &= M32
            wit['hist'].append(['memory.grow', n])
            got = rt.invocate(i, 'mg', [i32(n)])[0] & M32
            fits = size + n <= top
            job.count('memory_grows')
            job.case(('grow', who, mx is None, fits, n == 0, size + n == top, got == M32))
            if fits and size + n <= 60:
                if got != size:
                    return say('grow refused', f'memory.grow {n} at {size} pages gives {i32(got)}')
                size += n
            elif got != M32:
                return say('grow beyond', f'memory.grow {n} at {size} pages gives {i32(got)}')
            if [rt.invocate(x, 'ms', [])[0] for x in insts] != [size] * len(insts) or len(mem.data) != size * 65536:
                return say('size', f'after memory.grow {n} memory.size gives {[rt.invocate(x, "ms", [])[0] for x in insts]}, there are {len(mem.data) / 65536} pages, the model has {size}')
            for at, ok in ((size * 65536 - 1, True), (size * 65536, False)):
                if at < 0:
                    continue
                try:
                    got = rt.invocate(i, 'peek', [i32(at)]) == [0]
                except Exception:
                    got = None
                if got is not (True if ok else None):
                    return say('edge', f'after memory.grow {n} the byte {at} {"cannot be read" if ok else "can be read"}')
        else:
            top = M32 if tmx is None else tmx
            n = r.choice([0, 1, 1, 2, 3, max(0, top - tsize), top - tsize + 1, M32, 1 << 31, r.getrandbits(32), M32 - tsize + 1])
            n &= M32
            if tsize + n > 900 and tsize + n <= top:
                n = M32
            wit['hist'].append(['table.grow', n])
            got = rt.invocate(i, 'tg', [i32(n)])[0] & M32
            fits = tsize + n <= min(top, 900)
            job.count('table_grows')
            job.case(('table grow', who, tmx is None, fits, n == 0, tsize + n == top, got == M32))
            if fits:
                if got != tsize:
                    return say('table grow refused', f'table.grow {n} at {tsize} gives {i32(got)}')
                tsize += n
            elif got != M32:
                return say('table grow beyond', f'table.grow {n} at {tsize} gives {i32(got)}')
            if [rt.invocate(x, 'ts', [])[0] for x in insts] != [tsize] * len(insts):
                return say('table size', f'after table.grow {n} table.size gives {[rt.invocate(x, "ts", [])[0] for x in insts]}, the model has {tsize}')
            for at, ok in ((tsize - 1, True), (tsize, False)):
                if at < 0:
                    continue
                try:
                    got = rt.invocate(i, 'tpeek', [at]) == [1]
                except Exception:
                    got = None
                if got is not (True if ok else None):
                    return say('table edge', f'after table.grow {n} the entry {at} {"cannot be read" if ok else "can be read"}')


def greedy(job, r):
    """memory.grow and table.grow until they fail: within the declared or the implementation's maximum"""
    rt = core.Runtime()
    m = Module()
    m.mems.append((0, None))
    m.tables.append(('externref', (0, None)))
    step = r.choice([16, 64, 100])
    m.func([], ['i32'], [('loop', None), ('i32.const', step), ('memory.grow',), ('i32.const', -1), ('i32.ne',), ('local.get', 0), ('i32.const', 1), ('i32.add',), ('local.tee', 0), ('i32.const', 70000 // step), ('i32.lt_u',),
                         ('i32.and',), ('br_if', 0), ('end',), ('memory.size',)], locals=['i32'], export='mem')
    inst = load(rt, m)
    try:
        got = rt.invocate(inst, 'mem', [])[0]
    except MemoryError:
        return
    job.count('greedy')
    job.case(('greedy', step, got))
    if got > 65536 or len(rt.exported_memory(inst, 'm').data if 0 else rt.machine.store.mems[-1].data) != got * 65536:
        job.violation('greedy', f'a memory without maximum grows to {got} pages', dict(step=step))


def work(job):
    r = job.rng
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    for k in range(scale(14, 800)):
        if job.late():
            break
        if k % 2 == 0:
            runaway(job, r)
        if k % 7 == 0:
            startup(job, r)
            greedy(job, r)
        for _ in range(2):
            ordinary(job, r)
            tower(job, r)
        for _ in range(4):
            nested(job, r)
            growth(job, r)
            growth(job, r)
        loops(job, r)


# ---- as long as it takes ----
def marathon(job):
    """one thing done very many times: nothing may run out that the program has not used up"""
    r = job.rng
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    rt = core.Runtime()
    m = Module()
    calls = [0]

    def tick(machine, args):
        calls[0] += 1
        return []
    rt.imports['e'] = {'tick': rt.allocate_func_host(pw.functype([], []), tick)}
    m.imports.append(('e', 'tick', 'func', m.type((), ())))
    m.mems.append((1, 3))
    m.tables.append(('funcref', (2, 5)))
    one = m.func(['i32'], ['i32'], [('local.get', 0)])
    early = m.func(['i32'], ['i32'], [('block', None), ('i64.const', 1), ('local.get', 0), ('i32.const', 7), ('br_if', 1), ('drop',), ('drop',), ('end',), ('i32.const', 9)])
    m.elems.append(Elem('active', [one], 0, [('i32.const', 1)]))
    loop = lambda body: [('loop', None)] + body + [('local.get', 0), ('i32.const', 1), ('i32.sub',), ('local.tee', 0), ('br_if', 0), ('end',), ('local.get', 1)]
    inc = [('local.get', 1), ('i32.const', 1), ('i32.add',), ('local.set', 1)]
    kinds = {
        'instructions': (loop([('nop',)] * 400 + inc), scale(46000, 400000)),
        'iterations': (loop(inc), scale(300000, 3000000)),
        'blocks': (loop([('block', None), ('block', None), ('br', 1), ('end',), ('end',), ('i32.const', 1), ('if', None), ('end',)] + inc), scale(150000, 1500000)),
        'calls': (loop([('local.get', 1), ('call', one), ('i32.const', 1), ('i32.add',), ('local.set', 1)]), scale(150000, 1500000)),
        'early leaving calls': (loop([('local.get', 1), ('call', early), ('drop',)] + inc), scale(100000, 1000000)),
        'indirect calls': (loop([('local.get', 1), ('i32.const', 1), ('call_indirect', m.type(('i32',), ('i32',)), 0), ('i32.const', 1), ('i32.add',), ('local.set', 1)]), scale(150000, 1500000)),
        'host calls': (loop([('call', 0)] + inc), scale(150000, 1500000)),
        'failing growth': (loop([('i32.const', 4), ('memory.grow',), ('local.get', 1), ('i32.add',), ('i32.const', 2), ('i32.add',), ('local.set', 1), ('ref.null', 'funcref'), ('i32.const', 9),
                                 ('table.grow', 0), ('drop',), ('i32.const', 0), ('memory.grow',), ('drop',)]), scale(60000, 600000)),
        'invocations': ([('local.get', 0), ('call', one)], scale(60000, 600000)),
        'instances': ([('local.get', 0), ('call', one)], scale(2500, 20000)),
    }
    names = list(kinds)
    for k in names:
        m.func(['i32'], ['i32'], kinds[k][0], locals=['i32'], export=k)
    desc = core.ModuleDesc.from_reader(io.BytesIO(m.encode()))
    inst = rt.instance(desc)
    for k in names[job.n::job.total]:
        n = kinds[k][1] + r.randrange(100)
        try:
            if k == 'invocations':
                got = [0]
                for q in range(n):
                    got = [got[0] + (rt.invocate(inst, k, [q]) == [q])]
            elif k == 'instances':
                # each with its own everything; the first one still is what it was
                got = [0]
                for q in range(n):
                    x = rt.instance(desc)
                    got = [got[0] + (rt.invocate(x, k, [q]) == [q] and rt.invocate(inst, k, [q]) == [q])]
                    # let go of the memory, the runtime keeps instances
                    rt.machine.store.mems[x.mems[0]].data = bytearray()
            else:
                got = rt.invocate(inst, k, [n])
        except Exception as e:
            got = f'{type(e).__name__}: {e}'
        job.count('marathons')
        job.count('marathon ' + k, n)
        job.case(('marathon', k, n))
        if got != [n]:
            return job.violation('marathon: ' + k, f'{n} {k} end with {got}', dict(module=m.encode().hex(), kind=k, n=n))
        if any(pw.depths(rt)):
            return job.violation('stacks left', f'after {n} {k} the stacks hold {pw.depths(rt)}', dict(module=m.encode().hex(), kind=k, n=n))
        if k == 'host calls' and calls[0] != n:
            return job.violation('marathon: ' + k, f'{n} host calls reach the host {calls[0]} times', dict(module=m.encode().hex(), kind=k, n=n))


def main():
    c = Check('C16', 'a distinct (kind of recursion, functions, depth), (nesting, how it is left, target kind), (loop shape, parts, iterations) or growth outcome')
    c.run(work)
    c.run(marathon)
    for k, n in (('marathons', 10), ('runaways', 150), ('starts', 40), ('recursions', 700), ('towers', 150), ('nestings', 1000), ('loops', 200), ('probes', 2000), ('memory_probes', 700), ('memory_grows', 2000), ('table_grows', 2000)):
        c.require(k, n)
    c.finish()
