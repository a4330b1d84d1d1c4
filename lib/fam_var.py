"""Program families for locals, globals and constant initialisers (C09)."""
import wb
from families import call, const, logs
from wb import Elem, Module

M32, M64 = (1 << 32) - 1, (1 << 64) - 1
ALL = ('i32', 'i64', 'f32', 'f64', 'v128', 'externref', 'funcref')
NUM4 = ('i32', 'i64', 'f32', 'f64')


def bits(r, t):
    """a bit pattern; NaNs (quiet and signalling) included"""
    if t in ('i32', 'f32'):
        return r.choice([0, 0x80000000, 1, M32, 0x7fc00000, 0x7fa00001, 0xffc12345, 0x7f800000, r.getrandbits(32)])
    if t in ('i64', 'f64'):
        return r.choice([0, 1 << 63, 1, M64, 0x7ff8 << 48, 0x7ff4000000000001, 0xfff8000000012345, r.getrandbits(64)])
    raise AssertionError


def setval(r, t, fs):
    if t in NUM4:
        return [(t + '.const', bits(r, t))]
    if t == 'v128':
        return [('v128.const', bytes(r.getrandbits(8) for _ in range(16)))]
    if t == 'funcref':
        return [('ref.func', r.choice(fs))] if r.random() < .7 else [('ref.null', t)]
    return None


def show(t, get, ix, table, nf):
    """log the exact bits of the value get pushes"""
    if t == 'f32':
        return get + [('i32.reinterpret_f32',), ('call', ix['i32'])]
    if t == 'f64':
        return get + [('i64.reinterpret_f64',), ('call', ix['i64'])]
    if t == 'v128':
        return get + [('i64x2.extract_lane', 0), ('call', ix['i64'])] + get + [('i64x2.extract_lane', 1), ('call', ix['i64'])]
    if t == 'funcref':
        return get + [('ref.is_null',), ('call', ix['i32']), ('i32.const', 0)] + get + [('table.set', table)] + get + \
            [('ref.is_null',), ('if', None), ('else',), ('i32.const', 0), ('call_indirect', nf, table), ('call', ix['i32']), ('end',)]
    return get + [('call', ix[t])]


def prelude(m):
    ix, host, imp = logs(m, ('i32', 'i64', 'externref'))
    nf = m.type((), ('i32',))
    m.tables.append(('funcref', (1, 1)))
    return ix, host, imp, nf


def fns(m, k=3):
    fs = [m.func((), ('i32',), [('i32.const', 100 + i)]) for i in range(k)]
    m.elems.append(Elem('declarative', fs))
    return fs


def locals_many(r):
    """runs of locals of every type with indices past every LEB length, random get/set/tee; all neighbours read back"""
    m = Module()
    ix, host, imp, nf = prelude(m)
    fs = fns(m)
    ps = [r.choice(ALL[:4] + ('externref',)) for _ in range(r.choice([0, 1, 3, 9, 130]))] + ['externref', 'i32']
    loc = []
    for _ in range(r.randint(1, 8)):
        loc += [r.choice(ALL)] * r.choice([1, 1, 2, 5, 60, 127, 128, 300])
    if r.random() < .08:
        loc += ['i32'] * 17000
    ty = ps + loc
    n = len(ty)
    ext = len(ps) - 2
    spots = sorted({i for b in (0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 16383, 16384, n - 2, n - 1, len(ps) - 1, len(ps), len(ps) + 1) for i in (b,) if 0 <= i < n} | {r.randrange(n) for _ in range(20)})
    body = []
    for i in spots:
        body += show(ty[i], [('local.get', i)], ix, 0, nf)
    for _ in range(40):
        i = r.choice(spots)
        t = ty[i]
        q = r.random()
        same = [j for j in spots if ty[j] == t]
        if q < .45:
            v = setval(r, t, fs) or [('local.get', ext)]
            body += v + [('local.set', i)]
        elif q < .75:
            j = r.choice(same)
            body += [('local.get', j), ('local.set', i)]
        else:
            j, k = r.choice(same), r.choice(same)
            if t in ('v128',):
                body += [('local.get', j), ('local.tee', i), ('local.set', k)]
            else:
                body += show(t, [('local.get', j), ('local.tee', i)], ix, 0, nf) if t not in ('funcref',) else [('local.get', j), ('local.tee', i), ('drop',)]
        if r.random() < .25:
            for j in r.sample(spots, min(4, len(spots))):
                body += show(ty[j], [('local.get', j)], ix, 0, nf)
        if r.random() < .1:               # an older value on the operand stack stays what it was
            body += show(t, [('local.get', i)] , ix, 0, nf) if t not in ('i32', 'i64') else [('local.get', i), (t + '.const', r.getrandbits(20)), ('local.set', i), ('call', ix[t])]
    for i in spots:
        body += show(ty[i], [('local.get', i)], ix, 0, nf)
    m.func(ps, (), body, loc, export='f')
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for _ in range(3):
        args = [(t, r.randint(1, 10**6)) if t == 'externref' else (t, bits(r, t) if t in ('i32', 'i64') else r.getrandbits(29)) for t in ps]
        steps.append(call('A', 'f', args, ()))
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def vector_alias(r):
    """v128 values are not shared between locals, globals, the operand stack and memory: lane replacement and arithmetic on one copy
    leave the others alone"""
    m = Module()
    ix, host, imp, nf = prelude(m)
    m.mems.append((1, 1))
    m.globals.append(('v128', True, [('v128.const', bytes(range(16)))]))
    m.globals.append(('v128', False, [('v128.const', bytes(range(100, 116)))]))
    body = [('global.get', 1), ('local.set', 0)]
    bops = ['i8x16.add', 'i64x2.sub', 'v128.xor', 'v128.andnot', 'i16x8.mul', 'f32x4.pmin']
    for _ in range(40):
        a, b = r.randint(0, 3), r.randint(0, 3)
        q = r.randrange(9)
        if q == 0:
            body += [('local.get', a), ('i32.const', r.getrandbits(31)), ('i32x4.replace_lane', r.randint(0, 3)), ('local.set', b)]
        elif q == 1:
            body += [('local.get', a), ('local.tee', b), ('local.get', r.randint(0, 3)), (r.choice(bops),), ('global.set', 0)]
        elif q == 2:
            body += [('global.get', r.randint(0, 1)), ('i64.const', r.getrandbits(63)), ('i64x2.replace_lane', r.randint(0, 1)), ('local.set', a)]
        elif q == 3:
            body += [('i32.const', 16 * a), ('local.get', b), ('v128.store', 0, 0)]
        elif q == 4:
            body += [('i32.const', 16 * a + r.choice([0, 3])), ('local.get', b), ('v128.load16_lane', 0, 0, r.randint(0, 7)), ('local.set', a)]
        elif q == 5:
            body += [('i32.const', 16 * a), ('v128.load', 0, 0), ('local.set', b), ('i32.const', 16 * a), ('i64.const', r.getrandbits(63)), ('i64.store', 0, 0)]
        elif q == 6:
            body += [('global.get', 0), ('local.get', a), ('i32.const', r.randint(0, 1)), ('select',), ('local.set', b)]
        elif q == 7:
            body += [('local.get', a), ('call', len(ix) + 1), ('local.set', b)]
        else:
            body += [('local.get', a), (r.choice(['i8x16.neg', 'v128.not', 'i32x4.abs', 'f64x2.neg']),), ('local.set', b)]
        if r.random() < .5:
            for i in range(4):
                body += show('v128', [('local.get', i)], ix, 0, nf)
            body += show('v128', [('global.get', 0)], ix, 0, nf) + show('v128', [('global.get', 1)], ix, 0, nf)
    m.func((), (), body, ['v128'] * 4, export='f')
    # callee which scribbles over its parameter
    m.func(('v128',), ('v128',), [('local.get', 0), ('local.get', 0), ('i32.const', 9), ('i8x16.replace_lane', 3), ('local.tee', 0), ('i32.const', 1), ('i8x16.replace_lane', 0), ('local.set', 0), ('drop',), ('local.get', 0)])
    steps = [dict(op='inst', id='A', mod=0, imports=imp)] + [call('A', 'f', [], ())] * 2
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def aliases(r):
    """globals of every type created by the host and by modules, imported, re-exported and initialised from each other; writes through
    any alias (instructions of any instance, embedder handle) are read back through all"""
    host, mods, steps = {}, [], []
    pool = []          # (ref, type, mut)
    for k in range(r.randint(1, 5)):
        t = r.choice(ALL[:4] + ('externref',))
        mut = r.random() < .6
        host[f'g{k}'] = dict(kind='global', type=t, mut=mut, value=str(r.randint(1, 999) if t == 'externref' else r.getrandbits(30)))
        pool.append(({'host': f'g{k}'}, t, mut))
    hostg = list(pool)
    views = []         # (instance, export get, results)
    sets = []
    for k in range(r.choice([1, 2, 3])):
        m = Module()
        ix, h, imp, nf = prelude(m)
        host.update(h)
        gl = []
        for ref, t, mut in r.sample(pool, r.randint(0, len(pool))):
            m.imports.append(('env', f'g{len(gl)}', 'global', (t, mut)))
            imp.append(['env', f'g{len(gl)}', ref])
            gl.append((t, mut, ref))
        ni = len(gl)
        fs = fns(m)
        for _ in range(r.randint(1, 8)):
            t, mut = r.choice(ALL), r.random() < .7
            src = [i for i in range(ni) if gl[i][0] == t and not gl[i][1]]
            if src and r.random() < .6:
                init = [('global.get', r.choice(src))]
            elif t in NUM4:
                init = [(t + '.const', bits(r, t))]
            elif t == 'v128':
                init = setval(r, t, fs)
            elif t == 'funcref':
                init = setval(r, t, fs)
            else:
                init = [('ref.null', t)]
            m.globals.append((t, mut, init))
            gl.append((t, mut, {'inst': f'I{k}', 'export': f'x{len(gl)}'}))
        for i, (t, mut, ref) in enumerate(gl):
            m.exports.append((f'x{i}', 'global', i))
            if r.random() < .4:
                m.exports.append((f'y{i}', 'global', i))
                pool.append(({'inst': f'I{k}', 'export': f'y{i}'}, t, mut))
            if i >= ni:
                pool.append((ref, t, mut))
            if mut:
                if t == 'externref':
                    m.func((t,), (), [('local.get', 0), ('global.set', i)], export=f'set{i}')
                elif t in NUM4:
                    it = {'f32': 'i32', 'f64': 'i64'}.get(t, t)
                    m.func((it,), (), [('local.get', 0)] + ([(f'{t}.reinterpret_{it}',)] if it != t else []) + [('global.set', i)], export=f'set{i}')
                elif t == 'v128':
                    m.func(('i64',), (), [('local.get', 0), ('i64x2.splat',), ('global.set', i)], export=f'set{i}')
                else:
                    m.func((), (), setval(r, t, fs) + [('global.set', i)], export=f'set{i}')
                sets.append((f'I{k}', f'set{i}', t))
        body = []
        for i, (t, mut, ref) in enumerate(gl):
            body += [('i32.const', i), ('call', ix['i32'])] + show(t, [('global.get', i)], ix, 0, nf)
        m.func((), (), body, export='all')
        # swap two globals of the same type
        for i in range(len(gl)):
            c = [j for j in range(len(gl)) if j != i and gl[j][0] == gl[i][0] and gl[j][1] and gl[i][1]]
            if c:
                j = r.choice(c)
                m.func((), (), [('global.get', i), ('global.get', j), ('global.set', i), ('global.set', j)], export=f'swap{i}')
                sets.append((f'I{k}', f'swap{i}', None))
        views.append(f'I{k}')
        mods.append(m.encode())
        steps.append(dict(op='inst', id=f'I{k}', mod=k, imports=imp))
        steps.append(call(f'I{k}', 'all', [], ()))
    gm = [p for p in pool if p[1] in NUM4]
    for _ in range(18):
        q = r.random()
        if sets and q < .6:
            i, nm, t = r.choice(sets)
            if t is None or t == 'funcref':
                steps.append(call(i, nm, [], ()))
            elif t == 'externref':
                steps.append(call(i, nm, [(t, None if r.random() < .2 else r.randint(1, 10**6))], ()))
            else:
                it = {'f32': 'i32', 'f64': 'i64', 'v128': 'i64'}.get(t, t)
                steps.append(call(i, nm, [(it, bits(r, it))], ()))
        elif gm:
            ref, t, mut = r.choice(gm)
            if mut and q < .85:
                steps.append(dict(op='gset', g=ref, t=t, v=str(r.getrandbits(29))))
        for ref, t, mut in r.sample(gm, min(3, len(gm))):
            steps.append(dict(op='gget', g=ref, t=t))
        for v in views:
            steps.append(call(v, 'all', [], ()))
    return {'mods': mods, 'host': host, 'steps': steps}


def sparse(r):
    """modules with nothing in them but one or two globals (imported, perhaps twice, perhaps of another instance) and accessors"""
    host, mods, steps, pool = {}, [], [], []
    for k in range(r.randint(1, 2)):
        t = r.choice(NUM4)
        host[f'g{k}'] = dict(kind='global', type=t, mut=r.random() < .85, value=str(r.getrandbits(30)))
        pool.append(({'host': f'g{k}'}, t, host[f'g{k}']['mut']))
    acc = []
    for k in range(r.randint(2, 4)):
        m = Module()
        imp, gl = [], []
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            ref, t, mut = r.choice(pool)
            m.imports.append(('env', f'g{len(gl)}', 'global', (t, mut)))
            imp.append(['env', f'g{len(gl)}', ref])
            gl.append((t, mut, ref))
        ni = len(gl)
        for _ in range(r.choice([0, 0, 1]) if gl else 1):
            t = r.choice(NUM4)
            m.globals.append((t, r.random() < .8, [(t + '.const', bits(r, t))]))
            gl.append((t, m.globals[-1][1], None))
        for i, (t, mut, _) in enumerate(gl):
            it = {'f32': 'i32', 'f64': 'i64'}.get(t, t)
            there, back = ([(f'{t}.reinterpret_{it}',)], [(f'{it}.reinterpret_{t}',)]) if it != t else ([], [])
            m.func((), (it,), [('global.get', i)] + back, export=f'get{i}')
            acc.append((f'I{k}', f'get{i}', None, it))
            if mut:
                m.func((it,), (it,), [('global.get', i)] + back + [('local.get', 0)] + there + [('global.set', i)], export=f'set{i}')
                acc.append((f'I{k}', f'set{i}', it, it))
            if r.random() < .35:
                m.exports.append((f'x{i}', 'global', i))
                pool.append(({'inst': f'I{k}', 'export': f'x{i}'}, t, mut))
        mods.append(m.encode())
        steps.append(dict(op='inst', id=f'I{k}', mod=k, imports=imp))
    for _ in range(40):
        i, nm, a, res = r.choice(acc)
        steps.append(call(i, nm, [(a, bits(r, a))] if a else [], (res,)))
        ref, t, mut = r.choice(pool)
        if r.random() < .2 and mut:
            steps.append(dict(op='gset', g=ref, t=t, v=str(r.getrandbits(29))))
        elif r.random() < .4:
            steps.append(dict(op='gget', g=ref, t=t))
    return {'mods': mods, 'host': host, 'steps': steps}


FAM = [locals_many, vector_alias, aliases, aliases, sparse]
