"""Program families for instantiation (C12)."""
import wb
from families import call, const, logs
from wb import Data, Elem, Module

M32 = (1 << 32) - 1
TYPES = [((), ()), (('i32',), ()), (('i32',), ('i32',)), ((), ('i32',)), (('i64',), ('i32',)), (('i32', 'i64'), ('i32',)), (('i64', 'i32'), ('i32',)), (('i32',), ('i32', 'i32')),
         (('i32',), ('i64',)), (('f32',), ('i32',)), (('externref',), ('i32',)), (('funcref',), ('i32',)), (('v128',), ('i32',)), (('i32',) * 9, ('i32',))]
VALS = ('i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref')


def lims_ok(size, pmax, rmin, rmax):
    return size >= rmin and (rmax is None or (pmax is not None and pmax <= rmax))


def matrix(r):
    """one provider module with entities of every type; many one-import modules, matching or not, each with segments and a start
    function that would be visible if the instantiation were not refused"""
    p = Module()
    host = {}
    p.mems.append((1, r.choice([None, 1, 2, 3])))
    pm = p.mems[0]
    ft = r.sample(TYPES, 5)
    for k, (a, b) in enumerate(ft):
        p.func(a, b, [('ref.null', 'funcref') if t == 'funcref' else const(r, t) for t in b], export=f'f{k}')
    tabs = []
    for k in range(3):
        t = (r.choice(['funcref', 'externref']), (r.choice([0, 1, 3]), r.choice([None, 3, 4, 8])))
        p.tables.append(t)
        tabs.append(t)
        p.exports.append((f't{k}', 'table', k))
        p.func(('i32',), ('i32',), [('ref.null', t[0]), ('local.get', 0), ('table.grow', k)], export=f'tg{k}')
    p.func(('i32',), ('i32',), [('local.get', 0), ('memory.grow',)], export='mg')
    p.exports.append(('m', 'memory', 0))
    gl = []
    for k in range(4):
        t, mut = r.choice(VALS), r.random() < .5
        p.globals.append((t, mut, [('ref.null', t)] if 'ref' in t else [('v128.const', bytes(16))] if t == 'v128' else [(t + '.const', 7)]))
        gl.append((t, mut))
        p.exports.append((f'g{k}', 'global', k))
    p.globals.append(('i32', True, [('i32.const', 0)]))
    p.exports.append(('state', 'global', 4))
    p.func((), ('i32',), [('global.get', 4)], export='state_get')
    mods = [p.encode()]
    ps = {'inst': 'P'}
    steps = [dict(op='inst', id='P', mod=0, imports=[])]
    tsize = [t[1][0] for t in tabs]
    for k in range(3):
        g = r.choice([0, 0, 1, 2])
        steps.append(call('P', f'tg{k}', [('i32', g)], ('i32',)))
        if tabs[k][1][1] is None or tsize[k] + g <= tabs[k][1][1]:
            tsize[k] += g
    msize = 1
    g = r.choice([0, 1])
    steps.append(call('P', 'mg', [('i32', g)], ('i32',)))
    if pm[1] is None or 1 + g <= pm[1]:
        msize += g
    expect = []
    for q in range(24):
        m = Module()
        m.imports.append(('e', 's', 'global', ('i32', True)))
        m.imports.append(('e', 'pm', 'memory', (0, None)))
        imp = [['e', 's', dict(ps, export='state')], ['e', 'pm', dict(ps, export='m')]]
        kind = r.choice(['func', 'table', 'memory', 'global', 'kind', 'missing'])
        ok = True
        if kind == 'func':
            k = r.randrange(5)
            want = ft[k] if r.random() < .4 else r.choice(TYPES)
            ok = want == ft[k]
            m.imports.append(('e', 'x', 'func', m.type(*want)))
            imp.append(['e', 'x', dict(ps, export=f'f{k}')])
        elif kind == 'table':
            k = r.randrange(3)
            rt = tabs[k][0] if r.random() < .85 else r.choice(['funcref', 'externref'])
            lo = r.choice([0, tsize[k], tsize[k], tsize[k] + 1, max(tsize[k] - 1, 0), tabs[k][1][0]])
            pmx = tabs[k][1][1]
            hi = r.choice([None, None, pmx, (pmx or 5) + 1, max((pmx or 5) - 1, lo), M32])
            if hi is not None and hi < lo:
                hi = lo
            ok = rt == tabs[k][0] and lims_ok(tsize[k], pmx, lo, hi)
            m.imports.append(('e', 'x', 'table', (rt, (lo, hi))))
            imp.append(['e', 'x', dict(ps, export=f't{k}')])
        elif kind == 'memory':
            lo = r.choice([0, msize, msize, msize + 1, 1, 2])
            pmx = pm[1]
            hi = r.choice([None, pmx, (pmx or 5) + 1, max((pmx or 5) - 1, lo), 65536])
            if hi is not None and hi < lo:
                hi = lo
            ok = lims_ok(msize, pmx, lo, hi)
            m.imports[1] = ('e', 'pm', 'memory', (lo, hi))
        elif kind == 'global':
            k = r.randrange(4)
            t = gl[k][0] if r.random() < .7 else r.choice(VALS)
            mut = gl[k][1] if r.random() < .7 else not gl[k][1]
            ok = (t, mut) == gl[k]
            m.imports.append(('e', 'x', 'global', (t, mut)))
            imp.append(['e', 'x', dict(ps, export=f'g{k}')])
        elif kind == 'kind':
            have, need = r.sample(['f0', 't0', 'g0'], 2)
            if need == 'g0' and 'ref' in gl[0][0]:      # JavaScript turns any value into a constant reference global
                have, need = need, have
            m.imports.append(('e', 'x') + {'f': ('func', m.type(*ft[0])), 't': ('table', (tabs[0][0], (0, None))), 'g': ('global', gl[0])}[need[0]])
            imp.append(['e', 'x', dict(ps, export=have)])
            ok = False
        else:
            a, b = r.choice([('e', 'nope'), ('nope', 's'), ('', ''), ('e', '')])
            m.imports.append((a, b, 'func', m.type((), ())))
            ok = False
        r.shuffle(m.imports)
        m.datas.append(Data('active', bytes([q + 1, 0xee]), [('i32.const', 10 + q)]))
        f = m.func((), (), [('global.get', [i[1] for i in m.imports if i[2] == 'global'].index('s')), ('i32.const', 1), ('i32.add',),
                            ('global.set', [i[1] for i in m.imports if i[2] == 'global'].index('s'))])
        m.start = f
        mods.append(m.encode())
        r.shuffle(imp)
        expect.append((len(steps), ok, kind))
        steps.append(dict(op='inst', id=f'X{q}', mod=len(mods) - 1, imports=imp))
        steps += [call('P', 'state_get', [], ('i32',)), dict(op='memhash', mem=dict(ps, export='m'))]
    return {'mods': mods, 'host': host, 'steps': steps, 'expect': expect}


def segments(r):
    """modules sharing a host memory, table and global; active element and data segments of all positions, some out of bounds, some
    overlapping; start functions that look at everything, then trap, throw or return; what is visible after success and failure"""
    host, mods, steps = {}, [], []
    host['m'] = dict(kind='memory', min=1, max=2)
    host['t'] = dict(kind='table', reftype='funcref', min=8, max=8)
    host['off'] = dict(kind='global', type='i32', mut=False, value=str(r.choice([0, 3, 65530])))
    host['cnt'] = dict(kind='global', type='i32', mut=True, value='0')
    host['boom'] = dict(kind='func', params=['i32'], results=['i32'], beh='throw')
    obs = Module()
    obs.imports += [('e', 't', 'table', ('funcref', (8, 8)))]
    obs.func(('i32',), ('i32',), [('local.get', 0), ('table.get', 0), ('ref.is_null',), ('if', 'i32'), ('i32.const', -1), ('else',), ('local.get', 0), ('call_indirect', obs.type((), ('i32',)), 0), ('end',)], export='look')
    mods.append(obs.encode())
    steps.append(dict(op='inst', id='O', mod=0, imports=[['e', 't', {'host': 't'}]]))
    for q in range(r.randint(4, 9)):
        m = Module()
        ix, h, imp = logs(m, ('i32',))
        host.update(h)
        m.imports += [('e', 'm', 'memory', (1, None)), ('e', 't', 'table', ('funcref', (8, None))), ('e', 'off', 'global', ('i32', False)), ('e', 'cnt', 'global', ('i32', True)),
                      ('e', 'boom', 'func', m.type(('i32',), ('i32',)))]
        imp += [['e', k, {'host': k}] for k in ('m', 't', 'off', 'cnt', 'boom')]
        boom = m.nimp('func') - 1
        m.globals.append(('i32', False, [('i32.const', 1000 * q)]))
        m.tables.append(('funcref', (3, 3)))
        m.tables.append(('externref', (2, 2)))
        fs = []
        for k in range(3):
            fs.append(m.func((), ('i32',), [('global.get', 1), ('i32.const', 1), ('i32.add',), ('global.set', 1), ('global.get', 2), ('i32.const', k), ('i32.add',)]))
        for _ in range(r.randint(0, 4)):
            n = r.choice([0, 1, 2, 3])
            tb = r.choice([0, 0, 0, 1])
            size = [8, 3][tb]
            off = r.choice([0, 1, size - n, size - n] + ([size - n + 1, size, size + 1, M32] if r.random() < .25 else []))
            src = [('i32.const', off)] if r.random() < .8 else [('global.get', 0)]
            mode = r.choice(['active'] * 4 + ['passive', 'declarative'])
            items = [r.choice(fs) if r.random() < .85 else [('ref.null', 'funcref')] for _ in range(n)]
            m.elems.append(Elem(mode, items, tb, src if mode == 'active' else None))
        if r.random() < .2:
            m.elems.append(Elem('active', [[('ref.null', 'externref')]] * r.choice([1, 2, 3]), 2, [('i32.const', 0)], reftype='externref'))
        for _ in range(r.randint(0, 4)):
            n = r.choice([0, 1, 4, 8])
            off = r.choice([0, 2, 5, 65536 - n] + ([65536 - n + 1, 65536, 65537, M32] if r.random() < .25 else []))
            src = [('i32.const', off)] if r.random() < .8 else [('global.get', 0)]
            m.datas.append(Data('active', bytes([r.getrandbits(8) for _ in range(n)]), src))
        how = r.choice(['none', 'ok', 'ok', 'trap', 'throw', 'oob', 'import'])
        body = []
        for a in (0, 4, 65528):
            body += [('i32.const', a), ('i32.load', 0, 0), ('call', ix['i32'])]
        for i in range(8):
            body += [('i32.const', i), ('table.get', 0), ('ref.is_null',), ('call', ix['i32'])]
        body += [('i32.const', 16), ('i32.const', 777 + q), ('i32.store', 0, 0), ('global.get', 1), ('i32.const', 100), ('i32.add',), ('global.set', 1)]
        body += {'trap': [('unreachable',)], 'throw': [('i32.const', q), ('call', boom), ('drop',)], 'oob': [('i32.const', 65536), ('i32.load8_u', 0, 0), ('drop',)]}.get(how, [])
        body += [('i32.const', 20), ('i32.const', 888 + q), ('i32.store', 0, 0)]
        if how == 'import':
            pass
        elif how != 'none':
            m.start = m.func((), (), body)
        m.func((), ('i32', 'i32'), [('global.get', 2), ('i32.const', 0), ('i32.load', 0, 0)], export='self')
        m.exports += [('t', 'table', 0), ('t1', 'table', 1), ('m', 'memory', 0), ('g', 'global', 2), ('boom', 'func', boom)]
        mods.append(m.encode())
        steps.append(dict(op='inst', id=f'S{q}', mod=len(mods) - 1, imports=imp))
        steps += [dict(op='memhash', mem={'host': 'm'}), dict(op='gget', g={'host': 'cnt'}, t='i32')]
        steps += [call('O', 'look', [('i32', i)], ('i32',)) for i in range(8)]
        steps += [dict(op='gget', g={'host': 'cnt'}, t='i32'), call(f'S{q}', 'self', [], ('i32', 'i32'))]
        for j in range(q):
            if r.random() < .3:
                steps.append(call(f'S{j}', 'self', [], ('i32', 'i32')))
    return {'mods': mods, 'host': host, 'steps': steps}


def exports(r):
    """exports under several names, re-exports through a chain of modules, index spaces with imports in front; every name must denote
    exactly the entity"""
    host, mods, steps = {}, [], []
    avail = []
    for k in range(3):
        host[f'hf{k}'] = dict(kind='func', params=['i32'], results=['i32'], beh='mix')
        avail.append(('func', (('i32',), ('i32',)), {'host': f'hf{k}'}))
        host[f'hg{k}'] = dict(kind='global', type='i32', mut=bool(k & 1), value=str(k + 40))
        avail.append(('global', ('i32', bool(k & 1)), {'host': f'hg{k}'}))
    host['hm'] = dict(kind='memory', min=1, max=None)
    avail.append(('memory', (1, None), {'host': 'hm'}))
    host['ht'] = dict(kind='table', reftype='funcref', min=4, max=None)
    avail.append(('table', ('funcref', (4, None)), {'host': 'ht'}))
    for n in range(r.choice([1, 2, 3])):
        m = Module()
        imp = []
        own = []
        hasmem = False
        for a in r.sample(avail, r.randint(0, min(len(avail), 12))):
            kind, d, ref = a
            if kind == 'memory':
                if hasmem:
                    continue
                hasmem = True
            nm = f'i{len(imp)}'
            m.imports.append(('e', nm, kind, m.type(*d) if kind == 'func' else d))
            imp.append(['e', nm, ref])
        cnt = {k: [(x[3] if k != 'func' else m.types[x[3]]) for x in m.imports if x[2] == k] for k in ('func', 'global', 'memory', 'table')}
        for k in range(r.randint(1, 4)):
            m.globals.append(('i32', r.random() < .5, [('i32.const', n * 100 + k)]))
            cnt['global'].append(('i32', m.globals[-1][1]))
        for k in range(r.randint(0, 2)):
            m.tables.append(('funcref', (4 + k, None)))
            cnt['table'].append(('funcref', (4 + k, None)))
        if not hasmem:
            m.mems.append((1, None))
            cnt['memory'].append((1, None))
            m.datas.append(Data('active', bytes([n + 1]) * 8, [('i32.const', 0)]))
        for k in range(r.randint(1, 4)):
            f = m.func(('i32',), ('i32',), [('local.get', 0), ('i32.const', n * 1000 + k), ('i32.add',)])
            cnt['func'].append((('i32',), ('i32',)))
            if cnt['table']:
                t = r.randrange(len(cnt['table']))
                m.elems.append(Elem('active', [f], t, [('i32.const', r.randint(0, 3))]))
        e = 0
        for kind in ('func', 'global', 'memory', 'table'):
            for i, d in enumerate(cnt[kind]):
                for _ in range(r.choice([0, 1, 1, 2])):
                    m.exports.append((f'x{e}', kind, i))
                    own.append((kind, d, {'inst': f'E{n}', 'export': f'x{e}'}))
                    e += 1
        r.shuffle(m.exports)
        ti = m.type(('i32',), ('i32',))
        for i in range(len(cnt['table'])):
            m.func(('i32',), ('i32',), [('i32.const', 5), ('local.get', 0), ('call_indirect', ti, i)], export=f'ti{i}')
        mods.append(m.encode())
        steps.append(dict(op='inst', id=f'E{n}', mod=n, imports=imp))
        for kind, d, ref in own:
            if kind == 'func':
                steps.append(call(ref['inst'], ref['export'], [('i32', r.getrandbits(31))], ('i32',)))
            elif kind == 'global':
                steps.append(dict(op='gget', g=ref, t='i32'))
                if d[1]:
                    steps.append(dict(op='gset', g=ref, t='i32', v=str(r.getrandbits(16))))
            elif kind == 'memory':
                steps.append(dict(op='memset', mem=ref, off=r.randrange(100), b64='AQID'))
                steps.append(dict(op='memhash', mem=ref))
            else:
                steps.append(dict(op='tsize', tab=ref))
        for i in range(len(cnt['table'])):
            steps += [call(f'E{n}', f'ti{i}', [('i32', j)], ('i32',)) for j in range(5)]
        avail += own
        steps += [call(f'E{n}', 'no such export', [], ()), call(f'E{n}', '', [], ())]
    return {'mods': mods, 'host': host, 'steps': steps}


FAM = [matrix, segments, segments, exports]
