"""Program families for tables, element segments and references (C08)."""
import wb
from families import call, const, logs
from wb import Elem, Module

M32 = (1 << 32) - 1


def dump(m, tabs, types, nf):
    """exports look_<t>(i): what table t holds at i - the externref itself, or for a funcref the i32 the function returns (-1 null)"""
    for t, rt in enumerate(tabs):
        if rt == 'externref':
            m.func(('i32',), ('externref',), [('local.get', 0), ('table.get', t)], export=f'look{t}')
        else:
            m.func(('i32',), ('i32',), [('local.get', 0), ('table.get', t), ('ref.is_null',), ('if', 'i32'), ('i32.const', -1), ('else',),
                                        ('local.get', 0), ('call_indirect', nf, t), ('end',)], export=f'look{t}')
        m.func((), ('i32',), [('table.size', t)], export=f'size{t}')


class Group(list):
    """one entry per table; the tables with the same root share it"""
    def __init__(self, root, v):
        self.root = root
        list.__init__(self, v)

    def __getitem__(self, t):
        return list.__getitem__(self, self.root[t])

    def __setitem__(self, t, v):
        list.__setitem__(self, self.root[t], v)


def ops(r, large=True):
    """random table.* / elem.drop / ref.* sequences over several tables of both kinds at boundary operands; every table dumped after
    every call"""
    m = Module()
    nf = m.type((), ('i32',))
    tabs, lims = [], []
    nt = r.randint(1, 4)
    host, imp, root = {}, [], []
    for t in range(nt):
        rt = r.choice(['funcref', 'externref'])
        lo = r.choice([0, 1, 2, 5, 9])
        hi = r.choice([None, lo, lo + 1, lo + 3, 30])
        root.append(t)
        if t and imp and not m.tables and r.random() < .65:      # the same table under two numbers
            root[t] = root[r.randrange(len(imp))]
            rt, (lo, hi) = tabs[root[t]], lims[root[t]]
            m.imports.append(('env', f't{t}', 'table', (rt, (lo, hi))))
            imp.append(['env', f't{t}', {'host': f'ht{root[t]}'}])
        elif r.random() < .45 and all(i[2] == 'table' for i in m.imports) and not m.tables:
            host[f'ht{t}'] = dict(kind='table', reftype=rt, min=lo, max=hi)
            m.imports.append(('env', f't{t}', 'table', (rt, (lo, hi))))
            imp.append(['env', f't{t}', {'host': f'ht{t}'}])
        else:
            m.tables.append((rt, (lo, hi)))
        tabs.append(rt)
        lims.append((lo, hi))
    nfn = 4
    fs = [m.func((), ('i32',), [('i32.const', 100 + k)]) for k in range(nfn)]
    segs = []
    decl = False
    for _ in range(r.randint(1, 5)):
        rt = r.choice(['funcref', 'funcref', 'externref'])
        n = r.choice([0, 1, 3, 6])
        items = [r.choice(fs) if rt == 'funcref' and r.random() < .8 else [('ref.null', rt)] for _ in range(n)]
        mode = r.choice(['passive', 'passive', 'active', 'declarative'])
        if mode == 'active':
            c = [t for t in range(nt) if tabs[t] == rt and lims[t][0] >= n]
            if not c:
                mode = 'passive'
            else:
                t = r.choice(c)
                m.elems.append(Elem('active', items, t, [('i32.const', r.choice([0, lims[t][0] - n]))], reftype=rt))
        if mode != 'active':
            m.elems.append(Elem(mode, items, reftype=rt))
        segs.append((rt, n))
    m.elems.append(Elem('declarative', fs))
    p3 = ('i32', 'i32', 'i32')
    a3 = [('local.get', 0), ('local.get', 1), ('local.get', 2)]
    fref = [('i32.const', 0)]

    def pick(i):      # funcref chosen by the i32 in local i: null for 0, else function
        b = [('ref.null', 'funcref')]
        for k, f in enumerate(fs):
            b += [('ref.func', f), ('local.get', i), ('i32.const', k + 1), ('i32.ne',), ('select_t', ['funcref'])] if False else \
                [('ref.func', f), ('local.get', i), ('i32.const', k + 1), ('i32.ne',), ('select_t', ['funcref'])]
        return b
    names = []
    for t in range(nt):
        if tabs[t] == 'externref':
            m.func(('i32', 'externref'), (), [('local.get', 0), ('local.get', 1), ('table.set', t)], export=f'set{t}')
            m.func(('i32', 'externref', 'i32'), (), a3 + [('table.fill', t)], export=f'fill{t}')
            m.func(('externref', 'i32'), ('i32',), [('local.get', 0), ('local.get', 1), ('table.grow', t)], export=f'grow{t}')
        else:
            m.func(('i32', 'i32'), (), [('local.get', 0)] + pick(1) + [('table.set', t)], export=f'set{t}')
            m.func(p3, (), [('local.get', 0)] + pick(1) + [('local.get', 2), ('table.fill', t)], export=f'fill{t}')
            m.func(('i32', 'i32'), ('i32',), pick(0) + [('local.get', 1), ('table.grow', t)], export=f'grow{t}')
        for s, (rt, n) in enumerate(segs):
            if rt == tabs[t]:
                m.func(p3, (), a3 + [('table.init', s, t)], export=f'init{t}_{s}')
        for u in range(nt):
            if tabs[u] == tabs[t]:
                m.func(p3, (), a3 + [('table.copy', t, u)], export=f'copy{t}_{u}')
    for s in range(len(segs)):
        m.func((), (), [('elem.drop', s)], export=f'drop{s}')
    dump(m, tabs, m.types, nf)
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    cur = Group(root, [lo for lo, _ in lims])
    names = [x[0] for x in m.exports if not x[0].startswith(('look', 'size'))]

    same = [f'copy{t}_{u}' for t in range(nt) for u in range(nt) if root[t] == root[u] and t != u]

    def look():
        for t in range(nt):
            steps.append(call('A', f'size{t}', [], ('i32',)))
            for i in range(cur[t] + 1) if cur[t] < 60 else [0, 1, 2, 3, r.randrange(cur[t]), cur[t] - 3, cur[t] - 2, cur[t] - 1, cur[t]]:
                steps.append(call('A', f'look{t}', [('i32', i)], ('externref',) if tabs[t] == 'externref' else ('i32',)))
    look()
    cnt = [1]

    def ref(t):
        if tabs[t] == 'externref':
            cnt[0] += 1
            return ('externref', None if r.random() < .15 else cnt[0])
        return ('i32', r.randint(0, nfn))
    for _ in range(26):
        nm = r.choice(same if same and r.random() < .3 else names)
        if nm.startswith('drop') and r.random() < .6:
            continue
        if nm.startswith('set'):
            t = int(nm[3:])
            steps.append(call('A', nm, [('i32', r.choice([0, cur[t] - 1 & M32, cur[t], M32, r.randrange(cur[t] + 1)])), ref(t)], ()))
        elif nm.startswith('fill'):
            t = int(nm[4:])
            i = r.choice([0, cur[t], max(cur[t] - 2, 0), cur[t] + 1, M32])
            n = r.choice([0, 1, 2, max(cur[t] - i, 0), max(cur[t] - i, 0) + 1, M32, 0x80000000])
            steps.append(call('A', nm, [('i32', i), ref(t), ('i32', n)], ()))
        elif nm.startswith('grow'):
            t = int(nm[4:])
            hi = 10**9 if lims[t][1] is None else lims[t][1]
            n = r.choice([0, 1, 2, 3] + ([hi - cur[t], hi - cur[t] + 1] if hi < 100 else []) + [M32, M32 - cur[t] + 1 & M32] + ([r.choice([100, 256, 1024 - cur[t]])] if large and hi > 1024 and cur[t] < 900 else []))
            if hi > 1024 and 1024 < cur[t] + n < 1 << 20:          # pywasm's own bound
                continue
            ok = cur[t] + n <= hi and n <= 1024
            steps.append(call('A', nm, [ref(t), ('i32', n)], ('i32',)))
            if ok:
                cur[t] += n
        elif nm.startswith('init'):
            t, s = map(int, nm[4:].split('_'))
            n = r.choice([0, 1, 2, segs[s][1], segs[s][1] + 1, M32])
            steps.append(call('A', nm, [('i32', r.choice([0, cur[t], max(cur[t] - n, 0), max(cur[t] - n, 0) + 1, M32])),
                                        ('i32', r.choice([0, 1, segs[s][1], max(segs[s][1] - n, 0), max(segs[s][1] - n, 0) + 1, M32])), ('i32', n)], ()))
        elif nm.startswith('copy'):
            t, u = map(int, nm[4:].split('_'))
            n = r.choice([0, 1, 2, 3, cur[t], cur[u], min(cur[t], cur[u]), M32])
            if nm in same:
                n = r.choice([n, 2, 3, 4, max(cur[t] - 1, 0), max(cur[t] - 2, 0)])
            steps.append(call('A', nm, [('i32', r.choice([0, 1, 2, cur[t], max(cur[t] - n, 0), max(cur[t] - n, 0) + 1, M32])),
                                        ('i32', r.choice([0, 1, 2, cur[u], max(cur[u] - n, 0), max(cur[u] - n, 0) + 1, M32])), ('i32', n)], ()))
        else:
            steps.append(call('A', nm, [], ()))
        look()
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def travel(r):
    """references through locals, globals, blocks, selects, tables, calls, call_indirect and host functions, across two modules"""
    host, steps, mods = {}, [], []
    host['tab'] = dict(kind='table', reftype='externref', min=6, max=12)
    host['ft'] = dict(kind='table', reftype='funcref', min=6, max=12)
    host['ge'] = dict(kind='global', type='externref', mut=True, value=str(r.randint(1, 99)))
    host['lg'] = dict(kind='func', params=['externref', 'externref'], results=[], beh='mix')
    host['mk'] = dict(kind='func', params=['i32'], results=['externref'], beh='mix')
    E = 'externref'
    for k in range(2):
        m = Module()
        imp = []

        def im(nm, kind, d, ref):
            m.imports.append(('env', nm, kind, d))
            imp.append(['env', nm, ref])
        im('lg', 'func', m.type((E, E), ()), {'host': 'lg'})
        im('mk', 'func', m.type(('i32',), (E,)), {'host': 'mk'})
        if k:
            im('id', 'func', m.type((E, E), (E, E)), {'inst': 'I0', 'export': 'swap'})
        im('tab', 'table', (E, (6, 12)), {'host': 'tab'})
        im('ft', 'table', ('funcref', (2, None)), {'host': 'ft'})
        im('ge', 'global', (E, True), {'host': 'ge'})
        m.globals.append((E, True, [('ref.null', E)]))
        m.globals.append(('funcref', True, [('ref.null', 'funcref')]))
        m.tables.append((E, (3, 3)))
        nf = m.nimp('func')
        sw = m.type((E, E), (E, E))
        m.func((E, E), (E, E), [('local.get', 1), ('local.get', 0)], export='swap')
        calls = [('call', nf)] + ([('call', 2)] if k else [])

        def rnd(depth=0):
            """instructions pushing an externref"""
            q = r.randrange(13 if depth < 5 else 4)
            if q <= 1:
                return [('local.get', r.randint(0, 2))]
            if q == 2:
                return [('global.get', r.randint(0, 1))]
            if q == 3:
                return [('ref.null', E)] if r.random() < .3 else [('local.get', 0)]
            if q == 4:
                return [('i32.const', r.randint(0, 5)), ('table.get', 0)]
            if q == 5:
                return [('i32.const', r.randint(0, 2)), ('table.get', 2)]
            if q == 6:
                return rnd(depth + 1) + rnd(depth + 1) + [('local.get', 3), ('i32.const', r.randint(0, 3)), ('i32.and',), ('select_t', [E])]
            if q == 7:
                return rnd(depth + 1) + rnd(depth + 1) + [r.choice(calls), ('drop',)]
            if q == 8:
                return rnd(depth + 1) + rnd(depth + 1) + [('i32.const', r.choice([0, 1, 5])), ('call_indirect', sw, 1), ('local.set', 2)]
            if q == 9:
                return rnd(depth + 1) + [('local.tee', r.randint(0, 2))]
            if q == 10:
                return [('block', E)] + rnd(depth + 1) + rnd(depth + 1) + [('local.get', 3), ('br_if', 0), ('drop',), ('end',)]
            if q == 11:
                return rnd(depth + 1) + [('ref.is_null',), ('call', 1)]
            return [('i32.const', r.randint(0, 9)), ('call', 1)]
        body = []
        for _ in range(12):
            q = r.randrange(5)
            if q == 0:
                body += [('i32.const', r.randint(0, 5))] + rnd() + [('table.set', 0)]
            elif q == 1:
                body += rnd() + [('global.set', r.randint(0, 1))]
            elif q == 2:
                body += [('i32.const', r.randint(0, 2))] + rnd() + [('table.set', 2)]
            else:
                body += rnd() + rnd() + [('call', 0)]
        m.func((E, E, E, 'i32'), (E, E), body + rnd() + rnd(), export='go')
        # install my swap in the shared table, through a funcref global and ref.func
        m.func(('i32',), (), [('ref.func', nf), ('global.set', 2), ('local.get', 0), ('global.get', 2), ('table.set', 1)], export='put')
        m.func((), ('funcref', 'i32'), [('global.get', 2), ('global.get', 2), ('ref.is_null',)], export='gf')
        mods.append(m.encode())
        steps.append(dict(op='inst', id=f'I{k}', mod=k, imports=imp))
        steps.append(call(f'I{k}', 'gf', [], ('funcref', 'i32')))
        for i in (0, 1) if k == 0 else (r.choice([1, 5]),):
            steps.append(call(f'I{k}', 'put', [('i32', i)], ()))
        steps.append(call(f'I{k}', 'gf', [], ('funcref', 'i32')))
    n = 1000
    for _ in range(8):
        steps.append(call(r.choice(['I0', 'I1']), 'go', [(E, None if r.random() < .2 else n + j) for j in range(3)] + [('i32', r.choice([0, 1, 2, M32]))], (E, E)))
        steps.append(dict(op='gget', g={'host': 'ge'}, t=E)) if False else None
        n += 3
    return {'mods': mods, 'host': host, 'steps': [s for s in steps if s]}


FAM = [ops, ops, travel]
