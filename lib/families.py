"""Targeted program families: each returns a scenario whose behaviour exercises one mechanism at its edges."""
import wb
from wb import Module

M32, M64 = (1 << 32) - 1, (1 << 64) - 1
NUM = ('i32', 'i64', 'f32', 'f64')


def logs(m, types=NUM):
    """import one log function per type; returns (type -> index, host table, import list)"""
    ix, host, imp = {}, {}, []
    for t in types:
        ix[t] = m.nimp('func')
        m.imports.append(('env', 'log_' + t, 'func', m.type((t,), ())))
        host['log_' + t] = dict(kind='func', params=[t], results=[], beh='mix')
        imp.append(['env', 'log_' + t, {'host': 'log_' + t}])
    return ix, host, imp


def const(r, t):
    if t == 'i32':
        return ('i32.const', r.choice([r.getrandbits(32), r.randint(0, 9)]))
    if t == 'i64':
        return ('i64.const', r.getrandbits(64))
    if t == 'f32':
        return ('f32.const', r.getrandbits(30))
    if t == 'f64':
        return ('f64.const', r.getrandbits(62))
    if t == 'v128':
        return ('v128.const', bytes(r.getrandbits(8) for _ in range(16)))
    return ('ref.null', t)


def call(inst, name, args, results):
    return dict(op='call', inst=inst, name=name, args=[[t, v] for t, v in args], results=list(results))


# ---- C05 -----------------------------------------------------------------------------------------------------------------------
def ladder(r):
    """D nested blocks/ifs, one br_table (or br / br_if chain) from the innermost to every depth incl. the function's own label,
    junk below the carried values at every level; each level logs what arrives"""
    m = Module()
    ix, host, imp = logs(m)
    depth = r.choice([1, 2, 3, 5, 8, 20, 60, 100])
    carried = tuple(r.choice(NUM) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
    bt = None if not carried else (carried[0] if len(carried) == 1 and r.random() < .5 else m.type((), carried))
    body = []
    kinds = []
    for d in range(depth):
        for _ in range(r.choice([0, 0, 1, 2])):        # operands of the enclosing block, below
            pass
        k = r.choice(['block', 'block', 'if'])
        kinds.append(k)
        if k == 'if':
            body.append(('i32.const', 1))
        body.append((k, bt))
    how = r.choice(['table', 'table', 'chain', 'br'])
    for _ in range(r.randint(0, 3) if how != 'chain' else 0):
        body.append(const(r, r.choice(NUM)))
    vals = [const(r, t) for t in carried]
    n = depth
    if how == 'table':
        targets = [r.randint(0, depth) for _ in range(r.choice([0, 1, depth + 1, depth + 1, 200]))]
        body += vals + [('local.get', 0), ('br_table', targets, r.randint(0, depth))]
        n = max(len(targets), 1)
    elif how == 'chain':
        body += vals
        for d in range(min(depth + 1, 12)):
            t = r.randint(0, depth)
            body += [('local.get', 0), ('i32.const', d), ('i32.eq',), ('br_if', t)]
    else:
        body += vals + [('br', r.randint(0, depth))]
    if how != 'chain' and r.random() < .5:              # unreachable code with its own structure
        body += [('i32.add',), ('drop',), ('block', None), ('end',), ('loop', None), ('br', 0), ('end',)]
        if carried:
            body += [('unreachable',)]
    for d in range(depth - 1, -1, -1):
        if kinds[d] == 'if':
            body += [('else',)] + [const(r, t) for t in carried]
        body += [('end',)]
        if r.random() < (.8 if depth < 10 else .1):
            # what arrived here, and a marker
            loc = [1 + i for i in range(len(carried))]
            for i in reversed(loc):
                body.append(('local.set', i))
            for i, t in zip(loc, carried):
                body += [('local.get', i), ('call', ix[t])]
            body += [('i32.const', 1000 + d), ('call', ix['i32'])]
            body += [('local.get', i) for i in loc]
            if carried and r.random() < .3:
                body.append(('drop',))
                body.append(const(r, carried[-1]))
    m.func(('i32',), carried, body, carried, export='f')
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for sel in list(range(min(n, 14) + 2)) + [0xffffffff, 0x80000000, n - 1, n]:
        steps.append(call('A', 'f', [('i32', sel)], carried))
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def loops(r):
    """loops with parameters and results: carried values rotate through back branches taken from inner blocks, with junk below"""
    m = Module()
    ix, host, imp = logs(m)
    ps = tuple(r.choice(['i32', 'i64']) for _ in range(r.randint(1, 4)))
    bt = m.type(ps, ps)
    op = {'i32': r.choice(['i32.add', 'i32.xor', 'i32.mul', 'i32.rotl']), 'i64': r.choice(['i64.add', 'i64.xor', 'i64.mul', 'i64.sub'])}
    n = len(ps)
    cnt = n
    tmp = [n + 1 + i for i in range(n)]
    body = [('local.get', i) for i in range(n)]
    body += [('loop', bt)]
    for i in reversed(range(n)):
        body.append(('local.set', tmp[i]))
    if r.random() < .5:
        body += [('local.get', tmp[0]), ('call', ix[ps[0]])]
    for _ in range(r.randint(0, 3)):
        body.append(const(r, r.choice(NUM)))             # junk, discarded by the back branch
    extra = r.choice([0, 0, 1, 2])
    for i in range(n):
        j = (i + 1) % n
        if ps[j] == ps[i]:
            body += [('local.get', tmp[i]), ('local.get', tmp[j]), (op[ps[i]],)]
        else:
            body += [('local.get', tmp[i]), const(r, ps[i]), (op[ps[i]],)]
    body += [('local.get', cnt), ('i32.const', 1), ('i32.sub',), ('local.tee', cnt)]
    if extra:
        # back branch from inside nested blocks
        body += [('if', m.type(ps, ps))] + [('block', m.type(ps, ps))] * extra
        for _ in range(r.randint(0, 2)):
            pass
        body += [('br', 1 + extra)] + [('end',)] * extra + [('else',), ('end',)]
    else:
        body += [('br_if', 0)]
    # fall through: junk must go
    body2 = [('local.set', t) for t in reversed(tmp)]
    body += [('br', 1)] if False else []
    body += body2
    # drop the junk left in this loop activation
    njunk = sum(1 for b in body if b[0].endswith('.const')) if False else 0
    body += [('local.get', t) for t in tmp] + [('return',)]
    body += [('end',)]
    m.func(ps + ('i32',), ps, body, ps, export='f')
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for k in (1, 2, 3, 10, 60):
        steps.append(call('A', 'f', [(t, r.getrandbits(32)) for t in ps] + [('i32', k)], ps))
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def spin(r):
    """nested loops left by falling through: back branches of every kind drop junk operands at every iteration, while operands of the
    enclosing blocks wait below; what comes out and what waited are both reported"""
    m = Module()
    ix, host, imp = logs(m)
    loc = []

    def local(t):
        loc.append(t)
        return len(loc)

    def nest(d):
        """one loop: [params] -> [results], as instructions with the operands already pushed; its parameter and result types"""
        ps = tuple(r.choice(NUM) for _ in range(r.choice([0, 0, 1, 2, 3])))
        qs = tuple(r.choice(NUM) for _ in range(r.choice([0, 1, 1, 2, 3])))
        tmp = [local(t) for t in ps]
        cnt = local('i32')
        bt = m.type(ps, qs)
        if not ps and len(qs) < 2 and r.random() < .7:
            bt = qs[0] if qs else None
        junk = lambda: [r.choice(NUM) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        b = [('i32.const', r.choice([1, 2, 3, 7, 30] if d < 2 else [2, 3])), ('local.set', cnt), ('loop', bt)]
        b += [('local.set', t) for t in reversed(tmp)]
        if d < 2 and r.random() < .5:
            keep = junk()
            inner, ips, iqs = nest(d + 1)
            b += [const(r, t) for t in keep] + [const(r, t) for t in ips] + inner
            for t in reversed(iqs):
                b += [('call', ix[t])]
            for t in reversed(keep):
                b += [('call', ix[t])]
        for t, i in zip(ps, tmp):
            if r.random() < .6:
                b += [('local.get', i), const(r, t), (t + r.choice(['.add', '.sub', '.mul']),), ('local.set', i)]
        carry = [('local.get', i) for i in tmp]
        b += [('local.get', cnt), ('i32.const', 1), ('i32.sub',), ('local.set', cnt)]
        how = r.choice(['if', 'if', 'br_if', 'table', 'deep', 'twice'])
        if how == 'if':
            b += [('local.get', cnt), ('if', None)] + [const(r, t) for t in junk()] + carry + [('br', 1), ('end',)]
        elif how == 'deep':
            k = r.randint(1, 6)
            b += [('local.get', cnt), ('if', None)]
            for _ in range(k):
                b += [const(r, t) for t in junk()] + [('block', None)]
            b += [const(r, t) for t in junk()] + carry + [('br', k + 1)] + [('end',), ('unreachable',)] * k + [('end',)]
        elif how == 'table':
            # out of the block or back to the loop: the same operands for both, so only without any
            if ps:
                b += [('local.get', cnt), ('if', None)] + [const(r, t) for t in junk()] + carry + [('i32.const', r.randint(0, 5)), ('br_table', [1] * r.randint(0, 3), 1), ('end',)]
            else:
                b += [('block', None)] + [const(r, t) for t in junk()] + [('local.get', cnt), ('br_table', [0] + [1] * r.randint(0, 3), 1), ('end',)]
        else:
            for n in range(1 if how == 'br_if' else 2):
                j = junk()
                b += [const(r, t) for t in j] + carry + ([('local.get', cnt)] if n == (how == 'twice') else [('i32.const', 0)])
                b += [('br_if', 0)] + [('drop',)] * (len(ps) + len(j))
        res = [const(r, t) if t not in ps or r.random() < .3 else ('local.get', tmp[ps.index(t)]) for t in qs]
        b += res + [('end',)]
        return b, ps, qs
    fs = []
    for _ in range(r.choice([1, 2])):
        loc.clear()
        below = [r.choice(NUM) for _ in range(r.randint(0, 3))]
        b, ps, qs = nest(0)
        body = [const(r, t) for t in below] + [const(r, t) for t in ps] + b
        for t in reversed(qs):
            body += [('call', ix[t])]
        for t in reversed(below):
            body += [('call', ix[t])]
        fs.append(m.func(('i32',), (), body, list(loc), export=f'f{len(fs)}'))
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for i in range(len(fs)):
        steps += [call('A', f'f{i}', [('i32', 0)], ()), call('A', f'f{i}', [('i32', 1)], ())]
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def switch(r):
    """one br_table with hundreds or thousands of targets and selectors all over it, forwards, to a loop, and to the function"""
    m = Module()
    ix, host, imp = logs(m)
    n = r.choice([100, 127, 128, 255, 256, 257, 300, 1000, 1023, 1025, 5000, 16384, 65520])
    depth = r.choice([2, 3, 7, 20, 130, 300])
    targets = [r.randrange(depth) for _ in range(n)] if r.random() < .7 else [k % depth for k in range(n)]
    val = r.choice([None, 'i32', 'f64'])
    body = [('block', val)] * depth + ([const(r, val)] if val else []) + [('local.get', 0), ('br_table', targets, r.randint(0, depth - 1)), ('end',)]
    for d in range(depth):
        body += ([('drop',)] if val else []) + [('local.get', 1), ('i32.const', 31), ('i32.mul',), ('i32.const', d + 1), ('i32.add',), ('local.set', 1)]
        body += ([const(r, val)] if val else [])
        if d < depth - 1:
            body += [('end',)]
    body += ([('drop',)] if val else []) + [('local.get', 1)]
    m.func(('i32',), ('i32',), body, ['i32'], export='f')
    # the same in a loop: a walk over the table
    # (label k is the loop, label k + 1 the function)
    k = r.choice([2, 3, 5])
    tg = [r.choice([0, 1, 1, 2, k - 1, k]) for _ in range(n)]
    body = [('loop', None), ('local.get', 0), ('local.get', 1), ('i32.add',), ('local.set', 0), ('local.get', 3), ('i32.const', 1), ('i32.add',),
            ('local.tee', 3), ('i32.const', 60), ('i32.gt_u',), ('if', None), ('local.get', 2), ('return',), ('end',)]
    body += [('block', None)] * k + [('local.get', 0), ('br_table', tg, k), ('end',)]
    for d in range(k):
        body += [('local.get', 2), ('i32.const', 7), ('i32.mul',), ('i32.const', d), ('i32.add',), ('local.set', 2)]
        if d < k - 1:
            body += [('end',)]
    body += [('local.get', 3), ('i32.const', 60), ('i32.lt_u',), ('br_if', 0), ('end',), ('local.get', 2)]
    m.func(('i32', 'i32'), ('i32',), body, ['i32', 'i32'], export='walk')
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    edge = [0, 1, 127, 128, 254, 255, 256, 257, 258, 299, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 16383, 16384, 65519, 65520, n - 2, n - 1, n, n + 1, 1 << 31, M32]
    for v in sorted(set(edge)) + [r.randrange(n) for _ in range(12)]:
        steps.append(call('A', 'f', [('i32', v)], ('i32',)))
    for _ in range(4):
        steps.append(call('A', 'walk', [('i32', r.randrange(n)), ('i32', r.choice([1, 3, n // 50, n // 7, M32]))], ('i32',)))
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def chasm(r):
    """hundreds of nested structures and a jump table that leads to every one of them, taken again and again from the innermost one with operands
    left behind on every level; what follows each structure is logged"""
    m = Module()
    ix, host, imp = logs(m)
    n = r.choice([20, 62, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])
    kinds = [r.choice(['block', 'block', 'block', 'loop', 'if']) for _ in range(n)]
    t = r.choice([None, None, 'i32', 'i64'])
    body = []
    for k in kinds:
        if r.random() < .3:
            body.append(const(r, r.choice(NUM)))
            body.append(None)           # one to be dropped at the level outside
        else:
            body.append(False)
        body += ([('local.get', 1)] if k == 'if' else []) + [(k, t if k == 'if' or k == 'block' else None)]
    levels = [x is None for x in body if x is None or x is False]
    body = [x for x in body if x is not None and x is not False]
    step, mod = r.choice([1, 3, 5, 7]), n + 1
    # the next target; no more than 60 jumps
    inner = [('local.get', 1), ('i32.eqz',), ('if', None)] + ([const(r, t)] if t else []) + [('return',), ('end',)]
    inner += [('local.get', 1), ('i32.const', 1), ('i32.sub',), ('local.set', 1)]
    inner += [('local.get', 0), ('i32.const', step), ('i32.add',), ('i32.const', mod), ('i32.rem_u',), ('local.tee', 0), ('call', ix['i32'])]
    inner += [const(r, r.choice(NUM)) for _ in range(r.randint(0, 2))]
    same = [k for k in range(n) if kinds[n - 1 - k] != 'loop']
    if t:
        # a jump table needs one type: structures with a result, or loops
        loops = [k for k in range(n) if kinds[n - 1 - k] == 'loop'] or []
        goal = [same[k % len(same)] for k in range(n)] if same else []
        if loops and r.random() < .4:
            goal = [loops[k % len(loops)] for k in range(n)]
            inner += [('local.get', 0), ('br_table', goal, goal[0])]
        else:
            inner += [const(r, t), ('local.get', 0), ('br_table', goal or [n], n)]
    else:
        inner += [('local.get', 0), ('br_table', list(range(n)), n)]
    body += inner
    for k in reversed(range(n)):
        typed = bool(t) and kinds[k] != 'loop'
        if kinds[k] == 'if' and t:
            body += [('else',), const(r, t)]
        body.append(('end',))
        if typed:
            body.append(('call', ix[t]))
        body += [('i32.const', k), ('call', ix['i32'])]
        if levels[k]:
            body.append(('drop',))
        if t and k and kinds[k - 1] != 'loop':
            body.append(const(r, t))
    if t:
        body.append(const(r, t))
    m.func(('i32', 'i32'), (t,) if t else (), body, export='f')
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for _ in range(5):
        steps.append(call('A', 'f', [('i32', r.randrange(n + 3)), ('i32', r.choice([0, 1, 5, 30, 60]))], (t,) if t else ()))
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def leaving(r):
    """functions leaving in every way from inside nested structures, called with operands pending in the caller"""
    m = Module()
    ix, host, imp = logs(m)
    rs = tuple(r.choice(NUM) for _ in range(r.randint(0, 4)))
    fs = []
    far = r.choice([0] * 7 + [33, 63, 64, 65, 100, 127, 128, 129, 260])
    for how in ('end', 'return', 'br_out', 'br_if_out', 'br_table_out', 'loop_out'):
        d = far or r.randint(0, 4)
        body = []
        for _ in range(d):
            body.append((r.choice(['block', 'loop']), None))
            if r.random() < .5:
                body += [const(r, r.choice(NUM))] if how != 'end' else []
        vals = [const(r, t) for t in rs]
        junk = [const(r, r.choice(NUM)) for _ in range(r.randint(0, 3))]
        if how == 'end':
            body += [('end',)] * d + vals
        else:
            body += junk + vals
            if how == 'return':
                body += [('return',)]
            elif how == 'br_out':
                body += [('br', d)]
            elif how == 'br_if_out':
                body += [('local.get', 0), ('i32.const', 1), ('i32.or',), ('br_if', d), ('unreachable',)]
            elif how == 'br_table_out':
                body += [('local.get', 0), ('br_table', [d] * r.randint(0, 3), d)]
            else:
                body += [('block', None), ('loop', None)] + vals + [('br', d + 2), ('end',), ('end',), ('unreachable',)]
            body += [('unreachable',), ('end',)] * d + ([('unreachable',)] if rs else [])
        fs.append(m.func(('i32',), rs, body, [r.choice(NUM) for _ in range(r.randint(0, 3))]))
    # the caller keeps operands, a local and an open block across every call
    body = []
    for f in fs:
        body += [('i64.const', 0x1111), ('local.get', 0), ('block', m.type(('i32',), rs)), ('call', f)]
        if r.random() < .4:
            body += [('br', 0)]
        body += [('end',)]
        for t in reversed(rs):
            body += [('call', ix[t])]
        body += [('call', ix['i64']), ('local.get', 1), ('call', ix['i64'])]
    m.func(('i32',), (), [('i64.const', 77), ('local.set', 1)] + body, ('i64',), export='f')
    for i, f in enumerate(fs):
        m.exports.append((f'd{i}', 'func', f))
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for a in (0, 1, 2, 0xffffffff):
        steps.append(call('A', 'f', [('i32', a)], ()))
        for i in range(len(fs)):
            steps.append(call('A', f'd{i}', [('i32', a)], rs))
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


# ---- C06 -----------------------------------------------------------------------------------------------------------------------
def signature(r):
    """many parameters and results of mixed types, fresh zeroed locals, a caller whose own locals and operands must survive"""
    m = Module()
    ix, host, imp = logs(m, NUM + ('externref',))
    ts = NUM + ('externref', 'v128')
    ps = tuple(r.choice(ts) for _ in range(r.choice([0, 1, 2, 3, 5, 12, 40, 130])))
    rs = tuple(r.choice(NUM + ('externref',)) for _ in range(r.choice([0, 1, 2, 3, 6, 20])))
    loc = []
    for _ in range(r.randint(0, 4)):
        loc += [r.choice(ts)] * r.choice([1, 2, 5, 70])

    def logval(t):
        if t == 'v128':
            return [('i64x2.extract_lane', 1), ('call', ix['i64'])]
        return [('call', ix[t])]
    # callee: overwrites every parameter and local after logging it
    body = []
    for i, t in enumerate(ps):
        if len(ps) < 13 or r.random() < .3:
            body += [('local.get', i)] + logval(t)
        body += [const(r, t), ('local.set', i)]
    for j, t in enumerate(loc):
        i = len(ps) + j
        if len(loc) < 20 or r.random() < .1:
            body += [('local.get', i)] + logval(t)
        body += [const(r, t), ('local.set', i)]
    if ps and r.random() < .5:
        i = r.randrange(len(ps))
        body += [('local.get', i)] + logval(ps[i])
    body += [const(r, t) for t in rs]
    callee = m.func(ps, rs, body, loc)
    ti = m.type(ps, rs)
    m.tables.append(('funcref', (3, 3)))
    m.elems.append(wb.Elem('active', [callee], 0, [('i32.const', 1)]))
    cl = [r.choice(NUM) for _ in range(3)]
    body = []
    for i, t in enumerate(cl):
        body += [const(r, t), ('local.set', 1 + i)]
    for way in (('call',), ('ind',), ('call',)):
        keep = [r.choice(NUM) for _ in range(r.randint(0, 3))]
        body += [const(r, t) for t in keep]
        for t in ps:
            c = [i for i, x in enumerate(cl) if x == t]
            body += [('local.get', 1 + r.choice(c))] if c and r.random() < .5 else [const(r, t)]
        body += [('call', callee)] if way[0] == 'call' else [('i32.const', 1), ('call_indirect', ti, 0)]
        for t in reversed(rs):
            body += logval(t)
        for t in reversed(keep):
            body += logval(t)
        for i, t in enumerate(cl):
            body += [('local.get', 1 + i)] + logval(t)
    m.func(('i32',), (), body, cl, export='f')
    steps = [dict(op='inst', id='A', mod=0, imports=imp), call('A', 'f', [('i32', 0)], ()), call('A', 'f', [('i32', 1)], ())]
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def indirect(r):
    """call_indirect at every index around the table with every type, over null, matching, structurally equal and different entries,
    host functions and functions of another module"""
    base = Module()
    ixb, hostb, impb = logs(base)
    tys = [((), ('i32',)), (('i32',), ('i32',)), (('i32',), ()), (('i64',), ('i32',)), (('i32', 'i32'), ('i32',)), ((), ('i32', 'i32')), (('f32',), ('i32',))]
    # types which differ in one place only
    tys += [((), ('i64',)), ((), ('f32',)), ((), ('f64',)), (('i32',), ('i64',)), (('i32',), ('f32',)), (('i32', 'i64'), ('i32',)), (('i64', 'i32'), ('i32',)),
            ((), ('i32', 'i64')), ((), ('i64', 'i32')), ((), ('i32', 'i32', 'i32')), (('f64',), ('i32',)), ((), ()), (('i64',), ())]
    tys = r.sample(tys, r.randint(4, 12))
    base.globals.append(('i32', True, [('i32.const', 5)]))
    for k, (p, q) in enumerate(tys):
        base.func(p, q, [('global.get', 0), ('i32.const', 1), ('i32.add',), ('global.set', 0)] + [('global.get', 0) if t == 'i32' else const(r, t) for t in q],
                  export=f'b{k}')
    m = Module()
    ix, host, imp = logs(m)
    for k, (p, q) in enumerate(tys):
        m.imports.append(('A', f'b{k}', 'func', m.type(p, q)))
        imp.append(['A', f'b{k}', {'inst': 'A', 'export': f'b{k}'}])
    host['hf'] = dict(kind='func', params=['i32'], results=['i32'], beh='mix')
    m.imports.append(('env', 'hf', 'func', m.type(('i32',), ('i32',))))
    imp.append(['env', 'hf', {'host': 'hf'}])
    m.globals.append(('i32', True, [('i32.const', 1000)]))
    m.types += tys                        # structural duplicates
    fs = list(range(len(ix), len(ix) + len(tys) + 1))
    for k, (p, q) in enumerate(tys):
        fs.append(m.func(p, q, [('i32.const', k), ('call', ix['i32'])] + [('global.get', 0) if t == 'i32' else const(r, t) for t in q]))
    for i in range(len(m.funcs)):          # give some functions the duplicate type index
        if r.random() < .5:
            t = m.types[m.funcs[i].type]
            m.funcs[i].type = r.choice([j for j, x in enumerate(m.types) if x == t])
    n = r.randint(1, 12)
    m.tables.append(('funcref', (n, None)))
    m.tables.append(('funcref', (4, 4)))
    items = [r.choice(fs) if r.random() < .8 else [('ref.null', 'funcref')] for _ in range(r.randint(0, n))]
    m.elems.append(wb.Elem('active', items, 0, [('i32.const', r.randint(0, n - len(items)))]))
    m.elems.append(wb.Elem('active', [fs[0], fs[-1]], 1, [('i32.const', 1)]))
    tab = []
    for k in range(len(m.types)):
        p, q = m.types[k]
        if p == (t0 := ()) or all(t in NUM for t in p):
            for tb in (0, 1):
                if all(t in NUM for t in q):
                    m.func(('i32',), q, [const(r, t) for t in p] + [('local.get', 0), ('call_indirect', k, tb)], export=f'c{k}_{tb}')
                    tab.append((f'c{k}_{tb}', q, n if tb == 0 else 4))
                    if q:
                        # the results are dropped: a wrong type must be found by the call itself
                        m.func(('i32',), (), [const(r, t) for t in p] + [('local.get', 0), ('call_indirect', k, tb)] + [('drop',)] * len(q), export=f'd{k}_{tb}')
                        tab.append((f'd{k}_{tb}', (), n if tb == 0 else 4))
    steps = [dict(op='inst', id='A', mod=0, imports=impb), dict(op='inst', id='B', mod=1, imports=imp)]
    host.update(hostb)
    r.shuffle(tab)
    for nm, q, size in tab[:10]:
        for i in [*range(size + 1), 0xffffffff, 0x80000000]:
            steps.append(call('B', nm, [('i32', i)], q))
    return {'mods': [base.encode(), m.encode()], 'host': host, 'steps': steps}


def crossing(r):
    """modules which number the same types differently and share one or two tables: every call_indirect site used again and again while the
    tables are set, filled, copied, initialised and grown in between"""
    T = [((), ('i32',)), (('i32',), ('i32',)), ((), ('i64',)), (('i64',), ('i64',)), (('i32', 'i32'), ('i32',)), ((), ()), (('f32',), ('i32',)), (('i32',), ())]
    host = {'tab': dict(kind='table', reftype='funcref', min=8, max=40), 'tab2': dict(kind='table', reftype='funcref', min=5, max=5)}
    mods, steps, sites = [], [], []
    k = r.choice([1, 2, 2, 3])
    pool = r.sample(T, r.randint(2, 4))
    for n in range(k):
        m = Module()
        order = list(pool) + [r.choice(pool) for _ in range(r.choice([0, 0, 2]))]
        r.shuffle(order)
        m.types += order                       # this module's own numbering
        imp = []
        for nm in ('tab', 'tab2'):
            m.imports.append(('env', nm, 'table', ('funcref', (host[nm]['min'], host[nm]['max']))))
            imp.append(['env', nm, {'host': nm}])
        m.globals.append(('i32', True, [('i32.const', 1000 * (n + 1))]))
        fs = []
        for j in range(5):
            ti = r.randrange(len(order))
            p, q = order[ti]
            uid = 100 * (n + 1) + j
            b = [('global.get', 0), ('i32.const', uid), ('i32.add',), ('global.set', 0)]
            b += [('i32.const', uid) if t == 'i32' else ('i64.const', uid) if t == 'i64' else const(r, t) for t in q]
            fs.append(m.func(p, q, b))
            m.funcs[-1].type = ti
        m.elems.append(wb.Elem('active', r.sample(fs, 2), 0, [('i32.const', r.randrange(6))]))
        m.elems.append(wb.Elem('passive', [r.choice(fs) for _ in range(3)] + [[('ref.null', 'funcref')]], 0))
        m.elems.append(wb.Elem('declarative', fs))
        for ti, (p, q) in enumerate(order):
            for tb in (0, 1):
                m.func(('i32',), q, [const(r, t) for t in p] + [('local.get', 0), ('call_indirect', ti, tb)], export=f'c{ti}_{tb}')
                sites.append((f'I{n}', f'c{ti}_{tb}', q, 9 if tb == 0 else 6))
            # several calls of one site within one activation, the table changed between them
            if len(q) == 1 and q[0] == 'i32':
                j = r.randrange(5)
                m.func(('i32',), ('i32',), [('i32.const', 3), ('local.set', 1), ('loop', None)] + [const(r, t) for t in p] + [
                    ('local.get', 0), ('call_indirect', ti, 0), ('local.get', 2), ('i32.const', 31), ('i32.mul',), ('i32.add',), ('local.set', 2),
                    ('local.get', 0)] + [('local.get', 0), ('i32.const', 1), ('i32.add',), ('table.get', 0)] + [('table.set', 0),
                    ('local.get', 1), ('i32.const', 1), ('i32.sub',), ('local.tee', 1), ('br_if', 0), ('end',), ('local.get', 2)], ['i32', 'i32'], export=f'm{ti}')
                sites.append((f'I{n}', f'm{ti}', q, 9))
        p3 = ('i32', 'i32', 'i32')
        a3 = [('local.get', 0), ('local.get', 1), ('local.get', 2)]
        for tb in (0, 1):
            for j, f in enumerate(fs):
                m.func(('i32',), (), [('local.get', 0), ('ref.func', f), ('table.set', tb)], export=f'set{tb}_{j}')
                m.func(('i32', 'i32'), (), [('local.get', 0), ('ref.func', f), ('local.get', 1), ('table.fill', tb)], export=f'fill{tb}_{j}')
            m.func(p3, (), a3 + [('table.init', 1, tb)], export=f'init{tb}')
            for t2 in (0, 1):
                m.func(p3, (), a3 + [('table.copy', tb, t2)], export=f'copy{tb}_{t2}')
            m.func(('i32',), (), [('local.get', 0), ('ref.null', 'funcref'), ('table.set', tb)], export=f'null{tb}')
        m.func((), ('i32',), [('ref.func', fs[0]), ('i32.const', 1), ('table.grow', 0)], export='grow')
        m.func((), ('i32',), [('global.get', 0)], export='g')
        mods.append(m.encode())
        steps.append(dict(op='inst', id=f'I{n}', mod=n, imports=imp))
    hot = r.sample(sites, min(len(sites), 7))
    for _ in range(28):
        i = f'I{r.randrange(k)}'
        q = r.choice(['set', 'set', 'set', 'fill', 'init', 'copy', 'null', 'grow'])
        a = lambda n: [('i32', r.randrange(n)) for _ in range(3)]
        tb = r.choice([0, 0, 0, 1])
        n = (8, 5)[tb]
        if q == 'set':
            steps.append(call(i, f'set{tb}_{r.randrange(5)}', a(n)[:1], ()))
        elif q == 'fill':
            steps.append(call(i, f'fill{tb}_{r.randrange(5)}', a(n)[:2], ()))
        elif q == 'init':
            steps.append(call(i, f'init{tb}', a(5), ()))
        elif q == 'copy':
            steps.append(call(i, f'copy{tb}_{r.choice([0, 1])}', a(6), ()))
        elif q == 'null':
            steps.append(call(i, f'null{tb}', a(n)[:1], ()))
        elif r.random() < .3:
            steps.append(call(i, 'grow', [], ('i32',)))
        for _ in range(r.randint(1, 3)):
            inst, nm, res, size = r.choice(hot)
            for at in r.choice([range(size), [r.randrange(size)] * 2, [r.randrange(size), r.randrange(size)]]):
                steps.append(call(inst, nm, [('i32', at)], res))
    for n in range(k):
        steps.append(call(f'I{n}', 'g', [], ('i32',)))
    return {'mods': mods, 'host': host, 'steps': steps}


def contexts(r):
    """two or three modules, each with its own memory, table and global of different contents, calling each other directly, through
    a shared table and through a re-entering host function: every function must see its own module's entities, before and after calls"""
    mods, host = [], {}
    steps = []
    k = r.choice([2, 3])
    host['tab'] = dict(kind='table', reftype='funcref', min=12, max=None)
    host['re'] = dict(kind='func', params=['i32'], results=['i32'], beh='reenter', target=['I0', 'f1', ['i32']], catch=False)
    for n in range(k):
        m = Module()
        ix, h, imp = logs(m)
        host.update(h)
        prev = []
        for j in range(n):
            for q in range(2):
                m.imports.append((f'I{j}', f'f{q}', 'func', m.type(('i32',), ('i32',))))
                imp.append([f'I{j}', f'f{q}', {'inst': f'I{j}', 'export': f'f{q}'}])
                prev.append(m.nimp('func') - 1)
        m.imports.append(('env', 're', 'func', m.type(('i32',), ('i32',))))
        imp.append(['env', 're', {'host': 're'}])
        reidx = m.nimp('func') - 1
        m.imports.append(('env', 'tab', 'table', ('funcref', (12, None))))
        imp.append(['env', 'tab', {'host': 'tab'}])
        m.tables.append(('funcref', (3 + n, 3 + n)))
        m.mems.append((1, 1 + n))
        m.datas.append(wb.Data('active', bytes([17 * (n + 1)] * 8), [('i32.const', 0)]))
        m.globals.append(('i64', True, [('i64.const', 1000 * (n + 1))]))
        see = [('i32.const', 0), ('i32.load', 2, 0), ('call', ix['i32']), ('global.get', 0), ('call', ix['i64']),
               ('table.size', 1), ('call', ix['i32']), ('local.get', 0), ('call', ix['i32'])]
        bump = [('global.get', 0), ('i64.const', 1), ('i64.add',), ('global.set', 0), ('i32.const', 0), ('i32.const', 0), ('i32.load8_u', 0, 0),
                ('i32.const', 1), ('i32.add',), ('i32.store8', 0, 0)]
        ti = m.type(('i32',), ('i32',))
        # f1: leaf;  f0: calls around
        first = m.nimp('func')
        ways = []
        for p in prev:
            ways.append([('local.get', 0), ('call', p)])
        ways.append([('local.get', 0), ('call', reidx)])
        for s in range(2 * n):
            ways.append([('local.get', 0), ('i32.const', s), ('call_indirect', ti, 0)])
        r.shuffle(ways)
        body = list(see)
        for w in ways[:3]:
            body += [('i32.const', 4242)] + w + [('i32.add',), ('local.set', 1)] + see + [('local.get', 1), ('call', ix['i32'])] + bump
        how = r.choice([[('local.get', 1)], [('local.get', 1), ('return',)], [('block', None), ('i32.const', 9), ('local.get', 1), ('br', 1), ('end',), ('unreachable',)]])
        m.func(('i32',), ('i32',), body + how, ('i32',), export='f0')
        m.func(('i32',), ('i32',), see + bump + [('local.get', 0), ('i32.const', n + 1), ('i32.mul',)], export='f1')
        m.elems.append(wb.Elem('active', [first, first + 1], 0, [('i32.const', 2 * n)]))
        m.elems.append(wb.Elem('active', [first + 1], 1, [('i32.const', 0)]))
        mods.append(m.encode())
        steps.append(dict(op='inst', id=f'I{n}', mod=n, imports=imp))
    for _ in range(6):
        steps.append(call(f'I{r.randrange(k)}', f'f{r.randrange(2)}', [('i32', r.getrandbits(8))], ('i32',)))
    return {'mods': mods, 'host': host, 'steps': steps}


def recursion(r):
    """recursive functions with locals that must be private to each activation"""
    m = Module()
    ix, host, imp = logs(m)
    i, a = r.choice([('i32', 'i32'), ('i64', 'i64')])
    t = i
    self0 = m.nimp('func')
    ti = m.type((t,), (t,))
    m.tables.append(('funcref', (4, 4)))
    # 0: factorial-like keeping locals alive across the call
    def rec(call):
        return [('local.get', 0), (t + '.eqz',), ('if', t), (t + '.const', r.getrandbits(16)), ('else',),
                ('local.get', 0), (t + '.const', 3), (t + '.mul',), ('local.set', 1),
                ('local.get', 0), ('local.get', 0), (t + '.const', 1), (t + '.sub',)] + call + [
                (t + '.mul',), ('local.get', 1), (t + '.add',), ('end',)]
    m.func((t,), (t,), rec([('call', self0)]), (t,), export='direct')
    m.func((t,), (t,), rec([('i32.const', 1), ('call_indirect', ti, 0)]), (t,), export='ind')
    # mutual recursion returning by branch to the outermost label
    ev, od = self0 + 2, self0 + 3
    for me, other in ((ev, od), (od, ev)):
        m.func((t,), (t,), [('local.get', 0), ('local.set', 1), ('block', None), ('local.get', 0), (t + '.eqz',), ('br_if', 0),
                            (t + '.const', 5), ('local.get', 0), (t + '.const', 1), (t + '.sub',), ('call', other), ('local.get', 1), (t + '.xor',), ('br', 1),
                            ('end',), (t + '.const', me)], (t,), export=f'mut{me}')
    # double recursion (fib) with a multi-value helper
    fib = self0 + 4
    m.func((t,), (t,), [('local.get', 0), (t + '.const', 2), (t + '.lt_u',), ('if', None), ('local.get', 0), ('return',), ('end',),
                        ('local.get', 0), (t + '.const', 1), (t + '.sub',), ('call', fib), ('local.get', 0), (t + '.const', 2), (t + '.sub',), ('call', fib), (t + '.add',)], export='fib')
    m.elems.append(wb.Elem('active', [self0, self0 + 1, ev, od], 0, [('i32.const', 0)]))
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for nm in ('direct', 'ind', f'mut{ev}', f'mut{od}'):
        for k in (0, 1, 2, 7, r.randint(20, 60), 300):
            steps.append(call('A', nm, [(t, k)], (t,)))
    steps += [call('A', 'fib', [(t, k)], (t,)) for k in (0, 1, 9)]
    return {'mods': [m.encode()], 'host': host, 'steps': steps}
