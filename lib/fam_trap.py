"""Program families for traps and recovery (C13)."""
import wb
from families import call, const, logs
from wb import Data, Elem, Module

M32 = (1 << 32) - 1
NUM = ('i32', 'i64', 'f32', 'f64')


def trap_code(r, m, boom):
    """instructions which trap, of every kind"""
    C = lambda v: ('i32.const', v)
    t0 = m.type((), ())
    t1 = m.type(('f64', 'i64'), ('i64',))
    return r.choice([
        [('unreachable',)],
        [C(7), C(0), (r.choice(['i32.div_s', 'i32.div_u', 'i32.rem_s', 'i32.rem_u']),), ('drop',)],
        [C(-0x80000000), C(-1), ('i32.div_s',), ('drop',)],
        [('i64.const', 1 << 63), ('i64.const', -1), ('i64.div_s',), ('drop',)],
        [('i64.const', 5), ('i64.const', 0), ('i64.rem_u',), ('drop',)],
        [('f64.const', 0x7ff8 << 48), (r.choice(['i32.trunc_f64_s', 'i32.trunc_f64_u']),), ('drop',)],
        [('f32.const', 0x7f800000), ('i64.trunc_f32_s',), ('drop',)],
        [C(65536), ('i32.load8_u', 0, 0), ('drop',)],
        [C(-1), ('i64.load', 0, 0xffffffff), ('drop',)],
        [C(65535), C(3), ('i32.store16', 0, 0)],
        [C(65530), ('v128.load', 0, 0), ('drop',)],
        [C(65000), C(1), C(1000), ('memory.fill',)],
        [C(0), C(65536), C(1), ('memory.copy',)],
        [C(0), C(3), C(2), ('memory.init', 0)],
        [C(99), ('call_indirect', t0, 0)],
        [C(3), ('call_indirect', t0, 0)],
        [('f64.const', 0), ('i64.const', 1), C(0), ('call_indirect', t1, 0), ('drop',)],
        [C(99), ('table.get', 0), ('drop',)],
        [C(99), ('ref.null', 'funcref'), ('table.set', 0)],
        [C(2), C(0), C(5), ('table.init', 0, 0)],
        [C(1), C(0), C(9), ('table.copy', 0, 0)],
        [C(1), ('ref.null', 'funcref'), C(9), ('table.fill', 0)],
        [C(5), ('call', boom), ('drop',)],
    ])


def chain(r):
    """calls nested through several functions (direct, indirect, two modules), each with open blocks, pending operands and state
    changes before and after the call; the innermost traps for some arguments.  After every call the whole state is compared."""
    host = {'boom': dict(kind='func', params=['i32'], results=['i32'], beh='throw'), 'm': dict(kind='memory', min=1, max=1)}
    mods, steps = [], []
    k = r.choice([1, 2])
    for n in range(k):
        m = Module()
        ix, h, imp = logs(m, ('i32', 'i64'))
        host.update(h)
        m.imports.append(('e', 'boom', 'func', m.type(('i32',), ('i32',))))
        imp.append(['e', 'boom', {'host': 'boom'}])
        boom = m.nimp('func') - 1
        prev = None
        if n:
            m.imports.append(('e', 'top', 'func', m.type(('i32',), ('i32',))))
            imp.append(['e', 'top', {'inst': 'T0', 'export': 'top'}])
            prev = m.nimp('func') - 1
        m.imports.append(('e', 'm', 'memory', (1, 1)))
        imp.append(['e', 'm', {'host': 'm'}])
        m.globals.append(('i32', True, [('i32.const', 0)]))
        m.tables.append(('funcref', (4, 4)))
        m.datas.append(Data('passive', b'abcd'))
        nf = m.nimp('func')
        ti = m.type(('i32',), ('i32',))
        # 0: traps when local 0 is in a set
        body = []
        for v in range(8):
            body += [('local.get', 0), ('i32.const', v), ('i32.eq',), ('if', None)]
            d = r.randint(0, 3)
            body += [(r.choice(['block', 'loop']), None)] * d + [const(r, r.choice(NUM)) for _ in range(r.randint(0, 3) if d else 0)]
            body += [('global.get', 0), ('i32.const', 1), ('i32.add',), ('global.set', 0), ('i32.const', 64 + 4 * v), ('local.get', 0), ('i32.store', 0, 0)]
            body += trap_code(r, m, boom)
            body += [('unreachable',)] + [('end',)] * d + [('end',)]
        body += [('local.get', 0), ('i32.const', 3), ('i32.mul',)]
        last = m.func(('i32',), ('i32',), body, ['i64', 'f32'])
        if prev is not None:
            cands = [last, prev]
        else:
            cands = [last]
        for lv in range(r.randint(1, 4)):
            callee = r.choice(cands[-2:])
            body = [('i64.const', 1000 + lv), ('local.set', 1), const(r, 'f64')]
            d = r.randint(0, 3)
            body += [('block', 'i32')] * d
            pend = [r.choice(NUM) for _ in range(r.randint(0, 3))]
            body += [const(r, t) for t in pend]
            body += [('global.get', 0), ('i32.const', 10), ('i32.add',), ('global.set', 0), ('local.get', 0)]
            how = r.choice(['call', 'ind'])
            if how == 'ind':
                body += [('i32.const', 1), ('call_indirect', ti, 0)]
                m.elems.append(Elem('active', [callee], 0, [('i32.const', 1)])) if not any(x.mode == 'active' for x in m.elems) else None
            else:
                body += [('call', callee)]
            body += [('local.set', 2)] + [('drop',)] * len(pend) + [('local.get', 2)]
            body += [('global.get', 0), ('i32.const', 100), ('i32.add',), ('global.set', 0)]
            body += [('end',)] * d
            body += [('local.get', 1), ('call', ix['i64']), ('local.set', 2), ('drop',), ('local.get', 2)]
            cands.append(m.func(('i32',), ('i32',), body, ['i64', 'i32']))
        if not any(x.mode == 'active' for x in m.elems):
            m.elems.append(Elem('active', [last], 0, [('i32.const', 1)]))
        # segment 0 for table.init is whatever came first
        top = cands[-1]
        m.exports += [('top', 'func', top), ('low', 'func', last), ('g', 'global', 0)]
        # a healthy function whose result depends on frames, labels, locals and operands being right
        m.func(('i32',), ('i32', 'i64'), [('local.get', 0), ('block', 'i32'), ('i32.const', 5), ('i32.const', 6), ('i32.const', 1), ('br_if', 0), ('drop',), ('end',), ('i32.add',),
                                          ('local.get', 1), ('i64.const', 9), ('i64.add',), ('local.tee', 1)], ['i64'], export='ok')
        mods.append(m.encode())
        steps.append(dict(op='inst', id=f'T{n}', mod=n, imports=imp))
    for _ in range(24):
        n = r.randrange(k)
        nm = r.choice(['top', 'top', 'low', 'ok'])
        steps.append(call(f'T{n}', nm, [('i32', r.choice([*range(8), 8, 9, 100]))], ('i32', 'i64') if nm == 'ok' else ('i32',)))
        steps.append(dict(op='gget', g={'inst': f'T{n}', 'export': 'g'}, t='i32'))
        if r.random() < .5:
            steps.append(dict(op='memhash', mem={'host': 'm'}))
        if r.random() < .3:
            steps.append(call(f'T{n}', 'ok', [('i32', r.getrandbits(8))], ('i32', 'i64')))
        if r.random() < .1:
            steps.append(dict(op='callrange', inst=f'T{n}', name=r.choice(['top', 'low']), n=40))
    return {'mods': mods, 'host': host, 'steps': steps}


def caught(r):
    """host functions which call back into exports, catch their traps and return; the interrupted wasm callers continue with their
    locals, blocks and operands intact"""
    host = {}
    m = Module()
    ix, h, imp = logs(m, ('i32', 'i64'))
    host.update(h)
    host['re'] = dict(kind='func', params=['i32'], results=['i32'], beh='reenter', target=['A', 'inner', ['i32']], catch=True)
    host['re2'] = dict(kind='func', params=['i32'], results=['i32'], beh='reenter', target=['A', 'outer', ['i32']], catch=r.random() < .7)
    host['boom'] = dict(kind='func', params=['i32'], results=['i32'], beh='throw')
    for nm in ('re', 're2', 'boom'):
        m.imports.append(('e', nm, 'func', m.type(('i32',), ('i32',))))
        imp.append(['e', nm, {'host': nm}])
    re_, re2, boom = len(ix), len(ix) + 1, len(ix) + 2
    m.mems.append((1, 1))
    m.tables.append(('funcref', (4, 4)))
    m.datas.append(Data('passive', b'abcd'))
    m.globals.append(('i32', True, [('i32.const', 0)]))
    base = len(ix) + 3
    ti = m.type(('i32',), ('i32',))
    body = [('global.get', 0), ('i32.const', 1), ('i32.add',), ('global.set', 0)]
    body += [('local.get', 0), ('i32.const', r.choice([1, 3, 7])), ('i32.and',), ('if', None), ('block', None), const(r, 'i64'), const(r, 'f32')]
    body += trap_code(r, m, boom) + [('unreachable',), ('end',), ('end',), ('local.get', 0)]
    m.func(('i32',), ('i32',), body, ['i64'] * 3, export='inner')
    body = [('i64.const', 42), ('local.set', 1), ('local.get', 0), ('i32.const', 100)]
    d = r.randint(0, 4)
    body += [('block', 'i32')] * d
    for j in range(3):
        body += [const(r, 'i64'), ('local.get', 0), ('i32.const', j), ('i32.add',), ('call', r.choice([re_, re_, re2])), ('call', ix['i32']), ('call', ix['i64']),
                 ('local.get', 1), ('call', ix['i64'])]
    body += [('local.get', 0), ('i32.const', 1), ('call', re_), ('i32.xor',)] + [('end',)] * d + [('i32.add',), ('i32.sub',)]
    m.func(('i32',), ('i32',), body, ['i64'], export='outer')
    m.elems.append(Elem('active', [base, base + 1], 0, [('i32.const', 0)]))
    m.func(('i32',), ('i32',), [('local.get', 0), ('local.get', 0), ('i32.const', 1), ('i32.and',), ('call_indirect', ti, 0)], export='ind')
    m.exports.append(('mem', 'memory', 0))
    m.exports.append(('g', 'global', 0))
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for _ in range(8):
        steps.append(call('A', r.choice(['outer', 'inner', 'ind']), [('i32', r.getrandbits(8))], ('i32',)))
        steps += [dict(op='gget', g={'inst': 'A', 'export': 'g'}, t='i32'), dict(op='memhash', mem={'inst': 'A', 'export': 'mem'})]
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


FAM = [chain, chain, caught]
