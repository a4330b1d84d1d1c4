import io, os, tempfile
import diff, fam_mem, fam_tab, fam_var, families, progen, pw, wb
from families import call, logs
from harness import Check, scale
from v8 import V8
from wb import Data, Elem, Func, Module

PROF = progen.profile(simd=3, table=2, ref=2, bulk=1)
NAMES = ['', 'a', '\0', 'a\0b', ' ', 'é', '中文', '\U0001f600', '\ufeff', 'x' * 127, 'x' * 128, 'y' * 300, '"quoted"', '\x7f', '\n', '../..', '__proto_', 'e\u0301', '\uffff', '\u0800', '\ud7ff', '\U0010ffff']


def names(r):
    """import and export names of every UTF-8 length, empty, with NULs; same entity exported under many names"""
    m = Module()
    host, imp = {}, []
    used = {}
    for k in range(r.randint(1, 4)):
        a, b = r.choice(NAMES), r.choice(NAMES)
        if (a, b) in used:
            continue
        used[(a, b)] = k
        host[f'h{k}'] = dict(kind='func', params=['i32'], results=['i32'], beh='mix')
        m.imports.append((a, b, 'func', m.type(('i32',), ('i32',))))
        imp.append([a, b, {'host': f'h{k}'}])
    n = m.nimp('func')
    m.mems.append((1, 2))
    m.globals.append(('i32', False, [('i32.const', 5)]))
    m.func(('i32',), ('i32',), [('local.get', 0)] + [('call', i) for i in range(n)])
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    L = r.sample(NAMES, r.randint(1, len(NAMES)))
    for i, nm in enumerate(L):
        k = r.choice(['func', 'func', 'memory', 'global'])
        f = r.randint(0, n)
        m.exports.append((nm, k, f if k == 'func' else 0))
        if k == 'func':
            steps.append(call('A', nm, [('i32', r.getrandbits(32))], ('i32',)))
        elif k == 'global':
            steps.append(dict(op='gget', g={'inst': 'A', 'export': nm}, t='i32'))
        else:
            steps.append(dict(op='memhash', mem={'inst': 'A', 'export': nm}))
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def counts(r):
    """more entries of every kind than one LEB byte counts, referred to by their indices"""
    m = Module()
    ix, host, imp = logs(m, ('i32', 'i64'))
    big = r.choice([1, 100, 127, 128, 129, 200, 300])
    for k in range(big):
        m.types.append((('i32',) * (k % 7), ('i32',) * (k % 3)))
    for k in range(big):
        m.globals.append((r.choice(['i32']), True, [('i32.const', k * 3)]))
    n0 = m.nimp('func')
    for k in range(big):
        m.func((), ('i32',), [('i32.const', k), ('global.get', k), ('i32.add',)], export=f'f{k}')
    m.tables.append(('funcref', (big, None)))
    m.mems.append((1, None))
    m.elems.append(Elem('active', list(range(n0, n0 + big)), 0, [('i32.const', 0)]))
    for k in range(min(big, 140)):
        m.datas.append(Data(r.choice(['passive', 'active']), bytes([k & 255]) * (k % 5), [('i32.const', k * 7)]))
        m.elems.append(Elem('passive', [n0 + r.randrange(big)] * (k % 4)))
    t = m.type((), ('i32',))
    m.func(('i32',), ('i32',), [('local.get', 0), ('call_indirect', t, 0)], export='ind')
    nd = len(m.datas)
    i = r.randrange(nd)
    m.func((), (), [('i32.const', 5000), ('i32.const', 0), ('i32.const', len(m.datas[i].init) if m.datas[i].mode == 'passive' else 0), ('memory.init', i)], export='init')
    m.func((), ('i32',), [('call', n0 + big - 1), ('global.get', big - 1), ('i32.add',)], export='last')
    m.func(('i32',), ('i32',), [('block', None)] * 3 + [('local.get', 0), ('br_table', [r.randint(0, 2) for _ in range(big)], 0)] + [('end',), ('i32.const', 1), ('return',), ('end',), ('i32.const', 2), ('return',), ('end',), ('i32.const', 3)], export='bt')
    m.exports.append(('mem', 'memory', 0))
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for k in {0, big - 1, r.randrange(big), min(127, big - 1), min(128, big - 1)}:
        steps.append(call('A', f'f{k}', [], ('i32',)))
        steps.append(call('A', 'ind', [('i32', k)], ('i32',)))
        steps.append(call('A', 'bt', [('i32', k)], ('i32',)))
    steps += [call('A', 'last', [], ('i32',)), call('A', 'init', [], ()), dict(op='memhash', mem={'inst': 'A', 'export': 'mem'})]
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


def huge(kind):
    """numbers which take three LEB bytes and more than 16 bits"""
    def mk(r):
        m = Module()
        n = r.choice([16383, 16384, 16500, 20000])
        steps = [dict(op='inst', id='A', mod=0, imports=[])]
        ask = lambda nm, args=(): steps.append(call('A', nm, [('i32', a) for a in args], ('i32',)))
        inc = [('local.get', 0), ('i32.const', 1), ('i32.add',), ('local.set', 0)]
        if kind == 'body':
            k = r.choice([16400, 17000])
            m.func(('i32',), ('i32',), inc * k + [('local.get', 0)], export='flat')
            m.func(('i32',), ('i32',), [('block', None)] + inc * k + [('end',), ('local.get', 0)], export='block')
            m.func(('i32',), ('i32',), [('loop', None)] + [('nop',)] * 4 * k + inc + [('local.get', 0), ('i32.const', 2), ('i32.lt_s',), ('br_if', 0), ('end',), ('local.get', 0)], export='loop')
            m.func(('i32',), ('i32',), [('local.get', 0), ('if', None)] + inc * k + [('else',)] + [('nop',)] * 4 * k + inc + [('end',), ('local.get', 0)], export='if')
            for f in ('flat', 'block', 'loop', 'if'):
                ask(f, [0]), ask(f, [5])
        elif kind == 'br_table':
            L = [r.randint(0, 2) for _ in range(n)]
            m.func(('i32',), ('i32',), [('block', None)] * 3 + [('local.get', 0), ('br_table', L, 0)] + [('end',), ('i32.const', 1), ('return',), ('end',), ('i32.const', 2), ('return',), ('end',), ('i32.const', 3)], export='f')
            for k in (0, 1, n - 1, n, n + 1, 8191, 8192, -1):
                ask('f', [k & 0xffffffff])
        elif kind == 'types':
            for k in range(n):
                m.types.append((('i32',) * (k % 5), ('i64',) * (k % 3) + ('f32',) * (k // 15 % 2)))
            pick = sorted({63, 64, 65, 127, 128, 8191, 8192, 8193, 16382, n - 1} & set(range(n)))
            for k in pick:
                a, b = m.types[k]
                m.func(('i32',), ('i32',), [('local.get', 0)] + [('i32.const', 7)] * len(a) + [('block', k)] + [('drop',)] * len(a) + [(x[0:3] + '.const', 3 if x[0] == 'i' else 0) for x in b] + [('end',)] +
                       [('drop',)] * len(b), export=f't{k}')
                ask(f't{k}', [k])
        elif kind == 'functions':
            for k in range(n):
                m.func((), ('i32',), [('i32.const', k)], export=f'f{k}' if k % 997 in (0, 996) or k > n - 4 else None)
            last = m.func(('i32',), ('i32',), [('call', n - 1), ('call', 8192), ('i32.add',), ('call', 127), ('i32.add',), ('call', 16382), ('i32.add',)], export='sum')
            m.tables.append(('funcref', (n, None)))
            m.elems.append(Elem('active', list(range(n)), 0, [('i32.const', 0)]))
            m.func(('i32',), ('i32',), [('local.get', 0), ('call_indirect', m.type((), ('i32',)), 0)], export='ind')
            ask('sum', [0])
            for k in (0, 127, 128, 8192, 16383, n - 1, n):
                ask('ind', [k])
            for nm, _, i in m.exports[:40]:
                if i < n:
                    ask(nm)
        elif kind == 'globals':
            for k in range(n):
                m.globals.append(('i32', True, [('i32.const', k * 77777 - (1 << 29))]))
            for k in (0, 127, 128, 8191, 8192, 16382, n - 1):
                m.func(('i32',), ('i32',), [('global.get', k), ('local.get', 0), ('global.set', k), ('global.get', k), ('i32.add',)], export=f'g{k}')
                ask(f'g{k}', [9]), ask(f'g{k}', [3])
        elif kind == 'segments':
            m.mems.append((2, None))
            for k in range(n):
                m.datas.append(Data('active' if k % 3 else 'passive', bytes([k & 255]) * (k % 3), [('i32.const', k % 65536)]))
            m.datas.append(Data('active', bytes(k * 7 & 255 for k in range(70001)), [('i32.const', 30000)]))
            m.func(('i32',), ('i32',), [('i32.const', 100), ('i32.const', 0), ('i32.const', 0), ('memory.init', n - 1), ('data.drop', n - 2), ('local.get', 0), ('i32.load', 0, 0)], export='f')
            m.exports.append(('mem', 'memory', 0))
            steps.append(dict(op='memhash', mem={'inst': 'A', 'export': 'mem'}))
            for k in (0, 8192, 99999):
                ask('f', [k])
        elif kind == 'elements':
            m.tables.append(('funcref', (n, None)))
            m.func(('i32',), ('i32',), [('local.get', 0)])
            m.func(('i32',), ('i32',), [('i32.const', 5)])
            for k in range(3000):
                m.elems.append(Elem('passive' if k % 2 else 'declarative', [k & 1] * (k % 3)))
            m.elems.append(Elem('active', [k * k >> 3 & 1 for k in range(n)], 0, [('i32.const', 0)]))
            t = m.type(('i32',), ('i32',))
            m.func(('i32',), ('i32',), [('i32.const', 9), ('local.get', 0), ('call_indirect', t, 0)], export='f')
            for k in (0, 1, 2, 3, 127, 8192, 16382, n - 1, n):
                ask('f', [k])
        elif kind == 'locals':
            L = [r.choice(['i32', 'i64', 'f32', 'f64', 'v128', 'funcref']) for _ in range(3000)] + ['i32'] * 17000 + ['i64'] * 17000 + ['i32']
            k = len(L)
            m.func(('i32',), ('i32',), [('local.get', 0), ('local.set', k), ('local.get', k), ('local.get', 3001), ('i32.add',), ('local.get', 19000), ('i32.add',), ('local.get', 20001), ('i32.wrap_i64',),
                                        ('i32.add',), ('i32.const', 1), ('local.set', 16385), ('local.get', 16384), ('i32.add',), ('local.get', 16385), ('i32.add',)], locals=L, export='f')
            ask('f', [5])
        elif kind == 'names':
            for k, size in enumerate((16383, 16384, 20000, 127, 128)):
                m.func((), ('i32',), [('i32.const', k)], export=r.choice(['x', 'é', '中'])[0] * (size // 3) + str(k) * (size % 3))
                ask(m.exports[-1][0])
        return {'mods': [m.encode()], 'host': {}, 'steps': steps}
    mk.__name__ = 'huge ' + kind
    return mk


HUGE = ['body', 'br_table', 'types', 'functions', 'globals', 'segments', 'elements', 'locals', 'names']
FAM = [names, counts, families.ladder, families.loops, families.signature, families.indirect, fam_mem.access, fam_mem.bulk, fam_tab.ops, fam_tab.travel,
       fam_var.locals_many, fam_var.aliases]


def plain(x):
    return {k: v for k, v in x.items() if k != 'err'} | ({'err': 1} if 'err' in x else {})


def one(job, v8, mk, tag):
    wb.CAPTURE = []
    sc = mk(job.rng)
    mods = wb.CAPTURE
    wb.CAPTURE = None
    byte = {}
    for m in mods:
        byte[m.encode(wb.MIN)] = m
    base, _ = pw.run(sc)
    for k in range(2):
        p = job.rng.choice([0.1, 0.4, 1.0])
        e = wb.Messy(job.rng, p)
        messy = dict(sc, mods=[byte[b].encode(e) for b in sc['mods']])
        job.count('padded_integers', e.n_pad)
        job.count('messy_bytes', sum(map(len, messy['mods'])))
        got, ctx = pw.run(messy)
        for i, (a, b) in enumerate(zip(base, got)):
            if plain(a) != plain(b):
                job.violation(f'{tag}:encoding changes behaviour', f'step {i} {str(sc["steps"][i])[:120]}: minimal encoding {str(a)[:160]}, alternative {str(b)[:200]}',
                              {'minimal': diff.replay(sc, i), 'alternative': diff.replay(messy, i), 'step': i})
                return
        # the alternative form is itself valid and means the same to V8
        if not diff.judge(job, v8, messy, tag, sample=tag):
            return
        job.count('alternative_encodings')
    # the same bytes through a file
    if job.rng.random() < .3 and not sc['steps'][0]['imports']:
        with tempfile.NamedTemporaryFile(suffix='.wasm') as f:
            f.write(messy['mods'][sc['steps'][0]['mod']])
            f.flush()
            rt = pw.core.Runtime()
            a = rt.instance_from_file(f.name)
            b = ctx.inst.get(sc['steps'][0]['id'])
            job.count('file_loads')
            if b is not None and [(x.name, x.data.kind) for x in a.exps] != [(x.name, x.data.kind) for x in b.exps]:
                job.violation('file:exports differ', 'instance_from_file disagrees with from_reader', diff.replay(messy))


def work(job):
    v8 = V8()
    try:
        n = scale(110, 2500)
        for k in range(n):
            if job.late():
                break
            f = FAM[(k + job.n) % len(FAM)]
            one(job, v8, f, 'family ' + f.__name__)
            one(job, v8, lambda r: progen.Gen(r, PROF, mods=r.choice([1, 2]), funcs=5, size=40, calls=6).scenario(), 'random')
    finally:
        v8.close()


def big(job):
    v8 = V8()
    try:
        for _ in range(scale(1, 6)):
            for k in HUGE[job.n::job.total] if scale(0, 1) == 0 else HUGE:
                if not job.late():
                    one(job, v8, huge(k), 'huge ' + k)
                    job.count('huge_modules')
    finally:
        v8.close()


def main():
    c = Check('C10', 'a distinct alternative encoding of a generated module whose whole behaviour equals that of the minimal encoding and of V8')
    c.run(work)
    c.run(big)
    c.require('huge_modules', 8)
    c.require('padded_integers', 20000)
    c.require('alternative_encodings', 800)
    c.finish()
