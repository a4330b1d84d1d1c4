"""Program families for linear memory (C07)."""
import wb
from families import call, const, logs
from ops import OPS
from progen import LLANE, LOADS, SLANE, STORES
from wb import Data, Module

M32, M64 = (1 << 32) - 1, (1 << 64) - 1
HASH = dict(op='memhash', mem={'inst': 'A', 'export': 'mem'})
WIDTH = {n: OPS[n].width if hasattr(OPS[n], 'width') else None for n in LOADS + STORES + LLANE + SLANE}
SPLAT = ('v128', )


def unv(m, t):
    """observe a v128 as two i64"""
    return [('local.tee', 0)] if t is None else []


def natural(n):
    """access width in bytes"""
    import re
    if n.startswith('v128.'):
        k = re.search(r'(\d+)x(\d+)_', n)
        if k:
            return int(k.group(1)) * int(k.group(2)) // 8
        k = re.search(r'(?:load|store)(\d+)', n)
        return int(k.group(1)) // 8 if k else 16
    k = re.search(r'(?:load|store)(\d+)', n)
    return int(k.group(1)) // 8 if k else int(n[1:3]) // 8


ACC = sorted(LOADS + STORES + LLANE + SLANE)


def pattern(r, n):
    return bytes(r.choice([0, 1, 0x7f, 0x80, 0xff, r.getrandbits(8)]) for _ in range(n))


def random_val(r, t):
    if t == 'i32':
        return r.choice([0, 1, M32, 0x80000000, 0x7fffffff, 0x12345678, 0xff80, 0x80, r.getrandbits(32)])
    return r.choice([0, 1, M64, 1 << 63, 0x0123456789abcdef, 0xff80, 0x80000000, r.getrandbits(64)])


def access(r):
    """a dozen load/store forms, each at a static offset, called at addresses on both sides of every boundary; memory compared after
    every call"""
    m = Module()
    pages = r.choice([0, 1, 1, 1, 2])
    m.mems.append((pages, r.choice([None, pages, pages + 3])))
    m.exports.append(('mem', 'memory', 0))
    size = pages * 65536
    steps = [dict(op='inst', id='A', mod=0, imports=[])]
    if pages:
        import base64
        for off in (0, size - 64, 65536 - 32 if pages > 1 else 1000):
            steps.append(dict(op='memset', mem=HASH['mem'], off=off, b64=base64.b64encode(pattern(r, 64)).decode()))
    calls = []
    for k in range(10):
        n = r.choice(ACC)
        o = OPS[n]
        w = natural(n)
        off = r.choice([0, 0, 1, 2, 7, w, 100, 65535, 65536, 65536 - w, size, size - w if size else 0, 0x7fffffff, 0x80000000, M32, M32 - 1, M32 - w, r.randrange(size + 1)])
        al = r.randint(0, {1: 0, 2: 1, 4: 2, 8: 3, 16: 4}[w])
        imm = (al, off) + ((r.randrange(16 // w),) if o.imm == 'memlane' else ())
        body, ps, rs, loc = [('local.get', 0)], ('i32',), (), ()
        store = not o.outs
        vt = o.ins[-1] if len(o.ins) > 1 else None
        if vt == 'v128':
            ps += ('i64', 'i64')
            body += [('local.get', 1), ('i64x2.splat',), ('local.get', 2), ('i64x2.replace_lane', 1)]
        elif vt in ('f32', 'f64'):
            it = 'i32' if vt == 'f32' else 'i64'
            ps += (it,)
            body += [('local.get', 1), (f'{vt}.reinterpret_{it}',)]
        elif vt:
            ps += (vt,)
            body += [('local.get', 1)]
        body.append((n,) + imm)
        if o.outs:
            t = o.outs[0]
            if t == 'v128':
                rs, loc = ('i64', 'i64'), ('v128',)
                j = len(ps)
                body += [('local.tee', j), ('i64x2.extract_lane', 0), ('local.get', j), ('i64x2.extract_lane', 1)]
            elif t in ('f32', 'f64'):
                rs = ('i32',) if t == 'f32' else ('i64',)
                body += [(f'{rs[0]}.reinterpret_{t}',)]
            else:
                rs = (t,)
        m.func(ps, rs, body, loc, export=f'a{k}')
        ad = {0, 1, 5, 100, 65535, 65536, size, M32, M32 - 1, M32 - w + 1, 0x7fffffff, 0x80000000, 0xffff0000, (1 << 32) - off & M32, (size - w - off) & M32}
        for e in (size - off - w - 1, size - off - w, size - off - w + 1, size - off - 1, size - off, 65536 - w - off, 65535 - off, 65536 - off):
            if 0 <= e <= M32:
                ad.add(e)
        ad |= {r.randrange(max(size, 1)) for _ in range(4)}
        for a in r.sample(sorted(ad), min(len(ad), 9)):
            calls.append((call('A', f'a{k}', [('i32', a)] + [(t, random_val(r, t)) for t in ps[1:]], rs), store))
    r.shuffle(calls)
    for c, store in calls:
        steps.append(c)
        if store:
            steps.append(HASH)
    steps.append(HASH)
    return {'mods': [m.encode()], 'host': {}, 'steps': steps}


def width_matrix(r):
    """every load and store form once on one memory: stores through one width are read back through every other width around them"""
    m = Module()
    m.mems.append((1, 1))
    m.exports.append(('mem', 'memory', 0))
    steps = [dict(op='inst', id='A', mod=0, imports=[])]
    st = [n for n in STORES]
    ld = [n for n in LOADS if OPS[n].outs[0] != 'v128']
    for n in st:
        t = OPS[n].ins[-1]
        if t == 'v128':
            m.func(('i32', 'i64', 'i64'), (), [('local.get', 0), ('local.get', 1), ('i64x2.splat',), ('local.get', 2), ('i64x2.replace_lane', 1), (n, 0, 3)], export='s' + n)
        elif t[0] == 'f':
            it = 'i32' if t == 'f32' else 'i64'
            m.func(('i32', it), (), [('local.get', 0), ('local.get', 1), (f'{t}.reinterpret_{it}',), (n, 0, 3)], export='s' + n)
        else:
            m.func(('i32', t), (), [('local.get', 0), ('local.get', 1), (n, 0, 3)], export='s' + n)
    for n in ld:
        t = OPS[n].outs[0]
        it = {'f32': 'i32', 'f64': 'i64'}.get(t, t)
        m.func(('i32',), (it,), [('local.get', 0), (n, 0, 1)] + ([(f'{it}.reinterpret_{t}',)] if it != t else []), export='l' + n)
    for _ in range(6):
        base = r.choice([0, 1, 7, 40000, 65536 - 40])
        for n in r.sample(st, 6):
            t = OPS[n].ins[-1]
            args = [('i32', base + r.randint(0, 8))]
            args += [('i64', r.getrandbits(64)), ('i64', r.getrandbits(64))] if t == 'v128' else [({'f32': 'i32', 'f64': 'i64'}.get(t, t), r.getrandbits(64) & (M32 if t in ('i32', 'f32') else M64))]
            steps += [call('A', 's' + n, args, ()), HASH]
        for n in r.sample(ld, 8):
            t = OPS[n].outs[0]
            steps.append(call('A', 'l' + n, [('i32', base + r.randint(0, 12))], ({'f32': 'i32', 'f64': 'i64'}.get(t, t),)))
    return {'mods': [m.encode()], 'host': {}, 'steps': steps}


def bulk(r):
    """sequences of fill/copy/init/drop at boundary operands; memory compared after every call"""
    m = Module()
    pages = r.choice([0, 1, 1, 2])
    m.mems.append((pages, None))
    size = pages * 65536
    m.exports.append(('mem', 'memory', 0))
    seg = []
    for _ in range(r.randint(1, 4)):
        n = r.choice([0, 1, 5, 64, 300])
        if r.random() < .3 and n <= size:
            m.datas.append(Data('active', pattern(r, n), [('i32.const', r.choice([0, size - n]))]))
        else:
            m.datas.append(Data('passive', pattern(r, n)))
        seg.append(n)
    # contents of which no two stretches look alike
    noise = r.choice([0, 0, 3000, 9000, 40000]) if pages else 0
    place = r.choice([0, 1000, size - noise, r.randrange(size - noise + 1)]) if noise else 0
    if noise:
        m.datas.append(Data('active', r.randbytes(noise), [('i32.const', place)]))
        seg.append(noise)
    m.force_datacount = True
    p3 = ('i32', 'i32', 'i32')
    a = [('local.get', 0), ('local.get', 1), ('local.get', 2)]
    m.func(p3, (), a + [('memory.fill',)], export='fill')
    m.func(p3, (), a + [('memory.copy',)], export='copy')
    for i in range(len(seg)):
        m.func(p3, (), a + [('memory.init', i)], export=f'init{i}')
        m.func((), (), [('data.drop', i)], export=f'drop{i}')
    m.func(('i32',), ('i32',), [('local.get', 0), ('memory.grow',)], export='grow')
    steps = [dict(op='inst', id='A', mod=0, imports=[]), HASH]
    cur = size

    def at():
        return r.choice([0, 1, 10, 100, 65535, 65536, cur, max(cur - 1, 0), max(cur - 10, 0), cur + 1, M32, 0x80000000, r.randrange(cur + 1), r.randrange(300)])

    def ln():
        return r.choice([0, 0, 1, 2, 10, 100, 300, 65536, cur, cur + 1, M32, 0x80000000, r.randrange(cur + 1), r.randrange(300)])
    dropped = set()
    for _ in range(40):
        k = r.random()
        if k < .25:
            d, n = at(), ln()
            if r.random() < .5 and d <= cur:
                n = r.choice([cur - d, cur - d + 1, max(cur - d - 1, 0)])
            steps.append(call('A', 'fill', [('i32', d), ('i32', r.choice([0, 255, 256, M32, 0x180, r.getrandbits(32)])), ('i32', n)], ()))
        elif k < .6:
            d, s, n = at(), at(), ln()
            q = r.random()
            if noise and q < .5:             # overlap of long stretches
                s = place + r.randrange(noise)
                d = max(0, s + r.choice([-1, 1]) * r.choice([1, 2, 3, 8, 255, 256, 257, 300, 1000, 4096, r.randrange(1, noise)]))
                n = r.choice([256, 257, 512, 1024, 4096, noise // 2, r.randrange(noise)])
                if max(d, s) + n > cur:
                    n = max(cur - max(d, s), 0)
            elif q < .3:                     # overlap
                s = r.randrange(cur + 1)
                d = max(0, s + r.randint(-20, 20))
                n = r.randint(0, 60)
            elif q < .6 and max(d, s) <= cur:
                n = r.choice([cur - d, cur - s, min(cur - d, cur - s), min(cur - d, cur - s) + 1])
            steps.append(call('A', 'copy', [('i32', d), ('i32', s), ('i32', n)], ()))
        elif k < .88:
            i = r.randrange(len(seg))
            n = r.choice([0, 1, seg[i], seg[i] + 1, M32, r.randrange(seg[i] + 1)])
            s = r.choice([0, 0, 1, seg[i], seg[i] + 1, M32, max(seg[i] - n, 0), max(seg[i] - n, 0) + 1])
            d = at()
            if r.random() < .5:
                d = r.choice([max(cur - n, 0), max(cur - n, 0) + 1, r.randrange(max(cur - 400, 1))])
            steps.append(call('A', f'init{i}', [('i32', d), ('i32', s), ('i32', n)], ()))
        elif k < .95:
            steps.append(call('A', f'drop{r.randrange(len(seg))}', [], ()))
        else:
            g = r.choice([0, 1])
            steps.append(call('A', 'grow', [('i32', g)], ('i32',)))
            if cur + g * 65536 <= 4 * 65536:
                cur += g * 65536
        steps.append(HASH)
    return {'mods': [m.encode()], 'host': {}, 'steps': steps}


def growth(r):
    """two instances sharing an imported (host or exported) memory, grown from either side and from the host; sizes, old contents,
    zeroed new pages, accesses just below and above the new end"""
    lo = r.choice([0, 0, 1, 2])
    hi = r.choice([None, None, lo, lo + 1, lo + 3, 20])
    host = {'hm': dict(kind='memory', min=lo, max=hi)}
    mods = []
    owner = r.choice(['host', 'module'])
    p3 = ('i32', 'i32', 'i32')
    for k in range(2):
        m = Module()
        if owner == 'host' or k:
            m.imports.append(('env', 'm', 'memory', (r.choice([0, lo]), hi if r.random() < .5 else None)))
        else:
            m.mems.append((lo, hi))
        m.exports.append(('mem', 'memory', 0))
        m.func((), ('i32',), [('memory.size',)], export='size')
        m.func(('i32',), ('i32',), [('local.get', 0), ('memory.grow',)], export='grow')
        m.func(('i32',), ('i32', 'i32', 'i32'), [('memory.size',), ('local.get', 0), ('memory.grow',), ('memory.size',)], export='sgs')
        m.func(('i32',), ('i32',), [('local.get', 0), ('i32.load8_u', 0, 0)], export='ld')
        m.func(('i32', 'i32'), (), [('local.get', 0), ('local.get', 1), ('i32.store', 0, 0)], export='st')
        m.func(p3, (), [('local.get', 0), ('local.get', 1), ('local.get', 2), ('memory.fill',)], export='fill')
        # grow in the middle of an expression which keeps an address and a value pending
        m.func(('i32', 'i32'), ('i32', 'i32'), [('local.get', 0), ('local.get', 1), ('i32.const', 1), ('memory.grow',), ('drop',), ('i32.store', 0, 0), ('memory.size',), ('local.get', 0), ('i32.load', 0, 0)], export='mid')
        mods.append(m.encode())
    mem = {'inst': 'A', 'export': 'mem'}
    steps = [dict(op='inst', id='A', mod=0, imports=[['env', 'm', {'host': 'hm'}]] if owner == 'host' else []),
             dict(op='inst', id='B', mod=1, imports=[['env', 'm', {'host': 'hm'} if owner == 'host' else mem]])]
    cur = lo
    cap = 65536 if hi is None else hi
    for _ in range(30):
        w = r.choice('AB')
        k = r.random()
        if k < .3:
            room = cap - cur
            d = r.choice([0, 1, 1, 2, room if room < 30 else 3, room + 1, M32, 0x80000000, 65536, 65536 - cur, 65537 - cur])
            if d > 65536 - cur or d <= 3 or d > room or room < 30:
                nm = r.choice(['grow', 'sgs'])
                if not (d <= room and cur + d > 24):
                    steps.append(call(w, nm, [('i32', d)], ('i32',) if nm == 'grow' else ('i32',) * 3))
                    if d <= room:
                        cur += d
        elif k < .36 and cur < min(cap, 20):
            steps.append(dict(op='mgrow', mem=mem, n=1))
            cur += 1
        elif k < .45:
            steps.append(call(w, 'size', [], ('i32',)))
        elif k < .55:
            steps.append(call(w, 'mid', [('i32', r.choice([0, max(cur * 65536 - 4, 0), cur * 65536, cur * 65536 - 3 & M32])), ('i32', r.getrandbits(32))], ('i32', 'i32')))
            if cur < cap:
                cur += 1
        elif k < .75:
            steps.append(call(w, 'ld', [('i32', r.choice([0, cur * 65536 - 1 & M32, cur * 65536, cur * 65536 + 65535, M32]))], ('i32',)))
        elif k < .9:
            steps.append(call(w, 'st', [('i32', r.choice([0, cur * 65536 - 4 & M32, cur * 65536 - 3 & M32, M32])), ('i32', r.getrandbits(32))], ()))
        else:
            steps.append(call(w, 'fill', [('i32', r.choice([0, cur * 65536 - 100 & M32])), ('i32', 0xaa), ('i32', r.choice([100, 101, cur * 65536]))], ()))
        if r.random() < .5:
            steps.append(dict(HASH, mem={'inst': r.choice('AB'), 'export': 'mem'}))
        if cur > 22:
            break
    return {'mods': mods, 'host': host, 'steps': steps}


FAM = [access, access, width_matrix, bulk, bulk, growth]
