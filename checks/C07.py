import io
import cgen, diff, fam_mem, progen, pw
from harness import Check, scale
from wb import Data, Module

PROF = progen.profile(load=12, store=12, bulk=8, msize=3, mgrow=1.5, call=3, icall=1)


def targeted(job):
    diff.families(job, fam_mem.FAM, scale(240, 3500))


def random_programs(job):
    diff.fuzz(job, 'random', scale(500, 12000), lambda r: progen.Gen(r, PROF, mods=r.choice([1, 2]), funcs=5, size=50, mem=True, fail_seg=r.random() < .2, calls=8))


def compiled(job):
    cgen.compiled(job, scale(12, 400))


def large(job):
    """memories of many pages: the bulk operations and accesses of every width at addresses and with lengths of 2^24 and more, next to a
    bytearray to which the same is done"""
    r = job.rng
    for _ in range(scale(1, 6)):
        if job.late():
            return
        pages = r.choice([257, 300, 520, 1000, 1024])
        size = pages << 16
        m = Module()
        m.mems.append((pages, r.choice([None, pages, 1024])))
        m.exports.append(('mem', 'memory', 0))
        seg = r.randbytes(70000)
        m.datas.append(Data('passive', seg))
        m.force_datacount = True
        p3, a3 = ('i32',) * 3, [('local.get', k) for k in range(3)]
        m.func(p3, (), a3 + [('memory.fill',)], export='fill')
        m.func(p3, (), a3 + [('memory.copy',)], export='copy')
        m.func(p3, (), a3 + [('memory.init', 0)], export='init')
        widths = [('i32', 4, ''), ('i64', 8, ''), ('i32', 1, '8_u'), ('i64', 2, '16_u'), ('i64', 4, '32_u')]
        off = r.choice([0, 1, 1 << 24, size - 8])
        for k, (t, n, x) in enumerate(widths):
            m.func(('i32',), ('i64',), [('local.get', 0), (f'{t}.load{x}', 0, off)] + ([('i64.extend_i32_u',)] if t == 'i32' else []), export=f'l{k}')
            m.func(('i32', 'i64'), (), [('local.get', 0), ('local.get', 1)] + ([('i32.wrap_i64',)] if t == 'i32' else []) + [(f'{t}.store{x.split("_")[0]}', 0, off)], export=f's{k}')
        m.func(('i32',), ('v128',), [('local.get', 0), ('v128.load', 0, 0)], export='v')
        rt = pw.core.Runtime()
        inst = rt.instance(pw.core.ModuleDesc.from_reader(io.BytesIO(m.encode())))
        mem = rt.exported_memory(inst, 'mem')
        model = bytearray(size)
        hist = []
        sg = lambda v, b: v - (1 << b) if v >> b - 1 & 1 else v

        def run(name, *args):
            """-> (results or None for a trap)"""
            hist.append((name,) + args)
            try:
                return rt.invocate(inst, name, [sg(a & (1 << b) - 1, b) for a, b in zip(args, (32, 64, 32) if name[0] == 's' else (32,) * 3)])
            except Exception:
                return None

        def same(what, got, want):
            job.evals += 1
            if got != want:
                job.violation('large:' + what, f'{hist[-1]} in a memory of {pages} pages gives {str(got)[:60]}, expected {str(want)[:60]}', dict(history=hist[-20:], pages=pages, offset=off))
                return False
            return True
        near = lambda: r.choice([0, 1 << 24, 1 << 23, size, size // 2, 0x00ff0000]) + r.choice([0, -1, -8, -100, -70000, 5, 1000])
        span = (1 << 24) + r.choice([0, 1, 5, 4000])
        plan = [('init', near(), r.randrange(60000), r.choice([1, 5000, 10000])) for _ in range(6)]
        plan += [('fill', r.choice([0, 7, size - span, size - span + 1]), r.getrandbits(32), span)]
        plan += [('copy', near(), near(), r.choice([span, 1 << 22, 70000])) for _ in range(4)]
        plan += [('fill', near(), r.getrandbits(32), r.choice([0, 1, 300, 65536, 1 << 31, 0xffffffff])) for _ in range(6)]
        r.shuffle(plan)
        for nm, d, s, n in plan:
            d, n = d & 0xffffffff, n & 0xffffffff
            if nm != 'fill':
                s &= 0xffffffff
            got = run(nm, d, s, n)
            fits = d + n <= size and (nm == 'fill' or s + n <= (size if nm == 'copy' else len(seg)))
            if fits:
                model[d:d + n] = bytes([s & 255]) * n if nm == 'fill' else (model if nm == 'copy' else seg)[s:s + n]
            if not same(nm, got, [] if fits else None) or not same(nm + ' memory', mem.data == model and len(mem.data), size):
                return
            for _ in range(8):
                k = r.randrange(len(widths))
                t, w, _x = widths[k]
                a = r.choice([near(), d, d + n - w, r.randrange(size)]) & 0xffffffff
                e = a + off
                if r.random() < .5:
                    v = r.getrandbits(64)
                    got = run(f's{k}', a, v)
                    if e + w <= size:
                        model[e:e + w] = (v & (1 << 8 * w) - 1).to_bytes(w, 'little')
                    if not same('store', got, [] if e + w <= size else None):
                        return
                else:
                    got = run(f'l{k}', a)
                    if not same('load', got, [sg(int.from_bytes(model[e:e + w], 'little'), 64)] if e + w <= size else None):
                        return
            a = near() & 0xffffffff
            if not same('v128', run('v', a), [model[a:a + 16]] if a + 16 <= size else None):
                return
            if not same('memory', mem.data == model and len(mem.data), size):
                return
        job.case(('large', pages, off, tuple(p[0] for p in plan)))
        job.count('large_memories')


def main():
    c = Check('C07', 'a distinct generated program whose every step (and the whole memory after every write) was compared with V8')
    c.run(targeted)
    c.run(random_programs)
    c.run(compiled)
    c.run(large)
    diff.fold_ops(c)
    for f in set(fam_mem.FAM):
        c.require('family ' + f.__name__, 40)
    c.require('traps_compared', 1000)
    c.require('large_memories', 6)
    c.require('calls_returned', 2000)
    cgen.require(c, 48)
    c.finish()
