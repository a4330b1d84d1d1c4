import io, struct
import diff, fam_var, progen, pw
from harness import Check, scale
from wb import Module

PROF = progen.profile(local=20, glob=20, call=4, num=4, log=8)


def targeted(job):
    diff.families(job, fam_var.FAM, scale(160, 3000))


def random_programs(job):
    diff.fuzz(job, 'random', scale(300, 10000), lambda r: progen.Gen(r, PROF, mods=r.choice([1, 2, 3]), funcs=5, size=50, mem=False, calls=8, share=0.8))


def crowds(job):
    """functions with tens of thousands of locals and modules with thousands of globals: every one of them is a place of its own, zero at first"""
    r = job.rng
    ZERO = dict(i32=0, i64=0, f32=0.0, f64=0.0, v128=bytearray(16), funcref=None, externref=None)

    def value(t):
        n = r.getrandbits(20)
        return {'i32': n, 'i64': n << 30, 'f32': float(n), 'f64': n / 3, 'v128': bytearray(struct.pack('<QQ', n, ~n & (1 << 64) - 1)), 'externref': n}[t]

    def const(t, v):
        return ('v128.const', bytes(v)) if t == 'v128' else (t + '.const', struct.unpack('<I', struct.pack('<f', v))[0] if t == 'f32' else struct.unpack('<Q', struct.pack('<d', v))[0] if t == 'f64' else v)
    for _ in range(scale(3, 60)):
        if job.late():
            return
        # locals
        m = Module()
        runs, at, types = [], 2, ['i32', 'i32']
        starts = []
        for _ in range(r.choice([1, 2, 5])):
            t = r.choice(['i32', 'i64', 'f32', 'f64', 'v128', 'externref'])
            n = r.choice([1, 255, 256, 5000, 32768, 49998, 50000, 65535, 65536, 100000])
            if len(types) + n > 210000:
                n = 10
            starts += [len(types), len(types) + n - 1, len(types) + r.randrange(n)]
            types += [t] * n
        picks = sorted({*starts, *[r.randrange(2, len(types)) for _ in range(4)]})
        body, given = [], {}
        for p in picks:
            t = types[p]
            if t != 'externref' and r.random() < .7:
                given[p] = value(t)
                body += [const(t, given[p]), ('local.set', p)]
        reads = picks + [r.randrange(2, len(types)) for _ in range(6)]
        m.func(('i32', 'i32'), tuple(types[p] for p in reads) + ('i32',), body + [('local.get', p) for p in reads] + [('local.get', 1)], locals=types[2:], export='f')
        rt = pw.core.Runtime()
        inst = rt.instance(pw.core.ModuleDesc.from_reader(io.BytesIO(m.encode())))
        want = [given.get(p, ZERO[types[p]]) for p in reads] + [-3]
        for _ in range(2):
            got = rt.invocate(inst, 'f', [5, -3])
            job.evals += 1
            if got != want:
                k = [a == b for a, b in zip(got, want)].index(False)
                job.violation('crowds:locals', f'local {(reads + [1])[k]} of {len(types)} holds {got[k]}, not {want[k]}', dict(picks=picks, types=[types[p] for p in picks], given=str(given)))
                return
        job.count('locals_declared', len(types))
        # globals
        m = Module()
        n = r.choice([130, 1000, 5000])
        types = [r.choice(['i32', 'i64', 'f32', 'f64', 'v128']) for _ in range(n)]
        vals = [value(t) for t in types]
        for t, v in zip(types, vals):
            m.globals.append((t, True, [const(t, v)]))
        picks = r.sample(range(n), 40)
        for p in picks:
            m.func((), (types[p],), [('global.get', p)], export=f'g{p}')
            m.func((types[p],), (), [('local.get', 0), ('global.set', p)], export=f's{p}')
        inst = rt.instance(pw.core.ModuleDesc.from_reader(io.BytesIO(m.encode())))
        for _ in range(80):
            p = r.choice(picks)
            if r.random() < .4:
                vals[p] = value(types[p])
                rt.invocate(inst, f's{p}', [vals[p]])
            got = rt.invocate(inst, f'g{p}', [])
            job.evals += 1
            if got != [vals[p]]:
                job.violation('crowds:globals', f'global {p} of {n} holds {got[0]}, not {vals[p]}', dict(globals=n))
                return
        for p in picks:
            if rt.invocate(inst, f'g{p}', []) != [vals[p]]:
                job.violation('crowds:globals', f'global {p} of {n} holds {rt.invocate(inst, f"g{p}", [])[0]} in the end, not {vals[p]}', dict(globals=n))
                return
        job.case(('crowds', len(picks), n, tuple(starts)))
        job.count('crowds')


def main():
    c = Check('C09', 'a distinct generated program in which the exact bits of locals and globals, read through every alias, were compared with V8 after writes')
    c.run(targeted)
    c.run(random_programs)
    c.run(crowds)
    diff.fold_ops(c)
    for f in set(fam_var.FAM):
        c.require('family ' + f.__name__, 40)
    c.require('host_calls_compared', 20000)
    c.require('crowds', 12)
    c.finish()
