import io
import diff, fam_inst, progen, pw
from fam_inst import TYPES, VALS
from harness import Check, scale
from wb import Module

core = pw.core
PROF = progen.profile(call=6, glob=8, table=3, load=5, store=5)


def targeted(job):
    from v8 import V8
    v8 = V8()
    try:
        for k in range(scale(110, 2500)):
            if job.late():
                break
            f = fam_inst.FAM[(k + job.n) % len(fam_inst.FAM)]
            sc = f(job.rng)
            got, ctx = pw.run(sc)
            # the matching rules, independently of V8
            for i, ok, kind in sc.get('expect', ()):
                job.count(f'{kind} {"match" if ok else "mismatch"}')
                if ok != ('err' not in got[i]):
                    job.violation(f'matching:{kind}', f'import {kind} which should {"link" if ok else "be refused"}: {got[i]}', diff.replay(sc, i))
            diff.judge(job, v8, sc, 'family ' + f.__name__, sample=f.__name__)
            job.count('family ' + f.__name__)
            job.count('instantiations', sum(1 for s in sc['steps'] if s['op'] == 'inst'))
            job.count('instantiations_failed', sum(1 for s, x in zip(sc['steps'], got) if s['op'] == 'inst' and 'err' in x))
    finally:
        v8.close()


def hosts(job):
    """embedder-provided functions, tables, memories and globals: link exactly when their declared types match (a rule V8 cannot judge
    for functions, whose host functions are untyped)"""
    r = job.rng
    for k in range(scale(400, 8000)):
        rt = core.Runtime()
        m = Module()
        ran = []
        kind = r.choice(['func', 'func', 'table', 'memory', 'global'])
        if kind == 'func':
            have = r.choice(TYPES)
            want = have if r.random() < .4 else r.choice(TYPES)
            ok = have == want
            ext = rt.allocate_func_host(pw.functype(*have), lambda machine, args: [])
            m.imports.append(('e', 'x', 'func', m.type(*want)))
        elif kind == 'table':
            lo, hi = r.choice([0, 2, 4]), r.choice([None, 4, 6])
            ty = r.choice(['funcref', 'externref'])
            wlo, whi, wty = r.choice([0, lo, lo + 1]), r.choice([None, 4, 5, 6, 7]), r.choice(['funcref', 'externref', ty])
            ok = ty == wty and fam_inst.lims_ok(lo, hi, wlo, whi)
            ext = rt.allocate_table(core.TableType(pw.VT[ty](), pw.limits(lo, hi)))
            m.imports.append(('e', 'x', 'table', (wty, (wlo, whi))))
        elif kind == 'memory':
            lo, hi = r.choice([0, 1, 2]), r.choice([None, 2, 3])
            wlo, whi = r.choice([0, lo, lo + 1]), r.choice([None, 3, 4, 2])
            if whi is not None and whi < wlo:
                whi = wlo
            ok = fam_inst.lims_ok(lo, hi, wlo, whi)
            ext = rt.allocate_memory(core.MemType(pw.limits(lo, hi)))
            m.imports.append(('e', 'x', 'memory', (wlo, whi)))
        else:
            t, mut = r.choice(VALS), r.random() < .5
            wt, wmut = r.choice([t, t, r.choice(VALS)]), r.random() < .5
            ok = (t, mut) == (wt, wmut)
            ext = rt.allocate_global(core.GlobalType(pw.VT[t](), int(mut)), core.ValInst.zero(pw.VT[t]()))
            m.imports.append(('e', 'x', 'global', (wt, wmut)))
        flag = rt.allocate_func_host(pw.functype((), ()), lambda machine, args: ran.append(1) or [])
        m.imports.append(('e', 'ran', 'func', m.type((), ())))
        m.start = m.func((), (), [('call', m.nimp('func') - 1)])
        m.func((), ('i32',), [('i32.const', 42)], export='f')
        b = m.encode()
        rt.imports = {'e': {'x': ext, 'ran': flag}}
        missing = r.random() < .1
        if missing:
            del rt.imports['e']['x']
            ok = False
        before = [len(x) for x in (rt.machine.store.tabl, rt.machine.store.mems, rt.machine.store.glob)]
        err = inst = None
        try:
            inst = rt.instance(core.ModuleDesc.from_reader(io.BytesIO(b)))
        except Exception as e:
            err = e
        job.case((kind, m.imports[0], ok, missing, k, job.n))
        job.count(f'host {kind} {"match" if ok else "mismatch"}')
        w = dict(module=b.hex(), kind=kind, provided=str(ext.__dict__)[:200], required=str(m.imports[0]), missing=missing)
        if ok != (err is None):
            job.violation(f'host matching:{kind}', f'host {kind} {"refused: " + repr(err) if ok else "linked"} for {m.imports[0]}', w)
        elif ok and (ran != [1] or rt.invocate(inst, 'f', []) != [42]):
            job.violation('start', f'start function ran {len(ran)} times', w)
        elif not ok and (ran or before != [len(x) for x in (rt.machine.store.tabl, rt.machine.store.mems, rt.machine.store.glob)]):
            job.violation('refused with effect', 'a refused instantiation ran code or allocated', w)


MODS = ['env', 'Env', 'e', 'f', '', 'wasi_snapshot_preview1', 'wasi_unstable', 'env.a', 'a', 'env ', '\ufeffenv', 'spectest', '\u00e9', 'e\u0301', 'env\0']
FLDS = ['a', 'b', 'A', '', 'env', 'a.b', 'b.a', '.', 'memory', 'a ', '\ufeffa', '\u00e9', 'e\u0301', '\0', 'env.a', '0', '1']


def names(job):
    """many imports under names which resemble each other, in several modules: every import denotes what stands under exactly its module
    and field name, the same name may be imported many times, and one name which is not there is enough to refuse"""
    r = job.rng
    for k in range(scale(250, 5000)):
        rt = core.Runtime()
        ran = []
        have = {}
        mods = r.sample(MODS, r.randint(1, 6))
        for a in mods:
            for b in r.sample(FLDS, r.randint(0, 6)):
                v = r.getrandbits(31)
                kind = r.choice(['func', 'func', 'global', 'memory', 'table'])
                if kind == 'func':
                    x = rt.allocate_func_host(pw.functype((), ('i32',)), lambda machine, args, v=v: ran.append(v) or [v])
                elif kind == 'global':
                    x = rt.allocate_global(core.GlobalType(pw.VT['i32'](), 0), core.ValInst.from_i32(v))
                elif kind == 'memory':
                    v %= 9
                    x = rt.allocate_memory(core.MemType(pw.limits(v, None)))
                else:
                    v %= 20
                    x = rt.allocate_table(core.TableType(pw.VT['funcref'](), pw.limits(v, None)))
                have[a, b] = kind, v, x
        rt.imports = {a: {b: have[a, b][2] for b in FLDS if (a, b) in have} for a in mods}
        m = Module()
        want = [r.choice(sorted(have)) for _ in range(r.choice([1, 3, 8, 20]))] if have else []
        want = [w for n, w in enumerate(want) if have[w][0] != 'memory' or w not in want[:n]]
        mem = [w for w in want if have[w][0] == 'memory']
        want = [w for w in want if have[w][0] != 'memory' or w == mem[0]]
        for a, b in want:
            kind = have[a, b][0]
            m.imports.append((a, b, kind, {'func': lambda: m.type((), ('i32',)), 'global': lambda: ('i32', False), 'memory': lambda: (0, None),
                                           'table': lambda: ('funcref', (0, None))}[kind]()))
        lost = None
        if r.random() < .4:
            lost = r.choice([(a, b) for a in mods + MODS for b in FLDS if (a, b) not in have] + [('nowhere', 'a')])
            m.imports.insert(r.randint(0, len(m.imports)), (*lost, 'func', m.type((), ('i32',))))
        cnt = dict.fromkeys(('func', 'global', 'table', 'memory'), 0)
        probes = []
        nf = m.nimp('func')
        for a, b in want if lost is None else ():
            kind, v, _ = have[a, b]
            i = cnt[kind]
            cnt[kind] += 1
            m.func((), ('i32',), [{'func': ('call', i), 'global': ('global.get', i), 'memory': ('memory.size',), 'table': ('table.size', i)}[kind]], export=f'p{len(probes)}')
            probes.append(((a, b), v))
        if lost is None and cnt['func'] and r.random() < .5:
            m.start = m.func((), (), [('call', 0), ('drop',)])
        elif lost is not None and nf > 1:
            m.start = m.func((), (), [('call', 1), ('drop',)])
        if not m.funcs:
            m.func((), (), [])
        b = m.encode()
        w = dict(module=b.hex()[:6000], names=sorted(have), lost=lost)
        err = inst = None
        try:
            inst = rt.instance(core.ModuleDesc.from_reader(io.BytesIO(b)))
        except Exception as e:
            err = e
        job.case(('names', len(have), len(want), lost, k, job.n))
        job.count('names refused' if lost else 'names linked')
        if lost is not None:
            if err is None or ran:
                job.violation('names:missing', f'an import of {lost}, which nobody provides, {"is linked" if err is None else "is refused after code ran"}', w)
            continue
        if err is not None:
            job.violation('names:refused', f'{len(want)} imports, each provided under exactly its name: {type(err).__name__}: {err}', w)
            continue
        for n, (nm, v) in enumerate(probes):
            job.count('names_resolved')
            got = rt.invocate(inst, f'p{n}', [])
            if got != [v]:
                job.violation('names:wrong', f'import {n} {nm} denotes {got}, not {v}', w)
                break


def random_programs(job):
    diff.fuzz(job, 'random', scale(250, 8000), lambda r: progen.Gen(r, PROF, mods=r.choice([2, 3, 4]), funcs=3, size=30, calls=6, start=.7, share=.9, fail_seg=.25))


def main():
    c = Check('C12', 'a distinct generated linking scenario whose instantiations, effects and later calls were compared with V8, or one embedder-provided import judged by the matching rules')
    c.run(targeted)
    c.run(hosts)
    c.run(names)
    c.run(random_programs)
    diff.fold_ops(c)
    for k in ('func', 'table', 'memory', 'global'):
        for s in ('match', 'mismatch'):
            c.require(f'{k} {s}', 50)
            c.require(f'host {k} {s}', 50)
    c.require('instantiations_failed', 500)
    c.require('names linked', 500)
    c.require('names refused', 300)
    c.finish()
