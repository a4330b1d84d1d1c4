import copy, io, os, shutil, tempfile
import diff, fam_mem, fam_tab, fam_trap, fam_var, families, progen, pw, wasidrv, wb
from families import call
from harness import Check, scale
from v8 import V8
from wb import Data, Elem, Module

core = pw.core
PROF = progen.profile(glob=10, load=6, store=8, table=4, bulk=4, ref=2)


def again(r, sc):
    """the same modules, decoded once, instantiated again (each with its own copies of everything not imported), calls interleaved"""
    k = r.choice([1, 1, 2])
    ids = {s['id'] for s in sc['steps'] if s['op'] == 'inst'}
    copies = []
    for n in range(k + 1):
        def sub(x):
            if isinstance(x, dict):
                return {a: (b + f'#{n}' if a in ('inst', 'id') and b in ids and n else sub(b)) for a, b in x.items()}
            if isinstance(x, list):
                return [sub(y) for y in x]
            return x
        st = [sub(s) for s in sc['steps']]
        for s in st:
            if s['op'] == 'inst':
                s['reuse'] = True
            if s['op'] == 'call':
                s['args'] = [tuple(a) for a in s['args']]
        copies.append(st)
    out = []
    if r.random() < .5:                       # all instances first
        n0 = [sum(1 for s in c if s['op'] == 'inst') for c in copies]
        heads = [[s for s in c if s['op'] == 'inst'] for c in copies]
        if all(s['op'] == 'inst' for c in copies for s in c[:n0[0]]):
            for h in heads:
                out += h
            copies = [c[n0[0]:] for c in copies]
    while any(copies):
        c = r.choice([c for c in copies if c])
        for _ in range(r.randint(1, 6)):
            if c:
                out.append(c.pop(0))
    return dict(sc, steps=out)


def small_tables(r):
    # the instances may share a table of the embedder: far from pywasm's own bound on the size of tables, also together
    return fam_tab.ops(r, large=False)


def segments(r):
    """passive segments of functions and bytes, initialised from and dropped again: what an instance finds in its segments are its own
    functions, and what it drops is dropped for nobody else"""
    m = Module()
    own = not r.random() < .3
    imp, host = [], {}
    if not own:
        host['tab'] = dict(kind='table', reftype='funcref', min=6, max=6)
        m.imports.append(('env', 'tab', 'table', ('funcref', (6, 6))))
        imp.append(['env', 'tab', {'host': 'tab'}])
    else:
        m.tables.append(('funcref', (6, r.choice([6, 8, 30, None]))))
    m.mems.append((1, r.choice([1, 2, 4, None])))
    m.globals.append(('i32', True, [('i32.const', 0)]))
    nf = m.type((), ('i32',))
    fs = [m.func((), ('i32',), [('global.get', 0), ('i32.const', 10 ** k), ('i32.add',), ('global.set', 0), ('global.get', 0)]) for k in range(4)]
    n = r.randint(1, 4)
    for k in range(n):
        it = [r.choice(fs) if r.random() < .8 else [('ref.null', 'funcref')] for _ in range(r.randint(1, 4))]
        m.elems.append(Elem(r.choice(['passive', 'passive', 'passive', 'active']), it, 0, [('i32.const', 1)]))
        m.datas.append(Data(r.choice(['passive', 'passive', 'active']), r.choice([b'same', b'same', r.randbytes(4)]), [('i32.const', 20)]))
    a3 = [('local.get', k) for k in range(3)]
    p3 = ('i32',) * 3
    for k in range(n):
        m.func(p3, (), a3 + [('table.init', k, 0)], export=f'ti{k}')
        m.func(p3, (), a3 + [('memory.init', k)], export=f'mi{k}')
        m.func((), (), [('elem.drop', k)], export=f'ed{k}')
        m.func((), (), [('data.drop', k)], export=f'dd{k}')
    m.func(('i32',), ('i32',), [('local.get', 0), ('call_indirect', nf, 0)], export='ci')
    m.func(('i32',), ('i64',), [('local.get', 0), ('i64.load', 0, 0)], export='ld')
    m.func((), ('i32',), [('global.get', 0)], export='g')
    m.func(('i32',), ('i32', 'i32'), [('ref.null', 'funcref'), ('local.get', 0), ('table.grow', 0), ('table.size', 0)], export='tg')
    m.func(('i32',), ('i32', 'i32'), [('local.get', 0), ('memory.grow',), ('memory.size',)], export='mg')
    steps = [dict(op='inst', id='A', mod=0, imports=imp)]
    for _ in range(28):
        k = r.randrange(n)
        q = r.choice(['ti', 'ti', 'ti', 'mi', 'mi', 'ci', 'ci', 'ci', 'ed', 'dd', 'ld', 'g', 'tg', 'mg'])
        if q in ('tg', 'mg'):
            steps.append(call('A', q, [('i32', r.choice([0, 1, 1, 2]))], ('i32', 'i32')))
        elif q in ('ti', 'mi'):
            steps.append(call('A', f'{q}{k}', [('i32', r.randrange(5)), ('i32', r.choice([0, 0, 1, 2])), ('i32', r.choice([1, 1, 2, 3]))], ()))
        elif q in ('ed', 'dd'):
            if r.random() < .4:
                steps.append(call('A', f'{q}{k}', [], ()))
        elif q == 'g':
            steps.append(call('A', 'g', [], ('i32',)))
        else:
            steps.append(call('A', q, [('i32', r.randrange(6) if q == 'ci' else r.choice([0, 1, 18, 20, 24]))], ('i32' if q == 'ci' else 'i64',)))
    return {'mods': [m.encode()], 'host': host, 'steps': steps}


FAM = [fam_mem.bulk, fam_mem.growth, small_tables, fam_tab.travel, fam_var.aliases, fam_trap.chain, families.contexts, families.crossing, segments]


def instances(job):
    v8 = V8()
    r = job.rng
    try:
        for k in range(scale(160, 3500)):
            if job.late():
                break
            if k & 1:
                sc = FAM[(k // 2 + job.n) % len(FAM)](r)
                tag = 'family'
            else:
                sc = progen.Gen(r, PROF, mods=r.choice([1, 1, 2]), funcs=5, size=35, calls=8, fuel=600).scenario()
                tag = 'random'
            sc = again(r, sc)
            diff.judge(job, v8, sc, 'reused module ' + tag, sample=[f'{s["op"]} {s.get("inst", s.get("id"))}' for s in sc['steps'][:12]])
            job.count('instances', sum(1 for s in sc['steps'] if s['op'] == 'inst'))
    finally:
        v8.close()


def runtimes(job):
    """two scenarios advanced alternately in two runtimes (the second also reusing decoded modules of the first) behave as alone"""
    r = job.rng
    for k in range(scale(60, 1500)):
        if job.late():
            break
        mk = lambda: progen.Gen(r, PROF, mods=r.choice([1, 2]), funcs=4, size=30, calls=6).scenario()
        a = mk()
        b = r.choice([mk, lambda: a])()
        alone = [pw.run(x)[0] for x in (a, b)]
        ctx = [pw.Ctx(x['host']) for x in (a, b)]
        if a is b:
            pass
        outs = [[], []]
        pos = [0, 0]
        sc = (a, b)
        while pos[0] < len(a['steps']) or pos[1] < len(b['steps']):
            i = r.choice([j for j in (0, 1) if pos[j] < len(sc[j]['steps'])])
            s = sc[i]['steps'][pos[i]]
            if a is b and s['op'] == 'inst' and r.random() < .5:      # share the decoded module between the runtimes
                s = dict(s, reuse=True)
                o = ctx[1 - i].inst.get(('desc', s['mod']))
                if o is not None:
                    ctx[i].inst[('desc', s['mod'])] = o
                    job.count('modules_shared_between_runtimes')
            pos[i] += 1
            got, _ = pw.run({'mods': sc[i]['mods'], 'host': sc[i]['host'], 'steps': [s]}, ctx=ctx[i])
            outs[i] += got
            job.evals += 1
        job.case(('rt', diff.digest(a), diff.digest(b), k))
        for i in (0, 1):
            for n, (x, y) in enumerate(zip(alone[i], outs[i])):
                if {**x, 'err': 'err' in x} != {**y, 'err': 'err' in y}:
                    job.violation('runtimes interfere', f'step {n} {str(sc[i]["steps"][n])[:100]} alone {str(x)[:120]}, next to another runtime {str(y)[:120]}',
                                  {'first': diff.replay(a), 'second': diff.replay(b), 'which': i, 'step': n})
                    return
        job.count('interleaved_runtime_pairs')


NEST = [families.ladder, families.loops, families.spin, families.spin, families.leaving, families.recursion, families.signature, families.contexts, fam_trap.chain]


def nested(job):
    """the calls of one runtime are made inside host functions of another, all of them running the same decoded modules: each runtime
    returns, traps and logs as it does alone, wherever the other was when it was interrupted"""
    r = job.rng
    for k in range(scale(110, 2500)):
        if job.late():
            break
        mk = lambda: r.choice(NEST)(r) if r.random() < .8 else progen.Gen(r, PROF, mods=r.choice([1, 2]), funcs=4, size=30, calls=6).scenario()
        n = r.choice([2, 2, 3])
        scs = [mk()]
        while len(scs) < n:
            scs.append(scs[0] if r.random() < .8 else mk())
        alone = [pw.run(x)[0] for x in scs]
        if any(x.get('hang') for o in alone for x in o):
            continue
        ctx = [pw.Ctx(x['host']) for x in scs]
        outs = [[] for _ in scs]
        share = r.random() < .9
        rate = r.choice([.05, .3, 1])
        left = [len(x['steps']) for x in scs]
        inner = [0]

        def advance(i):
            s = scs[i]['steps'][len(scs[i]['steps']) - left[i]]
            left[i] -= 1
            if share and s['op'] == 'inst':
                s = dict(s, reuse=True)
                for j in range(n):
                    if scs[j] is scs[i] and ('desc', s['mod']) in ctx[j].inst:
                        ctx[i].inst[('desc', s['mod'])] = ctx[j].inst[('desc', s['mod'])]
                        job.count('modules_shared_between_runtimes')
                        break
            c = ctx[i]
            c.trace, c.depth = [], 0
            try:
                o = {'ok': c.step(scs[i], s)}
            except Exception as e:
                o = {'err': type(e).__name__ + ':' + str(e)[:200]}
            if c.trace:
                o['trace'] = c.trace
            outs[i].append(o)

        def probe(i):
            def go(_):
                if left[i + 1] and r.random() < rate:
                    inner[0] += 1
                    advance(i + 1)
            return go
        for i in range(n - 1):
            ctx[i].probe = probe(i)
        while any(left):
            job.evals += 1
            i = min(j for j in range(n) if left[j]) if r.random() < .8 else r.choice([j for j in range(n) if left[j]])
            try:
                pw.guard(20)
                advance(i)
            except pw.Hang:
                job.violation('nested runtimes:hang', 'a call next to another runtime does not end', {'scenarios': [diff.replay(x) for x in scs]})
                return
            finally:
                pw.guard(0)
        job.case(('nested', [diff.digest(x) for x in scs], k))
        job.count('calls_inside_another_runtime', inner[0])
        for i in range(n):
            for q, (x, y) in enumerate(zip(alone[i], outs[i])):
                if {**x, 'err': 'err' in x} != {**y, 'err': 'err' in y}:
                    job.violation('nested runtimes', f'runtime {i} of {n}, step {q} {str(scs[i]["steps"][q])[:100]} alone {str(x)[:120]}, inside another runtime {str(y)[:120]}',
                                  {'scenarios': [diff.replay(z) for z in scs], 'which': i, 'step': q})
                    return


def fresh(job):
    """a new Runtime offers nothing: what was registered with one is found by its own modules, under the names given there, and by no other"""
    r = job.rng
    for k in range(scale(40, 800)):
        n = r.choice([2, 3, 5])
        rts, have = [], []

        def add():
            rts.append(core.Runtime())
            have.append({})
        add()
        hist = []
        for step in range(25):
            if len(rts) < n and r.random() < .25:
                add()
                hist.append('new')
            i = r.randrange(len(rts))
            rt, mine = rts[i], have[i]
            a, b = r.choice(['env', 'a', 'wasi_snapshot_preview1']), r.choice(['f', 'g'])
            job.evals += 1
            if r.random() < .4:
                v = r.getrandbits(20)
                x = rt.allocate_func_host(pw.functype((), ('i32',)), lambda machine, args, v=v: [v])
                how = r.choice(['new module', 'into', 'update', 'replace'])
                if how == 'new module':
                    rt.imports[a] = {b: x}
                    for q in [q for q in mine if q[0] == a]:
                        del mine[q]
                elif how == 'replace':
                    rt.imports = {a: {b: x}}
                    mine.clear()
                else:
                    rt.imports.setdefault(a, {})[b] = x
                mine[a, b] = v
                hist.append((i, how, a, b))
            else:
                m = Module()
                m.imports.append((a, b, 'func', m.type((), ('i32',))))
                m.func((), ('i32',), [('call', 0)], export='f')
                try:
                    got = rt.invocate(rt.instance(core.ModuleDesc.from_reader(io.BytesIO(m.encode()))), 'f', [])
                except Exception:
                    got = 'refused'
                want = [mine[a, b]] if (a, b) in mine else 'refused'
                hist.append((i, 'use', a, b))
                if got != want:
                    job.violation('imports of a runtime', f'{a}.{b} in runtime {i} of {len(rts)} gives {got}, not {want}', dict(history=hist))
                    return
        job.case(('fresh', repr(hist)))
        job.count('sets_of_runtimes')


def wasi(job):
    """several WASI objects in one process: arguments, environment, descriptors, directories and captured stdio stay their own"""
    wasidrv.drop()
    r = job.rng
    for k in range(scale(30, 600)):
        if job.late():
            break
        with wasidrv.Scratch() as tmp:
            n = r.choice([2, 3])
            gs = []
            for i in range(n):
                d = os.path.join(tmp, f'd{i}')
                os.mkdir(d)
                with open(os.path.join(d, 'own'), 'w') as f:
                    f.write(f'I am {i}')
                gs.append(wasidrv.Guest(args=[f'prog{i}'] + ['x'] * i, envs={f'K{i}': str(i)}, dirs={'/p': d}, capture=True))
            model = [dict(files={'own': f'I am {i}'.encode()}, out=b'', fds={}) for i in range(n)]
            hist = []
            for step in range(60):
                i = r.randrange(n)
                g, mo = gs[i], model[i]
                q = r.choice(['args', 'env', 'open', 'write', 'close', 'out', 'read', 'badfd'])
                hist.append((i, q))
                job.evals += 1
                exp = got = None
                if q == 'args':
                    exp, got = [f'prog{i}'] + ['x'] * i, g.args()
                elif q == 'env':
                    exp, got = [f'K{i}={i}'], g.environ()
                elif q == 'open':
                    nm = f'f{r.randrange(3)}'
                    e, fd = g.open(3, nm, oflags=1)
                    exp, got = (0, True), (e, fd not in mo['fds'])
                    mo['fds'][fd] = nm
                    mo['files'].setdefault(nm, b'')
                    hist[-1] += (nm, fd)
                elif q == 'write' and mo['fds']:
                    fd = r.choice(sorted(mo['fds']))
                    data = bytes([65 + i]) * r.randint(1, 4)
                    size = len(mo['files'][mo['fds'][fd]])
                    e, nw = g.pwrite(fd, [data], size)
                    exp, got = (0, len(data)), (e, nw)
                    mo['files'][mo['fds'][fd]] += data
                elif q == 'close' and mo['fds']:
                    fd = r.choice(sorted(mo['fds']))
                    exp, got = 0, g.call('fd_close', fd)
                    del mo['fds'][fd]
                elif q == 'out':
                    data = f'<{i}:{step}>'.encode()
                    exp, got = (0, len(data)), g.write(1, [data])
                    mo['out'] += data
                elif q == 'read' and mo['fds']:
                    fd = r.choice(sorted(mo['fds']))
                    exp, got = (0, mo['files'][mo['fds'][fd]]), g.pread(fd, [100], 0)
                elif q == 'badfd':
                    fd = max(mo['fds'], default=3) + 1
                    exp, got = 8, g.call('fd_close', fd)
                if exp != got:
                    job.violation(f'wasi isolation:{q}', f'WASI object {i} of {n}: {q}: got {got}, expected {exp}', dict(history=hist))
                    return
            for i in range(n):
                d = os.path.join(tmp, f'd{i}')
                tree = {x: open(os.path.join(d, x), 'rb').read() for x in os.listdir(d)}
                if gs[i].stdout() != model[i]['out'] or tree != model[i]['files']:
                    job.violation('wasi isolation:end', f'WASI object {i}: stdout or directory is not its own', dict(history=hist, tree=str(tree)))
            job.case(('wasi', repr(hist)), hist[:8])
            job.count('wasi_object_groups')
            for g in gs:
                g.close()


def main():
    c = Check('C14', 'a distinct set of instances, runtimes or WASI objects used side by side, each compared with its own behaviour alone (V8, solo run, or model)')
    c.run(instances)
    c.run(runtimes)
    c.run(nested)
    c.run(fresh)
    c.run(wasi)
    c.require('instances', 2000)
    c.require('interleaved_runtime_pairs', 200)
    c.require('calls_inside_another_runtime', 2000)
    c.require('sets_of_runtimes', 100)
    c.require('wasi_object_groups', 100)
    c.finish()
