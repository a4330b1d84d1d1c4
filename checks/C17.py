"""Determinism: one observation (results, traps, host calls, memories, globals, tables) per program, taken again under other circumstances:
debug logging, a runtime and process with a past, fresh processes with other hash seeds, after the collector ran, on another thread."""
import collections, gc, io, os, pickle, struct, subprocess, sys, threading
import damage, diff, fam_inst, fam_mem, fam_tab, fam_trap, fam_var, families, observe, progen, pw, wb
from harness import Check, scale
from wb import Messy

FAM = [families.ladder, families.loops, families.leaving, families.signature, families.indirect, families.contexts, families.recursion] + \
    sorted({f for l in (fam_inst.FAM, fam_mem.FAM, fam_tab.FAM, fam_trap.FAM, fam_var.FAM) for f in l}, key=lambda f: f.__name__)
PROF = progen.profile(simd=4, table=3, ref=3, bulk=3, flt=6, call=5, icall=4, load=5, store=5, trapop=3)


def scenario(r, v=None):
    k = r.random()
    if k < .45:
        return r.choice(FAM)(r)
    if k < .85:
        return progen.Gen(r, PROF, mods=r.choice([1, 2]), funcs=5, size=40, calls=8, fail_seg=.1).scenario()
    sc = progen.Gen(r, PROF, mods=2, funcs=3, size=15, calls=2).scenario()
    bad = []
    for m in sc['mods']:
        b = bytearray(m)
        for _ in range(r.choice([0, 1, 3])):
            at = r.randrange(8, len(b))
            if r.random() < .5:
                b[at] = r.getrandbits(8)
            else:
                del b[at:at + r.choice([1, 2, 9])]
            if len(b) < 12:
                break
        bad.append(bytes(b))
    return dict(decode=True, mods=bad, steps=[])


def child(scs, debug, reuse, hashseed, limit=3000, extra=None):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VF_REPO=pw.REPO, **(extra or {}))
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(observe.__file__)), 'observe.py')],
                       input=pickle.dumps(dict(scenarios=scs, debug=debug, reuse=reuse, limit=limit)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=1000)
    if p.returncode:
        return p.stderr.decode(errors='replace')[-800:]
    return pickle.loads(p.stdout)


def work(job):
    r = job.rng
    shared = pw.core.Runtime()
    for batch in range(scale(4, 200)):
        if job.late():
            break
        scs, ref, keep = [], [], []
        for _ in range(24):
            sc = scenario(r)
            scs.append(sc)
            # what came before stays alive, so nothing can be taken for it
            keep.append(pw.core.Runtime())
            a, n = observe.observe(sc, keep[-1])
            ref.append(a)
            job.count('programs')
            if n:
                job.violation('noise', f'{n} lines are printed without debug logging', diff.replay(sc) if not sc.get('decode') else dict(mods=[m.hex() for m in sc['mods']]))
            if not sc.get('decode'):
                job.count('traps', sum(1 for x in a[0] if 'err' in x))
                job.count('host_calls', sum(len(x.get('trace', ())) for x in a[0]))
                job.count('calls_returned', sum(1 for x in a[0] if 'ok' in x))
            else:
                job.count('decodes', len(a))

        def same(how, k, b):
            job.count('comparisons')
            job.case((how, diff.digest(scs[k])))
            if b != ref[k]:
                job.violation(f'differs:{how}', f'a program behaves differently {how}: observation{observe.first(ref[k], b)}'[:280],
                              dict(scenario=diff.replay(scs[k]) if not scs[k].get('decode') else [m.hex() for m in scs[k]['mods']], how=how))
                return False
            return True
        order = list(range(len(scs)))
        for k in order:
            b, n = observe.observe(scs[k], debug=True)
            job.count('log_lines', n)
            if not same('with debug logging', k, b):
                break
        # instances come and go, the new ones at the addresses of old ones
        keep.clear()
        gc.collect()
        gc.freeze()
        for k in [r.randrange(len(scs)) for _ in range(3 * len(scs))]:
            if not same('in the same process, later', k, observe.observe(scs[k])[0]):
                break
            gc.collect()
            job.count('turnovers')
        gc.unfreeze()
        r.shuffle(order)
        for k in order:
            if not same('in a runtime used before', k, observe.observe(scs[k], shared)[0]):
                break
        if batch % 2 == 0:
            # on a thread, with the collector running all the time
            out = []
            old = gc.get_threshold()

            def run():
                gc.set_threshold(5)
                for k in order[:8]:
                    out.append((k, observe.observe(scs[k])[0]))
            # watchdog timers of the driver only work on the main thread
            guard, pw.guard = pw.guard, lambda s: None
            try:
                t = threading.Thread(target=run)
                t.start()
                t.join()
            finally:
                pw.guard = guard
                gc.set_threshold(*old)
            for k, b in out:
                if not same('on another thread', k, b):
                    break
            if len(out) != len(order[:8]):
                job.violation('thread', 'a program which runs on the main thread fails on another thread', dict(done=len(out)))
        picks = [(False, True, r.randrange(1, 1000), 'in a fresh process'), (True, False, 0, 'in a fresh process with debug logging')] if batch % 2 else [(False, False, r.randrange(1, 1 << 32), 'in a fresh process')]
        for debug, reuse, hs, how in picks:
            r.shuffle(order)
            res = child([scs[k] for k in order], debug, reuse, hs)
            if isinstance(res, str):
                job.violation(f'process:{how}', f'{how} the programs do not run: {res[-150:]}', dict(stderr=res))
                continue
            job.count('processes')
            for k, (b, n) in zip(order, res):
                if not same(how, k, b):
                    break
    if len(shared.machine.store.func) > 5:
        job.count('reused_runtimes')


def variant(r):
    """small modules of one shape in which the same numbers (of types, functions, globals, segments, places in the code) mean different things"""
    m = wb.Module()
    ts = []
    for k in range(6):
        t = tuple(r.choice(['i32', 'i64']) for _ in range(r.randrange(3))), tuple(r.choice(['i32', 'i64', 'f64']) for _ in range(1 + r.randrange(3)))
        if t not in ts:
            ts.append(t)
            m.type(*t)
    log = m.type(('i32',), ())
    m.imports.append(('env', 'log', 'func', log))
    m.mems.append((r.randrange(3), r.choice([None, 3, 5])))
    m.tables.append(('funcref', (8, r.choice([None, 8, 9]))))
    g = [r.choice(['i32', 'i64']) for _ in range(3)]
    for t in g:
        m.globals.append((t, r.random() < .5, [(f'{t}.const', r.randrange(-9, 9))]))

    def const(t):
        return (f'{t}.const', struct.pack('<d', float(r.randrange(9))) if t == 'f64' else r.randrange(-99, 99))
    n = 0

    def f(res, body, params=(), locals=()):
        nonlocal n
        m.func(params, res, body, locals, export=f'f{n}')
        n += 1
    for p, q in ts[:4]:
        k = m.type(p, q)
        ps = [const(t) for t in p]
        f(('i32',) + q, [const('i32')] + ps + [('block', k)] + [('drop',)] * len(p) + [const('i64')] + [const(t) for t in q] + [('br', 0), ('end',)])
        f(('i32',) + q, [const('i32')] + ps + [('loop', k)] + [('drop',)] * len(p) + [const(t) for t in q] + [('end',)])
        f(q, ps + [('i32.const', r.randrange(2)), ('if', k)] + [('drop',)] * len(p) + [const(t) for t in q] + [('else',)] + [('drop',)] * len(p) + [const(t) for t in q] + [('end',)])
        f(q, ps + [('i32.const', r.randrange(8)), ('call_indirect', k, 0)])
        f(q, [const(t) for t in q], p)
    fs = list(range(1, n + 1))
    for _ in range(3):
        k = r.choice(fs)
        p, q = m.functype(k)
        f(q, [const(t) for t in p] + [('call', k)])
    for k, t in enumerate(g):
        f((t,), [('global.get', k)])
        if m.globals[k][1]:
            f((t,), [const(t), ('global.set', k), ('global.get', k)])
    f(('i32',), [('block', None)] * 3 + [('i32.const', r.randrange(5)), ('br_table', [r.randrange(3) for _ in range(3)], r.randrange(3)), ('end',), const('i32'), ('return',), ('end',), const('i32'), ('return',),
                                           ('end',), const('i32')])
    f(('i32',), [('memory.size',), ('i32.const', r.randrange(3)), ('memory.grow',), ('i32.const', 10), ('i32.mul',), ('i32.add',)])
    f(('i64',), [('i32.const', r.randrange(12)), ('i64.load', 0, r.randrange(4))])
    f(('i32',), [('i32.const', r.randrange(9)), ('table.get', 0), ('ref.is_null',)])
    f(('i32',), [('i32.const', r.randrange(4)), ('i32.const', 0), ('i32.const', r.randrange(5)), ('memory.init', 1), ('i32.const', 0), ('i32.load', 0, 0), ('data.drop', 1)])
    f((), [const('i32'), ('call', 0), const('i32'), ('call', 0)])
    f(('v128',), [('v128.const', bytes(r.getrandbits(8) for _ in range(16)))])
    f(('i32', 'i64'), [('local.get', 0), ('local.get', 1)], (), ['i32', 'i64'])
    m.elems.append(wb.Elem('active', [r.choice(fs) for _ in range(r.randrange(6))], 0, [('i32.const', r.randrange(3))]))
    m.datas.append(wb.Data('active' if m.mems[0][0] else 'passive', bytes(r.getrandbits(8) for _ in range(16)), [('i32.const', r.randrange(3))]))
    m.datas.append(wb.Data('passive', bytes(r.getrandbits(8) for _ in range(r.randrange(6)))))
    return m.encode(), n


def play(rt, blob, n):
    """everything the functions of a variant return, without anything which would keep the runtime alive"""
    import pywasm
    out = []

    def log(_, a):
        out.append(a[0])
        return []
    rt.imports['env'] = {'log': (rt.allocate_func_host(pywasm.FuncType([pywasm.ValType.i32()], []), log))}
    inst = rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(blob)))
    for k in range(n):
        try:
            out.append([bytes(x) if isinstance(x, bytearray) else x for x in rt.invocate(inst, f'f{k}', [])])
        except Exception as e:
            out.append(type(e).__name__)
    return out


def turnover(job):
    """instances and whole runtimes come and go, at once given back and used again: only what a module says may decide what it does"""
    import pywasm
    r = job.rng
    for round in range(scale(2, 60)):
        if job.late():
            break
        vs, ref, keep = [], [], []
        for _ in range(12):
            v = variant(r)
            keep.append(pywasm.core.Runtime())
            vs.append(v)
            ref.append(play(keep[-1], *v))
            job.count('variant_results', sum(1 for x in ref[-1] if not isinstance(x, str)))
        keep.clear()
        for _ in range(150):
            k = r.randrange(len(vs))
            got = play(pywasm.core.Runtime(), *vs[k])
            job.count('turnovers')
            if got != ref[k]:
                job.violation('differs:after runtimes which are gone', f'a program behaves differently after runtimes which are gone: {observe.first(ref[k], got)}'[:250],
                              dict(module=vs[k][0].hex(), got=repr(got), first=repr(ref[k])))
                break
        job.case(('turnover', tuple(v[0] for v in vs)))
        rt = pywasm.core.Runtime()
        for _ in range(40):
            k = r.randrange(len(vs))
            got = play(rt, *vs[k])
            job.count('turnovers')
            if got != ref[k]:
                job.violation('differs:after other modules', f'a program behaves differently after other modules in the same runtime: {observe.first(ref[k], got)}'[:250],
                              dict(module=vs[k][0].hex(), got=repr(got), first=repr(ref[k])))
                break


def main():
    c = Check('C17', 'a distinct (circumstance, program) pair whose whole observation was compared with the first one')
    c.run(work)
    c.run(turnover)
    for k, n in (('programs', 500), ('comparisons', 2000), ('traps', 500), ('host_calls', 1500), ('calls_returned', 3000), ('decodes', 100), ('log_lines', 50000), ('processes', 30), ('turnovers', 4000), ('variant_results', 1500), ('reused_runtimes', 8)):
        c.require(k, n)
    c.finish()
