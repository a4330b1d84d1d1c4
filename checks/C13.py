import io
import diff, fam_inst, fam_trap, progen, pw
from families import const
from harness import Check, scale
from wb import Data, Elem, Module

core = pw.core
PROF = progen.profile(trapop=8, unreachable=1, icall=6, load=5, store=5, bulk=2, table=3, call=6, flt=3)
FAM = fam_trap.FAM + [fam_inst.segments]


def targeted(job):
    diff.families(job, FAM, scale(130, 3000))


def random_programs(job):
    diff.fuzz(job, 'random', scale(350, 10000), lambda r: progen.Gen(r, PROF, mods=r.choice([1, 2, 3]), funcs=5, size=40, calls=10, fail_seg=.1, fuel=r.choice([30, 250])))


class Odd(BaseException):
    """an interruption (as KeyboardInterrupt) rather than an Exception"""


def storm(job):
    """one runtime, thousands of aborted calls of every kind in between successful ones: state equals that of a model which only keeps
    the effects made before each abort; interpreter stacks never grow"""
    r = job.rng
    for _ in range(scale(2, 30)):
        if job.late():
            return
        rt = core.Runtime()
        m = Module()
        kinds = [ValueError, RuntimeError, AssertionError, KeyError, RecursionError, MemoryError, Odd, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration]
        exc = [ValueError]

        def boom(machine, args):
            raise exc[0]('host')

        def ok(machine, args):
            return [args[0] + 1]
        inst = []

        def nest(machine, args):
            try:
                rt.invocate(inst[0], 'go', [args[0]])
                return [0]
            except BaseException:
                return [1]
        i1 = pw.functype(('i32',), ('i32',))
        rt.imports = {'e': {'boom': rt.allocate_func_host(i1, boom), 'ok': rt.allocate_func_host(i1, ok), 'nest': rt.allocate_func_host(i1, nest)}}
        for nm in ('boom', 'ok', 'nest'):
            m.imports.append(('e', nm, 'func', m.type(('i32',), ('i32',))))
        m.mems.append((1, 1))
        m.tables.append(('funcref', (4, 4)))
        m.datas.append(Data('passive', b'abcd'))
        m.elems.append(Elem('active', [1], 0, [('i32.const', 1)]))
        m.globals.append(('i32', True, [('i32.const', 0)]))
        nk = 12
        body = []
        bump = lambda n: [('global.get', 0), ('i32.const', n), ('i32.add',), ('global.set', 0)]
        for v in range(nk):
            d = r.randint(0, 4)
            body += [('local.get', 0), ('i32.const', v), ('i32.eq',), ('if', None)] + [(r.choice(['block', 'loop']), None)] * d + ([const(r, 'i64')] * 3 if d else [])
            body += bump(v + 1) + (fam_trap.trap_code(r, m, 0) if v else [('i32.const', 0), ('call', 0), ('drop',)]) + [('unreachable',)] + [('end',)] * d + [('end',)]
        body += bump(1000) + [('local.get', 0), ('i32.const', 7), ('i32.mul',)]
        m.func(('i32',), ('i32',), body, export='go')
        m.func(('i32',), ('i32',), bump(3) + [('i32.const', 50), ('block', 'i32'), ('i32.const', 1), ('local.get', 0), ('call', 3), ('i32.add',), ('end',), ('i32.add',)] + bump(30), export='deep')
        m.func(('i32',), ('i32',), bump(5) + [('i32.const', 500), ('local.get', 0), ('call', 2), ('i32.add',)] + bump(50), export='nested')
        m.func((), ('i32',), [('global.get', 0)], export='g')
        rec = len(m.imports) + len(m.funcs)
        m.func(('i32',), ('i32',), [('local.get', 0), ('i32.eqz',), ('if', 'i32'), ('i32.const', 9), ('else',), ('local.get', 0), ('i32.const', 1), ('i32.sub',),
                                    ('call', rec), ('end',)], export='rec')
        inst.append(rt.instance(core.ModuleDesc.from_reader(io.BytesIO(m.encode()))))
        model = 0
        n = scale(400, 3000)
        hist = []
        for step in range(n):
            nm = r.choice(['go', 'deep', 'nested'])
            a = r.choice([*range(nk), 100 + r.randrange(50)])
            exc[0] = r.choice(kinds)
            hist.append((nm, a, exc[0].__name__))
            want = None
            inner = a + 1 if a < nk else 1000
            model += inner
            if nm == 'deep':
                model += 3
            elif nm == 'nested':
                model += 5
            if nm == 'nested':
                want = 501 if a < nk else 500
                model += 50
            elif a >= nk:
                want = a * 7 if nm == 'go' else a * 7 + 51
                if nm == 'deep':
                    model += 30
            got = None
            try:
                got = rt.invocate(inst[0], nm, [a])
            except BaseException as e:
                if isinstance(e, pw.Hang):
                    raise
                job.count('aborted calls')
                job.count('abort ' + type(e).__name__)
            job.evals += 1
            w = dict(module=m.encode().hex(), calls=hist[-30:], step=step)
            if (got is None) != (want is None) or (got is not None and got != [want]):
                job.violation('storm:result', f'call {nm}({a}) after {step} mixed calls: {got}, expected {want}', w)
                return
            if rt.invocate(inst[0], 'g', []) != [model]:
                job.violation('storm:effects', f'state after {nm}({a}): {rt.invocate(inst[0], "g", [])}, expected {model}', w)
                return
            d = pw.depths(rt)
            if d != (0, 0, 0):
                job.violation('storm:residue', f'interpreter stacks hold {d} after an aborted call ({nm}({a}), host raises {exc[0].__name__})', w)
                return
        # a drought: nothing but aborted calls for a long time, then everything has to work as ever
        n = scale(5000, 20000)
        for step in range(n):
            nm, a = r.choice(['go', 'go', 'deep']), r.randrange(nk)
            exc[0] = r.choice(kinds)
            model += a + 1 + 3 * (nm == 'deep')
            try:
                got = rt.invocate(inst[0], nm, [a])
            except BaseException as e:
                if isinstance(e, pw.Hang):
                    raise
                continue
            job.violation('storm:no trap', f'{nm}({a}) returns {got} after {step} aborted calls', w)
            return
        job.count('aborted calls in a row', n)
        for nm, a, want in (('rec', [300], 9), ('g', [], model), ('go', [101], 707), ('g', [], model + 1000), ('nested', [0], 501), ('g', [], model + 1056)):
            try:
                got = rt.invocate(inst[0], nm, a)
            except Exception as e:
                got = pw.short(e) if hasattr(pw, 'short') else repr(e)
            if got != [want]:
                job.violation('storm:drought', f'after {n} aborted calls in a row {nm}({a}) gives {got}, expected {want}', w)
                return
        if pw.depths(rt) != (0, 0, 0):
            job.violation('storm:residue', f'interpreter stacks hold {pw.depths(rt)} after many aborted calls', w)
            return
        job.case(('storm', m.encode()), [x[0] + str(x[1]) for x in hist[:10]])
        job.count('storms')


def piles(job):
    """computations aborted at the top of deep stacks of operands, labels and frames, in calls and in start functions, called by the embedder and
    from within host functions, by traps and by exceptions of every kind: nothing stays behind, the waiting computations go on"""
    r = job.rng
    kinds = [ValueError, AssertionError, Odd, KeyboardInterrupt, SystemExit, GeneratorExit]
    i1 = pw.functype(('i32',), ('i32',))
    for _ in range(scale(14, 300)):
        if job.late():
            return
        rt = core.Runtime()
        inst, exc, seen = [], [ValueError], []
        sub = {}

        def host(machine, args):
            n = args[0]
            if n == 0:
                return [7]
            if n == 1:
                raise exc[0]('host')
            # aborts inside of this computation
            before = pw.depths(rt)
            try:
                if n < 100:
                    rt.invocate(inst[0], 'pile', [n - 2, 1])
                else:
                    rt.instance(sub[n])
                seen.append('returns')
            except pw.Hang:
                raise
            except BaseException as e:
                seen.append(type(e).__name__)
            if pw.depths(rt) != before:
                seen.append(f'stacks {before} become {pw.depths(rt)}')
            return [1000 + n]
        rt.imports = {'e': {'h': rt.allocate_func_host(i1, host)}}

        def build(start=None):
            m = Module()
            m.imports.append(('e', 'h', 'func', m.type(('i32',), ('i32',))))
            m.globals.append(('i32', True, [('i32.const', 0)]))
            K = r.choice([0, 1, 3, 20, 300, 5000, 9000])
            J = r.choice([0, 1, 5, 60])
            T = r.choice(['i32', 'i64', 'f64', 'v128'])
            kinds_of_block = [r.choice(['block', 'loop']) for _ in range(J)]
            f = len(m.imports)
            body = [const(r, T)] * K + [(b, 'i32') for b in kinds_of_block]
            body += [('local.get', 0), ('i32.eqz',), ('if', 'i32'), ('global.get', 0), ('i32.const', 1), ('i32.add',), ('global.set', 0), ('local.get', 1), ('call', 0),
                     ('else',), ('local.get', 0), ('i32.const', 1), ('i32.sub',), ('local.get', 1), ('call', f), ('end',)]
            body += [('end',)] * J + [('local.set', 0)] + [('drop',)] * K + [('local.get', 0), ('i32.const', 1), ('i32.add',)]
            m.func(('i32', 'i32'), ('i32',), body, export='pile')
            m.func((), ('i32',), [('global.get', 0)], export='g')
            if start is not None:
                m.start = m.func((), (), [const(r, 'i64')] * K + [('i32.const', start), ('i32.const', 1), ('call', f), ('drop',)] + [('drop',)] * K)
            return m, K
        m, K = build()
        deep = max(1, min(40, 20000 // (K + 1)))
        inst.append(rt.instance(core.ModuleDesc.from_reader(io.BytesIO(m.encode()))))
        for n in range(100, 103):
            sub[n] = core.ModuleDesc.from_reader(io.BytesIO(build(r.choice([0, 1, 3]))[0].encode()))
        count = 0
        w = dict(module=m.encode().hex() if K < 1000 else 'K %d' % K)
        for step in range(12):
            d = r.choice([0, 1, 2, deep])
            n = r.choice([0, 1, 1, 2, 3, 5, 100, 101, 102])
            exc[0] = r.choice(kinds)
            del seen[:]
            count += 1 + (2 <= n < 100)
            want = [(7 if n == 0 else 1000 + n) + d + 1] if n != 1 else exc[0].__name__
            try:
                if n >= 100 and d == 0 and r.random() < .5:
                    count -= 1
                    want = exc[0].__name__
                    rt.instance(sub[n])
                    got = 'instance'
                else:
                    got = rt.invocate(inst[0], 'pile', [d, n])
            except pw.Hang:
                raise
            except BaseException as e:
                got = type(e).__name__
            job.evals += 1
            job.count('aborted at depth')
            rep = dict(w, depth=d, kind=n, exception=exc[0].__name__, blocks=len(m.encode()))
            if n > 1 and want != exc[0].__name__ and seen != [exc[0].__name__]:
                job.violation('piles:inner', f'a computation in a host function that is aborted by {exc[0].__name__}: {seen}', rep)
                return
            if got != want:
                job.violation('piles:result', f'pile({d}, {n}) gives {got}, expected {want}', rep)
                return
            if pw.depths(rt) != (0, 0, 0):
                job.violation('piles:residue', f'interpreter stacks hold {pw.depths(rt)} after pile({d}, {n}), {K} operands per call, gave {got}', rep)
                return
            if rt.invocate(inst[0], 'g', []) != [count]:
                job.violation('piles:effects', f'{rt.invocate(inst[0], "g", [])} effects after pile({d}, {n}), expected {count}', rep)
                return
        job.case(('piles', K, len(m.encode())))
        job.count('piles')


def main():
    c = Check('C13', 'a distinct generated program in which aborted calls, their effects and every later call were compared with V8 or a model')
    c.run(targeted)
    c.run(random_programs)
    c.run(storm)
    c.run(piles)
    diff.fold_ops(c)
    c.require('traps_compared', 3000)
    c.require('aborted calls', 1500)
    c.require('storms', 8)
    c.require('piles', 50)
    c.require('aborted at depth', 500)
    c.require('aborted calls in a row', 8000)
    c.finish()
