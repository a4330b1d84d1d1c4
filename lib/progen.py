"""Random well-typed, terminating multi-module programs with observable behaviour, as scenarios for pw.py and v8.js.

Termination: every function entry and loop header burns one unit of a shared 'fuel' global and traps when it is gone.  Float results
that may be NaN pass through a canonicaliser, so that every observation is deterministic by the specification.
"""
import ops, wb
from numerics import nan_rule
from ops import OPS, TRAPPING

NUM = ('i32', 'i64', 'f32', 'f64')
JS = NUM + ('externref',)
REF = ('funcref', 'externref')
ALL = NUM + ('v128',) + REF
INT_OPS = [n for n, o in OPS.items() if o.ins is not None and not o.imm and o.prefix != 0xfd and n not in TRAPPING
           and all(t in ('i32', 'i64') for t in o.ins + o.outs)]
FLT_OPS = [n for n, o in OPS.items() if o.ins is not None and not o.imm and o.prefix != 0xfd and n not in TRAPPING
           and not all(t in ('i32', 'i64') for t in o.ins + o.outs)]
TRAP_OPS = sorted(TRAPPING)
SIMD_OPS = [n for n, o in OPS.items() if o.prefix == 0xfd and o.imm in ('', 'lane', 'shuffle') and o.ins is not None and nan_rule(n) is None]
LOADS = [n for n, o in OPS.items() if o.imm == 'mem' and o.outs]
STORES = [n for n, o in OPS.items() if o.imm == 'mem' and not o.outs]
LLANE = [n for n, o in OPS.items() if o.imm == 'memlane' and o.outs]
SLANE = [n for n, o in OPS.items() if o.imm == 'memlane' and not o.outs]

BASE = dict(const=6, local=8, glob=4, num=8, flt=2, trapop=1, simd=1, block=5, loop=3, if_=5, br=3, br_if=5, br_table=3, ret=1, unreachable=0.25,
            call=4, icall=3, log=6, select=3, drop=2, nop=1, load=3, store=3, bulk=0, msize=1, mgrow=0.3, table=0, ref=0.5)


def profile(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


class Mod:
    """A module under construction plus what its generator needs to know."""

    def __init__(self, rng, prof, v128=True, refs=True):
        self.r, self.P, self.m = rng, prof, wb.Module()
        self.imp = {'func': [], 'table': [], 'memory': [], 'global': []}    # link refs in import order
        self.gl = []          # (type, mut) all globals
        self.tabs = []        # (reftype, lo, hi)
        self.mem = None       # (lo, hi)
        self.sigs = []        # all function signatures
        self.pending = []     # defined functions still without a body: (index in m.funcs, params, results, exported)
        self.fuel = None
        self.types = list(ALL) if v128 and refs else [t for t in ALL if (v128 or t != 'v128') and (refs or t not in REF)]
        self.hist = {}

    def imports(self):
        return [x for k in ('func', 'table', 'memory', 'global') for x in self.imp[k]]

    def add_import(self, kind, desc, ref):
        n = f'{kind[0]}{len(self.imp[kind])}'
        ref = dict(ref)
        ref['as'] = ('env', n)
        self.imp[kind].append(ref)
        if kind == 'func':
            self.m.imports.append(('env', n, 'func', self.m.type(*desc)))
            self.sigs.append((tuple(desc[0]), tuple(desc[1])))
            return len(self.sigs) - 1
        self.m.imports.append(('env', n, kind, desc))
        if kind == 'table':
            self.tabs.append((desc[0],) + tuple(desc[1]))
            return len(self.tabs) - 1
        if kind == 'memory':
            self.mem = tuple(desc)
            return 0
        self.gl.append(tuple(desc))
        return len(self.gl) - 1

    def link(self):
        """import list for the 'inst' step"""
        return [[r['as'][0], r['as'][1], {k: v for k, v in r.items() if k != 'as'}] for r in self.imports()]

    def rtype(self, js=False):
        r = self.r
        if js:
            return r.choice(('i32', 'i32', 'i64', 'f32', 'f64', 'externref') if 'externref' in self.types else ('i32', 'i32', 'i64', 'f32', 'f64'))
        return r.choice(self.types + ['i32', 'i32', 'i32', 'i64'])

    def rtypes(self, n, js=False):
        return tuple(self.rtype(js) for _ in range(self.r.randint(0, n)))

    def const(self, t):
        r = self.r
        if t == 'i32':
            return ('i32.const', r.choice([0, 1, 2, 3, 7, 255, 65535, 65536, -1, 0x7fffffff, -0x80000000, r.getrandbits(32), r.randint(0, 40), r.randint(0, 40)]))
        if t == 'i64':
            return ('i64.const', r.choice([0, 1, 5, -1, 1 << 63, (1 << 63) - 1, 1 << 32, r.getrandbits(64), r.randint(0, 100)]))
        if t == 'f32':
            return ('f32.const', r.choice([0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x42280000, 1, r.getrandbits(30)]))
        if t == 'f64':
            return ('f64.const', r.choice([0, 1 << 63, 0x3ff << 52, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 1, r.getrandbits(62)]))
        if t == 'v128':
            return ('v128.const', bytes(r.getrandbits(8) for _ in range(16)) if r.random() < .6 else bytes([r.choice([0, 255, 128, 1])]) * 16)
        if t == 'funcref' and self.sigs and r.random() < .6:
            return ('ref.func', r.randrange(len(self.sigs)))
        return ('ref.null', t)


class Body:
    def __init__(self, M, params, results, locals, budget):
        self.M, self.r, self.P = M, M.r, M.P
        self.loc = list(params) + list(locals)
        self.results = tuple(results)
        self.out = []
        self.labels = [('func', self.results)]
        self.stack = []
        self.dead = False
        self.budget = budget
        self.depth = 0
        self.no_call = False
        self.nest = 0

    def e(self, *ins):
        self.out.append(ins)
        self.M.hist[ins[0]] = self.M.hist.get(ins[0], 0) + 1
        self.budget -= 1

    def burn(self):
        f = self.M.fuel
        self.out += [('global.get', f), ('i32.const', 1), ('i32.sub',), ('global.set', f), ('global.get', f), ('i32.const', 0), ('i32.lt_s',),
                     ('if', None), ('unreachable',), ('end',)]

    # -- operands
    def push(self, t):
        """a value of type t on top of whatever is there, without consuming"""
        st, self.stack = self.stack, []
        d, self.dead = self.dead, False
        self.nest += 1
        self.push1(t)
        self.nest -= 1
        assert self.stack == [t], (t, self.stack)
        self.stack, self.dead = st, d
        self.stack.append(t)

    def push1(self, t):
        r, M = self.r, self.M
        self.stack.append(t)
        k = r.random()
        if k >= .6 and (self.nest > 4 or self.budget < 0):
            k = r.choice([.1, .1, 1])
        if k < .45:
            c = [i for i, x in enumerate(self.loc) if x == t]
            if c:
                return self.e('local.get', r.choice(c))
            k = .5
        if k < .6:
            c = [i for i, x in enumerate(M.gl) if x[0] == t and i != M.fuel]
            if c:
                return self.e('global.get', r.choice(c))
            k = 1
        if .6 <= k < .68 and self.budget > 10 and self.depth < 6:
            self.stack.pop()
            self.block(r.choice(['block', 'if', 'loop']), (), (t,))
            return
        if .68 <= k < .72 and M.mem and t in NUM + ('v128',) and self.P['load']:
            self.stack.pop()
            self.load(r.choice([n for n in LOADS if OPS[n].outs == (t,)]))
            return
        if .72 <= k < .77 and t in NUM:
            self.stack.pop()
            self.num(r.choice([n for n in INT_OPS + FLT_OPS if OPS[n].outs == (t,)]))
            return
        self.e(*M.const(t))

    def need(self, ts):
        """make the top of the stack be ts"""
        ts = list(ts)
        if self.dead and len(self.stack) <= len(ts) and ts[len(ts) - len(self.stack):] == self.stack and self.r.random() < .6:
            self.stack[:] = ts          # the polymorphic stack supplies the rest
            return
        k = min(len(ts), len(self.stack))
        while k and self.stack[len(self.stack) - k:] != ts[:k]:
            k -= 1
        if k and self.r.random() < .2:
            k = 0                        # leave what is there underneath
        for t in ts[k:]:
            self.push(t)

    def take(self, ts):
        self.need(ts)
        n = len(self.stack) - len(ts)
        del self.stack[n:]

    def kill(self):
        self.dead = True
        self.stack = []

    # -- instruction kinds
    def num(self, name):
        o = OPS[name]
        self.take(o.ins)
        if o.imm == 'lane':
            self.e(name, self.r.randrange(o.lanes))
        elif o.imm == 'shuffle':
            self.e(name, bytes(self.r.randrange(32) for _ in range(16)))
        else:
            self.e(name)
        if nan_rule(name) is not None:
            self.e('call', self.M.canon[o.outs[0]])
        self.stack.extend(o.outs)

    def offset(self):
        r = self.r
        return r.choice([0, 0, 0, 0, 4, r.randint(0, 64), r.randint(0, 1000), r.choice([0xffffffff, 0x80000000, 0xffff0000, 65535, 65536, r.randint(0, 70000)])
                         if r.random() < .3 else 8])

    def addr(self):
        r = self.r
        k = r.random()
        if k < .45:
            self.e('i32.const', r.choice([0, r.randint(0, 200), r.randint(0, 200), r.randint(0, 65535), 65536 * r.randint(1, 3) - r.randint(0, 20)]))
            self.stack.append('i32')
        elif k < .96:
            self.need(('i32',))
            self.e('i32.const', r.choice([0xff, 0xfff, 0xffff]))
            self.e('i32.and')
        else:
            self.need(('i32',))

    def load(self, name):
        o = OPS[name]
        self.addr()
        self.stack.pop()
        self.e(name, self.r.randint(0, o.nat.bit_length() - 1), self.offset())
        self.stack.append(o.outs[0])

    def store(self, name):
        o = OPS[name]
        self.addr()
        self.stack.pop()
        self.push(o.ins[1])
        self.stack.pop()
        self.e(name, self.r.randint(0, o.nat.bit_length() - 1), self.offset())

    def block(self, kind, params, results):
        M, r = self.M, self.r
        if kind == 'if':
            self.need(tuple(params) + ('i32',))
            self.stack.pop()
        else:
            self.need(params)
        del self.stack[len(self.stack) - len(params):]
        if not params and not results:
            bt = None if r.random() < .8 else M.m.type((), ())
        elif not params and len(results) == 1 and r.random() < .7:
            bt = results[0]
        else:
            bt = M.m.type(params, results)
        self.e(kind, bt)
        outer, odead = self.stack, self.dead
        self.labels.append((kind, tuple(params) if kind == 'loop' else tuple(results)))
        self.depth += 1
        arms = 1
        if kind == 'if' and (tuple(params) != tuple(results) or r.random() < .7):
            arms = 2
        for a in range(arms):
            if a:
                self.e('else')
            self.stack, self.dead = list(params), False
            if kind == 'loop':
                self.burn()
            self.seq(r.randint(0, 6))
            self.close(results, kind == 'loop')
        self.depth -= 1
        self.labels.pop()
        self.e('end')
        self.stack, self.dead = outer, odead
        self.stack.extend(results)

    def close(self, results, loop=False):
        """make the whole stack of the block be exactly the results"""
        results = list(results)
        if self.dead:
            k = len(self.stack)
            if k <= len(results) and self.stack == results[len(results) - k:] and self.r.random() < .6:
                return
            while self.stack:
                self.e('drop')
                self.stack.pop()
            if self.r.random() < .5:
                return
        elif self.stack != results and self.r.random() < .25 and not loop:
            self.need(results)           # leave with junk underneath
            self.e('br', 0)
            self.kill()
            return
        while self.stack != results[:len(self.stack)]:
            if self.r.random() < .7 or self.stack[-1] not in JS or self.no_call:
                self.e('drop')
            else:
                self.log(self.stack[-1])
                continue
            self.stack.pop()
        for t in results[len(self.stack):]:
            self.push(t)

    def log(self, t):
        self.take((t,))
        self.e('call', self.M.logf[t])

    def label(self):
        n = len(self.labels)
        d = self.r.choice([0, self.r.randrange(n), self.r.randrange(n), n - 1])
        return d, self.labels[n - 1 - d][1]

    def seq(self, n):
        for _ in range(n):
            if self.budget <= 0:
                return
            self.one()
            if self.dead and self.r.random() < .5:
                return

    def one(self):
        r, M, P = self.r, self.M, self.P
        k = r.choices(list(P), list(P.values()))[0]
        if k == 'const':
            self.push(M.rtype())
        elif k == 'local':
            if not self.loc:
                return
            i = r.randrange(len(self.loc))
            w = r.random()
            if w < .3:
                self.e('local.get', i)
                self.stack.append(self.loc[i])
            elif w < .65:
                self.take((self.loc[i],))
                self.e('local.set', i)
            else:
                self.need((self.loc[i],))
                self.e('local.tee', i)
        elif k == 'glob':
            c = [i for i in range(len(M.gl)) if i != M.fuel]
            if not c:
                return
            i = r.choice(c)
            if M.gl[i][1] and r.random() < .6:
                self.take((M.gl[i][0],))
                self.e('global.set', i)
            else:
                self.e('global.get', i)
                self.stack.append(M.gl[i][0])
        elif k == 'num':
            self.num(r.choice(INT_OPS))
        elif k == 'flt':
            self.num(r.choice(FLT_OPS))
        elif k == 'trapop':
            self.num(r.choice(TRAP_OPS))
        elif k == 'simd':
            if 'v128' in M.types:
                self.num(r.choice(SIMD_OPS))
        elif k in ('block', 'loop', 'if_'):
            if self.depth >= P.get('maxdepth_', 8) or self.budget < 8:
                return
            kind = k.rstrip('_')
            np = r.choice([0, 0, 0, 1, 1, 2, 3])
            if np <= len(self.stack) and r.random() < .7 and not self.dead:
                params = tuple(self.stack[len(self.stack) - np:]) if kind != 'if' else tuple(self.stack[len(self.stack) - np:])
            else:
                params = tuple(M.rtype() for _ in range(np))
            self.block(kind, params, tuple(M.rtype() for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3]))))
        elif k == 'br':
            if r.random() < .4 and not self.dead:
                return
            d, ts = self.label()
            self.need(ts)
            self.e('br', d)
            self.kill()
        elif k == 'br_if':
            d, ts = self.label()
            self.need(ts + ('i32',))
            self.stack.pop()
            self.e('br_if', d)
        elif k == 'br_table':
            d, ts = self.label()
            n = len(self.labels)
            same = [j for j in range(n) if self.labels[n - 1 - j][1] == ts]
            self.need(ts + ('i32',))
            if not self.dead and r.random() < .8:
                self.e('i32.const', r.choice([1, 3, 7]))
                self.e('i32.and')
            self.e('br_table', [r.choice(same) for _ in range(r.choice([0, 1, 2, 3, 5]))], r.choice(same))
            self.kill()
        elif k == 'ret':
            if r.random() < .6 and self.depth == 0:
                return
            self.need(self.results)
            self.e('return')
            self.kill()
        elif k == 'unreachable':
            self.e('unreachable')
            self.kill()
        elif k == 'call':
            if self.no_call or not M.callable:
                return
            f = r.choice(M.callable)
            ps, rs = M.sigs[f]
            self.take(ps)
            self.e('call', f)
            self.stack.extend(rs)
        elif k == 'icall':
            c = [i for i, t in enumerate(M.tabs) if t[0] == 'funcref']
            if self.no_call or not c:
                return
            ti = r.randrange(len(M.m.types)) if r.random() < .15 else M.m.types.index(r.choice(M.sigs))
            if r.random() < .3:          # any structurally equal type
                ti = r.choice([i for i, t in enumerate(M.m.types) if t == M.m.types[ti]])
            ps, rs = M.m.types[ti]
            self.need(ps)
            tb = r.choice(c)
            idx = r.random()
            right = [i for i, s in M.slots.get(tb, []) if s == (ps, rs)]
            if right and idx < .75:
                self.e('i32.const', r.choice(right))
            else:
                self.push('i32')
                self.stack.pop()
                if idx < .95:
                    self.e('i32.const', 7)
                    self.e('i32.and')
            del self.stack[len(self.stack) - len(ps):]
            self.e('call_indirect', ti, tb)
            self.stack.extend(rs)
        elif k == 'log':
            if self.no_call:
                return
            c = [t for t in self.stack[-1:] if t in M.logf]
            self.log(c[0] if c and r.random() < .8 else r.choice(list(M.logf)))
        elif k == 'select':
            t = self.stack[-1] if self.stack and r.random() < .5 else M.rtype()
            self.need((t, t, 'i32'))
            del self.stack[-2:]
            if t in REF or r.random() < .4:
                self.e('select_t', (t,))
            else:
                self.e('select')
        elif k == 'drop':
            if self.stack:
                self.stack.pop()
                self.e('drop')
            elif self.dead:
                self.e('drop')
        elif k == 'nop':
            self.e('nop')
        elif k == 'load':
            if M.mem:
                if 'v128' in M.types and r.random() < .1:
                    n = r.choice(LLANE)
                    o = OPS[n]
                    self.addr()
                    self.push('v128')
                    self.e(n, r.randint(0, o.nat.bit_length() - 1), self.offset(), r.randrange(o.lanes))
                    del self.stack[-2:]
                    self.stack.append('v128')
                else:
                    self.load(r.choice([n for n in LOADS if OPS[n].outs[0] in M.types]))
        elif k == 'store':
            if M.mem:
                if 'v128' in M.types and r.random() < .1:
                    n = r.choice(SLANE)
                    o = OPS[n]
                    self.addr()
                    self.push('v128')
                    self.e(n, r.randint(0, o.nat.bit_length() - 1), self.offset(), r.randrange(o.lanes))
                    del self.stack[-2:]
                else:
                    self.store(r.choice([n for n in STORES if OPS[n].ins[1] in M.types]))
        elif k == 'msize':
            if M.mem:
                self.e('memory.size')
                self.stack.append('i32')
        elif k == 'mgrow':
            if M.mem:
                # implementations may refuse to grow at any size: stay far below every limit, or far above
                self.e('memory.size')
                self.e('i32.const', 40)
                self.e('i32.lt_u')
                self.e('if', 'i32')
                self.e('i32.const', r.choice([0, 0, 1, 1, 2, 3, 65537, -1] + ([65536, 65535, 1000] if M.mem[1] is not None else [])))
                self.e('memory.grow')
                self.e('else')
                self.e('i32.const', -2)
                self.e('end')
                self.stack.append('i32')
        elif k == 'bulk':
            self.bulk()
        elif k == 'table':
            self.table()
        elif k == 'ref':
            if not any(t in REF for t in M.types):
                return
            t = r.choice(REF)
            self.take((t,))
            self.e('ref.is_null')
            self.stack.append('i32')
        else:
            assert k == 'maxdepth_', k

    def small(self, hi, wild=.08):
        """an i32 bounded by hi, sometimes not"""
        r = self.r
        if r.random() < wild:
            self.e('i32.const', r.choice([hi, hi + 1, -1, 0x7fffffff, hi * 2]))
        elif r.random() < .6:
            self.e('i32.const', r.randint(0, hi))
        else:
            self.push('i32')
            self.stack.pop()
            self.e('i32.const', max(hi, 1))
            self.e('i32.rem_u')

    def bulk(self):
        r, M = self.r, self.M
        if not M.mem:
            return
        k = r.randrange(4)
        if k == 0:
            self.small(65536)
            self.push('i32')
            self.stack.pop()
            self.small(r.choice([0, 10, 300]))
            self.e('memory.fill')
        elif k == 1:
            a = r.randint(0, 65530)
            if r.random() < .7:          # overlapping
                self.e('i32.const', a + r.randint(-20, 20) if a > 20 else a)
                self.e('i32.const', a)
                self.small(60)
            else:
                self.small(65536)
                self.small(65536)
                self.small(200)
            self.e('memory.copy')
        elif M.m.datas:
            i = r.randrange(len(M.m.datas))
            if k == 2:
                n = len(M.m.datas[i].init)
                self.small(65536)
                self.small(max(n // 2, 0), .15)
                self.small(max(n // 2, 0), .15)
                self.e('memory.init', i)
            elif r.random() < .4:
                self.e('data.drop', i)

    def table(self):
        r, M = self.r, self.M
        if not M.tabs:
            return
        i = r.randrange(len(M.tabs))
        t, lo, hi = M.tabs[i]
        k = r.randrange(9)
        if k == 0:
            self.small(max(lo - 1, 0))
            self.e('table.get', i)
            self.stack.append(t)
        elif k in (1, 2):
            self.small(max(lo - 1, 0))
            self.push(t)
            self.stack.pop()
            self.e('table.set', i)
        elif k == 3:
            self.e('table.size', i)
            self.stack.append('i32')
        elif k == 4:
            self.e('table.size', i)
            self.e('i32.const', 100)
            self.e('i32.lt_u')
            self.e('if', 'i32')
            self.labels.append(('if', ('i32',)))
            self.push(t)
            self.stack.pop()
            self.e('i32.const', r.choice([0, 1, 1, 2, 3, -1]))
            self.e('table.grow', i)
            self.labels.pop()
            self.e('else')
            self.e('i32.const', -2)
            self.e('end')
            self.stack.append('i32')
        elif k == 5:
            self.small(lo)
            self.push(t)
            self.stack.pop()
            self.small(max(lo // 2, 1))
            self.e('table.fill', i)
        elif k == 6:
            c = [j for j, x in enumerate(M.tabs) if x[0] == t]
            j = r.choice(c)
            self.small(lo)
            self.small(M.tabs[j][1])
            self.small(max(min(lo, M.tabs[j][1]) // 2, 1))
            self.e('table.copy', i, j)
        elif k == 7:
            c = [j for j, x in enumerate(M.m.elems) if x.reftype == t]
            if c:
                j = r.choice(c)
                self.small(lo)
                self.small(len(M.m.elems[j].items), .1)
                self.small(max(len(M.m.elems[j].items) // 2, 0), .1)
                self.e('table.init', j, i)
        elif M.m.elems and r.random() < .3:
            self.e('elem.drop', r.randrange(len(M.m.elems)))


class Gen:
    """A whole scenario."""

    def __init__(self, rng, prof=None, mods=None, funcs=4, size=40, v128=True, refs=True, mem=True, tables=True, hosts=True, fuel=250,
                 start=0.3, share=0.6, calls=8, dup_types=True, fail_seg=0.03, tprobe=False):
        self.r = rng
        self.prof = prof or profile()
        self.fuel, self.size = fuel, size
        self.opt = dict(v128=v128, refs=refs, mem=mem, tables=tables, hosts=hosts, funcs=funcs, start=start, share=share, dup=dup_types, fail_seg=fail_seg)
        self.tprobe = tprobe
        self.host = {}
        self.avail = []       # (kind, desc, ref) exportable things of earlier modules / hosts
        self.mods, self.modobj, self.steps = [], [], []
        self.hist = {}
        self.mkhosts()
        for i in range(mods if mods is not None else rng.choice([1, 1, 2, 3])):
            self.module(i)
        self.plan(calls)

    def mkhosts(self):
        r = self.r
        js = NUM + (('externref',) if self.opt['refs'] else ())
        for t in js:
            self.host['log_' + t] = dict(kind='func', params=[t], results=[], beh='mix')
        if self.opt['hosts']:
            for i in range(r.randint(1, 3)):
                ps = [r.choice(js) for _ in range(r.randint(0, 4))]
                rs = [r.choice(js) for _ in range(r.randint(0, 3))]
                beh = r.choices(['mix', 'throwodd', 'throw', 'reenter'], [5, 2, .4, 4])[0]
                d = dict(kind='func', params=ps, results=rs, beh=beh)
                if beh == 'reenter':
                    d.update(target=None, catch=r.random() < .5)
                self.host[f'h{i}'] = d
        if r.random() < self.opt['share'] and self.opt['mem']:
            lo = r.choice([0, 1, 1, 1, 2])
            self.host['hm'] = dict(kind='memory', min=lo, max=r.choice([None, lo, lo + 1, lo + 3]))
        if r.random() < self.opt['share'] and self.opt['tables']:
            lo = r.randint(4, 9)
            self.host['ht'] = dict(kind='table', reftype='funcref', min=lo, max=r.choice([None, lo, lo + 3]))
        if r.random() < self.opt['share']:
            for i in range(r.randint(1, 2)):
                t = r.choice(NUM)
                v = {'i32': r.getrandbits(32), 'i64': r.getrandbits(64), 'f32': 0x3fc00000, 'f64': 0xc00c << 48}[t]
                self.host[f'hg{i}'] = dict(kind='global', type=t, mut=r.random() < .7, value=str(v))
        for id, d in self.host.items():
            if d['kind'] == 'func':
                self.avail.append(('func', (tuple(d['params']), tuple(d['results'])), {'host': id}))
            elif d['kind'] == 'memory':
                self.avail.append(('memory', (d['min'], d['max']), {'host': id}))
            elif d['kind'] == 'table':
                self.avail.append(('table', (d['reftype'], (d['min'], d['max'])), {'host': id}))
            else:
                self.avail.append(('global', (d['type'], d['mut']), {'host': id}))

    def imp_limits(self, lim):
        """limits an import may declare to match an actual (lo, hi)"""
        lo, hi = lim
        r = self.r
        return r.randint(0, lo) if r.random() < .3 else lo, (None if hi is None or r.random() < .4 else hi + r.choice([0, 0, 1, 5]))

    def module(self, n):
        r, o = self.r, self.opt
        M = Mod(r, self.prof, o['v128'], o['refs'])
        inst = f'I{n}'
        m = M.m
        self.fail_seg = o['fail_seg'] if n else 0
        # imports
        logs = {}
        for kind, desc, ref in self.avail:
            if kind == 'func' and ref.get('host', '').startswith('log_'):
                logs[ref['host'][4:]] = M.add_import('func', desc, ref)
        M.logf = logs
        for kind, desc, ref in self.avail:
            if ref.get('fuel'):
                M.fuel = M.add_import('global', desc, ref)
                continue
            if kind == 'func' and ref.get('host', '').startswith('log_'):
                continue
            if kind == 'memory' and (M.mem or not o['mem']):
                continue
            p = .7 if 'host' in ref else .45
            if kind == 'memory':
                p = o['share']
            if r.random() < p:
                if kind == 'memory':
                    M.add_import('memory', self.imp_limits(desc), ref)
                elif kind == 'table':
                    M.add_import('table', (desc[0], self.imp_limits(desc[1])), ref)
                else:
                    M.add_import(kind, desc, ref)
        nimpf = len(M.sigs)
        # definitions
        if not M.mem and o['mem'] and r.random() < .85:
            lo = r.choice([0, 1, 1, 1, 1, 2, 2]) if r.random() < .4 else 1
            M.mem = (lo, r.choice([None, lo, lo + 1, lo + 2]))
            m.mems.append(M.mem)
        if o['tables']:
            for t in (['funcref'] if r.random() < .8 or not o['refs'] else []) + (['externref'] if r.random() < .5 and o['refs'] else []) + (['funcref'] if r.random() < .2 else []):
                lo = r.choice([0, 3, 6, 8, 12])
                hi = r.choice([None, lo, lo + 2, lo + 5])
                M.tabs.append((t, lo, hi))
                m.tables.append((t, (lo, hi)))
        imp_const = [i for i, g in enumerate(M.gl) if not g[1] and i != M.fuel]
        if M.fuel is None:
            M.fuel = len(M.gl)
            M.gl.append(('i32', True))
            m.globals.append(('i32', True, [('i32.const', 0)]))
            m.exports.append(('fuel', 'global', M.fuel))
        nf = r.randint(1, o['funcs'])
        sigs = []
        for i in range(nf):
            js = r.random() < .75
            sigs.append(((M.rtypes(5, js)), (M.rtypes(3, js))) if r.random() < .9 else (M.rtypes(9, js), M.rtypes(6, js)))
        if r.random() < .6:               # a target host functions can reenter
            sigs.append((tuple(r.choice(['i32', 'i64']) for _ in range(r.randint(0, 3))), tuple(r.choice(['i32', 'i64']) for _ in range(r.randint(0, 2)))))
        if o['dup'] and r.random() < .4:
            for s in r.sample(sigs, min(2, len(sigs))):
                m.types.append(s)
        canon0 = nimpf
        M.canon = {}
        for t, eq, c in (('f32', 'f32.eq', ('f32.const', 0x7fc00000)), ('f64', 'f64.eq', ('f64.const', 0x7ff8 << 48))):
            M.canon[t] = m.func((t,), (t,), [('local.get', 0), c, ('local.get', 0), ('local.get', 0), (eq,), ('select',)])
            M.sigs.append(((t,), (t,)))
        base = nimpf + 2
        M.sigs += [(tuple(a), tuple(b)) for a, b in sigs]
        for s in M.sigs:
            m.type(*s)
        M.callable = [i for i in range(len(M.sigs)) if i not in logs.values() and not (canon0 <= i < base)]
        for _ in range(r.randint(0, 5)):
            t = M.rtype()
            mut = r.random() < .75
            c = [i for i in imp_const if M.gl[i][0] == t]
            if c and r.random() < .5:
                init = [('global.get', r.choice(c))]
            else:
                init = [M.const(t)]
                if init[0][0] == 'ref.func' and init[0][1] >= len(M.sigs):
                    init = [('ref.null', t)]
            m.globals.append((t, mut, init))
            M.gl.append((t, mut))
        # segments
        M.slots = {}
        allf = list(range(len(M.sigs)))
        if M.tabs:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                mode = r.choices(['active', 'passive', 'declarative'], [5, 3, 1])[0]
                tb = r.randrange(len(M.tabs))
                t, lo, hi = M.tabs[tb]
                k = r.randint(0, 5)
                if t == 'funcref':
                    items = [r.choice(allf) if r.random() < .85 else [('ref.null', 'funcref')] for _ in range(k)]
                else:
                    items = [[('ref.null', 'externref')] for _ in range(k)]
                if mode == 'active':
                    if k > lo and r.random() > self.fail_seg:
                        items = items[:lo]
                        k = len(items)
                    off = r.randint(0, max(lo - k, 0)) if r.random() > self.fail_seg else r.choice([lo, lo + 1, -1, max(lo - k + 1, 0)])
                    if t == 'funcref':
                        for j, it in enumerate(items):
                            if isinstance(it, int):
                                M.slots.setdefault(tb, []).append((off + j, M.sigs[it]))
                    c = [i for i in imp_const if M.gl[i][0] == 'i32']
                    oe = [('global.get', r.choice(c))] if c and r.random() < .1 else [('i32.const', off)]
                    m.elems.append(wb.Elem('active', items, tb, oe, t))
                else:
                    m.elems.append(wb.Elem(mode, items, reftype=t))
        m.elems.append(wb.Elem('declarative', allf))
        if M.mem:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                init = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 7, 30, 100])))
                if r.random() < .5:
                    room = M.mem[0] * 65536 - len(init)
                    off = r.choice([0, r.randint(0, 100), max(room, 0)]) if r.random() > self.fail_seg else r.choice([max(room, 0) + 1, -1, 65536])
                    if room < 0 and r.random() > self.fail_seg:
                        init, off = b'', 0
                    m.datas.append(wb.Data('active', init, [('i32.const', off)]))
                else:
                    m.datas.append(wb.Data('passive', init))
        # bodies
        for i, (ps, rs) in enumerate(sigs):
            loc = [M.rtype() for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
            B = Body(M, ps, rs, loc, r.randint(5, self.size))
            B.burn()
            B.seq(10 ** 6 if r.random() < .5 else r.randint(1, 12))
            B.close(rs)
            ti = [k for k, t in enumerate(m.types) if t == (tuple(ps), tuple(rs))]
            if not ti:
                ti = [m.type(ps, rs)]
            m.funcs.append(wb.Func(r.choice(ti), loc, B.out))
            if all(t in JS for t in ps + rs):
                m.exports.append((f'f{i}', 'func', base + i))
        # table readers, so that the contents can be observed
        for i, (t, lo, hi) in enumerate(M.tabs):
            if t == 'externref':
                m.func(('i32',), ('externref',), [('local.get', 0), ('table.get', i)], export=f'tget{i}')
            else:
                m.func(('i32',), ('i32',), [('local.get', 0), ('table.get', i), ('ref.is_null',)], export=f'tnull{i}')
            m.exports.append((f't{i}', 'table', i))
        for i, g in enumerate(M.gl):
            if i != M.fuel and g[0] in JS and r.random() < .8:
                m.exports.append((f'g{i}', 'global', i))
        if M.mem:
            m.exports.append(('mem', 'memory', 0))
        if r.random() < .2 and nimpf > len(logs):
            x = r.choice([i for i in range(nimpf) if i not in logs.values()])
            if all(t in JS for t in M.sigs[x][0] + M.sigs[x][1]):
                m.exports.append(('reexport', 'func', x))
        if r.random() < (o['start'] if n else o['start'] / 3):
            B = Body(M, (), (), (), 25)
            B.out += [('i32.const', self.fuel // 3), ('global.set', M.fuel)]
            B.seq(6)
            B.close(())
            m.start = m.func((), (), B.out, B.loc)
        for k, v in M.hist.items():
            self.hist[k] = self.hist.get(k, 0) + v
        self.mods.append(self.encode(m))
        self.modobj.append(M)
        self.steps.append(dict(op='inst', id=inst, mod=n, imports=M.link()))
        # what later modules may import
        for nm, kind, idx in m.exports:
            if kind == 'func':
                s = m.functype(idx)
                if not nm.startswith('t'):
                    self.avail.append(('func', s, {'inst': inst, 'export': nm}))
            elif kind == 'global':
                self.avail.append(('global', M.gl[idx], {'inst': inst, 'export': nm, **({'fuel': 1} if nm == 'fuel' else {})}))
            elif kind == 'memory':
                imported = m.nimp('memory')
                if not imported:
                    self.avail.append(('memory', M.mem, {'inst': inst, 'export': nm}))
            elif kind == 'table':
                if idx >= m.nimp('table'):
                    t = M.tabs[idx]
                    self.avail.append(('table', (t[0], (t[1], t[2])), {'inst': inst, 'export': nm}))
        for d in self.host.values():
            if d.get('beh') == 'reenter' and d['target'] is None:
                c = [(nm, m.functype(i)) for nm, k, i in m.exports if k == 'func' and nm[0] == 'f'
                     and all(t in ('i32', 'i64') for t in m.functype(i)[0] + m.functype(i)[1])]
                if c:
                    nm, s = r.choice(c)
                    d['target'] = [inst, nm, list(s[0])]

    def encode(self, m):
        return m.encode()

    def arg(self, t):
        r = self.r
        if t == 'i32':
            return r.choice([0, 1, 2, 0xffffffff, 0x80000000, r.getrandbits(32), r.randint(0, 50)])
        if t == 'i64':
            return r.choice([0, 1, (1 << 64) - 1, 1 << 63, r.getrandbits(64), r.randint(0, 50)])
        if t == 'f32':
            return r.choice([0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x42280000, r.getrandbits(30), 0x7fc00000])
        if t == 'f64':
            return r.choice([0, 1 << 63, 0x3ff << 52, 0x7ff << 52, r.getrandbits(62), 0x7ff8 << 48])
        return r.choice([None, r.randint(0, 1000)])

    def observe(self):
        r = self.r
        """steps which read all exported state"""
        out = []
        for n, M in enumerate(self.modobj):
            inst = f'I{n}'
            for nm, kind, idx in M.m.exports:
                if kind == 'global' and nm != 'fuel' and M.gl[idx][0] in NUM:
                    out.append(dict(op='gget', g={'inst': inst, 'export': nm}, t=M.gl[idx][0]))
                elif kind == 'memory':
                    out.append(dict(op='memhash', mem={'inst': inst, 'export': nm}))
                elif kind == 'table':
                    out.append(dict(op='tsize', tab={'inst': inst, 'export': nm}))
                    t, lo, hi = M.tabs[idx]
                    for j in range(min(lo + 1, 9)) if self.tprobe else r.sample(range(min(lo + 1, 9)), 1):
                        out.append(dict(op='call', inst=inst, name=f'{"tget" if t == "externref" else "tnull"}{idx}', args=[['i32', j]],
                                        results=['externref' if t == 'externref' else 'i32']))
        return out

    def plan(self, calls):
        r = self.r
        fn = [(f'I{n}', nm, M.m.functype(i)) for n, M in enumerate(self.modobj) for nm, k, i in M.m.exports if k == 'func' and not nm.startswith('t')]
        if r.random() < .25 and len(self.modobj) > 1 and calls > 3:    # the same module again, later
            pass
        for d in self.host.values():
            if d.get('beh') == 'reenter' and d['target'] is None:
                d['beh'] = 'mix'
        self.steps += self.observe()
        for _ in range(calls if fn else 0):
            inst, nm, (ps, rs) = r.choice(fn)
            self.steps.append(dict(op='gset', g={'inst': 'I0', 'export': 'fuel'}, t='i32', v=str(r.choice([self.fuel, self.fuel, 20, 3]))))
            self.steps.append(dict(op='call', inst=inst, name=nm, args=[[t, self.arg(t)] for t in ps], results=list(rs)))
            if r.random() < .3:
                self.steps += self.observe()
        self.steps += self.observe()

    def scenario(self):
        return {'mods': self.mods, 'host': self.host, 'steps': self.steps}
