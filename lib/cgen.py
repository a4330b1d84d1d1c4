"""Random C programs compiled to WebAssembly by clang at every optimisation level: the code real compilers make (jump tables, a stack pointer in
a global, function pointers in a table, vectorised loops, bulk memory) as a workload.  Both engines get the same bytes, so what C leaves undefined
does not matter as long as the program ends: loops and calls burn fuel."""
import os, shutil, subprocess, tempfile

INT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
FLT = ['f32', 'f64']
HEAD = '''typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned u32;
typedef long long i64; typedef unsigned long long u64; typedef float f32; typedef double f64;
#define NI __attribute__((noinline))
__attribute__((import_module("env"), import_name("log"))) void hlog(u32, u64);
void *memcpy(void *d, const void *s, unsigned long n) { volatile char *a = d; const char *b = s; for (unsigned long i = 0; i < n; i++) a[i] = b[i]; return d; }
void *memmove(void *d, const void *s, unsigned long n) { volatile char *a = d; volatile const char *b = s;
  if ((unsigned long)d < (unsigned long)s) for (unsigned long i = 0; i < n; i++) a[i] = b[i]; else for (unsigned long i = n; i-- > 0;) a[i] = b[i]; return d; }
void *memset(void *d, int c, unsigned long n) { volatile char *a = d; for (unsigned long i = 0; i < n; i++) a[i] = c; return d; }
static u32 fuel; static u64 acc;
static inline u32 bits32(f32 x) { union { f32 f; u32 u; } v; v.f = x; return x != x ? 0x7fc0dead : v.u; }
static inline u64 bits64(f64 x) { union { f64 f; u64 u; } v; v.f = x; return x != x ? 0x7ff8dead00000000ull : v.u; }
static inline void mix(u64 x) { acc = (acc ^ x) * 0x100000001B3ull; acc ^= acc >> 29; }
static inline u32 rotl(u32 x, u32 n) { n &= 31; return x << n | x >> ((32 - n) & 31); }
static inline u64 rotr(u64 x, u64 n) { n &= 63; return x >> n | x << ((64 - n) & 63); }
'''
V = '''typedef %s %s __attribute__((vector_size(16)));
'''
VEC = {'vb': ('i8', 16), 'vB': ('u8', 16), 'vh': ('i16', 8), 'vH': ('u16', 8), 'vi': ('i32', 4), 'vI': ('u32', 4), 'vl': ('i64', 2), 'vL': ('u64', 2), 'vf': ('f32', 4), 'vd': ('f64', 2)}


def available():
    return shutil.which('clang') is not None and (shutil.which('wasm-ld') or shutil.which('wasm-ld-18')) is not None


class C:
    def __init__(self, r):
        self.r = r
        self.out = []
        self.floats = r.random() < .5
        self.vecs = r.random() < .35
        self.arrays = []       # (name, type, size a power of two)
        self.funcs = []        # (name, result, params)
        self.seen = set()
        self.n = 0

    def types(self):
        return INT + FLT * 2 if self.floats else INT

    def name(self, p='v'):
        self.n += 1
        return f'{p}_{self.n}'

    def const(self, t):
        r = self.r
        if t in FLT:
            return r.choice(['0.0', '-0.0', '1.0', '0.5', '-1.5', '1e10', '3.25e-3', '16777217.0', '1e-40', '2147483648.0', f'{r.uniform(-1e4, 1e4):.6e}']) + ('f' if t == 'f32' else '')
        n = r.choice([r.randrange(-3, 300), 1 << r.randrange(64), (1 << r.randrange(64)) - 1, r.getrandbits(64), r.getrandbits(16)])
        return f'(({t}){n & (1 << 64) - 1}ull)'

    def expr(self, t, d, vars):
        """an expression of type t"""
        r = self.r
        same = [v for v, x in vars if x == t]
        if d <= 0 or r.random() < .12:
            if same and r.random() < .7:
                return r.choice(same)
            return self.const(t)
        k = r.random()
        e = lambda x=t, dd=d - 1: self.expr(x, dd, vars)
        if t in FLT:
            if k < .5:
                return f'({e()} {r.choice("+-*/")} {e()})'
            if k < .62:
                return f'(({t})({e(r.choice(self.types()))}))'
            if k < .7:
                s = 'f' if t == 'f32' else ''
                return f'__builtin_{r.choice(["floor", "ceil", "trunc", "rint", "nearbyint", "fabs", "sqrt"])}{s}({e()})'
            if k < .78:
                return f'(-({e()}))'
        else:
            if k < .42:
                op = r.choice(['+', '-', '*', '&', '|', '^', '+', '-', '&', '^'])
                return f'(({t})({e()} {op} {e()}))'
            if k < .52:
                w = 64 if '64' in t else 32
                return f'(({t})(({t})({e()}) {r.choice(["<<", ">>"])} ({e("u8", d - 2)} & {w - 1 if "32" in t or "64" in t else int(t[1:]) - 1})))'
            if k < .58:
                return f'(({t})({e()} {r.choice("/%")} ({t})({e()} | 1)))' if r.random() < .97 else f'(({t})({e()} / {e()}))'
            if k < .66:
                x = r.choice(self.types())
                return f'(({t})({e(x)} {r.choice(["<", ">", "<=", ">=", "==", "!="])} {e(x)}))'
            if k < .72:
                return f'(({t})({e(r.choice(INT))}))'
            if k < .75 and self.floats:
                x = r.choice(FLT)
                return f'(({t})({e(x)}))'
            if k < .8:
                self.seen.add('bits')
                return f'(({t})(' + r.choice([f'__builtin_popcountll({e("u64")})', f'__builtin_clz({e("u32")} | 1)', f'__builtin_ctzll({e("u64")} | 256)', f'__builtin_bswap32({e("u32")})',
                                 f'rotl({e("u32")}, {e("u32", d - 2)})', f'rotr({e("u64")}, {e("u64", d - 2)})', f'__builtin_bswap64({e("u64")})', f'(~{e()})', f'(-{e()})', f'!{e()}']) + '))'
        if k < .9:
            x = r.choice(self.types())
            return f'({e(x, d - 2)} {r.choice(["<", ">", "==", "!="])} {e(x, d - 2)} ? {e()} : {e()})'
        arrs = [a for a in self.arrays if a[1] == t]
        if arrs and k < .97:
            a = r.choice(arrs)
            return f'{a[0]}[{e("u32", d - 2)} & {a[2] - 1}]'
        fs = [f for f in self.usable if f[1] == t]
        if fs:
            f = r.choice(fs)
            return f'{f[0]}({", ".join(e(x, d - 2) for x in f[2])})'
        return e()

    def mixin(self, t, x):
        return {'f32': f'mix(bits32({x}));', 'f64': f'mix(bits64({x}));'}.get(t, f'mix((u64){x});')

    def stmts(self, n, d, vars, loop, rett, ind):
        for _ in range(n):
            self.stmt(d, vars, loop, rett, ind)

    def put(self, ind, s):
        self.out.append('  ' * ind + s)

    def stmt(self, d, vars, loop, rett, ind):
        r = self.r
        k = r.random()
        E = lambda t, dd=3: self.expr(t, dd, vars)
        if d <= 0:
            k *= .45
        if k < .2:
            v, t = r.choice(vars)
            self.put(ind, f'{v} = {E(t)};' if r.random() < .6 or t in FLT else f'{v} {r.choice(["+=", "-=", "^=", "*=", "|=", "&="])} {E(t)};')
        elif k < .33 and self.arrays:
            a = r.choice(self.arrays)
            self.put(ind, f'{a[0]}[{E("u32", 2)} & {a[2] - 1}] {r.choice(["=", "+=", "-="])} {E(a[1])};')
        elif k < .37:
            v, t = r.choice(vars)
            self.put(ind, self.mixin(t, v))
        elif k < .40:
            self.put(ind, f'hlog({E("u32", 2)}, {E("u64", 2)});')
        elif k < .43 and self.arrays:
            a, b = r.choice(self.arrays), r.choice(self.arrays)
            if b[1] not in FLT and a[1] not in FLT or a[1] == b[1]:
                n = r.choice([1, 2, 3, 4, 8, 13, 16, 31, 40])
                n = min(n, a[3] // 2, b[3] // 2)
                self.put(ind, f'fuel -= fuel > {n} ? {n} : fuel;')
                n -= n % {'f32': 4, 'f64': 8}.get(a[1], 1)
                g = a[3] // a[2]
                x = f'(char *){a[0]} + ({E("u32", 1)} % {a[3] // g - n // g - 1}) * {g}'
                g = b[3] // b[2]
                y = f'(char *){b[0]} + ({E("u32", 1)} % {b[3] // g - n // g - 1}) * {g}'
                self.put(ind, f'__builtin_{"memmove" if a == b else r.choice(["memcpy", "memmove"])}({x}, {y}, {n});')
                self.seen.add('memcpy')
                if a[1] not in FLT and r.random() < .4:
                    self.put(ind, f'__builtin_memset({x}, {r.randrange(256)}, {n});')
        elif k < .45:
            self.indirect(vars, ind)
        elif k < .58:
            self.put(ind, f'if ({E(r.choice(self.types()), 2)}) {{')
            self.stmts(r.randrange(1, 4), d - 1, vars, loop, rett, ind + 1)
            if r.random() < .5:
                self.put(ind, '} else {')
                self.stmts(r.randrange(1, 3), d - 1, vars, loop, rett, ind + 1)
            self.put(ind, '}')
        elif k < .7:
            i = self.name('i')
            n = r.choice([2, 3, 5, 8, 17, 33])
            if r.random() < .6:
                t = r.choice(['u32', 'i32', 'u8', 'i64', 'u16'])
                self.put(ind, f'for ({t} {i} = 0; {i} < {n} && fuel; {i}++) {{')
            else:
                self.put(ind, f'u32 {i} = {n};')
                self.put(ind, f'do {{')
            self.put(ind + 1, 'if (fuel) fuel--;')
            at = len(self.out)
            self.stmts(r.randrange(1, 4), d - 1, vars + [(i, 'u32')] if self.out[at - 2].lstrip().startswith('do') and False else vars, True, rett, ind + 1)
            if self.out[at - 2].strip() == 'do {':
                self.put(ind, f'}} while (fuel && {i} && --{i});')
            else:
                self.put(ind, '}')
        elif k < .8:
            self.seen.add('switch')
            n = r.choice([3, 5, 9, 20])
            t = r.choice(['u32', 'u64', 'i32', 'u8'])
            base = r.choice([0, 0, 1, 100, 1 << 20])
            step = r.choice([1, 1, 1, 7])
            self.put(ind, f'switch (({t})({E(t, 2)} % {n + 2} * {step} + ({t}){base})) {{')
            for c in range(n):
                if r.random() < .85:
                    if t == 'u8' and c * step + base > 255:
                        continue
                    self.put(ind, f'case {c * step + base}:')
                    if r.random() < .8:
                        self.stmts(1, d - 1, vars, loop, rett, ind + 1)
                        if r.random() < .75:
                            self.put(ind + 1, 'break;')
            if r.random() < .7:
                self.put(ind, 'default:')
                self.stmts(1, d - 1, vars, loop, rett, ind + 1)
            self.put(ind, '}')
        elif k < .84 and loop:
            self.put(ind, f'if ({E("u32", 2)} {r.choice(["<", ">", "=="])} {E("u32", 1)}) {r.choice(["break", "continue"])};')
        elif k < .87:
            self.put(ind, f'if ({E("u8", 2)} == {r.randrange(4)}) return {E(rett)};')
        elif k < .93:
            self.kernel(ind)
        elif self.vecs:
            self.vec(vars, ind)
        else:
            v, t = r.choice(vars)
            w = self.name()
            self.put(ind, f'{t} {w}[{(s := r.choice([4, 8, 16]))}]; for (u32 j = 0; j < {s}; j++) {w}[j] = ({t})({v} + ({t})j); sink_{t}({w}); {v} = {w}[{E("u32", 1)} & {s - 1}];')
            self.seen.add('local array')

    def indirect(self, vars, ind):
        if not self.ftab:
            return
        self.seen.add('function pointer')
        r = self.r
        nm, t, ps, n = r.choice(self.ftab)
        self.put(ind, self.mixin(t, f'{nm}[{self.expr("u32", 2, vars)} & {n - 1}]({", ".join(self.expr(p, 1, vars) for p in ps)})'))

    def kernel(self, ind):
        """a loop the vectoriser likes"""
        r = self.r
        if not self.arrays:
            return
        t = r.choice(self.arrays)[1]
        arrs = [a for a in self.arrays if a[1] == t]
        a, b, c = r.choice(arrs), r.choice(arrs), r.choice(arrs)
        n = min(a[2], b[2], c[2]) - r.choice([0, 0, 1, 3])
        i = self.name('k')
        self.seen.add('kernel')
        if t in FLT:
            op = r.choice(['{a} + {b} * {c}', '{b} - {c}', '{b} < {c} ? {b} : {c}', '{b} > {c} ? {b} : -{c}', '{b} * {b}', '-{b}', '{b} / ({c} + 1)'])
        else:
            op = r.choice(['{a} + {b} * {c}', '{b} - {c}', '{b} < {c} ? {b} : {c}', '{b} > {c} ? {b} : {c}', '{b} ^ ({c} >> 3)', '~{b} & {c}', '({b} << 2) | ({c} & 3)', '{b} < 0 ? -{b} : {b}', '{b} == {c} ? 1 : {a}', '({b} + {c} + 1) >> 1',
                           '{b} & 1 ? {c} : {a}'])
        x = op.format(a=f'{a[0]}[{i}]', b=f'{b[0]}[{i}]', c=f'{c[0]}[{i}]')
        k = r.random()
        if k < .6 or t in FLT:
            self.put(ind, f'if (fuel > {n + 4}) for (u32 {i} = (fuel -= {n}, 0); {i} < {max(n, 1)}; {i}++) {a[0]}[{i}] = ({t})({x});')
        else:
            s = self.name('s')
            acc = r.choice(['u32', 'u64', t, 'i64', 'i32'])
            self.put(ind, f'{acc} {s} = 0; if (fuel > {n + 4}) for (u32 {i} = (fuel -= {n}, 0); {i} < {max(n, 1)}; {i}++) {s} {r.choice(["+=", "^=", "|=", "-="])} ({acc})({x}); mix((u64){s});')

    def vec(self, vars, ind):
        r = self.r
        vt = r.choice(list(VEC)[:8] + (['vf', 'vd'] if self.floats else []))
        t, n = VEC[vt]
        a, b, c = self.name('x'), self.name('x'), self.name('x')
        self.seen.add('vector')
        E = lambda: self.expr(t, 1, vars)
        self.put(ind, 'fuel -= fuel > 20 ? 20 : fuel;')
        self.put(ind, f'{vt} {a} = {{{", ".join(E() for _ in range(n))}}}, {b} = {a}, {c};')
        self.put(ind, f'{b}[{self.expr("u32", 1, vars)} & {n - 1}] = {E()};')
        if t in FLT:
            x = r.choice(['{a} + {b} * {a}', '{a} - {b}', '-{a} / {b}', '{a} * {b}'])
        else:
            x = r.choice(['{a} + {b} * {a}', '{a} - {b}', '({a} & {b}) | ~{a}', '{a} ^ ({b} << 1)', '({a} >> 2) - {b}', f'({vt})({{a}} < {{b}}) & {{a}}', f'({vt})({{a}} == {{b}})', '__builtin_elementwise_max({a}, {b})', '__builtin_elementwise_min({a}, {b})']
                         + (['__builtin_elementwise_add_sat({a}, {b})', '__builtin_elementwise_sub_sat({a}, {b})'] if n >= 8 else []) + (['__builtin_elementwise_abs({a})'] if t[0] == 'i' else []))
        self.put(ind, f'{c} = {x.format(a=a, b=b)};')
        if r.random() < .6:
            self.put(ind, f'{c} = __builtin_shufflevector({c}, {a}, {", ".join(str(r.randrange(2 * n)) for _ in range(n))});')
        if t not in FLT and r.random() < .5:
            # through narrower or wider lanes and back
            w = r.choice([x for x in INT if x[1:] != t[1:]])
            q = self.name('q')
            self.put(ind, f'typedef {w} {q} __attribute__((vector_size({n * int(w[1:]) // 8}))); {c} ^= __builtin_convertvector(__builtin_convertvector({c}, {q}) + ({w})3, {vt});')
        if t in ('u32', 'i32') and self.floats and r.random() < .5:
            self.put(ind, f'{c} = {c} & 0xffffff; {{ vf y = __builtin_convertvector({c}, vf) * 0.5f; {c} += __builtin_convertvector(y, {vt}); }}')
        i = self.name('k')
        self.put(ind, f'for (u32 {i} = 0; {i} < {n}; {i}++) {self.mixin(t, f"{c}[{i}]")}')

    def func(self, name, t, ps, entry=False):
        r = self.r
        vars = [(self.name('p'), p) for p in ps]
        sig = ', '.join(f'{p} {v}' for v, p in vars)
        if entry:
            self.put(0, f'__attribute__((export_name("{name}"))) u64 {name}({sig}) {{')
            self.put(1, f'fuel = {r.choice([200, 600, 1500])}; acc = 88172645463325252ull;')
        else:
            self.put(0, f'{r.choice(["static NI", "static NI", "static", "NI"])} {t} {name}({sig or "void"}) {{')
            self.put(1, f'if (fuel < 4) return ({t})1; fuel -= 2;')
        vol = r.random() < .1
        for _ in range(r.randrange(2, 6)):
            v, x = self.name(), r.choice(self.types())
            self.put(1, f'{"volatile " if vol else ""}{x} {v} = {self.expr(x, 1, vars)};')
            vars.append((v, x))
        self.stmts(r.randrange(3, 9) if not entry else r.randrange(5, 12), 3 if not entry else 3, vars, False, t, 1)
        if entry:
            for a in self.arrays:
                self.put(1, f'for (u32 j = 0; j < {a[2]}; j++) {self.mixin(a[1], a[0] + "[j]")}')
            for v, x in vars:
                self.put(1, self.mixin(x, v))
            self.put(1, 'return acc;')
        else:
            self.put(1, f'return {self.expr(t, 2, vars)};')
        self.put(0, '}')

    def program(self):
        r = self.r
        self.out = [HEAD]
        for k, (t, n) in VEC.items():
            self.out.append(V.strip() % (t, k))
        for t in INT + FLT:
            self.put(0, f'static NI void sink_{t}({t} *p) {{ __asm__ volatile("" : : "r"(p) : "memory"); p[0] = ({t})(p[1] + p[3]); }}')
        self.usable = []
        self.ftab = []
        for _ in range(r.randrange(2, 7)):
            t = r.choice(self.types())
            n = r.choice([8, 16, 32, 64])
            a = self.name('a')
            size = n * {'8': 1, '6': 2, '2': 4, '4': 8}[t[-1]]
            init = ', '.join(self.const(t) for _ in range(r.choice([0, 1, 5, n])))
            self.put(0, f'static {t} {a}[{n}] = {{{init or "0"}}};')
            self.arrays.append((a, t, n, size))
        sigs = [(r.choice(self.types()), [r.choice(self.types()) for _ in range(r.randrange(0, 6))]) for _ in range(2)]
        for k in range(r.randrange(3, 9)):
            t, ps = r.choice(sigs) if r.random() < .6 else (r.choice(self.types()), [r.choice(self.types()) for _ in range(r.randrange(0, 8))])
            nm = self.name('f')
            self.func(nm, t, ps)
            self.usable.append((nm, t, ps))
            if r.random() < .4:
                same = [f[0] for f in self.usable if (f[1], f[2]) == (t, ps)]
                n = r.choice([2, 4, 8])
                tn = self.name('t')
                self.put(0, f'static {t} (*{"const " if r.random() < .3 else ""}{tn}[{n}])({", ".join(ps) or "void"}) = {{{", ".join(r.choice(same) for _ in range(n))}}};')
                self.ftab.append((tn, t, ps, n))
        if r.random() < .5:
            self.seen.add('recursion')
            k = self.name('f')
            self.put(0, f'static NI u32 {k}(u32 n, u64 x) {{ u32 l[{r.choice([1, 4, 16])}]; l[0] = n; sink_u32_1(l); return n == 0 ? (u32)x : {k}(n - 1, x * 31 + l[0]) + {r.choice(["n", "l[0]", "(u32)x"])}; }}'.replace('sink_u32_1(l)', '__asm__ volatile("" : : "r"(l) : "memory")'))
            self.rec = k
        else:
            self.rec = None
        if r.random() < .4:
            self.seen.add('varargs')
            self.put(0, 'static NI u64 va(u32 n, ...) { __builtin_va_list l; u64 s = n; __builtin_va_start(l, n); for (u32 i = 0; i < n; i++) s = s * 33 + (i & 1 ? __builtin_va_arg(l, u64) : (u64)__builtin_va_arg(l, u32)); __builtin_va_end(l); return s; }')
            self.va = True
        else:
            self.va = False
        if r.random() < .5:
            self.seen.add('struct')
            fs = [r.choice(self.types()) for _ in range(r.randrange(1, 7))]
            st = self.name('S')
            self.put(0, f'typedef struct {{ {" ".join(f"{t} m{i};" for i, t in enumerate(fs))} }} {st};')
            sf = self.name('f')
            self.put(0, f'{r.choice(["static NI", "static"])} {st} {sf}({st} s, u32 n) {{ {" ".join(f"s.m{i} = ({t})(s.m{i} + ({t})n);" for i, t in enumerate(fs))} if (n & 1) {{ {st} c = s; s.m0 = c.m{len(fs) - 1}; }} return s; }}')
            self.st = (st, fs, sf)
        else:
            self.st = None
        entries = []
        for k in range(r.choice([1, 1, 2])):
            ps = [r.choice(['i32', 'u32', 'i64', 'f32', 'f64'] if self.floats else ['i32', 'u32', 'i64', 'u64']) for _ in range(r.randrange(1, 5))]
            self.func(f'run{k}', 'u64', ps, entry=True)
            end = self.out.pop(), self.out.pop()
            x = ['(u64)fuel', 'acc', f'{r.randrange(1 << 30)}u']
            if self.rec:
                self.put(1, f'mix({self.rec}({r.choice([3, 20, 90])}, acc));')
            if self.va:
                n = r.randrange(1, 8)
                self.put(1, f'mix(va({n}, {", ".join("(u64)acc" if i & 1 else "(u32)acc" for i in range(n))}));')
            if self.st:
                st, fs, sf = self.st
                v = self.name('s')
                self.put(1, f'{st} {v} = {{{", ".join(self.const(t) for t in fs)}}}; {v} = {sf}({v}, (u32)acc); {v} = {sf}({v}, 3); ' + ' '.join(self.mixin(t, f'{v}.m{i}') for i, t in enumerate(fs)))
            self.out += list(end[::-1])
            entries.append((f'run{k}', ps))
        return '\n'.join(self.out) + '\n', entries


SETS = [[], ['-mbulk-memory'], ['-msimd128'], ['-msimd128', '-mbulk-memory', '-mnontrapping-fptoint', '-msign-ext'], ['-mnontrapping-fptoint', '-msign-ext', '-mmultivalue', '-Xclang', '-target-abi', '-Xclang', 'experimental-mv'],
        ['-mreference-types', '-mbulk-memory', '-msimd128', '-msign-ext', '-mmutable-globals', '-mmultivalue', '-mnontrapping-fptoint']]


def build(src, r, where):
    """the module, or None if clang does not take the program"""
    c, w = os.path.join(where, 'p.c'), os.path.join(where, 'p.wasm')
    with open(c, 'w') as f:
        f.write(src)
    flags = [r.choice(['-O0', '-O1', '-O2', '-O3', '-O2', '-O3', '-Os', '-Oz'])] + r.choice(SETS)
    if r.random() < .2:
        flags.append('-funroll-loops')
    link = ['-Wl,--no-entry', f'-Wl,-z,stack-size={r.choice([32768, 65536])}'] + r.choice([[], ['-Wl,--stack-first'], ['-Wl,--export-table'], ['-Wl,--strip-all'], ['-Wl,--growable-table']])
    p = subprocess.run(['clang', '--target=wasm32', '-w', '-nostdlib', '-ffreestanding', '-fwrapv', '-fno-strict-aliasing', '-fno-strict-float-cast-overflow', *flags, *link, '-o', w, c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20)
    if p.returncode:
        return None, p.stdout, flags
    with open(w, 'rb') as f:
        return f.read(), '', flags


def scenario(r, where):
    g = C(r)
    src, entries = g.program()
    mod, err, flags = build(src, r, where)
    if mod is None:
        return None, err, src, flags, g
    steps = [{'op': 'inst', 'mod': 0, 'id': 0, 'imports': [['env', 'log', {'host': 'log'}]] if b'env' in mod[:400] else []}]
    wt = {'i32': 'i32', 'u32': 'i32', 'i64': 'i64', 'u64': 'i64', 'f32': 'f32', 'f64': 'f64'}
    import struct
    for k in range(4):
        nm, ps = r.choice(entries)
        args = []
        for p in ps:
            t = wt[p]
            if t in FLT:
                x = r.choice([0.0, -0.0, 1.5, -2.75, 1e9, r.uniform(-100, 100), 1e-42])
                v = struct.unpack('<I', struct.pack('<f', x))[0] if t == 'f32' else struct.unpack('<Q', struct.pack('<d', x))[0]
            else:
                n = 32 if t == 'i32' else 64
                v = r.choice([0, 1, (1 << n) - 1, 1 << n - 1, r.getrandbits(n), r.getrandbits(8)])
            args.append([t, v])
        steps.append({'op': 'call', 'inst': 0, 'name': nm, 'args': args, 'results': ['i64']})
        if not g.floats:
            steps.append({'op': 'memhash', 'mem': {'inst': 0, 'export': 'memory'}})
    return {'mods': [mod], 'host': {'log': {'kind': 'func', 'params': ['i32', 'i64'], 'results': [], 'beh': 'mix'}}, 'steps': steps}, '', src, flags, g


def compiled(job, n):
    """n programs in this worker, judged like every other scenario"""
    import diff
    from v8 import V8, OracleDown
    if not available():
        job.count('compiler_missing')
        return
    v8 = V8()
    where = tempfile.mkdtemp(prefix='vf-cc-')
    try:
        for k in range(n):
            if job.late():
                job.count('stopped_by_clock')
                break
            try:
                sc, err, src, flags, g = scenario(job.rng, where)
            except subprocess.TimeoutExpired:
                job.count('compiler_refused')
                continue
            if sc is None:
                job.count('compiler_refused')
                continue
            try:
                ok = diff.judge(job, v8, sc, 'compiled', sample=[' '.join(flags)] + sorted(g.seen), budget=60.0, limit=5)
            except OracleDown:
                job.count('compiled_too_long')
                v8.close()
                v8 = V8()
                continue
            if ok:
                job.count('compiled_programs')
                for x in g.seen:
                    job.count('compiled: ' + x)
    finally:
        v8.close()
        shutil.rmtree(where, ignore_errors=True)


def require(c, n):
    if not c.counters.get('compiler_missing'):
        c.require('compiled_programs', n)
