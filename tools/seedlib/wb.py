"""WebAssembly binary writer, from the specification.  A Module is a plain description; Enc decides the *encoding* (minimal by
default, Messy(rng) for every alternative form the binary format allows)."""
import struct
from ops import OPS

VT = {'i32': 0x7f, 'i64': 0x7e, 'f32': 0x7d, 'f64': 0x7c, 'v128': 0x7b, 'funcref': 0x70, 'externref': 0x6f}
M32, M64 = (1 << 32) - 1, (1 << 64) - 1


def uleb(n, pad=0):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n or pad:
            out.append(b | 0x80)
            if not n:
                pad -= 1
                while pad:
                    out.append(0x80)
                    pad -= 1
                out.append(0)
                return bytes(out)
        else:
            out.append(b)
            return bytes(out)


def sleb(n, pad=0):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        done = (n == 0 and not b & 0x40) or (n == -1 and b & 0x40)
        if done:
            if not pad:
                out.append(b)
                return bytes(out)
            out.append(b | 0x80)
            f = 0x7f if n == -1 else 0
            for _ in range(pad - 1):
                out.append(f | 0x80)
            out.append(f)
            return bytes(out)
        out.append(b | 0x80)


class Enc:
    """Minimal encoding."""
    messy = False

    def u(self, n):            # u32
        return uleb(n)

    def s(self, n, bits):
        return sleb(n)

    def customs(self):         # custom sections to put at one section boundary
        return []

    def choose(self, k):       # which of k equivalent forms
        return 0

    def split_local_run(self, n):
        return [n]


class Messy(Enc):
    messy = True

    def __init__(self, rng, p=0.4):
        self.rng, self.p = rng, p
        self.n_pad = 0

    def u(self, n):
        b = uleb(n)
        room = 5 - len(b)
        if room > 0 and self.rng.random() < self.p:
            self.n_pad += 1
            return uleb(n, self.rng.randint(1, room))
        return b

    def s(self, n, bits):
        b = sleb(n)
        room = (bits + 6) // 7 - len(b)
        if room > 0 and self.rng.random() < self.p:
            self.n_pad += 1
            return sleb(n, self.rng.randint(1, room))
        return b

    def customs(self):
        r = self.rng
        out = []
        while r.random() < 0.3:
            name = r.choice(['name', '', 'producers', 'é\u4e2d\U0001f600', 'x' * r.randint(1, 200), '.debug_info', 'linking', 'name\0x'])
            out.append((name, bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 3, 127, 128, 300])))))
        return out

    def choose(self, k):
        return self.rng.randrange(k)

    def split_local_run(self, n):
        if n > 1 and self.rng.random() < 0.5:
            a = self.rng.randint(0, n)
            return [a, n - a]
        return [n]


MIN = Enc()
CAPTURE = None      # a list collects the modules encoded with the default encoding


def vec(items, e=MIN):
    return e.u(len(items)) + b''.join(items)


def name(s, e=MIN):
    b = s if isinstance(s, bytes) else s.encode()
    return e.u(len(b)) + b


def limits(lim, e=MIN):
    lo, hi = lim
    if hi is None:
        return b'\0' + e.u(lo)
    return b'\1' + e.u(lo) + e.u(hi)


def f32bytes(v):
    return v if isinstance(v, bytes) else struct.pack('<I', v & M32)


def f64bytes(v):
    return v if isinstance(v, bytes) else struct.pack('<Q', v & M64)


def sgn(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def blocktype(bt, e=MIN):
    """None -> empty, 'i32' -> value type, int -> type index"""
    if bt is None:
        return b'\x40'
    if isinstance(bt, str):
        return bytes([VT[bt]])
    return e.s(bt, 33)


def instr(ins, e=MIN):
    """ins: tuple (opname, *immediates).  Float constants are given as bit patterns (int)."""
    n = ins[0]
    o = OPS[n]
    out = bytes([o.code]) if o.prefix is None else bytes([o.prefix]) + e.u(o.code)
    a = ins[1:]
    im = o.imm
    if im == 'mem':
        return out + e.u(a[0]) + e.u(a[1])
    if im == 'memlane':
        return out + e.u(a[0]) + e.u(a[1]) + bytes([a[2]])
    if im == 'lane':
        return out + bytes([a[0]])
    if im == 'shuffle':
        return out + bytes(a[0])
    if im == 'i32':
        return out + e.s(sgn(a[0], 32), 32)
    if im == 'i64':
        return out + e.s(sgn(a[0], 64), 64)
    if im == 'f32':
        return out + f32bytes(a[0])
    if im == 'f64':
        return out + f64bytes(a[0])
    if im == 'v128':
        return out + bytes(a[0])
    if n in ('block', 'loop', 'if'):
        return out + blocktype(a[0], e)
    if n in ('br', 'br_if', 'call', 'local.get', 'local.set', 'local.tee', 'global.get', 'global.set', 'table.get', 'table.set', 'ref.func',
             'data.drop', 'elem.drop', 'table.grow', 'table.size', 'table.fill'):
        return out + e.u(a[0])
    if n == 'br_table':
        return out + vec([e.u(x) for x in a[0]], e) + e.u(a[1])
    if n == 'call_indirect':                       # (type, table)
        return out + e.u(a[0]) + e.u(a[1] if len(a) > 1 else 0)
    if n == 'select_t':
        return out[:0] + b'\x1c' + vec([bytes([VT[x]]) for x in a[0]], e)
    if n in ('memory.size', 'memory.grow', 'memory.fill'):
        return out + b'\0'
    if n == 'memory.copy':
        return out + b'\0\0'
    if n == 'memory.init':
        return out + e.u(a[0]) + b'\0'
    if n == 'table.init':                          # (elem, table)
        return out + e.u(a[0]) + e.u(a[1])
    if n == 'table.copy':                          # (dst, src)
        return out + e.u(a[0]) + e.u(a[1])
    if n == 'ref.null':
        return out + bytes([VT[a[0]]])
    assert not a, ins
    return out


def expr(body, e=MIN):
    """body: list of instruction tuples (without the final end), or raw bytes"""
    if isinstance(body, (bytes, bytearray)):
        return bytes(body) + b'\x0b'
    return b''.join(instr(i, e) for i in body) + b'\x0b'


class Func:
    def __init__(self, type, locals=(), body=()):
        self.type, self.locals, self.body = type, list(locals), body


class Elem:
    """mode: active|passive|declarative; items: list of func index or const exprs (list of instr)"""

    def __init__(self, mode, items, table=0, offset=None, reftype='funcref'):
        self.mode, self.items, self.table, self.offset, self.reftype = mode, list(items), table, offset, reftype


class Data:
    def __init__(self, mode, init, offset=None, mem=0):
        self.mode, self.init, self.offset, self.mem = mode, bytes(init), offset, mem


class Module:
    def __init__(self):
        self.types = []      # (params tuple, results tuple)
        self.imports = []    # (mod, name, kind, desc): func->typeidx, table->(reftype,(min,max)), memory->(min,max), global->(type,mut)
        self.funcs = []
        self.tables = []     # (reftype, (min,max))
        self.mems = []       # (min,max)
        self.globals = []    # (type, mut, initexpr)
        self.exports = []    # (name, kind, idx)
        self.start = None
        self.elems = []
        self.datas = []
        self.force_datacount = False

    # -- helpers
    def type(self, params, results):
        t = (tuple(params), tuple(results))
        if t not in self.types:
            self.types.append(t)
        return self.types.index(t)

    def nimp(self, kind):
        return sum(1 for i in self.imports if i[2] == kind)

    def func(self, params, results, body, locals=(), export=None):
        self.funcs.append(Func(self.type(params, results), locals, body))
        idx = self.nimp('func') + len(self.funcs) - 1
        if export is not None:
            self.exports.append((export, 'func', idx))
        return idx

    def functype(self, idx):
        k = [i for i in self.imports if i[2] == 'func']
        return self.types[k[idx][3]] if idx < len(k) else self.types[self.funcs[idx - len(k)].type]

    # -- encoding
    def encode(self, e=None):
        if e is None:
            e = MIN
            if CAPTURE is not None:
                CAPTURE.append(self)
        K = {'func': 0, 'table': 1, 'memory': 2, 'global': 3}
        secs = []

        def functype(t):
            return b'\x60' + vec([bytes([VT[x]]) for x in t[0]], e) + vec([bytes([VT[x]]) for x in t[1]], e)
        if self.types or (e.messy and e.choose(2)):
            secs.append((1, vec([functype(t) for t in self.types], e)))
        if self.imports or (e.messy and e.choose(2)):
            L = []
            for mod, nm, kind, d in self.imports:
                b = name(mod, e) + name(nm, e) + bytes([K[kind]])
                if kind == 'func':
                    b += e.u(d)
                elif kind == 'table':
                    b += bytes([VT[d[0]]]) + limits(d[1], e)
                elif kind == 'memory':
                    b += limits(d, e)
                else:
                    b += bytes([VT[d[0]], 1 if d[1] else 0])
                L.append(b)
            secs.append((2, vec(L, e)))
        if self.funcs or (e.messy and e.choose(2)):
            secs.append((3, vec([e.u(f.type) for f in self.funcs], e)))
        if self.tables or (e.messy and e.choose(2)):
            secs.append((4, vec([bytes([VT[t[0]]]) + limits(t[1], e) for t in self.tables], e)))
        if self.mems or (e.messy and e.choose(2)):
            secs.append((5, vec([limits(t, e) for t in self.mems], e)))
        if self.globals or (e.messy and e.choose(2)):
            secs.append((6, vec([bytes([VT[g[0]], 1 if g[1] else 0]) + expr(g[2], e) for g in self.globals], e)))
        if self.exports or (e.messy and e.choose(2)):
            secs.append((7, vec([name(x[0], e) + bytes([K[x[1]]]) + e.u(x[2]) for x in self.exports], e)))
        if self.start is not None:
            secs.append((8, e.u(self.start)))
        if self.elems or (e.messy and e.choose(2)):
            secs.append((9, vec([self._elem(x, e) for x in self.elems], e)))
        uses_dc = self.force_datacount or any(
            i[0] in ('memory.init', 'data.drop') for f in self.funcs if not isinstance(f.body, (bytes, bytearray)) for i in f.body)
        if uses_dc or (e.messy and e.choose(2)):
            secs.append((12, e.u(len(self.datas))))
        if self.funcs or (e.messy and e.choose(2)):
            secs.append((10, vec([self._code(f, e) for f in self.funcs], e)))
        if self.datas or (e.messy and e.choose(2)):
            L = []
            for d in self.datas:
                if d.mode == 'passive':
                    b = e.u(1)
                elif d.mem == 0 and e.choose(2) == 0:
                    b = e.u(0) + expr(d.offset, e)
                else:
                    b = e.u(2) + e.u(d.mem) + expr(d.offset, e)
                L.append(b + e.u(len(d.init)) + d.init)
            secs.append((11, vec(L, e)))
        out = bytearray(b'\0asm\1\0\0\0')

        def put(i, c):
            out.append(i)
            out.extend(e.u(len(c)) + c)
        for i, c in secs:
            for nm, data in e.customs():
                put(0, name(nm, e) + data)
            put(i, c)
        for nm, data in e.customs():
            put(0, name(nm, e) + data)
        return bytes(out)

    def _code(self, f, e):
        runs = []
        for t in f.locals:
            if runs and runs[-1][1] == t:
                runs[-1][0] += 1
            else:
                runs.append([1, t])
        L = []
        for n, t in runs:
            for k in e.split_local_run(n):
                L.append(e.u(k) + bytes([VT[t]]))
        b = vec(L, e) + expr(f.body, e)
        return e.u(len(b)) + b

    def _elem(self, x, e):
        plain = x.reftype == 'funcref' and all(isinstance(i, int) for i in x.items)
        forms = []
        if x.mode == 'active':
            if plain:
                forms = ([0] if x.table == 0 else []) + [2]
            if x.reftype == 'funcref' and x.table == 0:
                forms.append(4)
            forms.append(6)
        elif x.mode == 'passive':
            forms = ([1] if plain else []) + [5]
        else:
            forms = ([3] if plain else []) + [7]
        k = forms[e.choose(len(forms))]
        idx = lambda: vec([e.u(i) for i in x.items], e)
        exs = lambda: vec([expr([('ref.func', i)] if isinstance(i, int) else i, e) for i in x.items], e)
        rt = bytes([VT[x.reftype]])
        b = e.u(k)
        if k == 0:
            return b + expr(x.offset, e) + idx()
        if k == 1:
            return b + b'\0' + idx()
        if k == 2:
            return b + e.u(x.table) + expr(x.offset, e) + b'\0' + idx()
        if k == 3:
            return b + b'\0' + idx()
        if k == 4:
            return b + expr(x.offset, e) + exs()
        if k == 5:
            return b + rt + exs()
        if k == 6:
            return b + e.u(x.table) + expr(x.offset, e) + rt + exs()
        return b + rt + exs()
