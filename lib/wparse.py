"""An independent WebAssembly 2.0 binary parser which reports every grammar site: where each integer, tag byte, name and boundary is.

Used to damage valid modules in ways that are malformed by construction, and to classify byte strings as well-formed or not."""
from ops import OPS

BY = {(o.prefix, o.code): o for o in OPS.values()}
VALT = {0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f}
REFT = {0x70, 0x6f}
ORDER = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 12: 10, 10: 11, 11: 12}


class Malformed(Exception):
    pass


class Site:
    __slots__ = ('off', 'len', 'kind', 'sec', 'body')

    def __init__(self, off, ln, kind, sec, body):
        self.off, self.len, self.kind, self.sec, self.body = off, ln, kind, sec, body

    def __repr__(self):
        return f'{self.kind}@{self.off}+{self.len}'


class Parser:
    def __init__(self, b):
        self.b, self.p, self.end = b, 0, len(b)
        self.sites, self.secs, self.bodies = [], [], []
        self.sec = self.body = None
        self.ops = 0
        self.uses_data = False
        self.counts = {}

    def site(self, off, kind):
        self.sites.append(Site(off, self.p - off, kind, self.sec, self.body))

    def byte(self, kind=None, ok=None):
        if self.p >= self.end:
            raise Malformed('unexpected end')
        x = self.b[self.p]
        self.p += 1
        if ok is not None and x not in ok:
            raise Malformed(f'{kind} {x:#x}')
        if kind:
            self.site(self.p - 1, kind)
        return x

    def u32(self, kind='u32'):
        o, r, s = self.p, 0, 0
        while True:
            x = self.byte()
            r |= (x & 0x7f) << s
            s += 7
            if not x & 0x80:
                break
            if s >= 35:
                raise Malformed('integer too long')
        if r >> 32:
            raise Malformed('integer too large')
        self.site(o, kind)
        return r

    def sint(self, bits, kind):
        o, r, s = self.p, 0, 0
        while True:
            x = self.byte()
            r |= (x & 0x7f) << s
            s += 7
            if not x & 0x80:
                break
            if s >= (bits + 6) // 7 * 7:
                raise Malformed('integer too long')
        if r >> (s - 1) & 1:
            r -= 1 << s
        if not -(1 << bits - 1) <= r < 1 << bits - 1:
            raise Malformed('integer too large')
        self.site(o, kind)
        return r

    def take(self, n, kind):
        if self.end - self.p < n:
            raise Malformed('unexpected end')
        o = self.p
        self.p += n
        if kind:
            self.site(o, kind)
        return self.b[o:self.p]

    def name(self):
        n = self.u32('namelen')
        try:
            self.take(n, 'name').decode('utf-8')
        except UnicodeDecodeError:
            raise Malformed('utf-8')

    def vec(self, f):
        n = self.u32('count')
        for _ in range(n):
            f()
        return n

    def valtype(self):
        self.byte('valtype', VALT)

    def reftype(self):
        self.byte('reftype', REFT)

    def limits(self):
        if self.byte('limflag', {0, 1}):
            self.u32()
        self.u32()

    def table(self):
        self.reftype()
        self.limits()

    def glob(self):
        self.valtype()
        self.byte('mut', {0, 1})

    def expr(self):
        depth = ['expr']
        while True:
            o = self.p
            c = self.byte()
            pre = None
            if c in (0xfc, 0xfd):
                pre = c
                self.site(o, 'prefix')
                c = self.u32('subop')
            else:
                self.site(o, 'opcode')
            self.ops += 1
            if pre is None and c == 0x0b:
                self.sites[-1].kind = 'end' if len(depth) > 1 else 'lastend'
                depth.pop()
                if not depth:
                    return
                continue
            if pre is None and c == 5:
                self.sites[-1].kind = 'else'
                if depth[-1] != 'if':
                    raise Malformed('else')
                depth[-1] = 'else'
                continue
            if pre is None and c == 0x1c:
                self.vec(self.valtype)
                continue
            d = BY.get((pre, c))
            if d is None:
                raise Malformed(f'opcode {pre} {c:#x}')
            n, im = d.name, d.imm
            if im in ('mem', 'memlane'):
                self.u32()
                self.u32()
                if im == 'memlane':
                    self.byte('lane')
            elif im == 'lane':
                self.byte('lane')
            elif im == 'shuffle':
                self.take(16, None)
            elif im == 'i32':
                self.sint(32, 's32')
            elif im == 'i64':
                self.sint(64, 's64')
            elif im in ('f32', 'f64', 'v128'):
                self.take({'f32': 4, 'f64': 8, 'v128': 16}[im], 'const')
            elif n in ('block', 'loop', 'if'):
                o = self.p
                x = self.byte()
                if x == 0x40 or x in VALT:
                    self.site(o, 'blocktype')
                else:
                    self.p = o
                    if self.sint(33, 's33') < 0:
                        raise Malformed('block type')
                depth.append(n)
            elif n == 'br_table':
                self.vec(self.u32)
                self.u32()
            elif n == 'call_indirect':
                self.u32()
                self.u32()
            elif n == 'ref.null':
                self.reftype()
            elif n in ('memory.size', 'memory.grow', 'memory.fill'):
                self.byte('reserved', {0})
            elif n == 'memory.copy':
                self.byte('reserved', {0})
                self.byte('reserved', {0})
            elif n == 'memory.init':
                self.u32()
                self.byte('reserved', {0})
                self.uses_data = True
            elif n in ('table.init', 'table.copy'):
                self.u32()
                self.u32()
            elif n in ('br', 'br_if', 'call', 'local.get', 'local.set', 'local.tee', 'global.get', 'global.set', 'table.get', 'table.set', 'ref.func',
                       'data.drop', 'elem.drop', 'table.grow', 'table.size', 'table.fill'):
                self.u32()
                self.uses_data |= n == 'data.drop'

    def elem(self):
        o = self.p
        k = self.u32('elemflag')
        if k > 7:
            raise Malformed('elem flag')
        if not k & 1:
            if k & 2:
                self.u32()
            self.expr()
        if k & 4:
            if k & 3:
                self.reftype()
            self.vec(self.expr)
        else:
            if k & 3:
                self.byte('elemkind', {0})
            self.vec(self.u32)

    def data(self):
        k = self.u32('dataflag')
        if k > 2:
            raise Malformed('data flag')
        if k == 2:
            self.u32()
        if k != 1:
            self.expr()
        n = self.u32('datalen')
        self.take(n, None)

    def imp(self):
        self.name()
        self.name()
        [self.u32, self.table, self.limits, self.glob][self.byte('impkind', {0, 1, 2, 3})]()

    def exp(self):
        self.name()
        self.byte('expkind', {0, 1, 2, 3})
        self.u32()

    def functype(self):
        self.byte('functag', {0x60})
        self.vec(self.valtype)
        self.vec(self.valtype)

    def code(self):
        o = self.p
        n = self.u32('bodysize')
        if self.end - self.p < n:
            raise Malformed('body')
        self.bodies.append((o, self.p - o, self.p, self.p + n))
        self.body = len(self.bodies) - 1
        outer, self.end = self.end, self.p + n
        tot = [0]

        def run():
            tot[0] += self.u32('localcount')
            self.valtype()
        self.vec(run)
        if tot[0] >> 32:
            raise Malformed('too many locals')
        self.expr()
        if self.p != self.end:
            raise Malformed('body size')
        self.end = outer
        self.body = None

    def glb(self):
        self.glob()
        self.expr()

    def parse(self):
        if self.take(4, 'magic') != b'\0asm':
            raise Malformed('magic')
        if self.take(4, 'version') != b'\1\0\0\0':
            raise Malformed('version')
        last = 0
        end = self.end
        while self.p < end:
            o = self.p
            i = self.byte()
            so = self.p
            n = self.u32('secsize')
            if end - self.p < n:
                raise Malformed('section size')
            self.sites.pop()
            self.secs.append((i, o, so, self.p - so, self.p, self.p + n))
            self.sec = len(self.secs) - 1
            self.end = self.p + n
            if i == 0:
                self.name()
                self.p = self.end
            elif i not in ORDER:
                raise Malformed('section id')
            else:
                if ORDER[i] <= last:
                    raise Malformed('section order')
                last = ORDER[i]
                f = {1: self.functype, 2: self.imp, 3: self.u32, 4: self.table, 5: self.limits, 6: self.glb, 7: self.exp, 9: self.elem, 10: self.code, 11: self.data}.get(i)
                self.counts[i] = self.vec(f) if f else self.u32()
            if self.p != self.end:
                raise Malformed('section size mismatch')
            self.end = end
            self.sec = None
        if self.counts.get(3, 0) != self.counts.get(10, 0):
            raise Malformed('function and code count')
        if 12 in self.counts and self.counts[12] != self.counts.get(11, 0):
            raise Malformed('data count')
        if self.uses_data and 12 not in self.counts:
            raise Malformed('data count required')
        return self


def wellformed(b):
    try:
        Parser(b).parse()
        return True
    except Malformed:
        return False
