"""Damages well-formed modules in ways which are malformed by construction, one grammar rule at a time."""
import wb, wparse
from wparse import ORDER, Parser

BADUTF = [b'\xff', b'\xc0\x80', b'\xe0\x80\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xf8\x88\x80\x80\x80', b'\x80', b'\xc3', b'a\xe4\xb8', b'\xf0\x9f\x98', b'\xc1\xbf',
          b'\xf0\x80\x80\x80', b'ab\xfe', b'\xe2\x82', b'\xef\xbf']
OPS_BAD = [c for c in range(256) if (None, c) not in wparse.BY and c not in (0xfc, 0xfd, 5, 0x0b, 0x1c)]
FC_BAD = [c for c in list(range(0, 400)) + [0x7fffffff, 0xffffffff] if (0xfc, c) not in wparse.BY]
FD_BAD = [c for c in list(range(0, 400)) + [0x7fffffff, 0xffffffff] if (0xfd, c) not in wparse.BY]


class Doc:
    def __init__(self, b):
        self.b = bytes(b)
        self.P = Parser(self.b).parse()
        self.by = {}
        for s in self.P.sites:
            self.by.setdefault(s.kind, []).append(s)

    def splice(self, off, ln, new, sec=None, body=None, fix=True):
        """replace bytes, keeping the enclosing body and section sizes right"""
        b = bytearray(self.b)
        b[off:off + ln] = new
        d = len(new) - ln
        if fix and body is not None:
            so, sl, st, en = self.P.bodies[body]
            enc = wb.uleb(en - st + d)
            b[so:so + sl] = enc
            d += len(enc) - sl
        if fix and sec is not None:
            _, _, so, sl, st, en = self.P.secs[sec]
            b[so:so + sl] = wb.uleb(en - st + d)
        return bytes(b)

    def at(self, site, new, **kw):
        return self.splice(site.off, site.len, new, site.sec, site.body, **kw)


def long_u(v, r):
    """u32 v in a form which is too long or has unused bits set"""
    if r.random() < .5:
        return wb.uleb(v, 6 - len(wb.uleb(v)))
    b = bytearray(wb.uleb(v, 5 - len(wb.uleb(v))) if len(wb.uleb(v)) < 5 else wb.uleb(v))
    b[4] |= r.choice([0x10, 0x20, 0x40, 0x70])
    return bytes(b)


def long_s(v, bits, r):
    n = (bits + 6) // 7
    e = wb.sleb(v)
    full = bytearray(wb.sleb(v, n - len(e)) if len(e) < n else e)
    if r.random() < .5:
        full[-1] |= 0x80
        return bytes(full) + (b'\x7f' if v < 0 else b'\0')
    used = bits - 7 * (n - 1)          # payload bits of the last byte (the top one is the sign)
    for _ in range(20):
        x = r.randrange(128)
        top = x >> (used - 1)
        if top not in (0, (1 << (8 - used)) - 1):
            full[-1] = x
            return bytes(full)
    return None


def val(b, site):
    r = s = 0
    for x in b[site.off:site.off + site.len]:
        r |= (x & 0x7f) << s
        s += 7
    return r, s


def pick(d, r, *kinds):
    c = [s for k in kinds for s in d.by.get(k, ())]
    return r.choice(c) if c else None


def rules():
    R = {}

    def rule(f):
        R[f.__name__] = f
        return f

    @rule
    def magic(d, r):
        i = r.randrange(4)
        return d.splice(i, 1, bytes([d.b[i] ^ 1 << r.randrange(8)]))

    @rule
    def version(d, r):
        i = r.randrange(4, 8)
        return d.splice(i, 1, bytes([d.b[i] ^ 1 << r.randrange(8)]))

    @rule
    def truncated(d, r):
        cuts = set(s[1] for s in d.P.secs) | {len(d.b)}
        n = r.choice([r.randrange(len(d.b)), r.randrange(8), len(d.b) - r.randint(1, min(20, len(d.b)))])
        return d.b[:n] if n not in cuts else None

    @rule
    def unknown_section(d, r):
        at = r.choice([s[1] for s in d.P.secs] + [len(d.b)])
        c = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 5])))
        return d.b[:at] + bytes([r.choice([13, 14, 15, 31, 32, 63, 64, 100, 127, 128, 200, 255])]) + wb.uleb(len(c)) + c + d.b[at:]

    def sec_bytes(d, s):
        return d.b[s[1]:s[5]]

    @rule
    def section_order(d, r):
        L = list(d.P.secs)
        k = [i for i, s in enumerate(L) if s[0]]
        if len(k) < 2:
            return None
        i, j = sorted(r.sample(k, 2))
        L[i], L[j] = L[j], L[i]
        return d.b[:8] + b''.join(sec_bytes(d, s) for s in L)

    @rule
    def section_twice(d, r):
        L = list(d.P.secs)
        k = [i for i, s in enumerate(L) if s[0]]
        if not k:
            return None
        i = r.choice(k)
        L.insert(r.choice([i + 1, i + 1, r.randint(i + 1, len(L))]), L[i])
        return d.b[:8] + b''.join(sec_bytes(d, s) for s in L)

    @rule
    def section_size(d, r):
        s = r.choice(d.P.secs)
        n = s[5] - s[4]
        k = r.choice([n - 1, n + 1, n + 2, n + 1000, 0xffffffff, n // 2, 0])
        if k < 0 or k == n or (s[0] == 0 and k > 0 and r.random() < .9):
            return None
        return d.b[:s[2]] + wb.uleb(k) + d.b[s[4]:]

    @rule
    def section_junk(d, r):
        s = r.choice(d.P.secs)
        if not s[0]:
            return None
        return d.splice(s[5], 0, bytes(r.choice([0, 0x0b, 0x80, 0xff]) for _ in range(r.randint(1, 3))), d.P.secs.index(s))

    @rule
    def custom_cut(d, r):
        at = r.choice([s[1] for s in d.P.secs] + [len(d.b)])
        c = r.choice([b'', b'\x05abc', b'\x80', b'\xff\xff\xff\xff\x0f', b'\x01'])
        return d.b[:at] + b'\0' + wb.uleb(len(c)) + c + d.b[at:]

    @rule
    def count(d, r):
        s = pick(d, r, 'count')
        if s is None:
            return None
        v, _ = val(d.b, s)
        n = r.choice([v + 1, v - 1, v + 100, 0xffffffff, 0x80000000])
        if n < 0:
            return None
        m = d.at(s, wb.uleb(n))
        return None if wparse.wellformed(m) else m

    @rule
    def code_count(d, r):
        """a function without code or code without a function, each section well-formed by itself"""
        sec = [i for i, s in enumerate(d.P.secs) if s[0] == 3]
        cod = [i for i, s in enumerate(d.P.secs) if s[0] == 10]
        if not sec or not cod:
            return None
        q = r.randrange(4)
        i, j = d.P.secs[sec[0]], d.P.secs[cod[0]]
        if q == 0:
            return d.b[:i[1]] + d.b[i[5]:]
        if q == 1:
            return d.b[:j[1]] + d.b[j[5]:] if d.P.bodies else None
        c = next(s for s in d.P.sites if s.sec == (sec[0] if q == 2 else cod[0]) and s.kind == 'count')
        v, _ = val(d.b, c)
        s = d.P.secs[c.sec]
        item = b'\0' if q == 2 else b'\2\0\x0b'
        body = wb.uleb(v + 1) + d.b[c.off + c.len:s[5]] + item
        return d.b[:s[2]] + wb.uleb(len(body)) + body + d.b[s[5]:]

    @rule
    def data_count(d, r):
        dc = [s for s in d.P.secs if s[0] == 12]
        n = d.P.counts.get(11, 0)
        k = r.choice([n + 1, n - 1 if n else 7, 0xffffffff])
        new = b'\x0c' + wb.uleb(len(wb.uleb(k))) + wb.uleb(k)
        if dc:
            s = dc[0]
            if d.P.uses_data and r.random() < .4:
                return d.b[:s[1]] + d.b[s[5]:]
            return d.b[:s[1]] + new + d.b[s[5]:]
        at = [s[1] for s in d.P.secs if s[0] in (10, 11)] or [len(d.b)]
        return d.b[:at[0]] + new + d.b[at[0]:]

    @rule
    def data_nested(d, r):
        # a reference to a data segment, somewhere inside, in a module without a data count
        m = wb.Module()
        m.mems.append((1, 1))
        m.datas.append(wb.Data('passive', b'abc'))
        use = r.choice([[('i32.const', 0), ('i32.const', 0), ('i32.const', 1), ('memory.init', 0)], [('data.drop', 0)]])
        pad = lambda: [('nop',)] * r.randrange(3) + r.choice([[], [('i32.const', 5), ('drop',)], [('block', None), ('end',)], [('i32.const', 0), ('if', None), ('nop',), ('else',), ('end',)]])
        for _ in range(r.randrange(5)):
            use = pad() + use + pad()
            use = r.choice([[('block', None)] + use, [('loop', None)] + use, [('i32.const', 0), ('if', None)] + use, [('i32.const', 0), ('if', None)] + use + [('else',)] + pad(),
                            [('i32.const', 1), ('if', None)] + pad() + [('else',)] + use]) + [('end',)]
        for _ in range(r.randrange(3)):
            m.func([], [], pad())
        m.func([], [], use)
        for _ in range(r.randrange(3)):
            m.func([], [], pad())
        e = Doc(m.encode())
        s = next(s for s in e.P.secs if s[0] == 12)
        return e.b[:s[1]] + e.b[s[5]:]

    @rule
    def body_size(d, r):
        if not d.P.bodies:
            return None
        k = r.randrange(len(d.P.bodies))
        so, sl, st, en = d.P.bodies[k]
        sec = next(i for i, s in enumerate(d.P.secs) if s[0] == 10)
        n = en - st
        v = r.choice([n - 1, n + 1, n + 5, 0, 0xffffffff])
        if v < 0:
            return None
        m = d.splice(so, sl, wb.uleb(v), sec)
        return None if wparse.wellformed(m) else m

    @rule
    def body_end(d, r):
        s = pick(d, r, 'lastend')
        if s is None:
            return None
        q = r.randrange(3)
        if q == 0:
            m = d.at(s, b'')
        elif q == 1:
            m = d.at(s, b'\x0b\x0b')
        else:
            m = d.at(s, b'\x0b' + bytes([r.choice([0, 1, 0x1a, 0x0f])]))
        return None if wparse.wellformed(m) else m

    @rule
    def stray_else(d, r):
        s = pick(d, r, 'opcode', 'lastend')
        if s is None:
            return None
        m = d.splice(s.off, 0, b'\x05', s.sec, s.body)
        return None if wparse.wellformed(m) else m

    @rule
    def stray_end(d, r):
        s = pick(d, r, 'opcode', 'end')
        if s is None:
            return None
        m = d.at(s, b'') if s.kind == 'end' else d.splice(s.off, 0, b'\x0b', s.sec, s.body)
        return None if wparse.wellformed(m) else m

    @rule
    def opcode(d, r):
        s = pick(d, r, 'opcode')
        return s and d.splice(s.off, 0, bytes([r.choice(OPS_BAD)]), s.sec, s.body)

    @rule
    def prefixed_opcode(d, r):
        s = pick(d, r, 'opcode', 'lastend')
        if s is None:
            return None
        p = r.choice([0xfc, 0xfd])
        return d.splice(s.off, 0, bytes([p]) + wb.uleb(r.choice(FC_BAD if p == 0xfc else FD_BAD)), s.sec, s.body)

    @rule
    def long_unsigned(d, r):
        s = pick(d, r, *r.sample(['u32', 'count', 'namelen', 'secsize', 'bodysize', 'localcount', 'datalen', 'elemflag', 'dataflag', 'subop'], 4))
        if s is None:
            return None
        v, _ = val(d.b, s)
        return d.at(s, long_u(v, r), fix=s.kind != 'secsize') if s.kind != 'bodysize' else d.splice(s.off, s.len, long_u(v, r), s.sec)

    @rule
    def long_section_size(d, r):
        s = r.choice(d.P.secs)
        return d.b[:s[2]] + long_u(s[5] - s[4], r) + d.b[s[4]:]

    @rule
    def long_signed(d, r):
        s = pick(d, r, 's32', 's64', 's33')
        if s is None:
            return None
        bits = int(s.kind[1:])
        v, n = val(d.b, s)
        if v >> (n - 1) & 1:
            v -= 1 << n
        e = long_s(v, bits, r)
        return e and d.at(s, e)

    def bad(kind, vals, name):
        def f(d, r):
            s = pick(d, r, kind)
            if s is None:
                return None
            m = d.at(s, bytes([r.choice(vals)]))
            return None if wparse.wellformed(m) else m
        f.__name__ = name
        R[name] = f
    bad('valtype', [0, 1, 0x40, 0x60, 0x6e, 0x6d, 0x7a, 0x79, 0x78, 0x77, 0xff, 0x80, 0x71, 0x50, 0x3f], 'value_type')
    bad('reftype', [0, 1, 0x40, 0x60, 0x6e, 0x6d, 0x7f, 0x7e, 0x7b, 0xff, 0x71, 0x72], 'reference_type')
    bad('functag', [0, 0x40, 0x5f, 0x61, 0x7f, 0xff, 0xe0], 'function_tag')
    bad('limflag', [2, 3, 4, 5, 8, 0x10, 0x80, 0xff], 'limit_flag')
    bad('mut', [2, 3, 0x7f, 0x80, 0xff], 'mutability')
    bad('impkind', [4, 5, 0x40, 0x80, 0xff], 'import_kind')
    bad('expkind', [4, 5, 0x40, 0x80, 0xff], 'export_kind')
    bad('elemkind', [1, 2, 0x70, 0x6f, 0xff], 'element_kind')
    bad('reserved', [1, 2, 0x80, 0xff], 'reserved_byte')
    bad('blocktype', [0x41, 0x42, 0x50, 0x5f, 0x60, 0x6e, 0x71, 0x79], 'block_type')

    @rule
    def segment_flag(d, r):
        s = pick(d, r, 'elemflag', 'dataflag')
        return s and d.at(s, wb.uleb(r.choice([8, 9, 16, 127, 128, 0xffffffff] if s.kind == 'elemflag' else [3, 4, 5, 127, 128, 0xffffffff])))

    @rule
    def name_bytes(d, r):
        if not d.by.get('name'):
            return None
        s = r.choice(d.by['name'])
        i = d.P.sites.index(s)
        ln = d.P.sites[i - 1]
        u = r.choice(BADUTF)
        k = r.choice([b'', b'x', 'é'.encode()])
        new = k + u
        return d.splice(ln.off, ln.len + s.len, wb.uleb(len(new)) + new, s.sec)

    @rule
    def name_past_end(d, r):
        s = pick(d, r, 'namelen')
        if s is None:
            return None
        sec = d.P.secs[s.sec]
        m = d.at(s, wb.uleb(r.choice([sec[5] - s.off, sec[5] - s.off + 50, 0xffffffff])))
        return None if wparse.wellformed(m) else m

    @rule
    def locals_too_many(d, r):
        if not d.P.bodies:
            return None
        k = r.randrange(len(d.P.bodies))
        so, sl, st, en = d.P.bodies[k]
        c = next(s for s in d.P.sites if s.off == st)
        sec = c.sec
        v, _ = val(d.b, c)
        run = wb.uleb(0xffffffff) + b'\x7f'
        j = r.choice([2, 3])
        if j == 2:
            run2 = [run, wb.uleb(r.choice([1, 5])) + b'\x7e']
        else:
            run2 = [wb.uleb(0x80000000) + b'\x7d'] * 2
        return d.splice(c.off, c.len, wb.uleb(v + 2) + b''.join(run2), sec, k)

    @rule
    def noise(d, r):
        """any byte change which the grammar rejects"""
        b = bytearray(d.b)
        for _ in range(r.choice([1, 1, 2, 4])):
            q = r.randrange(4)
            i = r.randrange(len(b)) if r.random() < .7 else min(len(b) - 1, 8 + r.randrange(60))
            if q == 0:
                b[i] ^= 1 << r.randrange(8)
            elif q == 1:
                b[i] = r.choice([0, 1, 0x7f, 0x80, 0xff, 0x40, 0x0b, 5, r.getrandbits(8)])
            elif q == 2:
                del b[i:i + r.choice([1, 1, 2, 8])]
            else:
                b[i:i] = bytes(r.getrandbits(8) for _ in range(r.choice([1, 1, 3])))
            if not b:
                b = bytearray(b'\0')
        m = bytes(b)
        return None if wparse.wellformed(m) else m
    return R


RULES = rules()
