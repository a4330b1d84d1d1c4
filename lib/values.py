"""Hostile operand generators (bit patterns)."""
import struct
from fractions import Fraction

M32, M64 = (1 << 32) - 1, (1 << 64) - 1


def f2b(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def d2b(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def ints(bits):
    m = (1 << bits) - 1
    s = {0, 1, 2, 3, 5, 7, 10, m, m - 1, m - 2, m >> 1, (m >> 1) + 1, (m >> 1) + 2, (m >> 1) - 1, 0x55555555555555555555 & m, 0xAAAAAAAAAAAAAAAAAAAA & m,
         0x0123456789abcdef & m, 0xfedcba9876543210 & m}
    for k in range(bits):
        s |= {1 << k, (1 << k) - 1, ((1 << k) + 1) & m, (-(1 << k)) & m, (-(1 << k) - 1) & m}
    return sorted(s)


INT = {32: ints(32), 64: ints(64), 8: ints(8), 16: ints(16)}
F32 = [f2b(x) for x in (0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.5, 4.5, 0.1, 1 / 3, 3.1415927, 7.0, 10.0, 100.0, 255.0, 256.0, 127.5, 128.0, 32767.5, 65535.5,
                        8388607.5, 8388608.0, 8388609.0, 16777215.0, 16777216.0, 16777218.0, 2147483520.0, 2147483648.0, 2147483904.0, 4294967040.0, 4294967296.0,
                        9223371487098961920.0, 9223372036854775808.0, 9223373136366403584.0, 18446742974197923840.0, 18446744073709551616.0, 1e10, 1e20, 1e38,
                        3.4028234663852886e38, 1e-10, 1e-38, 1e-45, 1.1754943508222875e-38, 0.49999997, 0.50000006, 0.99999994, 1.0000001, 1.4999999)]
F32 += [1, 2, 0x7fffff, 0x800000, 0x800001, 0x7f7fffff, 0x7f7ffffe, 0x7f800000, 0x3effffff, 0x3f000001, 0x4b000001, 0x4affffff, 0x4b7fffff, 0x00400000, 0x5f800001,
        0x19800000, 0x20000000, 0x1fffffff]
F32NAN = [0x7fc00000, 0x7fc00001, 0x7f800001, 0x7fa00000, 0x7fbfffff, 0x7fffffff, 0x7fe12345]
F32 = sorted(set(F32 + [b | 0x80000000 for b in F32]))
F32NAN = F32NAN + [b | 0x80000000 for b in F32NAN]
F64 = [d2b(x) for x in (0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.5, 4.5, 0.1, 1 / 3, 3.141592653589793, 7.0, 10.0, 100.0, 127.5, 255.5, 32768.5, 65536.0, 2147483647.0,
                        2147483647.5, 2147483648.0, 2147483648.5, 2147483649.0, 4294967295.0, 4294967295.5, 4294967295.9999995, 4294967296.0, 4294967297.0, 4503599627370495.5,
                        4503599627370496.0, 4503599627370497.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 9223372036854774784.0,
                        9223372036854775808.0, 9223372036854777856.0, 18446744073709549568.0, 18446744073709551616.0, 18446744073709555712.0, 1e100, 1e300,
                        1.7976931348623157e308, 1e-100, 1e-300, 5e-324, 2.2250738585072014e-308, 0.49999999999999994, 0.5000000000000001, 0.9999999999999999,
                        1.0000000000000002, 2.4999999999999996, 3.4028234663852886e38, 3.4028235677973362e38, 3.4028235677973366e38, 3.40282357e38, 3.5e38,
                        1.401298464324817e-45, 7.006492321624085e-46, 7.006492321624086e-46, 7.0e-46, 1.1754943508222875e-38, 1.1754942807573643e-38,
                        1.1754943157898259e-38, 16777217.0, 16777217.000000004, 16777216.999999996, 16777219.0, 1.0000000596046448, 1.0000000596046446, 1.000000059604645)]
F64 += [1, 2, (1 << 52) - 1, 1 << 52, (1 << 52) + 1, 0x7fefffffffffffff, 0x7feffffffffffffe, 0x7ff0000000000000, 0x3fdfffffffffffff, 0x3fe0000000000001,
        0x4330000000000001, 0x432fffffffffffff, 0x47efffffe0000000, 0x47efffffefffffff, 0x47effffff0000000, 0x380fffffe0000000, 0x36a0000000000000, 0x3690000000000000,
        0x3690000000000001, 0x3800000000000000, 0x1e60000000000000, 0x1fffffffffffffff, 0x2000000000000000]
F64NAN = [0x7ff8000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0x7ff4000000000000, 0x7ff7ffffffffffff, 0x7fffffffffffffff, 0x7ffabcdef0123456,
          0x7ff0000020000000, 0x7ff800001fffffff, 0x7ff000001fffffff]
F64 = sorted(set(F64 + [b | 1 << 63 for b in F64]))
F64NAN = F64NAN + [b | 1 << 63 for b in F64NAN]

def _corner(bits):
    m, h = (1 << bits) - 1, 1 << (bits - 1)
    s = [0, 1, 2, 3, 7, m, m - 1, h, h + 1, h - 1, h - 2, h >> 1, (h >> 1) - 1, m ^ (h >> 1), 1 << (bits // 2), (1 << (bits // 2)) - 1, m ^ ((1 << (bits // 2)) - 1),
         m // 3, m // 3 * 2, 10]
    return sorted(set(s))


CORNER = {f'i{b}': _corner(b) for b in (8, 16, 32, 64)}
_f = lambda conv, sign, extra: [x | s for x in [conv(v) for v in (0.0, 1.0, 0.5, 2.0, 1.5, 3.0, 7.0)] + extra for s in (0, sign)]
CORNER['f32'] = _f(f2b, 1 << 31, [1, 0x7fffff, 0x800000, 0x7f7fffff, 0x7f800000, 0x7fc00000, 0x7fa00000, 0x3f800001, 0x4b000000, 0x4b800000, 0x4f000000])
CORNER['f64'] = _f(d2b, 1 << 63, [1, (1 << 52) - 1, 1 << 52, 0x7fefffffffffffff, 0x7ff << 52, 0x7ff8 << 48, 0x7ff4 << 48, 0x3ff0000000000001, 0x4330000000000000,
                                  0x4340000000000000, 0x41e0000000000000])
EXTREME = {f'i{b}': [0, 1, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1] for b in (8, 16, 32, 64)}
EXTREME['f32'] = [0, 1 << 31, 0x3f800000, 0x7f800000, 0x7fc00000]
EXTREME['f64'] = [0, 1 << 63, 0x3ff << 52, 0x7ff << 52, 0x7ff8 << 48]


def rint(r, bits):
    k = r.random()
    if k < 0.1 and bits > 8:      # the halves are corners of their own
        h = bits // 2
        return rint(r, h) << h | rint(r, h)
    if k < 0.45:
        return r.choice(INT[bits])
    if k < 0.6:
        return r.getrandbits(bits)
    if k < 0.72:
        return r.getrandbits(r.randint(1, bits))
    if k < 0.82:
        return (-r.getrandbits(r.randint(1, bits))) & ((1 << bits) - 1)
    if k < 0.9:
        return r.randrange(-70, 140) & ((1 << bits) - 1)
    if k < 0.95:
        return (r.choice(INT[bits]) + r.randint(-3, 3)) & ((1 << bits) - 1)
    return r.getrandbits(bits) & r.getrandbits(bits) & r.getrandbits(bits)


def rf32(r, nan=0.12):
    k = r.random()
    if k < nan:
        return r.choice(F32NAN) if r.random() < 0.7 else (r.getrandbits(1) << 31 | 0x7f800000 | r.randint(1, (1 << 23) - 1))
    if k < 0.5:
        return r.choice(F32)
    if k < 0.65:
        return r.getrandbits(32)
    if k < 0.75:     # neighbours
        return (r.choice(F32) + r.randint(-2, 2)) & M32
    if k < 0.87:     # small halves and integers
        return f2b(r.randint(-40, 40) / r.choice([1, 2, 4]))
    if k < 0.95:     # around the integer/fraction boundary
        return r.getrandbits(1) << 31 | r.randint(124, 152) << 23 | r.getrandbits(23)
    return f2b(r.uniform(-1, 1) * 2.0 ** r.randint(20, 70))


def rf64(r, nan=0.12):
    k = r.random()
    if k < nan:
        return r.choice(F64NAN) if r.random() < 0.7 else (r.getrandbits(1) << 63 | 0x7ff << 52 | r.randint(1, (1 << 52) - 1))
    if k < 0.42:
        return r.choice(F64)
    if k < 0.52:
        return r.getrandbits(64)
    if k < 0.64:
        return (r.choice(F64) + r.randint(-2, 2)) & M64
    if k < 0.74:
        return d2b(r.randint(-40, 40) / r.choice([1, 2, 4]))
    if k < 0.84:
        return r.getrandbits(1) << 63 | r.randint(1020, 1023 + 66) << 52 | r.getrandbits(52)
    if k < 0.94:     # exactly or nearly half way between two f32 values (normal or subnormal)
        e = r.choice([r.randint(1023 - 150, 1023 + 128), r.randint(1023 - 152, 1023 - 124)])
        sub = max(0, (1023 - 126) - e)
        keep = max(0, 23 - sub)
        m = r.getrandbits(52)
        low = 52 - keep
        if low > 0:
            m = (m >> low << low) | (1 << (low - 1))
        m = max(0, min((1 << 52) - 1, m + r.choice([0, 0, 1, -1])))
        return r.getrandbits(1) << 63 | e << 52 | m
    return d2b(r.uniform(-1, 1) * 2.0 ** r.randint(20, 130))


def ri64_for_f32(r):
    """i64 patterns that expose double rounding: half-way points of the f32 grid with sticky bits below the f64 grid"""
    n = r.randint(25, 63)
    m = (1 << n) | (r.getrandbits(23) << (n - 23)) | (1 << (n - 24))
    if r.random() < 0.7:
        m += r.choice([-1, 1]) * r.choice([0, 1, 1, 1 << r.randint(0, max(0, n - 25))])
    return m & M64 if r.random() < 0.7 else -m & M64


def rval(r, t):
    if t == 'i32':
        return rint(r, 32)
    if t == 'i64':
        return rint(r, 64)
    if t == 'f32':
        return rf32(r)
    if t == 'f64':
        return rf64(r)
    raise KeyError(t)


def edgepair(r, t, op):
    """operands whose exact result lies next to a point where rounding changes: overflow, half of a subnormal step, ties in general"""
    bits, mant, top, low = (32, 23, 127, -149) if t == 'f32' else (64, 52, 1023, -1074)
    num = lambda b: Fraction(struct.unpack('<f', struct.pack('<I', b))[0] if t == 'f32' else struct.unpack('<d', struct.pack('<Q', b))[0])
    bias = top
    for _ in range(20):
        k = r.random()
        if k < .4:        # the largest finite value plus nearly half a step
            x = Fraction(2) ** (top + 1) - Fraction(2) ** (top - mant - 1)
        elif k < .75:
            x = (r.choice([0, 0, 1, 2, r.getrandbits(8), r.getrandbits(mant)]) + Fraction(1, 2)) * Fraction(2) ** low
        else:
            x = ((1 << mant | r.getrandbits(mant)) + Fraction(1, 2)) * Fraction(2) ** r.randint(low, top - mant)
        x *= 1 + Fraction(r.randint(-4, 4), 1 << r.choice([mant + 1, mant + 2, mant + 3, 2 * mant]))
        e = r.randint(1, 2 * bias) if op in ('mul', 'div') else max(1, min(2 * bias, bias + (x.numerator.bit_length() - x.denominator.bit_length()) - r.randint(-1, mant + 2)))
        b = r.getrandbits(1) << bits - 1 | e << mant | r.getrandbits(mant)
        y = num(b)
        a = {'add': x - y, 'sub': x + y, 'mul': x / y, 'div': x * y}[op]
        try:
            a = f2b(float(a)) if t == 'f32' else d2b(float(a))
        except OverflowError:
            continue
        a = a + r.choice([0, 0, 0, 1, -1])
        if 0 < a & (1 << bits - 1) - 1 < (2 * bias + 1) << mant and a >= 0:
            s = r.getrandbits(1) << bits - 1
            return [a ^ s, b ^ s]
    return [rval(r, t), rval(r, t)]


def rtuple(r, ts):
    vals = [rval(r, t) for t in ts]
    if len(ts) == 2 and ts[0] == ts[1]:
        k = r.random()
        bits = 32 if ts[0] in ('i32', 'f32') else 64
        if k < 0.06:
            vals[1] = vals[0]
        elif k < 0.12:
            vals[1] = vals[0] ^ 1 << (bits - 1)
        elif k < 0.2:
            vals[1] = (vals[0] + r.randint(-2, 2)) & ((1 << bits) - 1)
        elif k < 0.24 and ts[0] in ('f32', 'f64'):      # +-0 pairs
            vals = [r.getrandbits(1) << (bits - 1), r.getrandbits(1) << (bits - 1)]
        elif k < 0.30 and ts[0] in ('f32', 'f64'):      # similar exponent
            mant = 23 if bits == 32 else 52
            vals[1] = (vals[0] & ~((1 << mant) - 1)) ^ r.getrandbits(mant)
    return vals


def rvec(r, shape):
    """16 bytes as lanes of the shape: mixture of hostile lanes"""
    if shape is None or r.random() < 0.06:
        return r.getrandbits(128).to_bytes(16, 'little')
    kind, n = shape
    bits = 128 // n
    if kind == 'f':
        lanes = [rf32(r) if bits == 32 else rf64(r) for _ in range(n)]
    else:
        lanes = [rint(r, bits) for _ in range(n)]
    if r.random() < 0.08:
        lanes = [lanes[0]] * n
    if kind == 'i' and r.random() < 0.05:
        lanes = [r.choice([0, 0, 0, (1 << bits) - 1]) for _ in range(n)]
    return b''.join(x.to_bytes(bits // 8, 'little') for x in lanes)
