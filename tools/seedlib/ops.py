"""WebAssembly 2.0 opcode table written from the specification (independent of pywasm/opcode.py).

OPS[name] = Op(name, prefix, code, imm, ins, outs, traps)
  imm: '' | 'i32' 'i64' 'f32' 'f64' 'v128' (constants) | 'mem' (align, offset) | 'memlane' | 'lane' | 'shuffle'
       | 'idx' ... other immediates are handled by name in wb.py
  ins/outs: tuples of 'i32','i64','f32','f64','v128' for the plain (type-monomorphic) instructions, else None
"""
from collections import namedtuple
Op = namedtuple('Op', 'name prefix code imm ins outs nat lanes')
OPS = {}


def _add(name, prefix, code, imm='', ins=None, outs=None, nat=0, lanes=0):
    assert name not in OPS, name
    OPS[name] = Op(name, prefix, code, imm, ins, outs, nat, lanes)


I, L, F, D, V = 'i32', 'i64', 'f32', 'f64', 'v128'

# control / parametric / variable / table / reference (no monomorphic signature)
for n, c in [('unreachable', 0), ('nop', 1), ('block', 2), ('loop', 3), ('if', 4), ('else', 5), ('end', 11), ('br', 12), ('br_if', 13),
             ('br_table', 14), ('return', 15), ('call', 16), ('call_indirect', 17), ('drop', 26), ('select', 27), ('select_t', 28),
             ('local.get', 32), ('local.set', 33), ('local.tee', 34), ('global.get', 35), ('global.set', 36), ('table.get', 37),
             ('table.set', 38), ('memory.size', 63), ('memory.grow', 64), ('ref.null', 0xd0), ('ref.is_null', 0xd1), ('ref.func', 0xd2)]:
    _add(n, None, c)

# memory
for n, c, nat, t in [('i32.load', 0x28, 4, I), ('i64.load', 0x29, 8, L), ('f32.load', 0x2a, 4, F), ('f64.load', 0x2b, 8, D),
                     ('i32.load8_s', 0x2c, 1, I), ('i32.load8_u', 0x2d, 1, I), ('i32.load16_s', 0x2e, 2, I), ('i32.load16_u', 0x2f, 2, I),
                     ('i64.load8_s', 0x30, 1, L), ('i64.load8_u', 0x31, 1, L), ('i64.load16_s', 0x32, 2, L), ('i64.load16_u', 0x33, 2, L),
                     ('i64.load32_s', 0x34, 4, L), ('i64.load32_u', 0x35, 4, L)]:
    _add(n, None, c, 'mem', (I,), (t,), nat)
for n, c, nat, t in [('i32.store', 0x36, 4, I), ('i64.store', 0x37, 8, L), ('f32.store', 0x38, 4, F), ('f64.store', 0x39, 8, D),
                     ('i32.store8', 0x3a, 1, I), ('i32.store16', 0x3b, 2, I), ('i64.store8', 0x3c, 1, L), ('i64.store16', 0x3d, 2, L),
                     ('i64.store32', 0x3e, 4, L)]:
    _add(n, None, c, 'mem', (I, t), (), nat)

# consts
for n, c in [('i32.const', 0x41), ('i64.const', 0x42), ('f32.const', 0x43), ('f64.const', 0x44)]:
    _add(n, None, c, n[:3], (), (n[:3],))

# scalar numerics
c = 0x45
for t in (I, L):
    _add(t + '.eqz', None, c, '', (t,), (I,)); c += 1
    for n in 'eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'.split():
        _add(t + '.' + n, None, c, '', (t, t), (I,)); c += 1
for t in (F, D):
    for n in 'eq ne lt gt le ge'.split():
        _add(t + '.' + n, None, c, '', (t, t), (I,)); c += 1
assert c == 0x67
for t in (I, L):
    for n in 'clz ctz popcnt'.split():
        _add(t + '.' + n, None, c, '', (t,), (t,)); c += 1
    for n in 'add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr'.split():
        _add(t + '.' + n, None, c, '', (t, t), (t,)); c += 1
for t in (F, D):
    for n in 'abs neg ceil floor trunc nearest sqrt'.split():
        _add(t + '.' + n, None, c, '', (t,), (t,)); c += 1
    for n in 'add sub mul div min max copysign'.split():
        _add(t + '.' + n, None, c, '', (t, t), (t,)); c += 1
assert c == 0xa7
for n in ('i32.wrap_i64 i32.trunc_f32_s i32.trunc_f32_u i32.trunc_f64_s i32.trunc_f64_u i64.extend_i32_s i64.extend_i32_u '
          'i64.trunc_f32_s i64.trunc_f32_u i64.trunc_f64_s i64.trunc_f64_u f32.convert_i32_s f32.convert_i32_u f32.convert_i64_s '
          'f32.convert_i64_u f32.demote_f64 f64.convert_i32_s f64.convert_i32_u f64.convert_i64_s f64.convert_i64_u f64.promote_f32 '
          'i32.reinterpret_f32 i64.reinterpret_f64 f32.reinterpret_i32 f64.reinterpret_i64').split():
    src = [x for x in n[4:].split('_') if x in (I, L, F, D)][0]
    _add(n, None, c, '', (src,), (n[:3],)); c += 1
for n in 'i32.extend8_s i32.extend16_s i64.extend8_s i64.extend16_s i64.extend32_s'.split():
    _add(n, None, c, '', (n[:3],), (n[:3],)); c += 1
assert c == 0xc5
c = 0
for t in (I, L):
    for s in (F, D):
        for g in 'su':
            _add(f'{t}.trunc_sat_{s}_{g}', 0xfc, c, '', (s,), (t,)); c += 1
for n in 'memory.init data.drop memory.copy memory.fill table.init elem.drop table.copy table.grow table.size table.fill'.split():
    _add(n, 0xfc, c); c += 1

# SIMD
for c, n, nat in [(0, 'v128.load', 16), (1, 'v128.load8x8_s', 8), (2, 'v128.load8x8_u', 8), (3, 'v128.load16x4_s', 8), (4, 'v128.load16x4_u', 8),
                  (5, 'v128.load32x2_s', 8), (6, 'v128.load32x2_u', 8), (7, 'v128.load8_splat', 1), (8, 'v128.load16_splat', 2),
                  (9, 'v128.load32_splat', 4), (10, 'v128.load64_splat', 8), (92, 'v128.load32_zero', 4), (93, 'v128.load64_zero', 8)]:
    _add(n, 0xfd, c, 'mem', (I,), (V,), nat)
_add('v128.store', 0xfd, 11, 'mem', (I, V), (), 16)
_add('v128.const', 0xfd, 12, 'v128', (), (V,))
_add('i8x16.shuffle', 0xfd, 13, 'shuffle', (V, V), (V,), 0, 32)
_add('i8x16.swizzle', 0xfd, 14, '', (V, V), (V,))
SH = {'i8x16': (I, 16), 'i16x8': (I, 8), 'i32x4': (I, 4), 'i64x2': (L, 2), 'f32x4': (F, 4), 'f64x2': (D, 2)}
c = 15
for s, (t, k) in SH.items():
    _add(s + '.splat', 0xfd, c, '', (t,), (V,)); c += 1
for s, (t, k) in SH.items():
    if s in ('i8x16', 'i16x8'):
        _add(s + '.extract_lane_s', 0xfd, c, 'lane', (V,), (I,), 0, k); c += 1
        _add(s + '.extract_lane_u', 0xfd, c, 'lane', (V,), (I,), 0, k); c += 1
    else:
        _add(s + '.extract_lane', 0xfd, c, 'lane', (V,), (t,), 0, k); c += 1
    _add(s + '.replace_lane', 0xfd, c, 'lane', (V, t), (V,), 0, k); c += 1
assert c == 35
for s in ('i8x16', 'i16x8', 'i32x4'):
    for n in 'eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'.split():
        _add(s + '.' + n, 0xfd, c, '', (V, V), (V,)); c += 1
for s in ('f32x4', 'f64x2'):
    for n in 'eq ne lt gt le ge'.split():
        _add(s + '.' + n, 0xfd, c, '', (V, V), (V,)); c += 1
_add('v128.not', 0xfd, 77, '', (V,), (V,))
for c, n in [(78, 'and'), (79, 'andnot'), (80, 'or'), (81, 'xor')]:
    _add('v128.' + n, 0xfd, c, '', (V, V), (V,))
_add('v128.bitselect', 0xfd, 82, '', (V, V, V), (V,))
_add('v128.any_true', 0xfd, 83, '', (V,), (I,))
for i, w in enumerate((8, 16, 32, 64)):
    _add(f'v128.load{w}_lane', 0xfd, 84 + i, 'memlane', (I, V), (V,), w // 8, 128 // w)
    _add(f'v128.store{w}_lane', 0xfd, 88 + i, 'memlane', (I, V), (), w // 8, 128 // w)
U1 = {94: 'f32x4.demote_f64x2_zero', 95: 'f64x2.promote_low_f32x4', 96: 'i8x16.abs', 97: 'i8x16.neg', 98: 'i8x16.popcnt', 103: 'f32x4.ceil',
      104: 'f32x4.floor', 105: 'f32x4.trunc', 106: 'f32x4.nearest', 116: 'f64x2.ceil', 117: 'f64x2.floor', 122: 'f64x2.trunc',
      124: 'i16x8.extadd_pairwise_i8x16_s', 125: 'i16x8.extadd_pairwise_i8x16_u', 126: 'i32x4.extadd_pairwise_i16x8_s',
      127: 'i32x4.extadd_pairwise_i16x8_u', 128: 'i16x8.abs', 129: 'i16x8.neg', 135: 'i16x8.extend_low_i8x16_s', 136: 'i16x8.extend_high_i8x16_s',
      137: 'i16x8.extend_low_i8x16_u', 138: 'i16x8.extend_high_i8x16_u', 148: 'f64x2.nearest', 160: 'i32x4.abs', 161: 'i32x4.neg',
      167: 'i32x4.extend_low_i16x8_s', 168: 'i32x4.extend_high_i16x8_s', 169: 'i32x4.extend_low_i16x8_u', 170: 'i32x4.extend_high_i16x8_u',
      192: 'i64x2.abs', 193: 'i64x2.neg', 199: 'i64x2.extend_low_i32x4_s', 200: 'i64x2.extend_high_i32x4_s', 201: 'i64x2.extend_low_i32x4_u',
      202: 'i64x2.extend_high_i32x4_u', 224: 'f32x4.abs', 225: 'f32x4.neg', 227: 'f32x4.sqrt', 236: 'f64x2.abs', 237: 'f64x2.neg', 239: 'f64x2.sqrt',
      248: 'i32x4.trunc_sat_f32x4_s', 249: 'i32x4.trunc_sat_f32x4_u', 250: 'f32x4.convert_i32x4_s', 251: 'f32x4.convert_i32x4_u',
      252: 'i32x4.trunc_sat_f64x2_s_zero', 253: 'i32x4.trunc_sat_f64x2_u_zero', 254: 'f64x2.convert_low_i32x4_s', 255: 'f64x2.convert_low_i32x4_u'}
for c, n in U1.items():
    _add(n, 0xfd, c, '', (V,), (V,))
for s, c in (('i8x16', 99), ('i16x8', 131), ('i32x4', 163), ('i64x2', 195)):
    _add(s + '.all_true', 0xfd, c, '', (V,), (I,))
    _add(s + '.bitmask', 0xfd, c + 1, '', (V,), (I,))
for s, c in (('i8x16', 107), ('i16x8', 139), ('i32x4', 171), ('i64x2', 203)):
    for i, n in enumerate(('shl', 'shr_s', 'shr_u')):
        _add(s + '.' + n, 0xfd, c + i, '', (V, I), (V,))
B2 = {101: 'i8x16.narrow_i16x8_s', 102: 'i8x16.narrow_i16x8_u', 110: 'i8x16.add', 111: 'i8x16.add_sat_s', 112: 'i8x16.add_sat_u', 113: 'i8x16.sub',
      114: 'i8x16.sub_sat_s', 115: 'i8x16.sub_sat_u', 118: 'i8x16.min_s', 119: 'i8x16.min_u', 120: 'i8x16.max_s', 121: 'i8x16.max_u',
      123: 'i8x16.avgr_u', 130: 'i16x8.q15mulr_sat_s', 133: 'i16x8.narrow_i32x4_s', 134: 'i16x8.narrow_i32x4_u', 142: 'i16x8.add',
      143: 'i16x8.add_sat_s', 144: 'i16x8.add_sat_u', 145: 'i16x8.sub', 146: 'i16x8.sub_sat_s', 147: 'i16x8.sub_sat_u', 149: 'i16x8.mul',
      150: 'i16x8.min_s', 151: 'i16x8.min_u', 152: 'i16x8.max_s', 153: 'i16x8.max_u', 155: 'i16x8.avgr_u', 156: 'i16x8.extmul_low_i8x16_s',
      157: 'i16x8.extmul_high_i8x16_s', 158: 'i16x8.extmul_low_i8x16_u', 159: 'i16x8.extmul_high_i8x16_u', 174: 'i32x4.add', 177: 'i32x4.sub',
      181: 'i32x4.mul', 182: 'i32x4.min_s', 183: 'i32x4.min_u', 184: 'i32x4.max_s', 185: 'i32x4.max_u', 186: 'i32x4.dot_i16x8_s',
      188: 'i32x4.extmul_low_i16x8_s', 189: 'i32x4.extmul_high_i16x8_s', 190: 'i32x4.extmul_low_i16x8_u', 191: 'i32x4.extmul_high_i16x8_u',
      206: 'i64x2.add', 209: 'i64x2.sub', 213: 'i64x2.mul', 214: 'i64x2.eq', 215: 'i64x2.ne', 216: 'i64x2.lt_s', 217: 'i64x2.gt_s',
      218: 'i64x2.le_s', 219: 'i64x2.ge_s', 220: 'i64x2.extmul_low_i32x4_s', 221: 'i64x2.extmul_high_i32x4_s', 222: 'i64x2.extmul_low_i32x4_u',
      223: 'i64x2.extmul_high_i32x4_u'}
for i, n in enumerate('add sub mul div min max pmin pmax'.split()):
    B2[228 + i] = 'f32x4.' + n
    B2[240 + i] = 'f64x2.' + n
for c, n in B2.items():
    _add(n, 0xfd, c, '', (V, V), (V,))
_codes = [(o.prefix, o.code) for o in OPS.values()]
assert len(set(_codes)) == len(_codes)
assert sum(1 for o in OPS.values() if o.prefix == 0xfd) == 236, sum(1 for o in OPS.values() if o.prefix == 0xfd)
TRAPPING = {n for n in OPS if n.split('.')[-1] in ('div_s', 'div_u', 'rem_s', 'rem_u')} | {n for n in OPS if '.trunc_f' in n and 'x' not in n}
