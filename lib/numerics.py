"""C01-C04: every numeric/SIMD instruction, executed by the real interpreter on hostile operands, against V8 on the same bytes.

One generated module per instruction (and immediate): f(idx) loads the operands from exported memory, executes the instruction and
stores the result; g(...) takes the operands as parameters (integer types) and returns the result; h(idx) computes the same through a
block result and a local, so that a value is also observed after it has travelled.
"""
import base64, random
import ops, pw, values, wb
from ops import OPS, TRAPPING
from v8 import V8

STRIDE = 128
LOAD = {'i32': ('i32.load', 2), 'i64': ('i64.load', 3), 'f32': ('f32.load', 2), 'f64': ('f64.load', 3), 'v128': ('v128.load', 4)}
STORE = {'i32': ('i32.store', 2), 'i64': ('i64.store', 3), 'f32': ('f32.store', 2), 'f64': ('f64.store', 3), 'v128': ('v128.store', 4)}
SIZE = {'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'v128': 16}
BITOPS = {'abs', 'neg', 'copysign', 'pmin', 'pmax'}


def opclass(name):
    """which property judges this instruction"""
    o = OPS[name]
    if o.ins is None and not o.imm:
        return None
    if o.prefix == 0xfd:
        head, _, tail = name.partition('.')
        fl = head in ('f32x4', 'f64x2') or 'f32x4' in tail or 'f64x2' in tail
        if fl and not any(k in tail for k in ('splat', 'extract_lane', 'replace_lane')):
            return 'C04'
        return 'C03'
    if o.imm == 'mem':
        return 'C07'
    if any(t in ('f32', 'f64') for t in (o.ins or ()) + (o.outs or ())):
        return 'C02'
    return 'C01'


def shape_in(name, k):
    head, _, tail = name.partition('.')
    for s, sh in (('i8x16', ('i', 16)), ('i16x8', ('i', 8)), ('i32x4', ('i', 4)), ('i64x2', ('i', 2)), ('f32x4', ('f', 4)), ('f64x2', ('f', 2))):
        if s in tail:
            return sh
    for s, sh in (('i8x16', ('i', 16)), ('i16x8', ('i', 8)), ('i32x4', ('i', 4)), ('i64x2', ('i', 2)), ('f32x4', ('f', 4)), ('f64x2', ('f', 2))):
        if head == s:
            return sh
    return ('i', 16)


def nan_rule(name):
    """None: bit exact. else (in lane type, out lane type) for the NaN classes"""
    head, _, tail = name.partition('.')
    if tail.split('_')[0] in BITOPS or 'const' in tail or 'reinterpret' in tail or 'load' in tail or 'store' in tail:
        return None
    if head in ('f32', 'f64'):
        if tail in ('add', 'sub', 'mul', 'div', 'sqrt', 'min', 'max', 'ceil', 'floor', 'trunc', 'nearest'):
            return head, head
        if tail == 'demote_f64':
            return 'f64', 'f32'
        if tail == 'promote_f32':
            return 'f32', 'f64'
        return None
    if head in ('f32x4', 'f64x2'):
        t = 'f32' if head == 'f32x4' else 'f64'
        if tail in ('add', 'sub', 'mul', 'div', 'sqrt', 'min', 'max', 'ceil', 'floor', 'trunc', 'nearest'):
            return t, t
        if tail == 'demote_f64x2_zero':
            return 'f64', 'f32'
        if tail == 'promote_low_f32x4':
            return 'f32', 'f64'
    return None


def isnan(t, b):
    return (b & 0x7fffffff) > 0x7f800000 if t == 'f32' else (b & (1 << 63) - 1) > 0x7ff << 52


def canonical(t, b):
    return (b & 0x7fffffff) == 0x7fc00000 if t == 'f32' else (b & (1 << 63) - 1) == 0x7ff8 << 48


def quiet(t, b):
    return isnan(t, b) and bool(b >> (22 if t == 'f32' else 51) & 1)


def judge(name, operands, got, want):
    """operands: list of bytes; got/want result bytes.  None if acceptable, else text."""
    if got == want:
        if nan_rule(name) is None:
            return None
    rule = nan_rule(name)
    if rule is None:
        return 'result bits differ'
    ti, to = rule
    ni, no = SIZE[ti], SIZE[to]
    simd = len(want) == 16
    for k in range(0, len(want), no):
        w = int.from_bytes(want[k:k + no], 'little')
        g = int.from_bytes(got[k:k + no], 'little')
        if not isnan(to, w):
            if g != w:
                return 'result bits differ' if not simd else f'lane {k // no} differs'
            continue
        lane = k // no
        ins = [int.from_bytes(o[lane * ni:lane * ni + ni], 'little') for o in operands]
        nans = [i for i in ins if isnan(ti, i)]
        if not isnan(to, g):
            return 'NaN expected'
        if not quiet(to, g):
            return 'NaN result is not quiet'
        if all(canonical(ti, i) for i in nans) and not canonical(to, g):
            return 'NaN result is not canonical although every NaN operand is'
    return None


def build(name, imm, consts=()):
    o = OPS[name]
    m = wb.Module()
    m.mems.append((16, 16))
    m.exports.append(('mem', 'memory', 0))
    ins, outs = o.ins, o.outs
    if o.imm in ('mem', 'memlane'):
        ins = ins[1:]
    t = m.type(('i32',), ())

    def loads():
        b = []
        for k, ty in enumerate(ins):
            b += [('local.get', 0), (LOAD[ty][0], 0, 16 * k)]
        return b
    inst = (name,) + tuple(imm)
    # address operands of SIMD loads/stores: data lives at idx*STRIDE+48
    pre = []
    if o.imm in ('mem', 'memlane'):
        pre = [('local.get', 0)]
        inst = (name, imm[0], 64) + tuple(imm[1:])
    if outs:
        st = STORE[outs[0]][0]
        body = [('local.get', 0)] + pre + loads() + [inst, (st, 0, 96)]
        m.func(('i32',), (), [('local.get', 0), ('i32.const', STRIDE), ('i32.mul',), ('local.set', 0)] + body, export='f')
        bt = outs[0]
        body = [('local.get', 0), ('block', bt)] + pre + loads() + [inst, ('local.tee', 1), ('local.get', 1), ('br', 0), ('end',), ('local.set', 1), ('local.get', 1), (st, 0, 96)]
        m.func(('i32',), (), [('local.get', 0), ('i32.const', STRIDE), ('i32.mul',), ('local.set', 0)] + body, locals=[bt], export='h')
    else:
        body = pre + loads() + [inst]
        m.func(('i32',), (), [('local.get', 0), ('i32.const', STRIDE), ('i32.mul',), ('local.set', 0)] + body, export='f')
    # operands which were also kept elsewhere stay what they were, whether they came from memory or from constants
    sets = lambda ty, k: [('local.set', 1 + k)]
    tail = pre + [('local.get', 1 + k) for k in range(len(ins))] + [inst] + ([(STORE[outs[0]][0], 0, 96)] if outs else [])
    back = [x for k, ty in enumerate(ins) for x in (('local.get', 0), ('local.get', 1 + k), (STORE[ty][0], 0, 16 * k))]
    front = [('local.get', 0), ('i32.const', STRIDE), ('i32.mul',), ('local.set', 0)]
    if ins:
        m.func(('i32',), (), front + [x for k, ty in enumerate(ins) for x in [('local.get', 0), (LOAD[ty][0], 0, 16 * k)] + sets(ty, k)]
               + ([('local.get', 0)] if outs else []) + tail + back, locals=list(ins), export='k')
    for j, ops_ in enumerate(consts if ins else ()):
        m.func(('i32',), (), front + [x for k, ty in enumerate(ins) for x in [(ty + '.const', ops_[k] if ty == 'v128' else int.from_bytes(ops_[k], 'little'))] + sets(ty, k)]
               + ([('local.get', 0)] if outs else []) + tail + back, locals=list(ins), export=f'c{j}')
    direct = all(x in ('i32', 'i64') for x in ins + outs) and outs and not pre
    if direct:
        m.func(ins, outs, [('local.get', k) for k in range(len(ins))] + [inst], export='g')
    return m.encode(), ins, outs, bool(direct)


def immediates(name, r, wide):
    o = OPS[name]
    if o.imm == '':
        return [()]
    if o.imm == 'lane':
        return [(k,) for k in range(o.lanes)]
    if o.imm == 'shuffle':
        out = [tuple(range(16)), tuple(range(16, 32)), tuple(range(31, -1, -1))[:16], tuple([31] * 16)]
        return [(x,) for x in out] + [([r.randrange(32) for _ in range(16)],) for _ in range(24 * wide)]
    if o.imm == 'mem':
        return [(r.randint(0, o.nat.bit_length() - 1), 0)]
    if o.imm == 'memlane':
        return [(r.randint(0, o.nat.bit_length() - 1), k) for k in range(o.lanes)]
    if o.imm in ('i32', 'i64', 'f32', 'f64'):
        return [(values.rval(r, o.imm),) for _ in range(40 * wide)]
    if o.imm == 'v128':
        return [(values.rvec(r, r.choice([None, ('i', 4), ('f', 2)])),) for _ in range(20 * wide)]
    raise KeyError(o.imm)


def operand(r, name, k, ty):
    if ty == 'v128':
        if name == 'i8x16.swizzle' and k == 1:
            return bytes(r.choice([r.randrange(16), r.randrange(32), r.choice([15, 16, 17, 127, 128, 255])]) for _ in range(16))
        return values.rvec(r, shape_in(name, k))
    if ty == 'i32' and r.random() < .5 and any(k in name for k in ('splat', 'replace_lane', 'extend8', 'extend16', '.store8', '.store16')):
        # the low part matters, the rest must not
        w = r.choice([8, 16])
        return (r.getrandbits(32 - w) << w | r.choice(values.CORNER[f'i{w}'])).to_bytes(4, 'little')
    if ty == 'i32' and OPS[name].prefix == 0xfd and name.split('.')[1].startswith('sh'):
        return r.choice([r.randrange(70), r.randrange(70), values.rint(r, 32)]).to_bytes(4, 'little')
    return None


def isimd(name):
    head, _, tail = name.partition('.')
    return OPS[name].prefix == 0xfd and not OPS[name].imm


def splat(bits, lanes):
    return b''.join(x.to_bytes(bits // 8, 'little') for x in (lanes * (128 // bits))[:128 // bits])


def systematic(r, name, ins):
    """operand tuples enumerated rather than drawn: every pair of corner values, in every lane at once and in alternating lanes; all pairs of bytes"""
    out = []
    le = lambda v, t: v.to_bytes(SIZE[t], 'little')
    if len(ins) == 2 and ins[0] == ins[1] and ins[0] in values.CORNER:
        cs = values.CORNER[ins[0]]
        out = [[le(a, ins[0]), le(b, ins[0])] for a in cs for b in cs]
    elif isimd(name) and all(t == 'v128' for t in ins):
        kind, n = shape_in(name, 0)
        bits = 128 // n
        cs = values.CORNER[f'{kind}{bits}']
        if len(ins) == 1:
            if bits == 8:
                out = [[bytes((k + j) & 255 for j in range(16))] for k in range(0, 256, 16)] + [[bytes((k * 17 + j * 37) & 255 for j in range(16))] for k in range(16)]
            out += [[splat(bits, [a])] for a in cs] + [[splat(bits, [a, b])] for a in cs for b in cs]
        elif len(ins) == 2:
            out = [[splat(bits, [a]), splat(bits, [b])] for a in cs for b in cs]
            ext = values.EXTREME[f'{kind}{bits}']
            out += [[splat(bits, [a, b]), splat(bits, [c, d])] for a in ext for b in ext for c in ext for d in ext]
            if bits == 8 and kind == 'i' and name != 'i8x16.swizzle':
                for a in range(256):
                    for b in range(0, 256, 16):
                        k = r.randrange(16)
                        out.append([bytes([a]) * 16, bytes(b + (j + k) % 16 for j in range(16))])
        elif len(ins) == 3:
            ext = values.EXTREME['i32']
            out = [[splat(32, [a]), splat(32, [b]), splat(32, [c])] for a in ext for b in ext for c in ext]
    elif isimd(name) and list(ins) == ['v128', 'i32']:
        kind, n = shape_in(name, 0)
        bits = 128 // n
        out = [[splat(bits, [a]), le(k, 'i32')] for a in values.CORNER[f'i{bits}'] for k in list(range(bits + 2)) + [0xffffffff, 0x80000000, 2 * bits, 256, 255]]
    return out


def cases(r, name, ins, n):
    out = systematic(r, name, ins)
    n = max(n, len(out) + n // 2)
    head, _, tail = name.partition('.')
    if tail in ('add', 'sub', 'mul', 'div') and head in ('f32', 'f64', 'f32x4', 'f64x2'):
        for _ in range(n // 8):
            t = head[:3]
            if head == t:
                out.append([v.to_bytes(SIZE[t], 'little') for v in values.edgepair(r, t, tail)])
            else:
                w = [values.edgepair(r, t, tail) for _ in range(16 // SIZE[t])]
                out.append([b''.join(v[k].to_bytes(SIZE[t], 'little') for v in w) for k in (0, 1)])
    if head in ('i32', 'i64') and tail.split('_')[0] in ('div', 'rem'):
        le = lambda *vs: [(v % (1 << 8 * SIZE[head])).to_bytes(SIZE[head], 'little') for v in vs]
        for _ in range(40):     # between all sorts of others
            out.append(le(1 << 8 * SIZE[head] - 1, -1) if r.random() < .6 else le(values.rval(r, head), 0))
    special = {'i32': values.INT[32], 'i64': values.INT[64], 'f32': values.F32 + values.F32NAN, 'f64': values.F64 + values.F64NAN}
    if len(ins) == 1 and ins[0] in special:       # every special value once
        for v in special[ins[0]]:
            out.append([v.to_bytes(SIZE[ins[0]], 'little')])
        n = max(n, 2 * len(out))
    while len(out) < n:
        ops_ = [operand(r, name, k, t) for k, t in enumerate(ins)]
        if any(o is None for o in ops_):
            vals = values.rtuple(r, [t if t != 'v128' else 'i32' for t in ins])
            if name in ('f32.convert_i64_s', 'f32.convert_i64_u') and r.random() < 0.5:
                vals = [values.ri64_for_f32(r)]
            if name.split('.')[1] in ('shl', 'shr_s', 'shr_u', 'rotl', 'rotr') and r.random() < 0.5:
                vals[1] = r.randrange(0, 130)
            ops_ = [o if o is not None else v.to_bytes(SIZE[t], 'little') for o, v, t in zip(ops_, vals, ins)]
        elif len(ops_) >= 2 and r.random() < 0.06:
            if ins[0] == ins[1]:
                ops_[1] = ops_[0]
        out.append(ops_)
    r.shuffle(out)
    return out


def replay_sc(mod, fn, ins, ops_, mem):
    return {'mods': [base64.b64encode(mod).decode()], 'fn': fn, 'operands': [o.hex() for o in ops_]}


def run_op(job, v8, name, n, wide=1):
    r = job.rng
    imms = immediates(name, r, wide)
    per = max(8, n // len(imms))
    for imm in imms:
        ins = OPS[name].ins[1:] if OPS[name].imm in ('mem', 'memlane') else OPS[name].ins
        todo = cases(r, name, ins, per)
        consts = r.sample(todo, min(len(todo), 3 if len(imms) > 1 else 8)) if ins else []
        mod, ins, outs, direct = build(name, imm, consts)
        chunk = 16 * 65536 // STRIDE - 1
        for c0 in range(0, len(todo), chunk):
            part = todo[c0:c0 + chunk]
            image = bytearray(len(part) * STRIDE)
            o = OPS[name]
            for i, ops_ in enumerate(part):
                for k, b in enumerate(ops_):
                    image[i * STRIDE + 16 * k:i * STRIDE + 16 * k + len(b)] = b
                if o.imm in ('mem', 'memlane'):
                    image[i * STRIDE + 64:i * STRIDE + 80] = values.rvec(r, r.choice([('i', 16), ('i', 8), ('i', 4), ('i', 2)]))
            runs = [('f', part)]
            if c0 == 0:
                runs += [('h', part)] if outs else []
                runs += [('k', part)] if ins else []
                runs += [(f'c{j}', [x, x]) for j, x in enumerate(consts)]
            steps = [{'op': 'inst', 'id': 'A', 'mod': 0, 'imports': []}]
            mem = {'inst': 'A', 'export': 'mem'}
            for fn, pt in runs:
                steps += [{'op': 'memset', 'mem': mem, 'off': 0, 'b64': base64.b64encode(image[:len(pt) * STRIDE]).decode()},
                          {'op': 'callrange', 'inst': 'A', 'name': fn, 'n': len(pt)},
                          {'op': 'memget', 'mem': mem, 'off': 0, 'len': len(pt) * STRIDE}]
            calls = []
            if direct:
                for i in r.sample(range(len(part)), min(len(part), 60)):
                    calls.append(i)
                    steps.append({'op': 'call', 'inst': 'A', 'name': 'g', 'args': [[t, str(int.from_bytes(b, 'little'))] for t, b in zip(ins, part[i])],
                                  'results': list(outs)})
            sc = {'mods': [mod], 'host': {}, 'steps': steps}
            py, _ = pw.run(sc, budget=60)
            js = v8.run(pw.to_json(sc))
            assert 'err' not in js[0], js[0]
            if 'err' in py[0]:
                job.violation(f'{name}:rejected', f'module using {name} {imm} is rejected: {py[0]["err"]}', {'mod': mod.hex()})
                continue
            for q, (fn, pt) in enumerate(runs):
                if len(py) <= 2 + 3 * q or py[2 + 3 * q].get('hang'):
                    job.violation(f'{name}:hang', f'{name} does not terminate', {'mod': mod.hex(), 'operands': [[b.hex() for b in ops_] for ops_ in pt[:50]]})
                    return
                tp, tj = set(py[2 + 3 * q]['ok']), set(js[2 + 3 * q]['ok'])
                gp, gj = base64.b64decode(py[3 + 3 * q]['ok']), base64.b64decode(js[3 + 3 * q]['ok'])
                for i, ops_ in enumerate(pt):
                    if fn == 'f':
                        job.case((name, imm, tuple(ops_)))
                    job.count('traps_seen' if i in tj else 'values_seen')
                    wit = lambda got, want: {'mod': mod.hex(), 'fn': fn, 'op': name, 'imm': repr(imm), 'operands': [b.hex() for b in ops_], 'got': got, 'want': want,
                                             'image': image[i * STRIDE:(i + 1) * STRIDE].hex()}
                    if (i in tp) != (i in tj):
                        why = 'traps but the specification defines a result' if i in tp else 'does not trap where the specification does'
                        job.violation(f'{name}:trap', f'{name} {imm or ""} {[b.hex() for b in ops_]} {why}', wit(i in tp, i in tj))
                        continue
                    a = gp[i * STRIDE:(i + 1) * STRIDE]
                    b = gj[i * STRIDE:(i + 1) * STRIDE]
                    if a[:96] != b[:96]:
                        job.violation(f'{name}:mem', f'{name} {imm} wrote wrong bytes', wit(a.hex(), b.hex()))
                        continue
                    if i in tj or not outs:
                        continue
                    k = SIZE[outs[0]]
                    why = judge(name, ops_, a[96:96 + k], b[96:96 + k])
                    if why:
                        job.violation(f'{name}:value', f'{name} {imm or ""} operands(le) {[x.hex() for x in ops_]} gives {a[96:96 + k].hex()}, specified {b[96:96 + k].hex()}: {why}',
                                      wit(a[96:96 + k].hex(), b[96:96 + k].hex()))
                    elif a[96 + k:] != b[96 + k:]:
                        job.violation(f'{name}:mem', f'{name} {imm} wrote outside its result', wit(a.hex(), b.hex()))
            if direct:
                base = 1 + 3 * len(runs)
                for x, i in enumerate(calls):
                    a, b = py[base + x], js[base + x]
                    job.count('direct_calls')
                    if ('err' in a) != ('err' in b) or a.get('ok') != b.get('ok'):
                        job.violation(f'{name}:direct', f'{name} {imm or ""} on {[x.hex() for x in part[i]]}: pywasm {a}, specified {b}',
                                      {'mod': mod.hex(), 'fn': 'g', 'operands': [x.hex() for x in part[i]], 'got': a, 'want': b})
    job.count('ops_covered')
    if not job.samples:
        job.samples.append({'op': name, 'imm': repr(imms[0]), 'operands': [b.hex() for b in todo[0]]})


def check(pid, per_quick, per_thorough, wide_thorough=6):
    import harness
    names = [n for n in OPS if opclass(n) == pid]
    jobs = 16 if harness.tier() == 'quick' else 64
    rounds = 1 if harness.tier() == 'quick' else 4
    per = harness.scale(per_quick, per_thorough)

    def work(job):
        v8 = V8()
        mine = names[job.n % 16::16]
        for name in mine:
            run_op(job, v8, name, per, harness.scale(1, wide_thorough))
            if job.late():
                job.count('cut_short')
                break
        v8.close()
    c = harness.Check(pid, 'each case is (instruction, immediate, operand tuple) drawn from boundary values, their neighbours, structured and uniform '
                      'random bit patterns; distinct by that tuple; the same module bytes run on pywasm and on V8 and trap/no-trap, result bits '
                      '(NaN by class) and all surrounding memory are compared',
                      assumptions=['V8 (node) implements the WebAssembly 2.0 numeric semantics', 'x86-64/IEEE-754 host'])
    c.run(work, jobs=jobs if jobs % 16 == 0 else 16)
    c.require('ops_covered', len(names))
    c.require('values_seen', 1000)
    if pid in ('C01', 'C02'):
        c.require('traps_seen', 50)
    c.finish()
