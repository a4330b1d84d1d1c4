import hashlib, io, os, tempfile
import damage, ops, progen, pw, wb, wparse
from harness import Check, scale
from v8 import V8

PROF = progen.profile(simd=2, table=2, ref=2, bulk=2)
core = pw.core


def digest(rt):
    h = hashlib.md5()
    s = rt.machine.store
    h.update(repr((len(s.func), len(s.tabl), len(s.mems), len(s.glob), pw.depths(rt), sorted(rt.imports))).encode())
    for m in s.mems:
        h.update(bytes(m.data))
    for t in s.tabl:
        h.update(repr([repr(vars(x)) if hasattr(x, '__dict__') else repr(x) for x in t.elem]).encode())
    for g in s.glob:
        h.update(bytes(g.data.data))
    return h.hexdigest()


def attempt(job, rule, bad, rt, path):
    """decode through one of the public ways; must raise before anything happens"""
    before = digest(rt) if rt is not None else None
    how = job.rng.choice(['reader', 'file'])
    err = None
    pw.guard(20)
    try:
        if how == 'reader':
            d = core.ModuleDesc.from_reader(io.BytesIO(bad))
            what = 'decoded'
        else:
            with open(path, 'wb') as f:
                f.write(bad)
            (rt or core.Runtime()).instance_from_file(path)
            what = 'decoded and instantiated'
    except pw.Hang:
        what = 'not decided within 20 s of CPU'
    except Exception as e:
        err = e
    finally:
        pw.guard(0)
    if err is None:
        job.violation(f'accepted:{rule}', f'malformed module ({rule}) {what} through {how}: {bad[:40].hex()}...', {'rule': rule, 'module': bad.hex(), 'way': how})
        return False
    job.count('rejected ' + rule)
    job.count('way ' + how)
    job.count('exception ' + type(err).__name__)
    if before is not None and digest(rt) != before:
        job.violation(f'effect:{rule}', f'a rejected module ({rule}) changed the existing runtime', {'rule': rule, 'module': bad.hex()})
        return False
    return True


def probe(r, code):
    """a module whose only function runs into an unreachable before the instruction in question"""
    m = wb.Module()
    m.mems.append((1, 1))
    fs = r.randrange(3)
    for k in range(fs):
        m.func((), (), [('nop',)] * k)
    body = b'\0' + (b'\2\x40\0' if r.random() < .3 else b'') + code + b'\0'
    m.func((), (), body + (b'\x0b' if body[1:2] == b'\2' else b''), export='f')
    return m.encode(wb.MIN if r.random() < .6 else wb.Messy(r, .3))


def immediates(job, v8, tmp):
    """alignment and lane immediates: every instruction with its largest legal immediate (accepted) and with ones out of range (rejected)"""
    r = job.rng
    for n, o in ops.OPS.items():
        head = bytes([o.code]) if o.prefix is None else bytes([o.prefix]) + wb.uleb(o.code)
        good, bads = [], []
        if o.imm in ('mem', 'memlane'):
            nat = o.nat.bit_length() - 1
            lane = b'\0' if o.imm == 'memlane' else b''
            good.append(head + wb.uleb(nat) + wb.uleb(r.getrandbits(32)) + lane)
            bads += [('alignment', head + wb.uleb(a) + b'\0' + lane) for a in (nat + 1, r.choice([nat + 2, 8, 16, 31, 32, 33, 63, 127, 128, 255]))]
        if o.imm in ('lane', 'memlane'):
            pre = b'\0' + wb.uleb(r.getrandbits(32)) if o.imm == 'memlane' else b''
            good.append(head + pre + bytes([o.lanes - 1]))
            bads += [('lane', head + pre + b) for b in (bytes([o.lanes]), bytes([r.randint(o.lanes, 127)]), bytes([0x80 | r.randrange(o.lanes), 0]), bytes([r.randint(128, 255)]))]
        if o.imm == 'shuffle':
            for k in range(16):
                x = bytearray(r.choice([0, 31, 15, 16, r.randrange(32)]) for _ in range(16))
                good.append(head + x)
                for b in (32, r.randint(32, 255)):
                    y = bytearray(x)
                    y[k] = b
                    bads.append(('lane', head + y))
            bads.append(('lane', head + b'\x81\0' + bytes(14) + b'\0'))
        for g in good:
            b = probe(r, g)
            assert v8.run(pw.to_json({'mods': [b], 'host': {}, 'steps': [dict(op='validate', mod=0)]}))[0]['ok']
            try:
                core.ModuleDesc.from_reader(io.BytesIO(b))
                job.count('largest immediates accepted')
            except Exception as e:
                job.violation(f'immediate:{n}', f'{n} with its largest legal immediate {g.hex()} is rejected: {e!r}', {'module': b.hex()})
        for rule, g in bads:
            b = probe(r, g)
            assert not v8.run(pw.to_json({'mods': [b], 'host': {}, 'steps': [dict(op='validate', mod=0)]}))[0]['ok'], (n, g.hex())
            job.case((rule, hashlib.md5(b).digest()), rule)
            attempt(job, rule, b, None, tmp.name)


def work(job):
    v8 = V8()
    tmp = tempfile.NamedTemporaryFile(suffix='.wasm')
    r = job.rng
    try:
        for _ in range(scale(1, 10)):
            immediates(job, v8, tmp)
        for k in range(scale(40, 1200)):
            if job.late():
                break
            wb.CAPTURE = []
            sc = progen.Gen(r, PROF, mods=1, funcs=4, size=30, calls=3).scenario()
            m = wb.CAPTURE[0]
            wb.CAPTURE = None
            if r.random() < .3:
                m.datas.append(wb.Data('active', b'abcdef', [('i32.const', 0)])) if m.mems else None
            b = m.encode(wb.MIN if r.random() < .5 else wb.Messy(r, .3))
            d = damage.Doc(b)
            # a live runtime executing the undamaged module: must not notice
            got, ctx = pw.run(sc)
            rt = ctx.rt
            pool = []
            for name, f in damage.RULES.items():
                for _ in range(12 if name == 'noise' else 4):
                    bad = f(d, r)
                    if bad is None:
                        job.count('not applicable')
                        continue
                    if wparse.wellformed(bad):
                        job.count('damage harmless')
                        continue
                    job.case((name, hashlib.md5(bad).digest()), name)
                    pool.append((name, bad))
                    attempt(job, name, bad, rt, tmp.name)
            if r.random() < .3:
                L = len(b)
                cuts = {s[1] for s in d.P.secs}
                for n in range(0, L, max(1, L // 120)):
                    if n not in cuts:
                        job.case(('cut', hashlib.md5(b[:n]).digest()))
                        attempt(job, 'truncated', b[:n], None, tmp.name)
            # V8 as a second opinion on the damage (it implements later proposals too, so disagreement is only counted)
            for name, bad in r.sample(pool, min(len(pool), 40)):
                ok = v8.run(pw.to_json({'mods': [bad], 'host': {}, 'steps': [dict(op='validate', mod=0)]}))[0].get('ok')
                job.count(('v8 accepts ' + name) if ok else 'v8 agrees malformed')
            # the undamaged module still decodes and behaves: rejecting is not what the decoder always does
            again, _ = pw.run(sc)
            if [{k: v for k, v in x.items()} for x in again] != got:
                job.violation('later decode', 'after rejected modules the original module behaves differently', pw.to_json(sc))
            job.count('undamaged decoded again')
    finally:
        v8.close()
        tmp.close()


def main():
    c = Check('C11', 'a distinct byte string, malformed by construction and by an independent grammar, offered to the decoder')
    c.run(work)
    for n in [*damage.RULES, 'alignment', 'lane']:
        c.require('rejected ' + n, 40)
    c.require('undamaged decoded again', 50)
    c.finish()
