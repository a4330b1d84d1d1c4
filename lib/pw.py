"""Executes scenarios on the real pywasm from /repo, through its public API, mirroring v8.js.

A scenario is {'mods': [bytes...], 'host': {id: desc}, 'steps': [...]} (see v8.js for the step kinds); run() gives one result per
step: {'ok': value} or {'err': text}, plus 'trace' with the host calls made during the step.
"""
import base64, hashlib, io, os, signal, struct, sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import pywasm            # noqa: E402
import pywasm.core as core  # noqa: E402

assert os.path.realpath(pywasm.__file__).startswith(os.path.realpath(REPO) + '/'), pywasm.__file__
M32, M64 = (1 << 32) - 1, (1 << 64) - 1
VT = {'i32': core.ValType.i32, 'i64': core.ValType.i64, 'f32': core.ValType.f32, 'f64': core.ValType.f64, 'v128': core.ValType.v128,
      'funcref': core.ValType.ref_func, 'externref': core.ValType.ref_extern}


class Hang(BaseException):
    """CPU-time budget of one step exhausted (BaseException so that no handler in the code under test swallows it)"""


def _alarm(*_):
    raise Hang('cpu budget exhausted')


def guard(seconds):
    """Arm (or with 0 disarm) a CPU-time watchdog: CPU time, so that machine load cannot fire it."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def to_py(t, v):
    """bit pattern (int or decimal string) -> the python value the public API takes"""
    if v is None:
        return None
    if t == 'v128':
        return bytearray(v)
    v = int(v)
    if t == 'i32':
        v &= M32
        return v - (1 << 32) if v >> 31 else v
    if t == 'i64':
        v &= M64
        return v - (1 << 64) if v >> 63 else v
    if t == 'f32':
        return struct.unpack('<f', struct.pack('<I', v))[0]
    if t == 'f64':
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    return v


def from_py(t, x):
    """python value from the public API -> decimal string of the bit pattern"""
    if t in ('externref', 'funcref'):
        if x is None:
            return None
        return 'f' if t == 'funcref' else str(x)
    if t == 'i32':
        assert isinstance(x, int) and -(1 << 31) <= x < 1 << 31, (t, x)
        return str(x & M32)
    if t == 'i64':
        assert isinstance(x, int) and -(1 << 63) <= x < 1 << 63, (t, x)
        return str(x & M64)
    if t == 'f32':
        assert isinstance(x, float)
        return 'nan' if x != x else str(struct.unpack('<I', struct.pack('<f', x))[0])
    if t == 'f64':
        assert isinstance(x, float)
        return 'nan' if x != x else str(struct.unpack('<Q', struct.pack('<d', x))[0])
    if t == 'v128':
        return bytes(x).hex()
    raise AssertionError(t)


def limits(lo, hi):
    if hi is None:
        return core.Limits.from_reader(io.BytesIO(b'\0' + _u(lo)))
    return core.Limits.from_reader(io.BytesIO(b'\1' + _u(lo) + _u(hi)))


def _u(n):
    import wb
    return wb.uleb(n)


def functype(params, results):
    return core.FuncType([VT[t]() for t in params], [VT[t]() for t in results])


def valinst(t, v):
    if v is None:
        return core.ValInst.zero(VT[t]())
    if t == 'f32':
        return core.ValInst.from_f32_u32(int(v))
    if t == 'f64':
        return core.ValInst.from_f64_u64(int(v))
    return core.ValInst.from_all(VT[t](), to_py(t, v))


def mix(params, args):
    h = 0x9E3779B97F4A7C15
    for i, t in enumerate(params):
        v = from_py(t, args[i])
        n = 77 if v is None else 99 if v == 'nan' else 55 if v == 'f' else int(v)
        h = ((h ^ n) * 0x100000001B3 + i) & M64
        h ^= h >> 29
    return h


class HostThrow(Exception):
    pass


class Ctx:
    def __init__(self, host=None, runtime=None):
        self.rt = runtime or core.Runtime()
        self.hostd = host or {}
        self.host = {}
        self.inst = {}
        self.trace = []
        self.depth = 0
        self.probe = None      # optional callable sampled at every host call
        for id, d in self.hostd.items():
            k = d['kind']
            if k == 'func':
                self.host[id] = self.rt.allocate_func_host(functype(d['params'], d['results']), self._hostfn(id, d))
            elif k == 'memory':
                self.host[id] = self.rt.allocate_memory(core.MemType(limits(d['min'], d['max'])))
            elif k == 'table':
                self.host[id] = self.rt.allocate_table(core.TableType(VT[d['reftype']](), limits(d['min'], d['max'])))
            elif k == 'global':
                self.host[id] = self.rt.allocate_global(core.GlobalType(VT[d['type']](), 1 if d['mut'] else 0), valinst(d['type'], d['value']))

    def _hostfn(self, id, d):
        def fn(machine, args):
            args = list(args)
            assert len(args) == len(d['params']), 'host function got a wrong argument count'
            self.trace.append([id, [from_py(t, a) for t, a in zip(d['params'], args)]])
            if self.probe is not None:
                self.probe(self)
            if len(self.trace) > 20000:
                raise HostThrow('trace limit')
            if d['beh'] == 'throw':
                raise HostThrow('host')
            h = mix(d['params'], args)
            if d['beh'] == 'throwodd' and h & 3 == 3:
                raise HostThrow('host')
            if d['beh'] == 'reenter':
                inst, name, params = d['target']
                g = self.inst.get(inst)
                if g is not None and self.depth < 3:
                    self.depth += 1
                    try:
                        a = []
                        for i, t in enumerate(params):
                            a.append(to_py('i64', (h >> i) & M64) if t == 'i64' else to_py('i32', (h >> (8 * i)) & 0xff))
                        for x in self.rt.invocate(g, name, a):
                            h = (h * 31 + (x & M64)) & M64
                    except Exception:
                        if not d.get('catch'):
                            raise
                        h = (h * 31 + 1234567) & M64
                    finally:
                        self.depth -= 1
            out = []
            for i, t in enumerate(d['results']):
                w = ((h >> (7 * i)) ^ (h << 3)) & M64
                if t == 'i32':
                    out.append(to_py('i32', w & M32))
                elif t == 'i64':
                    out.append(to_py('i64', w))
                elif t == 'f32':
                    w &= 0xffff
                    out.append(float(w - (1 << 16) if w >> 15 else w))
                elif t == 'f64':
                    out.append(to_py('i32', w & M32) / 4)
                elif t == 'externref':
                    out.append(w & 0xffff)
                else:
                    raise AssertionError(t)
            return out
        fn.__name__ = 'host_' + str(id)
        return fn

    def export(self, inst, name, kind):
        for e in self.inst[inst].exps:
            if e.name == name:
                assert e.data.kind == kind, (e.data.kind, kind)
                return e.data
        raise KeyError(name)

    def resolve(self, ref, kind=None):
        if 'host' in ref:
            return self.host[ref['host']]
        for e in self.inst[ref['inst']].exps:
            if e.name == ref['export']:
                return e.data
        raise KeyError(ref)

    def mem(self, ref):
        x = self.resolve(ref)
        return self.rt.machine.store.mems[x.data]

    def glob(self, ref):
        return self.rt.machine.store.glob[self.resolve(ref).data]

    def tab(self, ref):
        return self.rt.machine.store.tabl[self.resolve(ref).data]

    def invoke(self, inst, name, types, vals):
        return self.rt.invocate(self.inst[inst], name, [to_py(t, v) for t, v in zip(types, vals)])

    def step(self, sc, s):
        op = s['op']
        if op == 'inst':
            imports = {}
            for a, b, ref in s['imports']:
                imports.setdefault(a, {})[b] = self.resolve(ref)
            self.rt.imports = imports
            if s.get('reuse') and ('desc', s['mod']) in self.inst:
                desc = self.inst[('desc', s['mod'])]
            else:
                desc = core.ModuleDesc.from_reader(io.BytesIO(sc['mods'][s['mod']]))
                self.inst[('desc', s['mod'])] = desc
            self.inst[s['id']] = self.rt.instance(desc)
            return []
        if op == 'call':
            r = self.rt.invocate(self.inst[s['inst']], s['name'], [to_py(t, v) for t, v in s['args']])
            assert len(r) == len(s['results']), 'wrong result count'
            return [from_py(t, x) for t, x in zip(s['results'], r)]
        if op == 'callrange':
            traps = []
            for i in range(s['n']):
                try:
                    self.rt.invocate(self.inst[s['inst']], s['name'], [i])
                except Exception:
                    traps.append(i)
            return traps
        if op == 'memset':
            b = base64.b64decode(s['b64'])
            m = self.mem(s['mem'])
            assert s['off'] + len(b) <= len(m.data)
            m.data[s['off']:s['off'] + len(b)] = b
            return []
        if op == 'memget':
            return base64.b64encode(bytes(self.mem(s['mem']).data[s['off']:s['off'] + s['len']])).decode()
        if op == 'memhash':
            m = self.mem(s['mem'])
            assert len(m.data) == m.size * 65536, f'memory length {len(m.data)} but size {m.size} pages'
            return [len(m.data), hashlib.md5(bytes(m.data)).hexdigest()]
        if op == 'gget':
            v = self.glob(s['g']).data
            if s['t'] in ('f32', 'f64'):
                f = v.into_f32() if s['t'] == 'f32' else v.into_f64()
                if f != f:
                    return 'nan'
            if s['t'] in ('i32', 'f32'):
                return str(v.into_u32())
            if s['t'] in ('i64', 'f64'):
                return str(v.into_u64())
            raise AssertionError
        if op == 'gset':
            self.glob(s['g']).data = valinst(s['t'], s['v'])
            return []
        if op == 'mgrow':
            m = self.mem(s['mem'])
            old = m.size
            m.grow(s['n'])
            return old
        if op == 'tsize':
            t = self.tab(s['tab'])
            assert len(t.elem) == t.size
            return t.size
        raise AssertionError(op)


def depths(rt):
    s = rt.machine.stack
    return len(s.frame), len(s.label), len(s.value)


def run(sc, budget=20.0, ctx=None, probe=None):
    """Returns (results, ctx).  A Hang ends the scenario: its step result is {'hang': True}."""
    out = []
    ctx = ctx or Ctx(sc.get('host'))
    ctx.probe = probe
    for s in sc['steps']:
        ctx.trace = []
        ctx.depth = 0
        if s['op'] == 'validate':
            out.append({})
            continue
        try:
            guard(budget)
            try:
                r = {'ok': ctx.step(sc, s)}
            finally:
                guard(0)
        except Hang:
            out.append({'hang': True})
            break
        except Exception as e:
            r = {'err': type(e).__name__ + ':' + str(e)[:200]}
        if ctx.trace:
            r['trace'] = ctx.trace
        out.append(r)
    return out, ctx


def to_json(sc):
    """for the V8 oracle and for replay files"""
    return {'mods': [base64.b64encode(m).decode() for m in sc['mods']], 'host': sc.get('host', {}),
            'steps': [dict(s, args=[[t, None if v is None else str(v)] for t, v in s['args']]) if s['op'] == 'call' else s for s in sc['steps']]}


def from_json(j):
    return {'mods': [base64.b64decode(m) for m in j['mods']], 'host': j['host'], 'steps': j['steps']}


def compare(py, v8):
    """First difference between pywasm and V8 on the same scenario, or None.  'range' (engine resource limits) and V8-side
    compile errors are not comparable: ('skip', why)."""
    for i, (a, b) in enumerate(zip(py, v8)):
        if a.get('hang'):
            return ('diff', i, 'pywasm does not terminate within the CPU budget', a, b)
        if 'err' in b and b['err'].startswith(('compile', 'other:Type', 'other:Ref')):
            return ('skip', i, b['err'])
        if 'err' in b and b['err'].startswith('range'):
            return ('skip', i, b['err'])
        if ('err' in a) != ('err' in b):
            return ('diff', i, 'one traps, the other does not', a, b)
        if a.get('trace', []) != b.get('trace', []):
            return ('diff', i, 'host call sequences differ', a, b)
        if 'ok' in a and a['ok'] != b.get('ok'):
            return ('diff', i, 'results differ', a, b)
    return None
