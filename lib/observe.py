"""Runs scenarios and returns everything a program shows: results, traps, host calls, final memories, globals and tables.
As a program it reads pickled scenarios from stdin and writes their observations: a fresh process under other circumstances."""
import contextlib, hashlib, io, os, pickle, re, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pw    # noqa: E402
import pywasm  # noqa: E402


class Sink(io.TextIOBase):
    """takes the place of stdout; what is printed is encoded as it would be, and counted"""

    def __init__(self):
        self.lines = 0

    def write(self, s):
        s.encode('utf-8', 'surrogatepass')
        self.lines += s.count('\n')
        return len(s)


def snapshot(rt, base):
    s = rt.machine.store
    out = []
    for m in s.mems[base[0]:]:
        out.append(('mem', m.size, hashlib.md5(bytes(m.data)).hexdigest()))
    for g in s.glob[base[1]:]:
        v = g.data.into_all()
        if g.data.type in (pw.VT['funcref'](), pw.VT['externref']()):
            v = v is None
        elif isinstance(v, float):
            v = v.hex() if v == v else ('nan', bytes(g.data.data).hex())
        elif isinstance(v, bytearray):
            v = bytes(v)
        out.append(('glob', v))
    for t in s.tabl[base[2]:]:
        out.append(('tab', t.size, [e.into_all() is None for e in t.elem]))
    out.append(('stacks', pw.depths(rt)))
    return out


def observe(sc, rt=None, debug=False):
    """(observation, lines of log)"""
    rt = rt or pw.core.Runtime()
    s = rt.machine.store
    base = len(s.mems), len(s.glob), len(s.tabl)
    sink = Sink()
    level = pywasm.log.lvl
    try:
        pywasm.log.lvl = 1 if debug else 0
        with contextlib.redirect_stdout(sink):
            if sc.get('decode'):
                res = []
                for m in sc['mods']:
                    try:
                        d = pw.core.ModuleDesc.from_reader(io.BytesIO(m))
                        res.append(('decoded', len(d.func) if hasattr(d, 'func') else 0))
                    except Exception as e:
                        res.append(('rejected', type(e).__name__))
                return res, sink.lines
            got, ctx = pw.run(sc, 60.0, ctx=pw.Ctx(sc.get('host'), rt))
    finally:
        pywasm.log.lvl = level
    for x in got:
        if 'err' in x:
            x['err'] = x['err'].split(':')[0]
    return [got, snapshot(rt, base)], sink.lines


def first(a, b):
    """where two observations differ"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f'[{k}]' + first(x, y)
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            if a[k] != b[k]:
                return f'[{k!r}]' + first(a[k], b[k])
    return f': {str(a)[:80]} and {str(b)[:80]}'


if __name__ == '__main__':
    data = pickle.load(sys.stdin.buffer)
    out = []
    sys.setrecursionlimit(data.get('limit', 3000))
    one = pw.core.Runtime() if data['reuse'] else None
    for sc in data['scenarios']:
        out.append(observe(sc, one, data['debug']))
    sys.stdout.buffer.write(pickle.dumps(out))
