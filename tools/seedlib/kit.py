"""Small helpers for the demonstrations."""
import io, os, sys
sys.path.insert(0, os.getcwd())
import pywasm, wb


def load(m, rt=None):
    rt = rt or pywasm.core.Runtime()
    blob = m if isinstance(m, (bytes, bytearray)) else m.encode()
    return rt, rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(blob)))


def one(params, results, body, args, **kw):
    m = wb.Module()
    m.func(params, results, body, export='f', **kw)
    rt, inst = load(m)
    return rt.invocate(inst, 'f', args)


def fails(fn, *a):
    try:
        fn(*a)
    except Exception:
        return True
    return False


def check(ok, what):
    if not ok:
        print('BROKEN:', what)
        sys.exit(1)
