#!/usr/bin/env python3
"""Mutation testing of the checks: small syntactic changes of pywasm, each judged by the checks of the region it is in.
mutate.py FILE FIRST LAST FRACTION SEED OUT check...    (lines of pywasm/FILE; checks are tried in turn until one reports a violation)"""
import ast, json, os, random, shutil, subprocess, sys, time
REPO = '/repo/pywasm'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in'}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '//'), ast.FloorDiv: ('//', '*'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&'), ast.LShift: ('<<', '>>'),
       ast.RShift: ('>>', '<<'), ast.BitXor: ('^', '|'), ast.Mod: ('%', '//'), ast.Div: ('/', '*')}


def offs(src):
    o, n = [0], 0
    for l in src.splitlines(True):
        n += len(l.encode())
        o.append(n)
    return o


def mutants(src, first, last):
    tree = ast.parse(src)
    o = offs(src)
    raw = src.encode()
    pos = lambda l, c: o[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: raw[span(n)[0]:span(n)[1]].decode()
    out = []

    def add(n, new, what):
        if first <= n.lineno <= last:
            a, b = span(n)
            out.append((n.lineno, a, b, new, what))
    anns = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                anns |= {id(x) for x in ast.walk(a)}
    for n in ast.walk(tree):
        if id(n) in anns or not hasattr(n, 'lineno'):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            for k, op in enumerate(n.ops):
                if type(op) in CMP:
                    l = n.left if k == 0 else n.comparators[k - 1]
                    a, b = span(l)[1], span(n.comparators[k])[0]
                    mid = raw[a:b].decode()
                    if CMPS[type(op)] in mid and first <= n.lineno <= last:
                        out.append((n.lineno, a, b, mid.replace(CMPS[type(op)], CMP[type(op)], 1), f'cmp {text(n)[:60]}'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            x, y = BIN[type(n.op)]
            if x in mid and first <= n.lineno <= last:
                out.append((n.lineno, a, b, mid.replace(x, y, 1), f'bin {text(n)[:60]}'))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), f'const {n.value}+1')
            if n.value:
                add(n, str(n.value - 1), f'const {n.value}-1')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'bool')
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b].decode()
            x, y = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if first <= n.lineno <= last:
                out.append((n.lineno, a, b, mid.replace(x, y, 1), f'bool {text(n)[:60]}'))
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, f'(not ({text(n.test)}))', f'negate {text(n.test)[:60]}')
        elif isinstance(n, ast.IfExp):
            add(n.test, f'(not ({text(n.test)}))', f'negate {text(n.test)[:60]}')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Assert, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, 'pass', f'drop {text(n)[:70]}')
        elif isinstance(n, ast.Return) and n.value is not None and text(n.value).startswith('[self.ERRNO'):
            add(n, 'pass', f'drop {text(n)[:70]}')
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'pass', f'drop {type(n).__name__}')
        elif isinstance(n, ast.Attribute):
            for x, y in (('u32', 'i32'), ('i32', 'u32'), ('u64', 'i64'), ('i64', 'u64'), ('u8', 'i8'), ('i8', 'u8'), ('u16', 'i16'), ('i16', 'u16'), ('f32', 'i32'), ('f64', 'i64')):
                if n.attr == x or n.attr.endswith('_' + x) and n.attr.split('_')[0] in ('get', 'put', 'into', 'from'):
                    e = span(n)[1]
                    if first <= n.lineno <= last:
                        out.append((n.lineno, e - len(x), e, y, f'attr {text(n)[-50:]} -> {y}'))
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and first <= n.lineno <= last and isinstance(n.func, ast.Attribute) and n.func.attr not in ('append',):
            a, b = span(n.args[0])[0], span(n.args[1])[1]
            if text(n.args[0]) != text(n.args[1]):
                out.append((n.lineno, a, b, f'{text(n.args[1])}, {text(n.args[0])}', f'swap args {text(n)[:60]}'))
    return raw, sorted(set(out))


def main():
    f, first, last, frac, seed, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5], sys.argv[6]
    checks = sys.argv[7:]
    raw, ms = mutants(open(f'{REPO}/{f}').read(), first, last)
    r = random.Random(seed)
    if frac < 1:
        ms = sorted(r.sample(ms, max(1, int(len(ms) * frac))))
    base = f'/tmp/mut/{os.getpid()}'
    os.makedirs(base)
    tally = {}
    with open(out, 'a') as log:
        for ln, a, b, new, what in ms:
            mod = raw[:a] + new.encode() + raw[b:]
            try:
                compile(mod, f, 'exec')
            except SyntaxError:
                continue
            d = f'{base}/repo'
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__', 'res'))
            open(f'{d}/pywasm/{f}', 'wb').write(mod)
            env = dict(os.environ, VF_REPO=d, VF_STOP='1', VF_EVID=f'{base}/ev', VERIF_SEED='1', PYTHONHASHSEED='0')
            p = subprocess.run([sys.executable, '-c', 'import pywasm'], cwd=d, capture_output=True)
            verdict, t0, notes = 'SURVIVED', time.time(), []
            if p.returncode:
                verdict = 'noimport'
            else:
                for c in checks:
                    try:
                        q = subprocess.run([sys.executable, 'check.py', c], cwd=os.environ.get('VF_CHECKS', '/verif'), env=env, capture_output=True, text=True, timeout=500)
                        rc, so = q.returncode, q.stdout
                    except subprocess.TimeoutExpired:
                        rc, so = -9, 'TIMEOUT'
                    if rc == 1 and 'VIOLATION' in so:
                        verdict = 'killed ' + c
                        break
                    if rc != 0:
                        verdict = 'INCONCLUSIVE'
                        notes.append(f'{c}: {so[:300]!r}')
            tally[verdict.split()[0]] = tally.get(verdict.split()[0], 0) + 1
            log.write(f'{verdict:14} {f}:{ln} {what!r} -> {new[:60]!r} ({time.time() - t0:.0f}s) {" ".join(notes)}\n')
            log.flush()
        log.write(f'== {f} {first}-{last}: {tally}\n')
    shutil.rmtree(base, ignore_errors=True)


main()
