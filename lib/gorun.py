"""A real program in a real language: lib/go/main.go, built by the Go compiler for this machine and for wasip1, run natively and by
`python -m pywasm` in twin directories.  It brings a garbage collector, a scheduler, timers, defer and recover, big integers, number
formatting and the os package, and walks a random history of file operations; what it prints, its status and the tree it leaves have to be
the same."""
import os, shutil, subprocess, sys
import pw, wasidrv as wd
from harness import scale

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'go', 'main.go')


def build(where):
    """(native program, wasm program) or None where Go is not there or cannot build for wasip1"""
    if shutil.which('go') is None:
        return None
    env = {k: v for k, v in os.environ.items() if not k.startswith(('GO', 'CGO'))}
    env.update(GOCACHE=where + '/cache', GOPATH=where + '/path', GOTMPDIR=where, HOME=where, GO111MODULE='off', GOFLAGS='', GOTOOLCHAIN='local', GOPROXY='off', CGO_ENABLED='0',
               GOENV='off', GOTELEMETRY='off')
    shutil.copy(SRC, where + '/main.go')
    out = []
    for name, more in (('native', {}), ('guest.wasm', dict(GOOS='wasip1', GOARCH='wasm'))):
        try:
            r = subprocess.run(['go', 'build', '-ldflags=-s -w', '-o', f'{where}/{name}', 'main.go'], cwd=where, env=dict(env, **more), capture_output=True, timeout=300)
        except (OSError, subprocess.TimeoutExpired):
            return None
        if r.returncode:
            return None
        os.chmod(f'{where}/{name}', 0o755)
        out.append(f'{where}/{name}')
    shutil.rmtree(where + '/cache', ignore_errors=True)
    os.chmod(where, 0o755)
    return out


def run(argv, env, stdin, cwd, limit):
    try:
        p = subprocess.run(argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=limit)
    except subprocess.TimeoutExpired:
        return None
    return p.returncode, p.stdout, p.stderr


def once(job, sc, progs, serial, ops):
    r = job.rng
    seed = r.randrange(1, 1 << 40)
    args = [r.choice(['a', '', 'b c', 'é', '--', '-x', 'k=v', '0' * 300]) for _ in range(r.randrange(4))]
    vars = {'VOPS': str(ops), 'VB': r.choice(['', 'x y', 'a=b=c', 'ünï'])}
    for k in range(r.randrange(3)):
        vars[f'V{k}'] = r.choice(['1', '', '=', 'z' * 200])
    stdin = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 511, 512, 513, 5000])))
    guest = r.choice(['/sb', '/tmp', '/a/b'])
    dirs = [os.path.join(sc, f'go{serial}{k}') for k in 'nw']
    for d in dirs:
        os.mkdir(d)
    a = run([progs[0], str(seed), dirs[0]] + args, vars, stdin, dirs[0], 60)
    if a is None:
        return
    env = dict(PATH=os.environ.get('PATH', '/usr/bin:/bin'), PYTHONPATH=pw.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', PYTHONUTF8='1')
    argv = [sys.executable, '-m', 'pywasm', '--wasi', 'preview1', '--wasi-dirs', f'{guest}:{dirs[1]}']
    items = list(vars.items())
    r.shuffle(items)
    argv += [f'--wasi-envs={k}={v}' for k, v in items] + [f'--wasi-args={x}' for x in [str(seed), guest] + args] + [progs[1]]
    b = run(argv, env, stdin, sc, scale(240, 1200))
    if b is None:
        job.count('go_slow')
        return
    rep = dict(argv=argv, env=vars, stdin=stdin.hex(), native=[a[0], a[1].decode(errors='replace')[:20000], a[2].decode(errors='replace')[:2000]],
               pywasm=[b[0], b[1].decode(errors='replace')[:20000], b[2].decode(errors='replace')[-2000:]])
    job.count('go_programs')
    la, lb = a[1].split(b'\n'), b[1].split(b'\n')
    job.count('go_lines', len(la))
    job.case(('go', seed))
    if a[1] != b[1]:
        at = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
        x, y = (l[at][:80] if at < len(l) else b'' for l in (la, lb))
        job.violation('go output', f'a Go program prints {y!r} in line {at} and natively {x!r} ({b[2][-60:]!r})', rep)
    if a[0] != b[0]:
        job.violation('go status', f'a Go program ends with {b[0]} and natively with {a[0]} ({b[2][-80:]!r})', rep)
    if a[2] != b[2]:
        job.violation('go stderr', f'a Go program prints {b[2][-60:]!r} on stderr and natively {a[2][-60:]!r}', rep)
    ta, tb = (wd.tree(d) for d in dirs)
    job.count('go_files', len(ta))
    d = wd.treediff(ta, tb)
    if d:
        job.violation('go tree', f'a Go program leaves another tree than natively: {d}', rep)
    for d in dirs:
        wd._rm(d)
