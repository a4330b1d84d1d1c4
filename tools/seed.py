#!/usr/bin/env python3
"""Makes one planted bug: seed.py FILE, where FILE is a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (source).
Works on a scratch copy of /repo; writes /verif/seeded/ID only when everything a planted bug must fulfil has been confirmed; then runs the check."""
import json, os, re, shutil, subprocess, sys
BASE = '6e51034'
HERE = os.path.dirname(os.path.abspath(__file__))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(path, checks):
    d = {}
    exec(open(path).read(), d)
    copy = f'/tmp/sb-{d["ID"]}'
    shutil.rmtree(copy, ignore_errors=True)
    sh(f'cp -a /repo {copy}')
    for f, old, new in d['EDITS']:
        p = f'{copy}/pywasm/{f}'
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            sys.exit(f'{d["ID"]}: the text to replace occurs {n} times: {old[:60]!r}')
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', copy, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    # original lines?
    orig = mine = 0
    for f in {e[0] for e in d['EDITS']}:
        blame = sh(f'git -C /repo blame -s {BASE}..HEAD -- pywasm/{f}').stdout.splitlines()
        fd = subprocess.run(['git', '-C', copy, 'diff', '-U0', '--', f'pywasm/{f}'], stdout=subprocess.PIPE, text=True).stdout
        for a, n in re.findall(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
            for k in range(int(a), int(a) + int(n or 1)):
                if n != '0':
                    if blame[k - 1].startswith('^'):
                        orig += 1
                    else:
                        mine += 1
    out = f'/verif/seeded/{d["ID"]}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(d['DEMO'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write('#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd):$(dirname "$0")" python3 "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=d['PROPERTY'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
    for h in ('wb.py', 'ops.py', 'kit.py', 'guest.py'):
        if re.search(rf'\b{h[:-3]}\b', d['DEMO']) or h in ('wb.py', 'ops.py'):
            shutil.copy(f'{HERE}/seedlib/{h}', out)
    a = sh(f'timeout 300 sh {out}/demo.sh', cwd='/repo')
    b = sh(f'timeout 300 sh {out}/demo.sh', cwd=copy)
    t = ''
    for cmd in json.load(open('/opt/vp/BASELINE.json'))['stable']:
        r = sh(f'timeout 100 {cmd.split("::", 1)[1]}', cwd=copy, env=dict(os.environ, PYTHONPATH=copy))
        if r.returncode:
            t += cmd + ' '
    ok = a.returncode == 0 and b.returncode != 0 and not t and orig and 'BROKEN' in b.stdout
    print(f'{d["ID"]}: demo {a.returncode}/{b.returncode} lines original={orig} mine={mine} tests {"pass" if not t else "FAIL " + t} -> {"KEEP" if ok else "DROP"}')
    if a.returncode or 'BROKEN' not in b.stdout:
        print('  demo unpatched:', a.stdout[-400:], '\n  demo patched:', b.stdout[-400:])
    if not ok:
        shutil.rmtree(out)
        return
    for c in checks or [d['PROPERTY']]:
        r = sh(f'VERIF_SEED=1 VF_REPO={copy} timeout 900 python3 check.py {c}', cwd='/verif')
        print(f'  {c}: exit {r.returncode} ' + ' | '.join(r.stdout.splitlines()[:4])[:400])
    shutil.rmtree(copy)


for x in [a for a in sys.argv[1:] if a.endswith('.py')]:
    main(x, [a for a in sys.argv[1:] if not a.endswith('.py')])
