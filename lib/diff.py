"""Differential driver: scenarios executed by the real pywasm under monitors, judged against V8 on the same bytes."""
import collections, hashlib
import progen, pw
from v8 import V8


def digest(sc):
    h = hashlib.md5()
    for m in sc['mods']:
        h.update(m)
    return h.hexdigest()


def replay(sc, i=None):
    j = pw.to_json(sc)
    if i is not None:
        j['steps'] = j['steps'][:i + 1]
    return j


def monitors(job, sc, ctx, tag):
    """state invariants after the scenario; every step ended outside any call"""
    try:
        d = pw.depths(ctx.rt)
    except AttributeError:
        job.count('depth_monitor_unavailable')
        d = (0, 0, 0)
    if d != (0, 0, 0):
        job.violation(f'{tag}:residue', f'interpreter stacks (frames, labels, values) not empty between calls: {d}', replay(sc))
    for m in ctx.rt.machine.store.mems:
        if len(m.data) != m.size * 65536:
            job.violation(f'{tag}:memory length', f'memory holds {len(m.data)} bytes but reports {m.size} pages', replay(sc))
    for t in ctx.rt.machine.store.tabl:
        if len(t.elem) != t.size:
            job.violation(f'{tag}:table length', f'table holds {len(t.elem)} entries but reports {t.size}', replay(sc))


def judge(job, v8, sc, tag, key=None, sample=None, budget=20.0, probe=None, limit=None):
    """run on both sides; True if comparable and equal"""
    want = v8.run(pw.to_json(sc), limit)
    got, ctx = pw.run(sc, budget, probe=probe)
    d = pw.compare(got, want)
    job.count('steps_compared', len(got))
    job.count('host_calls_compared', sum(len(x.get('trace', ())) for x in got))
    job.count('traps_compared', sum(1 for x in got if 'err' in x))
    job.count('calls_returned', sum(1 for s, x in zip(sc['steps'], got) if s['op'] == 'call' and 'ok' in x))
    if d is None or d[0] == 'diff':
        job.case(key or digest(sc), sample)
    if d is None:
        monitors(job, sc, ctx, tag)
        return True
    if d[0] == 'skip':
        job.count('oracle_skips')
        if job.counters['oracle_skips'] <= 2:
            job.count('skip: ' + str(d[2])[:120])
        return False
    _, i, what, a, b = d
    s = sc['steps'][i]
    nm = s.get('name', '')
    job.violation(f'{tag}:{s["op"]}:{what}', f'step {i} {s["op"]} {nm}{str(s.get("args", ""))[:80]}: {what}: pywasm {str(a)[:160]} expected {str(b)[:160]}',
                  {'scenario': replay(sc, i), 'pywasm': a, 'expected': b, 'step': i})
    return False


def fuzz(job, tag, cases, mk):
    """mk(rng) -> progen.Gen"""
    v8 = V8()
    hist = collections.Counter()
    try:
        for k in range(cases):
            if job.late():
                job.count('stopped_by_clock')
                break
            g = mk(job.rng)
            sc = g.scenario()
            hist.update(g.hist)
            judge(job, v8, sc, tag, sample=[s['op'] + ':' + str(s.get('name', '')) for s in sc['steps']][:12] + [f'{len(m)} bytes' for m in sc['mods']])
    finally:
        v8.close()
    job.count('programs', cases)
    job.count('distinct_opcodes_generated', 0)
    job.ops = hist
    for k in hist:
        job.counters['op ' + k] = job.counters.get('op ' + k, 0) + hist[k]


def families(job, fams, n):
    v8 = V8()
    try:
        for k in range(n):
            if job.late():
                job.count('stopped_by_clock')
                break
            f = fams[(k + job.n) % len(fams)]
            judge(job, v8, f(job.rng), 'family ' + f.__name__, sample=f.__name__)
            job.count('family ' + f.__name__)
    finally:
        v8.close()


def fold_ops(check):
    """replace the per-opcode counters by their number"""
    ops = [k for k in check.counters if k.startswith('op ')]
    check.counters['opcodes_generated'] = len(ops)
    check.counters.pop('distinct_opcodes_generated', None)
    check.counters['instructions_generated'] = sum(check.counters.pop(k) for k in ops)
