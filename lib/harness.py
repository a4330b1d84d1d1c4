"""Check skeleton: parallel seeded jobs, measured counters, three-valued verdict, evidence and replay files, known findings."""
import faulthandler, hashlib, json, os, pickle, random, resource, select, signal, struct, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VF_EVID') or os.path.join(ROOT, 'evidence')
STOP = bool(os.environ.get('VF_STOP'))          # mutation runs: the first violation settles it
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')


def tier():
    return 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return int(hashlib.md5(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)


def scale(quick, thorough):
    return thorough if tier() == 'thorough' else quick


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('finding: ') and f'property={pid} ' in l:
                k = l.split(' key=', 1)[1].split(' ', 1)
                out[k[0].strip()] = (k[1].strip() if len(k) > 1 else '')
    return out


class Stop(BaseException):
    pass


class Job:
    """What one worker collects."""

    def __init__(self, pid, n, total):
        self.pid, self.n, self.total = pid, n, total
        self.rng = random.Random(f'{pid}/{seed()}/{tier()}/{n}')
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.viol = []
        self.deadline = None

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def case(self, key=None, sample=None):
        """one evaluated case; key identifies a distinct non-trivial one"""
        self.evals += 1
        if key is not None:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())
        if (sample is not None or key is not None) and len(self.samples) < 3:
            self.samples.append(sample if sample is not None else repr(key)[:200])

    def violation(self, key, what, replay):
        """key: mechanism; what: one line; replay: JSON-able witness"""
        self.count('violations_raw')
        if sum(1 for v in self.viol if v[0] == key) < 2 and len(self.viol) < 40:
            self.viol.append((key, what, replay))
        if STOP:
            raise Stop

    def late(self):
        return time.time() > self.deadline


def _run(arg):
    fn, pid, n, total, wall, mem = arg
    j = Job(pid, n, total)
    j.deadline = time.time() + wall
    try:
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem << 20, resource.RLIM_INFINITY))
    except Exception:
        pass
    sys.setrecursionlimit(3000)
    err = None
    try:
        fn(j)
    except Stop:
        pass
    except BaseException as e:
        err = ''.join(traceback.format_exception(e))[-3000:]
        root = e
        while type(root).__name__ == 'Trap' and root.__cause__ is not None:
            root = root.__cause__
        tb = traceback.extract_tb(root.__traceback__)
        where = tb[-1].filename if tb else ''
        here = os.path.basename(where)
        try:
            if isinstance(root, Exception) and not isinstance(root, MemoryError) and os.path.basename(os.path.dirname(where)) == 'pywasm':
                # raised inside pywasm where this harness relies on success
                j.violation(f'unexpected exception:{type(root).__name__}:{tb[-1].name}', f'pywasm raises where success is certain: {type(root).__name__}: {str(root)[:150]}', dict(trace=err))
            elif type(e).__name__ == 'Blocked':
                j.violation('never returns:' + str(e).split('[')[0], f'a call nothing can hold up does not return: {e}'[:200], dict(trace=err))
            elif isinstance(root, (AssertionError, LookupError, UnicodeError, struct.error)) and (here[:1] == 'W' or here in ('wasidrv.py', 'pathsim.py')):
                # a step which is certain to succeed, such as opening a file which is there, did not, or what it left is unusable
                j.violation(f'preparation:{here}:{tb[-1].name}', f'a step which has to succeed fails: {tb[-1].line}: {type(root).__name__} {root}'[:200], dict(trace=err))
        except Stop:
            pass
    return dict(evals=j.evals, distinct=j.distinct, samples=j.samples, counters=j.counters, viol=j.viol, err=err, late=j.late())


class Check:
    def __init__(self, pid, rule, level='exploration', assumptions=()):
        self.pid, self.rule, self.level, self.assumptions = pid, rule, level, list(assumptions)
        self.t0 = time.time()
        self.evals, self.distinct, self.samples, self.counters, self.viol, self.errors = 0, set(), [], {}, [], []
        self.requirements = []

    def run(self, fn, jobs=8, wall=None, mem=3072, procs=8):
        """fn(job) in `jobs` seeded worker processes"""
        if wall is None:
            wall = scale(120, 3000)
        todo = list(range(jobs))
        live = {}
        while todo or live:
            while todo and len(live) < procs:
                n = todo.pop(0)
                rd, wr = os.pipe()
                sys.stdout.flush()
                last = tempfile.TemporaryFile()      # where the worker was when it crashed or got stuck
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.setpgid(0, 0)
                        os.close(rd)
                        faulthandler.enable(last, all_threads=False)
                        faulthandler.dump_traceback_later(wall + 60, file=last)
                        res = pickle.dumps(_run((fn, self.pid, n, jobs, wall, mem)))
                        with os.fdopen(wr, 'wb') as f:
                            f.write(res)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(wr)
                live[rd] = [pid, n, bytearray(), time.time() + wall + 90, last]
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for rd in list(live):
                pid, n, buf, end, last = live[rd]
                if rd in ready:
                    d = os.read(rd, 1 << 20)
                    if d:
                        buf += d
                        continue
                elif time.time() < end:
                    continue
                else:
                    buf.clear()
                os.close(rd)
                del live[rd]
                try:
                    os.killpg(pid, signal.SIGKILL)   # the worker is done (or stuck): take its children with it
                except OSError:
                    pass
                st = os.waitpid(pid, 0)[1]
                try:
                    self.merge(pickle.loads(bytes(buf)))
                except Exception:
                    last.seek(0)
                    where = last.read().decode(errors='replace')[:3000]
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                    inside = '/pywasm/' in where
                    if inside and (sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) or 'Timeout' in where):
                        what = 'pywasm does not return' if 'Timeout' in where else f'pywasm crashes the interpreter (signal {sig})'
                        self.viol.append((what, what, dict(worker=n, stack=where)))
                    else:
                        self.errors.append(f'worker {n} ended without a result (status {st})' + where)
                last.close()
            if STOP and self.viol:
                for q in live.values():
                    try:
                        os.killpg(q[0], signal.SIGKILL)
                    except OSError:
                        pass
                self.finish()

    def local(self, fn, wall=600):
        self.merge(_run((fn, self.pid, 0, 1, wall, 0)))

    def merge(self, r):
        self.evals += r['evals']
        self.distinct |= r['distinct']
        for s in r['samples']:
            if len(self.samples) < 6:
                self.samples.append(s)
        for k, v in r['counters'].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.viol += r['viol']
        if r['err']:
            self.errors.append(r['err'])

    def require(self, counter, at_least):
        """the verdict 'held' needs this much observation"""
        self.requirements.append((counter, at_least))

    def finish(self):
        known = known_keys(self.pid)
        new, seen = [], {}
        for k, what, replay in self.viol:
            if k in known:
                seen.setdefault(k, what)
            else:
                new.append((k, what, replay))
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
               'samples': self.samples or ['(none)'], 'monitor': dict(sorted(self.counters.items()))}
        ev = {'property': self.pid, 'tier': tier(), 'seed': seed(), 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(known):
            # listed findings are always announced; whether this run met them is in brackets
            print(f'KNOWN-FINDING: property={self.pid} {known[k] or k} [{"observed" if k in seen else "listed"}]')
        if new:
            d = os.path.join(EVID, 'replay')
            os.makedirs(d, exist_ok=True)
            done = set()
            for k, what, replay in new:
                if k in done:
                    continue
                done.add(k)
                p = os.path.join(d, f'{self.pid}-{hashlib.md5(k.encode()).hexdigest()[:8]}.json')
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'key': k, 'what': what, 'seed': seed(), 'tier': tier(), 'witness': replay}, f, indent=1, default=str)
                print(f'VIOLATION property={self.pid} replay={p}')
                print(f'  {k}: {what}')
            sys.exit(1)
        if self.errors:
            print(f'ERROR ({len(self.errors)} worker errors) first:', self.errors[0])
        short = [(c, n, self.counters.get(c, 0)) for c, n in self.requirements if self.counters.get(c, 0) < n]
        if self.errors or short or not self.evals:
            print(f'INCONCLUSIVE property={self.pid} ' + ('monitor under-reached: %r' % (short,) if short else 'see errors'))
            sys.exit(2)
        print(f'HELD property={self.pid} evaluations={self.evals} distinct={len(self.distinct)} wall={ev["wall_s"]}s ' +
              ' '.join(f'{k}={v}' for k, v in sorted(self.counters.items())))
        sys.exit(0)
