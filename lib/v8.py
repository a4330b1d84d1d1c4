"""Client of the V8 oracle server (v8.js)."""
import json, os, resource, shutil, subprocess, threading

HERE = os.path.dirname(os.path.abspath(__file__))


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, resource.RLIM_INFINITY))
    except (OSError, ValueError):
        pass


class OracleDown(Exception):
    pass


class V8:
    def __init__(self):
        node = shutil.which('node')
        if not node:
            raise OracleDown('node not found')
        # --liftoff-only would avoid tier-up; default tiers are fine and cross-check each other
        self.p = subprocess.Popen([node, '--stack-size=4000', os.path.join(HERE, 'v8.js')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, preexec_fn=_limits)

    def run(self, sc, limit=None):
        """limit: seconds after which the oracle is given up"""
        t = threading.Timer(limit, self.p.kill) if limit else None
        if t:
            t.daemon = True
            t.start()
        try:
            self.p.stdin.write(json.dumps(sc).encode() + b'\n')
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except (BrokenPipeError, OSError) as e:
            raise OracleDown(repr(e))
        finally:
            if t:
                t.cancel()
        if not l:
            raise OracleDown('oracle died')
        o = json.loads(l)
        if isinstance(o, dict):
            raise OracleDown(o.get('fatal'))
        return o

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
