"""Oracle for path operations: the same operation is done by the host kernel in a twin directory tree, after an independent walk
(plain strings, over the twin) has established that the name stays beneath the directory it starts from."""
import errno, os, stat
import wasidrv as wd
from wasidrv import E, FROM_HOST

ESCAPE = 'escape'


class Twin:
    def __init__(self, root):
        self.root = root
        self.fds = {}          # guest fd -> host fd in the twin

    def where(self, hfd):
        return os.readlink(f'/proc/self/fd/{hfd}')

    def walk(self, hfd, name, foll):
        """ESCAPE when following the name leaves the directory hfd, 'in' otherwise (also when it does not exist).
        foll: True/False for lookups, None for names which are made or removed."""
        base = self.where(hfd)
        if name.startswith('/'):
            return ESCAPE
        cur, todo, links = [], name.split('/'), 0
        while todo:
            c = todo.pop(0)
            if c in ('', '.'):
                continue
            if c == '..':
                if not cur:
                    return ESCAPE
                # the kernel finds ENOENT/ENOTDIR first when what comes before is not a directory
                if not os.path.isdir('/'.join([base] + cur)):
                    return 'in'
                cur.pop()
                continue
            here = '/'.join([base] + cur + [c])
            last = not any(todo)
            slash = last and bool(todo)
            try:
                st = os.lstat(here)
            except OSError:
                return 'in'
            if stat.S_ISLNK(st.st_mode) and (not last or foll or (slash and foll is False)):
                links += 1
                if links > 60:
                    return 'loop'
                t = os.readlink(here)
                if t.startswith('/'):
                    return ESCAPE
                todo = t.split('/') + todo
                continue
            cur.append(c)
        return 'in'

    def run(self, fn):
        """(errno, value)"""
        try:
            return 0, fn()
        except OSError as e:
            return FROM_HOST.get(e.errno, E['IO']), None

    def close(self):
        for f in self.fds.values():
            os.close(f)
        self.fds = {}


def dotted(name):
    """the last part of the name is '.' or '..': hosts differ in which errno they give for making/removing those"""
    p = [x for x in name.split('/') if x]
    return bool(p) and p[-1] in ('.', '..')


DOTS = {E[x] for x in ('INVAL', 'BUSY', 'NOTEMPTY', 'EXIST', 'ISDIR', 'NOENT', 'PERM')}
