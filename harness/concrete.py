"""Concrete execution of harnesses against the unmodified code, under the project's own interpreter.

usage: python concrete.py JOBS.json OUT.json   -- JOBS: {"jobs": [{"harness": ..., "values": {...}}, ...]}
"""
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Skip(BaseException):
    """the values do not satisfy an assumption"""


class ConcreteCtx(object):
    symbolic = False

    def __init__(self, values, thorough, api, known_ids=()):
        self.values = values
        self.thorough = thorough
        self.api = api
        self.known_ids = known_ids
        self.failures = []
        self.known_failures = []
        self.observations = []
        self.reached = {}
        self.env = None

    def _get(self, name, default=0):
        return self.values.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, max(lo, min(0, hi)))
        if not lo <= v <= hi:
            raise Skip()
        return v

    def bool(self, name):
        return bool(self._get(name))

    def bytes(self, name, n):
        return bytes(bytearray([self._get('%s[%d]' % (name, i)) & 0xff for i in range(n)]))

    def blob(self, name, lo, hi):
        return bytes(bytearray(self.int(name, lo, hi)))

    def blob_len(self, b):
        return len(b)

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def is_true(self, c):
        return bool(c)

    def outcome(self, fn):
        try:
            r = self.api.Outcome(True, fn(), None)
        except Skip:
            raise
        except BaseException as e:
            r = self.api.Outcome(False, None, e)
        self.api.at('returned')
        return r

    def track_text(self):
        pass

    def text_value(self, n):
        return n

    def mark(self):
        return 0

    def commit(self, start):
        pass

    def directed(self, how, fn, *args):
        return fn(*args)

    def aside(self, how, fn, *args):
        from harness import env
        current = env.CURRENT[0]
        try:
            fn(*args)
        except Skip:
            raise
        except BaseException:
            pass
        finally:
            env.CURRENT[0] = current

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, label, value):
        self.observations.append([label, norm(value)])

    def check(self, cond, label, known=None):
        if not cond:
            if known and known[1] and known[0] in self.known_ids:
                self.known_failures.append([known[0], label])
            else:
                self.failures.append(label)

    def equal(self, a, b):
        return deep_eq(a, b)

    def eq(self, actual, expected, label, known=None):
        self.check(deep_eq(actual, expected), label, known)

    def fail(self, label, known=None):
        self.check(False, label, known)


def deep_eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    B = (bytes, bytearray)
    if isinstance(a, B) or isinstance(b, B):
        if isinstance(a, (str, int)) or isinstance(b, (str, int)):
            return False
        return list(a) == list(b)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(deep_eq(a[k], b[k]) for k in a)
    return bool(a == b)


def norm(v):
    if v is None:
        return None
    if isinstance(v, (bytes, bytearray)):
        if len(v) > 4096:
            return ['blob', len(v)]
        return ['b'] + list(v)
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, (list, tuple)):
        return ['l'] + [norm(x) for x in v]
    if isinstance(v, dict):
        return ['d', sorted([str(k), norm(x)] for k, x in v.items())]
    if isinstance(v, BaseException):
        return ['e', type(v).__name__]
    if isinstance(v, float):
        return ['f', v]
    return ['o', type(v).__name__]


def run_one(api, job, thorough, known_ids=()):
    h = api.REGISTRY[job['harness']]
    ctx = ConcreteCtx(job['values'], thorough, api, known_ids)
    out = {}
    try:
        h.fn(ctx)
    except Skip:
        out['skip'] = True
    except BaseException as e:
        out['uncaught'] = type(e).__name__
        out['traceback'] = traceback.format_exc()[-4000:]
    out['failures'] = ctx.failures
    out['known'] = ctx.known_failures
    out['observations'] = ctx.observations
    out['reached'] = ctx.reached
    return out


def preload(package):
    """each job runs in a process of its own, they need not all load the same modules again"""
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(package.__path__, package.__name__ + '.'):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass        # not for this platform; a harness that needs it will say so


def run_alone(api, job, thorough, known_ids):
    """in a process of its own: nothing that one job leaves behind is seen by the next"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = json.dumps(run_one(api, job, thorough, known_ids)).encode('utf-8')
            while out:
                out = out[os.write(w, out):]
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    data = []
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        data.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return {'skip': False, 'uncaught': 'death of the process', 'failures': [], 'known': [], 'observations': [], 'reached': {}}
    return json.loads(b''.join(data).decode('utf-8'))


def setup():
    sys.path.insert(0, os.path.join(REPO, 'src'))
    # infi is a namespace package: the tree under test must come first
    try:
        import infi
        p = os.path.join(REPO, 'src', 'infi')
        path = [q for q in infi.__path__ if os.path.realpath(q) != os.path.realpath(p)]
        infi.__path__ = [p] + path
    except ImportError:
        pass
    import harness.api as api
    import harness.env as env
    env.install_concrete()
    return api


def main():
    with open(sys.argv[1]) as fd:
        jobs = json.load(fd)
    thorough = jobs.get('thorough', False)
    api = setup()
    import importlib
    for m in jobs['modules']:
        importlib.import_module('harness.' + m)
    api.add_beside()
    import infi.asi
    where = os.path.realpath(infi.asi.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('infi.asi comes from %s, not from %s' % (where, REPO))
    preload(infi.asi)
    results = [run_alone(api, j, thorough, jobs.get('known', ())) for j in jobs['jobs']]
    with open(sys.argv[2], 'w') as fd:
        json.dump({'results': results, 'python': sys.version}, fd)


if __name__ == '__main__':
    main()
