"""The symbolic context handed to harnesses."""
import z3
from . import core, seq, shims
from .core import SymInt, SymBool, sym_and, sym_or, sym_not, sym_ite, sym_all
from .seq import SymBytes, SymByteArray, SymStr, elements


class StopPath(Exception):
    pass


class SymCtx(object):
    symbolic = True

    def __init__(self, eng, api, thorough, known=()):
        self.eng = eng
        self.api = api
        self.thorough = thorough
        self.known_ids = known
        self.labels = {}            # check label -> number of times proved
        self.reached = {}
        self.begin()
        self.failures = []          # (label, model values)
        self.found_known = {}       # finding id -> model values

    def begin(self):
        self.observations = []
        self.env = None
        core.TEXT = None

    # numbers in formatted text
    def track_text(self):
        if core.TEXT is None:
            core.TEXT = []

    def text_value(self, n):
        return core.text_value(n)

    # inputs
    def int(self, name, lo, hi):
        return self.eng.new_int(name, lo, hi)

    def bool(self, name):
        b = z3.Bool(name)
        s = SymBool(b)
        self.eng.inputs[name] = ('bool', s)
        return s

    def bytes(self, name, n):
        return seq.make_bytes([self.eng.new_byte('%s[%d]' % (name, i)) for i in range(n)])

    def blob(self, name, lo, hi):
        return seq.SymBlob(name, self.eng.new_int(name, lo, hi))

    def blob_len(self, b):
        return b.n

    def choice(self, name, options):
        options = list(options)
        i = self.eng.new_int(name, 0, len(options) - 1)
        return options[core.concrete_int(i, 'choice ' + name)]

    def pick(self, name, lo, hi):
        """an integer that is concrete on each path"""
        return core.concrete_int(self.eng.new_int(name, lo, hi), 'pick ' + name)

    def assume(self, cond):
        self.eng.check_abort()
        self.eng.assume(_bool(cond))

    # logic
    def And(self, *xs):
        return sym_and(*xs)

    def Or(self, *xs):
        return sym_or(*xs)

    def Not(self, x):
        return sym_not(x)

    def Implies(self, a, b):
        return sym_or(sym_not(a), b)

    def ite(self, c, a, b):
        return sym_ite(c, a, b)

    def is_true(self, c):
        """fork on c"""
        return bool(c)

    # outcome
    def outcome(self, fn):
        try:
            v = fn()
        except core._Abort:
            raise
        except BaseException as e:
            self.eng.check_abort()
            r = self.api.Outcome(False, None, e)
        else:
            self.eng.check_abort()
            r = self.api.Outcome(True, v, None)
        self.api.at('returned')
        return r

    # one path in place of all
    def mark(self):
        return len(self.eng.log)

    def commit(self, start):
        """of the paths that differ in the decisions taken since the mark, this one is enough"""
        self.eng.commit(start)

    def directed(self, how, fn, *args):
        """fn(*args); `how` is the kind of path that is tried first"""
        before, self.eng.how = self.eng.how, how
        try:
            return fn(*args)
        finally:
            self.eng.how = before

    def aside(self, how, fn, *args):
        """along one path, for something that is not looked at: what it raises does not matter"""
        from harness import env
        current = env.CURRENT[0]

        def go():
            try:
                fn(*args)
            except core._Abort:
                raise
            except BaseException:
                self.eng.check_abort()
        try:
            start = self.mark()
            self.directed(how, go)
            self.eng.check_abort()
            self.commit(start)
        finally:
            env.CURRENT[0] = current

    def reach(self, label):
        self.eng.check_abort()
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, label, value):
        self.observations.append((label, value))

    # checks
    def check(self, cond, label, known=None):
        self.eng.check_abort()
        cond = _bool(cond)
        if known and known[0] in self.known_ids:
            fid, when = known[0], _bool(known[1])
            if fid not in self.found_known:
                m = self.eng.sat(_z(sym_and(when, sym_not(cond))))
                if m is not None:
                    self.found_known[fid] = (label, self.eng.input_values(m))
            cond = sym_or(when, cond)
        m = self.eng.prove(cond)
        if m is None:
            self.labels[label] = self.labels.get(label, 0) + 1
            return
        self.failures.append((label, self.eng.input_values(m)))
        # go on under the assumption that it held
        self.eng.assume(cond)

    def equal(self, actual, expected):
        return deep_eq(actual, expected)

    def eq(self, actual, expected, label, known=None):
        self.check(self.equal(actual, expected), label, known)

    def fail(self, label, known=None):
        self.check(False, label, known)

    def model_observations(self, model):
        return [[l, norm(v, model)] for l, v in self.observations]


def _bool(c):
    t = type(c)
    if t is SymBool:
        return c
    if t is SymInt:
        return c != 0
    return bool(c)


def _z(c):
    if type(c) is SymBool:
        return c.e
    return z3.BoolVal(bool(c))


def deep_eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    ea, eb = elements(a), elements(b)
    if type(a) is seq.SymBlob or type(b) is seq.SymBlob:
        return a is b
    if ea is not None or eb is not None:
        if ea is None and isinstance(a, (list, tuple)):
            ea = list(a)
        if eb is None and isinstance(b, (list, tuple)):
            eb = list(b)
        if ea is None or eb is None or len(ea) != len(eb):
            return False
        return sym_all(x == y for x, y in zip(ea, eb))
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        if type(a) is not SymStr:
            a = SymStr(list(map(ord, a)))
        return _bool(a == b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return sym_and(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return sym_and(*[deep_eq(a[k], b[k]) for k in a])
    r = a == b
    return _bool(r)


def norm(v, model):
    """JSON-able value of a possibly symbolic object under a model"""
    t = type(v)
    if t is SymInt or t is SymBool:
        return int(core.eval_int(v, model))
    if t is SymStr:
        return ['s', ''.join(chr(core.eval_int(x, model)) for x in v.v)]
    if t is seq.SymBlob:
        return ['blob', int(core.eval_int(v.n, model))]
    e = elements(v)
    if e is not None:
        return ['b'] + [int(core.eval_int(x, model)) for x in e]
    if v is None:
        return None
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, (list, tuple)):
        return ['l'] + [norm(x, model) for x in v]
    if isinstance(v, dict):
        return ['d', sorted([str(k), norm(x, model)] for k, x in v.items())]
    if isinstance(v, BaseException):
        return ['e', type(v).__name__]
    if isinstance(v, float):
        return ['f', v]
    return ['o', type(v).__name__]
