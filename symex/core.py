"""Symbolic execution core: engine (DFS re-execution over solver-decided branches), SymInt, SymBool.

Integers are exact: a SymInt carries a signed bit-vector that is wide enough for its interval [lo, hi], and every
operation widens its result so that Python's unbounded arithmetic is represented without wrap-around.
"""
import time
import numbers
import z3


class _Abort(BaseException):
    """Remembered by the engine, so that a bare except in the code under test cannot hide it."""
    def __init__(self, *a):
        BaseException.__init__(self, *a)
        if ENG is not None:
            ENG.aborted = self


class PathAbort(_Abort):
    """The current path is infeasible or was cut by an assumption."""


class Truncated(_Abort):
    """The current path was cut by a bound (a step, time or concretisation limit)."""


class EngineGap(_Abort):
    """The code did something the engine cannot represent; the path is inconclusive."""


class NonDeterminism(_Abort):
    pass


ENG = None      # the current engine


class Limits(object):
    def __init__(self, paths=20000, seconds=600.0, values=300, decisions=6000, query_ms=20000):
        self.paths = paths
        self.seconds = seconds
        self.values = values
        self.decisions = decisions
        self.query_ms = query_ms


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.truncations = {}
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0

    def truncate(self, why):
        self.truncations[why] = self.truncations.get(why, 0) + 1


class Engine(object):
    def __init__(self, limits=None):
        self.limits = limits or Limits()
        self.stats = Stats()
        self.deadline = time.time() + self.limits.seconds
        self.how = 0            # which side or value is explored first, see HOWS
        self.reset_path([])
        self.stack = []

    # -- path bookkeeping -------------------------------------------------------------------------------------
    def reset_path(self, prefix):
        self.prefix = prefix
        self.log = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.limits.query_ms)
        self.constraints = []
        self.model = None
        self.inputs = {}        # name -> (kind, term)
        self.notes = []
        self.aborted = None
        self.how = 0

    def commit(self, start):
        """Of the alternatives to the decisions that were taken since there were `start` of them, none is explored any
        more: what ran since then is represented by the first of its paths that gets this far."""
        if len(self.log) < len(self.prefix):
            return              # decided when this prefix was first run
        head = self.log[:start]
        self.stack = [s for s in self.stack if len(s) <= start or any(a is not b for a, b in zip(s, head))]

    def explore(self, fn, on_path):
        """Run fn once per feasible path; on_path(kind, value) is called at the end of each, with the path state
        still in place (kind: 'ok', 'exc', 'cut')."""
        global ENG
        ENG = self
        self.stack = [[]]
        while self.stack:
            if self.stats.paths >= self.limits.paths:
                self.stats.truncate('path limit %d' % self.limits.paths)
                break
            if time.time() > self.deadline:
                self.stats.truncate('time limit %ds' % self.limits.seconds)
                break
            self.reset_path(self.stack.pop())
            try:
                value = fn()
                kind = 'ok'
            except _Abort as a:
                self.aborted = self.aborted or a
            except BaseException as e:
                kind, value = 'exc', e
            a, self.aborted = self.aborted, None
            if isinstance(a, PathAbort):
                self.stats.infeasible += 1
                continue
            elif isinstance(a, NonDeterminism):
                raise a
            elif isinstance(a, Truncated):
                self.stats.truncate(str(a))
                kind, value = 'cut', a
            elif a is not None:
                kind, value = 'gap', a
            self.stats.paths += 1
            on_path(kind, value)
        ENG = None

    def add(self, c):
        self.constraints.append(c)
        self.solver.add(c)

    def sat(self, c=None):
        """Satisfiability of path /\\ c; on sat the model is returned, on unsat None. unknown raises Truncated."""
        t = time.time()
        self.stats.queries += 1
        if c is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(c)
            r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if c is not None:
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            # second opinion, from scratch, with the bit-vector tactic and with more time
            s = z3.SolverFor('QF_BV')
            s.set('timeout', self.limits.query_ms * 3)
            for k in self.constraints:
                s.add(k)
            if c is not None:
                s.add(c)
            t = time.time()
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.unknown:
                self.stats.unknown += 1
                raise Truncated('solver answered unknown')
            m = s.model() if r == z3.sat else None
        return m

    def current_model(self):
        if self.model is None:
            self.model = self.sat()
            if self.model is None:
                raise PathAbort()
        return self.model

    def check_abort(self):
        if self.aborted is not None:
            raise self.aborted

    def _tick(self):
        self.check_abort()
        self.stats.decisions += 1
        if len(self.log) > self.limits.decisions:
            raise Truncated('decision limit %d' % self.limits.decisions)
        if time.time() > self.deadline + 30:
            raise Truncated('time limit inside a path')

    def _same(self, a, b):
        """the decision met again on re-execution is the one of the first execution; the simplifier may have ordered
        the arguments of a commutative operation differently"""
        if a.hash() == b.hash() and z3.eq(a, b):
            return True
        if a.sort() != b.sort():
            return False
        s = z3.Solver()
        s.set('timeout', self.limits.query_ms)
        s.add(a != b)
        return s.check() == z3.unsat

    def branch(self, cond):
        """Decide a z3 Bool: fork the exploration when both sides are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self._tick()
        i = len(self.log)
        if i < len(self.prefix):
            ent = self.prefix[i]
            if ent[0] != 'b' or not self._same(ent[2], cond):
                raise NonDeterminism('re-execution diverged at decision %d' % i)
            taken = ent[1]
            if ent[3]:
                self.add(cond if taken else z3.Not(cond))
            self.model = None
            self.log.append(ent)
            return taken
        m = self.current_model()
        here = z3.is_true(m.eval(cond, model_completion=True))
        other = self.sat(z3.Not(cond) if here else cond)
        if other is None:
            self.log.append(('b', here, cond, False))      # implied: no constraint needed
            return here
        # the True side first, unless told otherwise
        side = self.how == 0 or self.how == 2 and i % 2 == 0
        self.stack.append(self.log + [('b', not side, cond, True)])
        self.log.append(('b', side, cond, True))
        self.add(cond if side else z3.Not(cond))
        self.model = m if here == side else other
        return side

    def concretize(self, expr, why='value'):
        """Fork over the feasible values of a bit-vector term; returns a Python int (unsigned)."""
        expr = z3.simplify(expr)
        if z3.is_bv_value(expr):
            return expr.as_long()
        self._tick()
        i = len(self.log)
        excluded = ()
        if i < len(self.prefix):
            ent = self.prefix[i]
            if ent[0] not in 'vx' or not self._same(ent[2], expr):
                raise NonDeterminism('re-execution diverged at decision %d' % i)
            if ent[0] == 'v':
                self.add(expr == ent[1])
                self.model = None
                self.log.append(ent)
                return ent[1]
            excluded = ent[1]
            for v in excluded:
                self.add(expr != v)
            self.model = None
        m = self.current_model()
        if self.how:
            # small, but not zero, when there is such a value
            n = self.sat(z3.And(expr != 0, z3.ULE(expr, self.how + 1)))
            m = n if n is not None else m
        v = m.eval(expr, model_completion=True).as_long()
        if len(excluded) + 1 >= self.limits.values:
            if self.sat(expr != v) is not None:
                self.stats.truncate('%s: more than %d values' % (why, self.limits.values))
        elif self.sat(expr != v) is not None:
            self.stack.append(self.log + [('x', excluded + (v,), expr)])
        self.log.append(('v', v, expr))
        self.add(expr == v)
        self.model = m
        return v

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        c = cond.e if type(cond) is SymBool else cond
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        if self.model is None and len(self.log) >= len(self.prefix):
            self.current_model()

    def prove(self, cond):
        """None when path => cond holds for all inputs, otherwise a model of path /\\ not cond."""
        self.stats.obligations += 1
        if cond is True:
            self.stats.trivial += 1
            self.stats.discharged += 1
            self.current_model()
            return None
        if cond is False:
            return self.current_model()
        c = z3.simplify(cond.e)
        if z3.is_true(c):
            self.stats.trivial += 1
            self.stats.discharged += 1
            self.current_model()
            return None
        m = self.sat(z3.Not(c))
        if m is None:
            self.stats.discharged += 1
        return m

    # -- inputs -----------------------------------------------------------------------------------------------
    def new_int(self, name, lo, hi):
        if name in self.inputs:
            raise EngineGap('input %r declared twice' % name)
        if lo == hi:
            self.inputs[name] = ('int', lo)
            return lo
        w = width_for(lo, hi)
        e = z3.BitVec(name, w)
        self.inputs[name] = ('int', SymInt(e, lo, hi))
        self.assume(SymBool(z3.And(e >= lo, e <= hi)))
        return SymInt(e, lo, hi)

    def new_byte(self, name):
        b = z3.BitVec(name, 8)
        s = SymInt(z3.ZeroExt(1, b), 0, 255)
        self.inputs[name] = ('int', s)
        return s

    def input_values(self, model):
        out = {}
        for name, (kind, t) in self.inputs.items():
            out[name] = eval_int(t, model)
        return out


def eval_int(t, model):
    if type(t) is SymInt:
        return model.eval(t.e, model_completion=True).as_signed_long()
    if type(t) is SymBool:
        return z3.is_true(model.eval(t.e, model_completion=True))
    return t


def width_for(lo, hi):
    n = 1
    if hi > 0:
        n = max(n, hi.bit_length() + 1)
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    return n


def _fit(e, w):
    s = e.size()
    if s == w:
        return e
    if s < w:
        return z3.SignExt(w - s, e)
    return z3.Extract(w - 1, 0, e)


def mk(e, lo, hi):
    if lo == hi:
        return lo
    e = z3.simplify(_fit(e, width_for(lo, hi)))
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def is_symint(x):
    return type(x) is SymInt or type(x) is SymBool


def as_parts(x):
    """(expr, lo, hi) of an int-like, or None"""
    t = type(x)
    if t is SymInt:
        return x.e, x.lo, x.hi
    if t is SymBool:
        return z3.If(x.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1
    if t is int or t is bool or (isinstance(x, int)):
        x = int(x)
        return z3.BitVecVal(x, width_for(x, x)), x, x
    return None


def concrete_int(x, why='value'):
    """A Python int; forks over feasible values when x is symbolic."""
    if type(x) is SymInt:
        v = ENG.concretize(x.e, why)
        w = x.e.size()
        return v - (1 << w) if v >> (w - 1) else v
    if type(x) is SymBool:
        return int(bool(x))
    return x


def _arith(op):
    def f(self, other):
        p = as_parts(other)
        if p is None:
            if type(other) is float:
                return getattr(float(concrete_int(self)), op)(other)
            return NotImplemented
        return _ARITH[op](as_parts(self), p)

    def r(self, other):
        p = as_parts(other)
        if p is None:
            if type(other) is float:
                return getattr(other, op)(float(concrete_int(self)))
            return NotImplemented
        return _ARITH[op](p, as_parts(self))
    return f, r


def _add(a, b):
    lo, hi = a[1] + b[1], a[2] + b[2]
    w = width_for(lo, hi)
    w = max(w, a[0].size(), b[0].size())
    return mk(_fit(a[0], w) + _fit(b[0], w), lo, hi)


def _sub(a, b):
    lo, hi = a[1] - b[2], a[2] - b[1]
    w = max(width_for(lo, hi), a[0].size(), b[0].size())
    return mk(_fit(a[0], w) - _fit(b[0], w), lo, hi)


def _mul(a, b):
    c = [a[1] * b[1], a[1] * b[2], a[2] * b[1], a[2] * b[2]]
    lo, hi = min(c), max(c)
    w = max(width_for(lo, hi), a[0].size(), b[0].size())
    if b[1] == b[2] and b[1] > 0 and b[1] & (b[1] - 1) == 0:
        return mk(_fit(a[0], w) << (b[1].bit_length() - 1), lo, hi)
    if a[1] == a[2] and a[1] > 0 and a[1] & (a[1] - 1) == 0:
        return mk(_fit(b[0], w) << (a[1].bit_length() - 1), lo, hi)
    return mk(_fit(a[0], w) * _fit(b[0], w), lo, hi)


def _divmod_parts(a, b):
    """floor division and modulo for a divisor that is a positive constant or a non-zero term"""
    if b[1] == b[2]:
        d = b[1]
        if d == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
    else:
        bi = SymInt(b[0], b[1], b[2])
        if bool(bi == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        d = None
    if d is not None and d > 0:
        lo, hi = a[1] // d, a[2] // d
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            w = max(a[0].size(), k + 2)
            q = mk(_fit(a[0], w) >> k, lo, hi)
            if a[1] >= 0 and a[2] < d:
                r = mk(a[0], a[1], a[2])
            else:
                r = mk(_fit(a[0], w) & (d - 1), 0, d - 1)
            return q, r
        w = max(a[0].size(), width_for(d, d)) + 1
        A, D = _fit(a[0], w), z3.BitVecVal(d, w)
        if a[1] >= 0:
            return mk(z3.UDiv(A, D), lo, hi), mk(z3.URem(A, D), 0, min(d - 1, a[2]))
        r = z3.SRem(A, D)
        r = z3.If(r < 0, r + D, r)
        rr = mk(r, 0, d - 1)
        return mk((A - r) / D, lo, hi), rr
    w = max(a[0].size(), b[0].size()) + 2
    A, D = _fit(a[0], w), _fit(b[0], w)
    r = z3.SRem(A, D)
    r = z3.If(z3.And(r != 0, (r < 0) != (D < 0)), r + D, r)
    q = (A - r) / D
    m = max(abs(a[1]), abs(a[2]), 1)
    d = max(abs(b[1]), abs(b[2]))
    return mk(q, -m, m), mk(r, -d, d)


def _and(a, b):
    if a[1] >= 0 and b[1] >= 0:
        lo, hi = 0, min(a[2], b[2])
    elif a[1] >= 0:
        lo, hi = 0, a[2]
    elif b[1] >= 0:
        lo, hi = 0, b[2]
    else:
        w = max(width_for(a[1], a[2]), width_for(b[1], b[2]))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    w = max(a[0].size(), b[0].size())
    return mk(_fit(a[0], w) & _fit(b[0], w), lo, hi)


def _orx(a, b, f):
    n = max(width_for(a[1], a[2]), width_for(b[1], b[2])) - 1
    if a[1] >= 0 and b[1] >= 0:
        lo, hi = 0, (1 << n) - 1
    else:
        lo, hi = -(1 << n), (1 << n) - 1
    w = max(a[0].size(), b[0].size())
    return mk(f(_fit(a[0], w), _fit(b[0], w)), lo, hi)


def _shift_amount(b):
    if b[1] == b[2]:
        k = b[1]
    else:
        k = concrete_int(SymInt(b[0], b[1], b[2]), 'shift amount')
    if k < 0:
        raise ValueError('negative shift count')
    return k


def _shl(a, b):
    k = _shift_amount(b)
    if k > 4096:
        raise Truncated('shift amount over 4096')
    lo, hi = a[1] << k, a[2] << k
    w = max(width_for(lo, hi), a[0].size())
    return mk(_fit(a[0], w) << k, lo, hi)


def _shr(a, b):
    k = _shift_amount(b)
    lo, hi = a[1] >> k, a[2] >> k
    w = a[0].size()
    return mk(a[0] >> min(k, w), lo, hi) if k < w else mk(a[0] >> (w - 1), lo, hi)


_ARITH = {
    '__add__': _add, '__sub__': _sub, '__mul__': _mul,
    '__floordiv__': lambda a, b: _divmod_parts(a, b)[0],
    '__mod__': lambda a, b: _divmod_parts(a, b)[1],
    '__divmod__': _divmod_parts,
    '__and__': _and,
    '__or__': lambda a, b: _orx(a, b, lambda x, y: x | y),
    '__xor__': lambda a, b: _orx(a, b, lambda x, y: x ^ y),
    '__lshift__': _shl, '__rshift__': _shr,
}


def _cmp(op):
    def f(self, other):
        b = as_parts(other)
        if b is None:
            if type(other) is float:
                if other != other or other in (float('inf'), float('-inf')):
                    return getattr(0.0, op)(other)
                if other == int(other):
                    b = as_parts(int(other))
                else:
                    fl = int(other // 1)        # floor; no integer equals other
                    if op == '__eq__':
                        return False
                    if op == '__ne__':
                        return True
                    if op in ('__lt__', '__le__'):
                        return self <= fl
                    return self > fl
            else:
                return NotImplemented
        a = as_parts(self)
        w = max(a[0].size(), b[0].size())
        x, y = _fit(a[0], w), _fit(b[0], w)
        if op == '__eq__':
            if a[2] < b[1] or b[2] < a[1]:
                return False
            return mkbool(x == y)
        if op == '__ne__':
            if a[2] < b[1] or b[2] < a[1]:
                return True
            return mkbool(x != y)
        if op == '__lt__':
            if a[2] < b[1]:
                return True
            if a[1] >= b[2]:
                return False
            return mkbool(x < y)
        if op == '__le__':
            if a[2] <= b[1]:
                return True
            if a[1] > b[2]:
                return False
            return mkbool(x <= y)
        if op == '__gt__':
            if a[1] > b[2]:
                return True
            if a[2] <= b[1]:
                return False
            return mkbool(x > y)
        if a[1] >= b[2]:
            return True
        if a[2] < b[1]:
            return False
        return mkbool(x >= y)
    return f


class _IntLike(object):
    __slots__ = ()

    def __hash__(self):
        return hash(concrete_int(self, 'hash key'))

    def __index__(self):
        return concrete_int(self, 'index')

    def __int__(self):
        return concrete_int(self, 'int()')

    def __float__(self):
        return float(concrete_int(self, 'float()'))

    def __truediv__(self, other):
        return concrete_int(self, 'true division') / concrete_int(other, 'true division')

    def __rtruediv__(self, other):
        return concrete_int(other, 'true division') / concrete_int(self, 'true division')

    def __pow__(self, other, mod=None):
        return pow(concrete_int(self, 'power'), concrete_int(other, 'power'), mod)

    def __rpow__(self, other):
        return pow(concrete_int(other, 'power'), concrete_int(self, 'power'))

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self + 0

    def __invert__(self):
        return -1 - self

    def __abs__(self):
        return -self if bool(self < 0) else self + 0

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def bit_length(self):
        e, lo, hi = as_parts(self)
        m = self if lo >= 0 else abs(self)
        if type(m) is int:
            return m.bit_length()
        n = max(abs(lo), abs(hi)).bit_length()
        w = width_for(0, n)
        r = z3.BitVecVal(0, w)
        for k in range(1, n + 1):
            c = m >= (1 << (k - 1))
            if c is True:
                r = z3.BitVecVal(k, w)
            elif c is not False:
                r = z3.If(c.e, z3.BitVecVal(k, w), r)
        return mk(r, 0, n)

    def bit_count(self):
        m = abs(self)
        r = 0
        for k in range(max(abs(as_parts(self)[1]), abs(as_parts(self)[2])).bit_length()):
            r = r + ((m >> k) & 1)
        return r

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)

    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def to_bytes(self, length=1, byteorder='big', signed=False):
        from . import seq
        return seq.int_to_bytes(self, concrete_int(length), byteorder, signed)

    def __repr__(self):
        return '<sym>' if TEXT is None else str(text_number(self))

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>' if TEXT is None else format(text_number(self), spec)

    def __reduce__(self):
        raise EngineGap('pickling a symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


for _op in list(_ARITH):
    _f, _r = _arith(_op)
    setattr(_IntLike, _op, _f)
    setattr(_IntLike, '__r' + _op[2:], _r)
for _op in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(_IntLike, _op, _cmp(_op))


# Formatted text: a symbolic number is '<sym>' there, unless a harness asks for numbers that can be found again
TEXT = None
TEXT_BASE = 0x5EED00000000


def text_number(x):
    TEXT.append(x)
    return TEXT_BASE + len(TEXT) - 1


def text_value(n):
    k = n - TEXT_BASE
    return TEXT[k] if TEXT is not None and 0 <= k < len(TEXT) else n


class SymInt(_IntLike):
    __slots__ = ('e', 'lo', 'hi')
    __hash__ = _IntLike.__hash__

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    __class__ = property(lambda self: int)

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return ENG.branch(self.e != 0)


class SymBool(_IntLike):
    __slots__ = ('e',)
    __hash__ = _IntLike.__hash__

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return ENG.branch(self.e)

    def __and__(self, other):
        if type(other) is bool:
            return self if other else False
        if type(other) is SymBool:
            return mkbool(z3.And(self.e, other.e))
        return _IntLike.__and__(self, other)
    __rand__ = __and__

    def __or__(self, other):
        if type(other) is bool:
            return True if other else self
        if type(other) is SymBool:
            return mkbool(z3.Or(self.e, other.e))
        return _IntLike.__or__(self, other)
    __ror__ = __or__

    def __xor__(self, other):
        if type(other) is bool:
            return sym_not(self) if other else self
        if type(other) is SymBool:
            return mkbool(z3.Xor(self.e, other.e))
        return _IntLike.__xor__(self, other)
    __rxor__ = __xor__

    def __eq__(self, other):
        if type(other) is bool:
            return self if other else sym_not(self)
        if type(other) is SymBool:
            return mkbool(self.e == other.e)
        return _IntLike.__eq__(self, other)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else sym_not(r)


numbers.Integral.register(SymInt)
numbers.Integral.register(SymBool)


def sym_not(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    if type(x) is SymInt:
        return x == 0
    return not x


def sym_and(*xs):
    r = True
    for x in xs:
        if type(x) is SymInt:
            x = x != 0
        if type(x) is not SymBool:
            if not x:
                return False
            continue
        r = x if r is True else mkbool(z3.And(r.e, x.e))
        if r is False:
            return False
    return r


def sym_all(xs):
    es = []
    for x in xs:
        if type(x) is SymInt:
            x = x != 0
        if type(x) is SymBool:
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return mkbool(z3.And(es))


def sym_or(*xs):
    es = []
    for x in xs:
        if type(x) is SymInt:
            x = x != 0
        if type(x) is SymBool:
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return mkbool(z3.Or(es))


def sym_ite(c, a, b):
    """integer if-then-else without forking"""
    if type(c) is SymInt:
        c = c != 0
    if type(c) is not SymBool:
        return a if c else b
    pa, pb = as_parts(a), as_parts(b)
    if pa is None or pb is None:
        return a if bool(c) else b
    lo, hi = min(pa[1], pb[1]), max(pa[2], pb[2])
    w = max(width_for(lo, hi), pa[0].size(), pb[0].size())
    return mk(z3.If(c.e, _fit(pa[0], w), _fit(pb[0], w)), lo, hi)


def has_sym(x):
    from .seq import _SymSeq
    t = type(x)
    if t is SymInt or t is SymBool:
        return True
    if isinstance(x, _SymSeq) if t.__module__ == 'symex.seq' else False:
        return x.is_symbolic()
    if t is tuple:
        return any(has_sym(i) for i in x)
    return False
