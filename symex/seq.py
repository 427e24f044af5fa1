"""Byte strings, byte arrays and text whose elements may be symbolic. Lengths are always concrete on a path."""
import z3
from . import core
from .core import SymInt, SymBool, concrete_int, sym_all, sym_not, EngineGap

_WS = (9, 10, 11, 12, 13, 32)


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymBool


def byte_value(x, exc=ValueError, what='byte must be in range(0, 256)'):
    """check 0 <= x < 256 (forks when both outcomes are possible)"""
    if is_sym(x):
        if type(x) is SymBool:
            x = x + 0
        if type(x) is SymInt and x.lo >= 0 and x.hi <= 255:
            return x
        if bool(core.sym_and(x >= 0, x <= 255)):
            if type(x) is not SymInt:
                return x
            return core.mk(x.e, 0, 255)
        raise exc(what)
    if not isinstance(x, int):
        if hasattr(x, '__index__'):
            x = x.__index__()
        else:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    if not 0 <= x <= 255:
        raise exc(what)
    return int(x)


def elements(x):
    """list of int|SymInt of a bytes-like object, or None"""
    if isinstance_seq(x) and not isinstance(x, SymStr):
        return list(x.v)
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, memoryview):
        return list(bytes(x))
    f = getattr(type(x), '__sym_bytes__', None)
    if f is not None:
        return f(x)
    return None


def isinstance_seq(x):
    return type(x) in _SEQ_TYPES


def make_bytes(vals):
    vals = list(vals)
    for i in vals:
        if is_sym(i):
            return SymBytes(vals)
    return bytes(vals)


def make_str(vals):
    vals = list(vals)
    for i in vals:
        if is_sym(i):
            return SymStr(vals)
    return ''.join(map(chr, vals))


def int_to_bytes(x, length, byteorder='big', signed=False):
    if signed:
        lo, hi = -(1 << (8 * length - 1)) if length else 0, (1 << (8 * length - 1)) - 1 if length else 0
    else:
        lo, hi = 0, (1 << (8 * length)) - 1
    if not signed and bool(x < 0):
        raise OverflowError("can't convert negative int to unsigned")
    if bool(x < lo) or bool(x > hi):
        raise OverflowError('int too big to convert')
    out = [(x >> (8 * i)) & 0xff for i in range(length)]
    if byteorder == 'big':
        out.reverse()
    return make_bytes(out)


def int_from_bytes(data, byteorder='big', signed=False):
    v = elements(data)
    if v is None:
        v = list(data)
    if byteorder == 'big':
        v = v[::-1]
    r = 0
    for i, b in enumerate(v):
        r = r | (b << (8 * i))
    if signed and v:
        n = 8 * len(v)
        r = core.sym_ite(r >= (1 << (n - 1)), r - (1 << n), r)
    return r


def concat_expr(vals):
    es = []
    for x in vals:
        p = core.as_parts(x)
        es.append(core._fit(p[0], 9))
    return z3.Concat(es) if len(es) > 1 else es[0]


class _SymSeq(object):
    __slots__ = ('v',)

    def __init__(self, v=()):
        self.v = list(v)

    def is_symbolic(self):
        for i in self.v:
            if is_sym(i):
                return True
        return False

    def concrete_values(self, why):
        if not self.v:
            return []
        if self.is_symbolic():
            eng = core.ENG
            n = eng.concretize(concat_expr(self.v), why)
            k = len(self.v)
            out = [(n >> (9 * (k - 1 - i))) & 0x1ff for i in range(k)]
            return out
        return list(self.v)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        i = 0
        while i < len(self.v):
            yield self.wrap_item(self.v[i])
            i += 1

    def __reversed__(self):
        return iter([self.wrap_item(i) for i in reversed(self.v)])

    def wrap_item(self, x):
        return x

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.like(self.v[k])
        if is_sym(k):
            return self.wrap_item(select(self.v, k, type(self).__name__))
        return self.wrap_item(self.v[k])

    def _other(self, o):
        return elements(o)

    def __eq__(self, o):
        v = self._other(o)
        if v is None:
            return NotImplemented
        if len(v) != len(self.v):
            return False
        return sym_all(a == b for a, b in zip(self.v, v))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _lt(self, a, b, orequal):
        for x, y in zip(a, b):
            if bool(x < y):
                return True
            if bool(x > y):
                return False
        return len(a) < len(b) or (orequal and len(a) == len(b))

    def __lt__(self, o):
        v = self._other(o)
        return NotImplemented if v is None else self._lt(self.v, v, False)

    def __le__(self, o):
        v = self._other(o)
        return NotImplemented if v is None else self._lt(self.v, v, True)

    def __gt__(self, o):
        v = self._other(o)
        return NotImplemented if v is None else self._lt(v, self.v, False)

    def __ge__(self, o):
        v = self._other(o)
        return NotImplemented if v is None else self._lt(v, self.v, True)

    def __add__(self, o):
        v = self._other(o)
        return NotImplemented if v is None else self.like(self.v + v)

    def __radd__(self, o):
        v = self._other(o)
        if v is None:
            return NotImplemented
        return self.like_other(o, v + self.v)

    def like_other(self, o, vals):
        return self.like(vals)

    def __mul__(self, n):
        return self.like(self.v * concrete_int(n, 'repetition'))
    __rmul__ = __mul__

    def __bool__(self):
        return bool(self.v)

    # -- searching --------------------------------------------------------------------------------------------
    def _pat(self, o):
        if is_sym(o) or isinstance(o, int):
            return [o]
        v = self._other(o)
        if v is None:
            raise TypeError('a bytes-like object is required, not %r' % type(o).__name__)
        return v

    def _match(self, i, p):
        return sym_all(a == b for a, b in zip(self.v[i:i + len(p)], p))

    def __contains__(self, o):
        p = self._pat(o)
        return bool(core.sym_or(*[self._match(i, p) for i in range(len(self.v) - len(p) + 1)]))

    def find(self, o, start=0, end=None):
        p = self._pat(o)
        s, e, _ = slice(start, end).indices(len(self.v))
        for i in range(s, e - len(p) + 1):
            if bool(self._match(i, p)):
                return i
        return -1

    def rfind(self, o, start=0, end=None):
        p = self._pat(o)
        s, e, _ = slice(start, end).indices(len(self.v))
        for i in reversed(range(s, e - len(p) + 1)):
            if bool(self._match(i, p)):
                return i
        return -1

    def index(self, o, *a):
        r = self.find(o, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, o):
        p = self._pat(o)
        n = i = 0
        while i + len(p) <= len(self.v):
            if bool(self._match(i, p)):
                n += 1
                i += max(1, len(p))
            else:
                i += 1
        return n

    def startswith(self, o, start=0):
        if isinstance(o, tuple):
            return any(self.startswith(x, start) for x in o)
        p = self._pat(o)
        if start + len(p) > len(self.v):
            return False
        return self._match(start, p)

    def endswith(self, o):
        if isinstance(o, tuple):
            return any(self.endswith(x) for x in o)
        p = self._pat(o)
        if len(p) > len(self.v):
            return False
        return self._match(len(self.v) - len(p), p)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur, v = [], [], list(self.v)
            for i, x in enumerate(v):
                if bool(self._is_ws(x)):
                    if cur:
                        out.append(self.like(cur))
                        cur = []
                else:
                    if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                        out.append(self.like(v[i:]).rstrip())
                        return out
                    cur.append(x)
            if cur:
                out.append(self.like(cur))
            return out
        p = self._pat(sep)
        out, s, i = [], 0, 0
        while i + len(p) <= len(self.v):
            if (maxsplit < 0 or len(out) < maxsplit) and bool(self._match(i, p)):
                out.append(self.like(self.v[s:i]))
                i += len(p)
                s = i
            else:
                i += 1
        out.append(self.like(self.v[s:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        n = len(self._pat(sep))
        if i < 0:
            return self.like(self.v), self.like([]), self.like([])
        return self.like(self.v[:i]), self.like(self.v[i:i + n]), self.like(self.v[i + n:])

    def replace(self, old, new, count=-1):
        p, q = self._pat(old), self._pat(new)
        out, i, n = [], 0, 0
        while i < len(self.v):
            if p and i + len(p) <= len(self.v) and (count < 0 or n < count) and bool(self._match(i, p)):
                out += q
                i += len(p)
                n += 1
            else:
                out.append(self.v[i])
                i += 1
        return self.like(out)

    # -- stripping --------------------------------------------------------------------------------------------
    def _is_ws(self, x):
        return core.sym_or(*[x == w for w in _WS])

    def _in_set(self, x, chars):
        if chars is None:
            return self._is_ws(x)
        return core.sym_or(*[x == c for c in self._pat(chars)])

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.v) and bool(self._in_set(self.v[i], chars)):
            i += 1
        return self.like(self.v[i:])

    def rstrip(self, chars=None):
        i = len(self.v)
        while i > 0 and bool(self._in_set(self.v[i - 1], chars)):
            i -= 1
        return self.like(self.v[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _fill(self, f):
        p = self._pat(f)
        if len(p) != 1:
            raise TypeError('fill must be one element')
        return p

    def ljust(self, n, fill=None):
        f = [32] if fill is None else self._fill(fill)
        return self.like(self.v + f * max(0, n - len(self.v)))

    def rjust(self, n, fill=None):
        f = [32] if fill is None else self._fill(fill)
        return self.like(f * max(0, n - len(self.v)) + self.v)

    def center(self, n, fill=None):
        f = [32] if fill is None else self._fill(fill)
        pad = max(0, n - len(self.v))
        left = pad // 2 + (pad & n & 1)
        return self.like(f * left + self.v + f * (pad - left))

    def zfill(self, n):
        return self.rjust(n, '0' if isinstance(self, SymStr) else b'0')

    def join(self, items):
        out = []
        for i, x in enumerate(items):
            if i:
                out += self.v
            p = self._other(x)
            if p is None:
                raise TypeError('sequence item %d: wrong type' % i)
            out += p
        return self.like(out)

    def isdigit(self):
        return bool(self.v) and bool(sym_all(core.sym_and(x >= 48, x <= 57) for x in self.v))

    def isspace(self):
        return bool(self.v) and bool(sym_all(self._is_ws(x) for x in self.v))

    def _map_case(self, lo, hi, delta):
        return self.like([core.sym_ite(core.sym_and(x >= lo, x <= hi), x + delta, x) if is_sym(x) else
                          (x + delta if lo <= x <= hi else x) for x in self.v])

    def upper(self):
        return self._map_case(97, 122, -32)

    def lower(self):
        return self._map_case(65, 90, 32)

    def __hash__(self):
        return hash(self.concrete('hash key'))

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(self._real, name):
            raise AttributeError("%r object has no attribute %r" % (self._real.__name__, name))
        return getattr(self.concrete('method ' + name), name)

    def __deepcopy__(self, memo):
        return self.like(self.v)
    __copy__ = copy = lambda self: self.like(self.v)

    def __repr__(self):
        return "<sym %s[%d]>" % (self._real.__name__, len(self.v))

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)


def select(vals, k, what):
    """vals[k] for a symbolic k, as an if-then-else chain"""
    n = len(vals)
    if bool(core.sym_or(k >= n, k < -n)):
        raise IndexError('%s index out of range' % what)
    if not vals:
        raise IndexError('index out of range')
    if all(core.as_parts(x) is not None for x in vals) and n <= 4096:
        i = core.sym_ite(k < 0, k + n, k)
        r = vals[-1]
        for j in range(n - 2, -1, -1):
            r = core.sym_ite(i == j, vals[j], r)
        return r
    return vals[concrete_int(k, 'index')]


class _BytesMixin(_SymSeq):
    __slots__ = ()
    _real = bytes

    def concrete(self, why):
        return self._real(self.concrete_values(why))

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-') if isinstance(encoding, str) else encoding
        if not self.is_symbolic():
            return bytes(self.v).decode(encoding, errors)
        if enc in ('latin-1', 'latin1', 'iso-8859-1'):
            return make_str(self.v)
        if enc in ('ascii', 'us-ascii'):
            out = []
            for i, x in enumerate(self.v):
                if bool(x < 128):
                    out.append(x)
                elif errors == 'strict':
                    raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal not in range(128)')
                elif errors == 'ignore':
                    pass
                elif errors == 'replace':
                    out.append(0xfffd)
                else:
                    return self.concrete('decode').decode(encoding, errors)
            return make_str(out)
        if enc in ('utf-8', 'utf8'):
            if bool(sym_all(x < 128 for x in self.v)):
                return make_str(self.v)
        return self.concrete('decode ' + str(encoding)).decode(encoding, errors)

    def hex(self, *a):
        if a or not self.is_symbolic():
            return self.concrete('hex').hex(*a)
        return make_str(hex_digits(self.v))

    def tobytes(self):
        return make_bytes(self.v)

    def __buffer__(self, flags):
        return memoryview(self.concrete('C call'))

    def __bytes__(self):
        return self.concrete('bytes()')


def hex_digits(vals):
    out = []
    for x in vals:
        for d in (x >> 4, x & 15):
            out.append(core.sym_ite(d < 10, d + 48, d + 87))
    return out


class SymBytes(_BytesMixin):
    __slots__ = ()
    _real = bytes
    __class__ = property(lambda self: bytes)
    __hash__ = _SymSeq.__hash__

    def like(self, vals):
        return make_bytes(vals)

    def like_other(self, o, vals):
        if isinstance(o, bytearray):
            return SymByteArray(vals)
        return make_bytes(vals)


class SymByteArray(_BytesMixin):
    __slots__ = ()
    _real = bytearray
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    def like(self, vals):
        return SymByteArray(vals)

    def like_other(self, o, vals):
        if type(o) is SymBytes or type(o) is bytes:
            return make_bytes(vals)
        return SymByteArray(vals)

    def __setitem__(self, k, x):
        if isinstance(k, slice):
            if is_sym(x) or isinstance(x, int):
                raise TypeError('can assign only bytes, buffers, or iterables of ints in range(0, 256)')
            v = elements(x)
            if v is None:
                v = [byte_value(i) for i in x]
            self.v[k] = v
            return
        k = concrete_int(k, 'index')
        self.v[k] = byte_value(x)

    def __delitem__(self, k):
        del self.v[k if isinstance(k, slice) else concrete_int(k, 'index')]

    def append(self, x):
        self.v.append(byte_value(x))

    def extend(self, xs):
        v = elements(xs)
        self.v.extend(v if v is not None else [byte_value(i) for i in xs])

    def insert(self, i, x):
        self.v.insert(concrete_int(i), byte_value(x))

    def pop(self, *a):
        return self.v.pop(*a)

    def remove(self, x):
        del self.v[self.index(x)]

    def clear(self):
        self.v = []

    def reverse(self):
        self.v.reverse()

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __imul__(self, n):
        self.v = self.v * concrete_int(n)
        return self


class SymStr(_SymSeq):
    __slots__ = ()
    _real = str
    __class__ = property(lambda self: str)
    __hash__ = _SymSeq.__hash__

    def like(self, vals):
        return make_str(vals)

    def wrap_item(self, x):
        return make_str([x])

    def concrete(self, why):
        return ''.join(map(chr, self.concrete_values(why)))

    def _other(self, o):
        if type(o) is SymStr:
            return list(o.v)
        if isinstance(o, str):
            return list(map(ord, o))
        return None

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        limit = 256 if enc in ('latin-1', 'latin1', 'iso-8859-1') else 128
        out = []
        for x in self.v:
            if bool(x < limit):
                out.append(x if not is_sym(x) else core.mk(x.e, 0, limit - 1) if type(x) is SymInt else x)
            elif limit == 128 and enc in ('utf-8', 'utf8'):
                return self.concrete('encode').encode(encoding, errors)
            else:
                raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range(%d)' % limit)
        return make_bytes(out)


_SEQ_TYPES = (SymBytes, SymByteArray, SymStr)


class SymBlob(object):
    """A byte string whose length is symbolic and whose content is never looked at."""
    __class__ = property(lambda self: bytes)

    def __init__(self, name, n):
        self.name = name
        self.n = n

    def __sym_len__(self):
        return self.n

    def __len__(self):
        return concrete_int(self.n, 'length')

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return bool(self.n > 0)

    def __repr__(self):
        return '<sym blob>'

    def _gap(self, *a, **k):
        raise EngineGap('content of a buffer of symbolic length')
    __getitem__ = __iter__ = __add__ = __radd__ = __contains__ = __buffer__ = _gap
