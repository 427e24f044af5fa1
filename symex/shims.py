"""What the code under test sees instead of the C-implemented builtins that would force symbolic values to be
concrete: bytes, bytearray, int, str, struct, io.BytesIO, chr, ord, hex, dict lookup with a symbolic key, and so on.
"""
import builtins
import z3
import struct as _struct
import types
from . import core, seq
from .core import SymInt, SymBool, concrete_int, EngineGap
from .seq import SymBytes, SymByteArray, SymStr, make_bytes, make_str, elements, byte_value, is_sym


# ---------------------------------------------------------------------------------------------------- builtins
class TypeProxy(object):
    def __init__(self, real, make, extra=()):
        self._real = real
        self._make = make
        self._extra = dict(extra)
        self.__name__ = real.__name__
        self.__doc__ = real.__doc__

    def __call__(self, *a, **k):
        return self._make(*a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, self._real)

    def __subclasscheck__(self, x):
        if isinstance(x, TypeProxy):
            x = x._real
        return issubclass(x, self._real)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __eq__(self, o):
        return o is self._real or (type(o) is TypeProxy and o._real is self._real)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._real)

    def __or__(self, o):
        return self._real | (o._real if type(o) is TypeProxy else o)
    __ror__ = __or__

    def __getitem__(self, k):
        return self._real[k]

    def __getattr__(self, name):
        if name in self.__dict__.get('_extra', ()):
            return self._extra[name]
        return getattr(self.__dict__['_real'], name)

    def __repr__(self):
        return repr(self._real)


def _seq_arg(args, kw, cls):
    """elements for bytes(...)/bytearray(...), or None to fall back to the real constructor"""
    if not args and not kw:
        return []
    x = args[0] if args else kw.get('source', kw.get('string'))
    if isinstance(x, str):
        enc = args[1] if len(args) > 1 else kw.get('encoding')
        if enc is None:
            raise TypeError('string argument without an encoding')
        x = x.encode(enc, *args[2:3])
        return elements(x)
    if len(args) > 1 or kw:
        raise TypeError('encoding without a string argument')
    v = elements(x)
    if v is not None:
        return v
    if is_sym(x):
        n = concrete_int(x, 'buffer size')
        if n < 0:
            raise ValueError('negative count')
        return [0] * n
    if isinstance(x, int):
        if x < 0:
            raise ValueError('negative count')
        if x > 1 << 26:
            raise core.Truncated('buffer over 64 MiB')
        return [0] * int(x)
    f = getattr(type(x), '__bytes__', None)
    if f is not None:
        return elements(f(x))
    f = getattr(type(x), '__index__', None)
    if f is not None:
        return [0] * f(x)
    exc = ValueError
    return [byte_value(i, exc, '%s must be in range(0, 256)' % ('byte' if cls is bytearray else 'bytes')) for i in x]


def _mk_bytes(*args, **kw):
    return make_bytes(_seq_arg(args, kw, bytes))


def _mk_bytearray(*args, **kw):
    return SymByteArray(_seq_arg(args, kw, bytearray))


def _mk_int(*args, **kw):
    if args:
        x = args[0]
        if is_sym(x):
            return x + 0
        if seq.isinstance_seq(x):
            if len(args) == 1 and len(x) <= 64:
                # decimal text
                pass
            return int(x.concrete('int()'), *args[1:])
    return int(*args, **kw)


def _int_from_bytes(data, byteorder='big', signed=False):
    v = elements(data)
    if v is None:
        v = list(data)
    return seq.int_from_bytes(make_bytes(v), byteorder, signed)


def _int_to_bytes(x, length=1, byteorder='big', signed=False):
    if is_sym(x):
        return x.to_bytes(length, byteorder, signed)
    return int.to_bytes(x, concrete_int(length), byteorder, signed=signed)


def _mk_str(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if type(x) is SymStr:
            return x
        return str(x)
    if args and elements(args[0]) is not None:
        return make_bytes(elements(args[0])).decode(*args[1:], **kw)
    return str(*args, **kw)


def _mk_bool(*a):
    return bool(*a)


def _mk_float(*a):
    return float(*a)


def _fromhex(s):
    if type(s) is SymStr:
        s = s.concrete('fromhex')
    return bytes.fromhex(s)


def sx_chr(x):
    if is_sym(x):
        if bool(core.sym_or(x < 0, x > 0x10ffff)):
            raise ValueError('chr() arg not in range(0x110000)')
        return make_str([x])
    return chr(x)


def sx_ord(x):
    if seq.isinstance_seq(x):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return x.v[0]
    return ord(x)


def _based(prefix, real):
    def f(x):
        if is_sym(x):
            return '<sym>' if core.TEXT is None else real(core.text_number(x))
        return real(x)
    return f


def sx_len(x):
    f = getattr(type(x), '__sym_len__', None)
    if f is not None:
        return f(x)
    return len(x)


def sx_range(*a):
    return range(*[concrete_int(x, 'range bound') for x in a])


def sx_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def sx_round(x, *a):
    return x if is_sym(x) else round(x, *a)


def sx_pow(a, b, *m):
    return pow(a, b, *m)


def sx_memoryview(x):
    if type(x) in (SymBytes, SymByteArray):
        return x        # reads alias the same storage; sizes are in bytes
    return memoryview(x)


def sx_print(*a, **k):
    pass


def sx_hash(x):
    return hash(x)


# ---------------------------------------------------------------------------------------------- AST hook helpers
_BIG = []       # (dict, its length, key elements, membership condition, {number: key}) of recent lookups


def _big_dict_key(d, key):
    """lookup of a byte string in a big dict of byte strings: decide membership, then halve the range of the key"""
    if type(key) is not SymBytes:
        return NotImplemented
    parts = [core.as_parts(x) for x in key.v]
    if any(p is None for p in parts):
        return NotImplemented
    if not all(type(k) is bytes for k in d):
        return NotImplemented
    byte = [z3.simplify(core._fit(e, 9)) for e, lo, hi in parts]
    n = len(byte)
    if not n:
        return NotImplemented
    whole = z3.simplify(z3.Concat(*[z3.Extract(7, 0, b) for b in byte]) if n > 1 else z3.Extract(7, 0, byte[0]))
    for ent in _BIG:
        if ent[0] is d and ent[1] == len(d) and ent[2].size() == whole.size() and z3.eq(ent[2], whole):
            break
    else:
        nums = dict((int.from_bytes(k, 'big'), k) for k in d if len(k) == n)
        member = z3.simplify(z3.Or([whole == v for v in nums])) if nums else z3.BoolVal(False)
        ent = (d, len(d), whole, member, nums)
        _BIG.append(ent)
        del _BIG[:-8]
    _, _, _, member, nums = ent
    if not core.ENG.branch(member):
        return _MISSING
    values = sorted(nums)
    lo, hi = 0, len(values)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if core.ENG.branch(z3.ULT(whole, values[mid])):
            hi = mid
        else:
            lo = mid
    core.ENG.assume(whole == values[lo])
    return nums[values[lo]]


def _dict_key(d, key):
    """the actual key of dict/set d equal to the symbolic key on this path, or _MISSING"""
    if len(d) > 16:
        r = _big_dict_key(d, key)
        if r is not NotImplemented:
            return r
    cands = []
    for k in list(d):
        if type(key) is tuple:
            if not isinstance(k, tuple) or len(k) != len(key):
                continue
            c = True
            for a, b in zip(key, k):
                c = core.sym_and(c, _eq(a, b))
        else:
            c = _eq(key, k)
        if c is True:
            return k
        if type(c) is SymBool:
            cands.append((k, c))
        elif c is not False and c is not NotImplemented and bool(c):
            return k
    # at most one candidate is equal to the key: split them in halves
    if not cands or not bool(core.sym_or(*[c for _, c in cands])):
        return _MISSING
    while len(cands) > 1:
        h = len(cands) // 2
        cands = cands[:h] if bool(core.sym_or(*[c for _, c in cands[:h]])) else cands[h:]
    return cands[0][0]


def _eq(a, b):
    r = a == b
    return r


class _Missing(object):
    pass


_MISSING = _Missing()
_DICTS = (dict, types.MappingProxyType)


def _own(o, name):
    """whether the class of dict o gives its own (Python) definition of a mapping method"""
    t = type(o)
    return t is not dict and type(getattr(t, name, None)) is types.FunctionType


def _dict_base(o, name, a):
    """(mapping, args) for super().<name>(...) and dict.<name>(mapping, ...) that reach the built-in method"""
    if type(o) is super:
        m = o.__self__
        if isinstance(m, dict) and type(getattr(o, name, None)) is not types.MethodType:
            return m, a
    elif isinstance(o, type) and issubclass(o, dict) and a and isinstance(a[0], dict):
        if type(getattr(o, name, None)) is not types.FunctionType:
            return a[0], a[1:]
    return None


def _plain_mapping(o):
    return isinstance(o, _DICTS)


def sx_in(x, c):
    if core.has_sym(x):
        t = type(c)
        if isinstance(c, dict) and _own(c, '__contains__'):
            return x in c
        if isinstance(c, (dict, set, frozenset)) or t in (type({}.keys()),):
            return _dict_key(c, x) is not _MISSING
        if t is range:
            if c.step == 1:
                return core.sym_and(x >= c.start, x < c.stop)
            if c.step > 0:
                return core.sym_and(x >= c.start, x < c.stop, (x - c.start) % c.step == 0)
            return core.sym_and(x <= c.start, x > c.stop, (c.start - x) % (-c.step) == 0)
        if t in (list, tuple) and type(x) in (SymInt, SymBool):
            return core.sym_or(*[_truth(x == y) for y in c])
        if t in (bytes, bytearray):
            if is_sym(x):
                return core.sym_or(*[x == y for y in c])
            return SymByteArray(list(c)).__contains__(x)
        if t is str:
            return SymStr(list(map(ord, c))).__contains__(x)
    elif seq.isinstance_seq(c):
        return c.__contains__(x)
    return x in c


def _truth(x):
    return x if type(x) is SymBool else bool(x)


def sx_not_in(x, c):
    return core.sym_not(sx_in(x, c))


def _dict_getitem(o, k):
    kk = _dict_key(o, k)
    if kk is _MISSING:
        miss = getattr(type(o), '__missing__', None)
        if miss is not None:
            return miss(o, k)
        raise KeyError('<sym>')
    return dict.__getitem__(o, kk)


def sx_getitem(o, k):
    if core.has_sym(k):
        if isinstance(o, dict):
            if _own(o, '__getitem__'):
                return o[k]
            return _dict_getitem(o, k)
        if type(o) in (list, tuple) and is_sym(k):
            return seq.select(list(o), k, type(o).__name__)
        if type(o) in (bytes, bytearray) and is_sym(k):
            return seq.select(list(o), k, type(o).__name__)
        if type(o) is str and is_sym(k):
            return make_str([seq.select(list(map(ord, o)), k, 'string')])
        if type(o) is range and is_sym(k):
            return seq.select(list(o), k, 'range')
    return o[k]


def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if t in (SymInt, SymBool, SymBytes, SymByteArray, SymStr):
            return x.__class__
        return t
    return type(*a)


def sx_mod(a, b):
    if isinstance(a, str) and type(a) is not SymStr:
        if type(b) is tuple:
            b = tuple(_fmt_arg(x) for x in b)
        elif isinstance(b, dict):
            b = dict((k, _fmt_arg(x)) for k, x in b.items())
        else:
            b = _fmt_arg(b)
        try:
            return a % b
        except core.EngineGap:
            raise
    return a % b


def _fmt_arg(x):
    if is_sym(x):
        return PlaceholderInt(0) if core.TEXT is None else core.text_number(x)
    return x


class PlaceholderInt(int):
    """stands for a symbolic integer in formatted text, which is not part of any checked property"""
    def __repr__(self):
        return '<sym>'
    __str__ = __repr__


def sx_call(o, name, *a, **k):
    if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__') and (type(o) is super or isinstance(o, type)):
        base = _dict_base(o, name, a)
        if base is not None and base[1] and core.has_sym(base[1][0]):
            m, a = base
            kk = _dict_key(m, a[0])
            if name == '__contains__':
                return kk is not _MISSING
            if name == '__getitem__':
                return _dict_getitem(m, a[0])
            if kk is not _MISSING:
                return getattr(dict, name)(m, kk, *a[1:])
            if name == 'get':
                return a[1] if len(a) > 1 else k.get('default')
            if name == 'pop':
                if len(a) > 1:
                    return a[1]
                raise KeyError('<sym>')
            return getattr(dict, name)(m, *a, **k)
    if isinstance(o, dict):
        if (a and core.has_sym(a[0]) and name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__')
                and not _own(o, name)):
            if name == '__getitem__':
                return sx_getitem(o, a[0])
            kk = _dict_key(o, a[0])
            if name == '__contains__':
                return kk is not _MISSING
            if kk is not _MISSING:
                return getattr(o, name)(kk, *a[1:])
            if name == 'get':
                return a[1] if len(a) > 1 else k.get('default')
            if name == 'pop':
                if len(a) > 1:
                    return a[1]
                raise KeyError('<sym>')
    elif isinstance(o, (bytes, bytearray)) and not seq.isinstance_seq(o):
        if name == 'join':
            items = list(a[0])
            if any(seq.isinstance_seq(i) for i in items):
                r = []
                for i, x in enumerate(items):
                    if i:
                        r += list(o)
                    v = elements(x)
                    if v is None:
                        raise TypeError('sequence item %d: expected a bytes-like object' % i)
                    r += v
                return make_bytes(r)
            return o.join(items)
        if any(core.has_sym(x) or seq.isinstance_seq(x) for x in a):
            return getattr(SymBytes(list(o)), name)(*a, **k)
    elif isinstance(o, str) and type(o) is not SymStr:
        if name == 'join':
            items = list(a[0])
            if any(type(i) is SymStr for i in items):
                return SymStr(list(map(ord, o))).join(items)
            return o.join(items)
        if name == 'format':
            return o.format(*a, **k)
        if any(type(x) is SymStr for x in a):
            return getattr(SymStr(list(map(ord, o))), name)(*a, **k)
    elif isinstance(o, (list, tuple)) and name in ('index', 'count') and a and is_sym(a[0]):
        n = 0
        for i, x in enumerate(o):
            if bool(_truth(a[0] == x)):
                if name == 'index':
                    return i
                n += 1
        if name == 'index':
            raise ValueError('<sym> is not in list')
        return n
    elif isinstance(o, (set, frozenset)) and a and core.has_sym(a[0]):
        kk = _dict_key(o, a[0])
        if kk is not _MISSING:
            return getattr(o, name)(kk)
        if name in ('discard',):
            return None
        if name == 'remove':
            raise KeyError('<sym>')
    elif o is int and name == 'from_bytes':
        return _int_from_bytes(*a, **k)
    elif isinstance(o, int) and name == 'to_bytes' and not is_sym(o):
        a = [concrete_int(x) if is_sym(x) else x for x in a]
    return getattr(o, name)(*a, **k)


HOOKED_METHODS = frozenset('''get pop setdefault __getitem__ __contains__ join index count remove discard add from_bytes
to_bytes startswith endswith find rfind split rsplit partition replace strip lstrip rstrip ljust rjust center
'''.split())


# ------------------------------------------------------------------------------------------------------- struct
_CODES = {'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}
_NATIVE = {'l': 8, 'L': 8, 'n': 8, 'N': 8, 'P': 8}


def _parse(fmt):
    """[(code, count, size, offset)], total, little"""
    if isinstance(fmt, (bytes, bytearray)):
        fmt = bytes(fmt).decode('ascii')
    if type(fmt) is SymStr:
        fmt = fmt.concrete('struct format')
    total = _struct.calcsize(fmt)
    native = True
    little = True
    body = fmt
    if fmt and fmt[0] in '@=<>!':
        native = fmt[0] == '@'
        little = fmt[0] in '@=<'
        body = fmt[1:]
    prefix = fmt[:len(fmt) - len(body)]
    out = []
    i = 0
    consumed = ''
    while i < len(body):
        if body[i].isspace():
            i += 1
            continue
        j = i
        while body[j].isdigit():
            j += 1
        count = int(body[i:j]) if j > i else None
        code = body[j]
        piece = body[i:j + 1]
        size = _NATIVE[code] if native and code in _NATIVE else _CODES.get(code)
        if code in 'sp':
            n = 1 if count is None else count
            consumed += piece
            end = _struct.calcsize(prefix + consumed)
            out.append((code, n, 1, end - n))
        elif code == 'x':
            consumed += piece
        elif code in 'fd':
            for _ in range(1 if count is None else count):
                consumed += code
                sz = 4 if code == 'f' else 8
                out.append((code, 1, sz, _struct.calcsize(prefix + consumed) - sz))
        else:
            if size is None:
                raise _struct.error('bad char in struct format')
            for _ in range(1 if count is None else count):
                consumed += code
                out.append((code, 1, size, _struct.calcsize(prefix + consumed) - size))
        i = j + 1
    return out, total, little


def s_pack(fmt, *args):
    items, total, little = _parse(fmt)
    if len(items) != len(args):
        raise _struct.error('pack expected %d items for packing (got %d)' % (len(items), len(args)))
    if not any(core.has_sym(a) or seq.isinstance_seq(a) for a in args):
        return _struct.pack(fmt, *args)
    out = [0] * total
    for (code, n, size, off), a in zip(items, args):
        if code in 'sp':
            v = elements(a)
            if v is None:
                raise _struct.error("argument for 's' must be a bytes object")
            if code == 'p':
                raise EngineGap('struct code p')
            v = v[:n]
            out[off:off + len(v)] = v
            continue
        if code == 'c':
            v = elements(a)
            if v is None or len(v) != 1:
                raise _struct.error('char format requires a bytes object of length 1')
            out[off] = v[0]
            continue
        if code == '?':
            out[off] = core.sym_ite(a, 1, 0) if is_sym(a) else int(bool(a))
            continue
        if code in 'fd':
            out[off:off + size] = list(_struct.pack(('<' if little else '>') + code, float(a)))
            continue
        if is_sym(a):
            if code.islower() and code != 'n' or code == 'n':
                lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
            else:
                lo, hi = 0, (1 << (8 * size)) - 1
            if not bool(core.sym_and(a >= lo, a <= hi)):
                raise _struct.error('argument out of range')
            v = [(a >> (8 * i)) & 0xff for i in range(size)]
            out[off:off + size] = v if little else v[::-1]
        else:
            single = ('<' if little else '>') + {8: 'q' if code.islower() else 'Q'}.get(size, code) \
                if code in 'lLnNP' else ('<' if little else '>') + code
            out[off:off + size] = list(_struct.pack(single, a))
    return make_bytes(out)


def s_unpack_from(fmt, buffer, offset=0, exact=False):
    items, total, little = _parse(fmt)
    v = elements(buffer)
    if v is None:
        v = list(bytes(memoryview(buffer)))
    offset = concrete_int(offset)
    if exact:
        if len(v) != total:
            raise _struct.error('unpack requires a buffer of %d bytes' % total)
    elif len(v) - offset < total:
        raise _struct.error('unpack_from requires a buffer of at least %d bytes' % total)
    v = v[offset:offset + total]
    if not any(is_sym(x) for x in v):
        return _struct.unpack(fmt, bytes(v))
    out = []
    for code, n, size, off in items:
        p = v[off:off + n * size]
        if code == 's':
            out.append(make_bytes(p))
        elif code == 'c':
            out.append(make_bytes(p))
        elif code == '?':
            out.append(_truth(p[0] != 0) if not is_sym(p[0]) else p[0] != 0)
        elif code in 'fdp':
            out.append(_struct.unpack(('<' if little else '>') + code, bytes(make_bytes(p)))[0])
        else:
            out.append(seq.int_from_bytes(make_bytes(p), 'little' if little else 'big',
                                          code.islower() or code == 'n'))
    return tuple(out)


def s_unpack(fmt, buffer):
    return s_unpack_from(fmt, buffer, 0, True)


def s_pack_into(fmt, buffer, offset, *args):
    v = elements(s_pack(fmt, *args))
    if len(buffer) - offset < len(v):
        raise _struct.error('pack_into requires a buffer of at least %d bytes' % len(v))
    for i, x in enumerate(v):
        buffer[offset + i] = x


class Struct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def pack(self, *a):
        return s_pack(self.format, *a)

    def pack_into(self, b, o, *a):
        return s_pack_into(self.format, b, o, *a)

    def unpack(self, b):
        return s_unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return s_unpack_from(self.format, b, offset)

    def iter_unpack(self, b):
        return s_iter_unpack(self.format, b)


def s_iter_unpack(fmt, b):
    n = _struct.calcsize(fmt)
    if len(b) % n:
        raise _struct.error('iterative unpacking requires a multiple of %d bytes' % n)
    for i in range(0, len(b), n):
        yield s_unpack(fmt, b[i:i + n])


struct_module = types.ModuleType('struct')
struct_module.pack, struct_module.unpack, struct_module.unpack_from = s_pack, s_unpack, s_unpack_from
struct_module.pack_into, struct_module.calcsize, struct_module.error = s_pack_into, _struct.calcsize, _struct.error
struct_module.Struct, struct_module.iter_unpack = Struct, s_iter_unpack


# ------------------------------------------------------------------------------------------------------ BytesIO
class SymBytesIO(object):
    def __init__(self, initial=b''):
        v = elements(initial)
        if v is None:
            raise TypeError('a bytes-like object is required, not %r' % type(initial).__name__)
        self._v = v
        self._p = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def read(self, n=-1):
        self._chk()
        n = -1 if n is None else concrete_int(n, 'read size')
        r = self._v[self._p:] if n < 0 else self._v[self._p:self._p + n]
        self._p += len(r)
        return make_bytes(r)
    read1 = read

    def readinto(self, b):
        r = elements(self.read(len(b)))
        b[0:len(r)] = make_bytes(r)
        return len(r)

    def readline(self, n=-1):
        self._chk()
        out = []
        while self._p < len(self._v):
            x = self._v[self._p]
            out.append(x)
            self._p += 1
            if bool(_truth(x == 10)):
                break
        return make_bytes(out)

    def write(self, data):
        self._chk()
        v = elements(data)
        if v is None:
            raise TypeError('a bytes-like object is required, not %r' % type(data).__name__)
        if v and self._p > len(self._v):
            self._v += [0] * (self._p - len(self._v))
        self._v[self._p:self._p + len(v)] = v
        self._p += len(v)
        return len(v)

    def getvalue(self):
        self._chk()
        return make_bytes(self._v)

    def getbuffer(self):
        return make_bytes(self._v)

    def seek(self, p, whence=0):
        self._chk()
        p = concrete_int(p, 'seek')
        if whence == 1:
            p += self._p
        elif whence == 2:
            p += len(self._v)
        if p < 0:
            raise ValueError('negative seek value %r' % p)
        self._p = p
        return p

    def tell(self):
        self._chk()
        return self._p

    def truncate(self, n=None):
        n = self._p if n is None else concrete_int(n)
        del self._v[n:]
        return n

    def readable(self):
        return True
    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __len__(self):
        raise TypeError("object of type '_io.BytesIO' has no len()")

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l


def clone_module(mod, **over):
    m = types.ModuleType(mod.__name__)
    for k in dir(mod):
        if k in ('__class__', '__dict__'):
            continue
        try:
            setattr(m, k, getattr(mod, k))
        except Exception:
            pass
    for k, v in over.items():
        setattr(m, k, v)
    return m


def make_builtins():
    b = dict(builtins.__dict__)
    b.update(bytes=TypeProxy(bytes, _mk_bytes, {'fromhex': _fromhex}),
             bytearray=TypeProxy(bytearray, _mk_bytearray, {'fromhex': lambda s: SymByteArray(_fromhex(s))}),
             int=TypeProxy(int, _mk_int, {'from_bytes': _int_from_bytes, 'to_bytes': _int_to_bytes}),
             str=TypeProxy(str, _mk_str),
             chr=sx_chr, ord=sx_ord, hex=_based('0x', hex), bin=_based('0b', bin), oct=_based('0o', oct),
             range=TypeProxy(range, sx_range), sum=sx_sum, round=sx_round, len=sx_len, memoryview=sx_memoryview)
    b['__sx_in__'] = sx_in
    b['__sx_not_in__'] = sx_not_in
    b['__sx_getitem__'] = sx_getitem
    b['__sx_type__'] = sx_type
    b['__sx_mod__'] = sx_mod
    b['__sx_call__'] = sx_call
    return b
