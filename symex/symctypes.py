"""A model of the part of ctypes that the command executers use: little-endian LP64 (or, for Windows, LLP64) scalars,
arrays, structures with natural or given packing, string buffers and a flat memory in which they live at distinct
addresses. Contents of memory may be symbolic; addresses and sizes are concrete."""
import ctypes as _real
import types
from . import core, seq, shims
from .core import SymInt, SymBool, EngineGap, concrete_int, is_symint
from .seq import make_bytes, elements


class ArgumentError(Exception):
    pass


class _Memory(object):
    def __init__(self):
        self.base = []          # what modules allocated while they were loaded: it is there in every path
        self.base_next = 0x7e0000010000
        self.loading = 0
        self.reset()

    def loaded(self):
        if not self.loading:
            self.base = [(a, storage, size, list(storage.v) if v is None else v) for a, storage, size, v in self.base]

    def reset(self):
        self.next = 0x7f0000010000
        self.blocks = [b[:3] for b in self.base]
        for a, storage, size, v in self.base:
            storage.v[:] = v

    def place(self, storage, size):
        step = (size + 0x1000 + 0xfff) & ~0xfff
        if self.loading:
            a = self.base_next
            self.base_next += step
            self.base.append((a, storage, size, None))
        else:
            a = self.next
            self.next += step
        self.blocks.append((a, storage, size))
        return a

    def find(self, address, size):
        for a, storage, n in self.blocks:
            if a <= address < a + max(n, 1):
                return storage, address - a, n - (address - a)
        raise EngineGap('access to address 0x%x, which is not allocated' % address)


MEM = _Memory()


def reset():
    MEM.reset()


class _Storage(object):
    """bytes, shared by every view of them"""
    __slots__ = ('v', 'address')

    def __init__(self, v):
        self.v = v
        self.address = MEM.place(self, len(v))


def _to_le(x, size):
    """little-endian bytes of an integer, wrapping as C does"""
    if is_symint(x):
        return [(x >> (8 * i)) & 0xff for i in range(size)]
    x = int(x)
    return [(x >> (8 * i)) & 0xff for i in range(size)]


def _from_le(v, signed):
    r = 0
    for i, b in enumerate(v):
        r = r | (b << (8 * i))
    if signed:
        n = 8 * len(v)
        top = 1 << (n - 1)
        r = core.sym_ite(r >= top, r - (1 << n), r) if is_symint(r) else (r - (1 << n) if r >= top else r)
    return r


class _ArrayMeta(type):
    def __mul__(cls, n):
        return ARRAY(cls, n)

    __rmul__ = __mul__


class _Data(object, metaclass=_ArrayMeta):
    """anything that has storage"""
    _size_ = 0
    _align_ = 1

    def _bind(self, storage, offset):
        object.__setattr__(self, '_storage', storage)
        object.__setattr__(self, '_offset', offset)
        return self

    @classmethod
    def _at(cls, storage, offset):
        return cls.__new__(cls)._bind(storage, offset)

    def _get(self):
        return self._storage.v[self._offset:self._offset + self._size_]

    def _put(self, v):
        self._storage.v[self._offset:self._offset + len(v)] = v

    def __bytes__(self):
        return make_bytes(self._get())

    def __len__(self):
        raise TypeError('no len')

    @classmethod
    def from_buffer(cls, source, offset=0):
        if not isinstance(source, _Data):
            if type(source) is seq.SymByteArray:
                st = _Storage(source.v)
                source = _Raw()._bind(st, 0)
                source._size_ = len(source._storage.v)
            else:
                raise TypeError('underlying buffer is not writable')
        if source._size_ - offset < cls._size_:
            raise ValueError('Buffer size too small (%d instead of at least %d bytes)' % (source._size_, cls._size_ + offset))
        obj = cls._at(source._storage, source._offset + offset)
        object.__setattr__(obj, '_objects_source', source)
        return obj

    @classmethod
    def from_buffer_copy(cls, source, offset=0):
        v = elements(source) if not isinstance(source, _Data) else source._get()
        v = list(v)[offset:offset + cls._size_]
        if len(v) < cls._size_:
            raise ValueError('Buffer size too small')
        return cls._at(_Storage(v), 0)

    @classmethod
    def from_address(cls, address):
        st, off, n = MEM.find(address, cls._size_)
        return cls._at(st, off)


class _Raw(_Data):
    pass


class _Simple(_Data):
    _signed_ = False

    def __init__(self, value=0):
        self._bind(_Storage([0] * self._size_), 0)
        self.value = value

    @property
    def value(self):
        return self._decode(self._get())

    @value.setter
    def value(self, x):
        self._put(self._encode(x))

    @classmethod
    def _decode(cls, v):
        return _from_le(v, cls._signed_)

    @classmethod
    def _encode(cls, x):
        if isinstance(x, _Simple):
            x = x.value
        if not is_symint(x):
            if isinstance(x, float) or not hasattr(type(x), '__index__'):
                raise TypeError('an integer is required (got type %s)' % type(x).__name__)
            x = x.__index__()
        return _to_le(x, cls._size_)

    def __bool__(self):
        return bool(self.value)


def _simple(name, size, signed):
    return _ArrayMeta(name, (_Simple,), {'_size_': size, '_align_': size, '_signed_': signed})


class c_void_p(_Simple):
    _size_ = _align_ = 8

    def __init__(self, value=None):
        _Simple.__init__(self, value)

    @classmethod
    def _decode(cls, v):
        r = _from_le(v, False)
        if is_symint(r):
            return r
        return r or None

    @classmethod
    def _encode(cls, x):
        if x is None:
            x = 0
        elif isinstance(x, c_void_p):
            x = x.value or 0
        elif isinstance(x, _Data):
            x = addressof(x)
        return _Simple._encode.__func__(cls, x)


class c_char(_Simple):
    _size_ = _align_ = 1

    @classmethod
    def _decode(cls, v):
        return make_bytes(v)

    @classmethod
    def _encode(cls, x):
        v = elements(x)
        if v is None:
            if isinstance(x, int):
                return [x & 0xff]
            raise TypeError('one character bytes, bytearray or integer expected')
        if len(v) != 1:
            raise TypeError('one character bytes, bytearray or integer expected')
        return list(v)


class c_bool(_Simple):
    _size_ = _align_ = 1

    @classmethod
    def _decode(cls, v):
        return v[0] != 0


def ARRAY(t, n):
    return _ArrayMeta('%s_Array_%d' % (t.__name__, n), (_Array,),
                      {'_type_': t, '_length_': n, '_size_': t._size_ * n, '_align_': t._align_})


class _Array(_Data):
    def __init__(self, *values):
        self._bind(_Storage([0] * self._size_), 0)
        for i, x in enumerate(values):
            self[i] = x

    def __len__(self):
        return self._length_

    def _pos(self, i):
        i = concrete_int(i, 'array index')
        if i < 0:
            i += self._length_
        if not 0 <= i < self._length_:
            raise IndexError('invalid index')
        return self._offset + i * self._type_._size_

    def __getitem__(self, i):
        if isinstance(i, slice):
            items = [self[j] for j in range(*i.indices(self._length_))]
            if self._type_ is c_char:
                return make_bytes([b.v[0] if type(b) is seq.SymBytes else b[0] for b in items])
            return items
        return _load(self._type_, self._storage, self._pos(i))

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            idx = list(range(*i.indices(self._length_)))
            xs = elements(x)
            if xs is None:
                xs = list(x)
            if len(xs) != len(idx):
                raise ValueError('Can only assign sequence of same size')
            for j, y in zip(idx, xs):
                self[j] = y
            return
        _store(self._type_, self._storage, self._pos(i), x)

    def __iter__(self):
        for i in range(self._length_):
            yield self[i]

    def _chars(self):
        if self._type_ is not c_char:
            raise AttributeError('raw')

    @property
    def raw(self):
        self._chars()
        return make_bytes(self._get())

    @raw.setter
    def raw(self, x):
        self._chars()
        v = elements(x)
        if v is None:
            raise TypeError('a bytes-like object is required')
        if len(v) > self._size_:
            raise ValueError('byte string too long')
        self._put(list(v))

    @property
    def value(self):
        self._chars()
        out = []
        for b in self._get():
            if bool(b == 0):
                break
            out.append(b)
        return make_bytes(out)

    @value.setter
    def value(self, x):
        self._chars()
        v = list(elements(x))
        if len(v) > self._size_:
            raise ValueError('byte string too long')
        self._put(v + ([0] if len(v) < self._size_ else []))


def _load(t, storage, offset):
    if issubclass(t, _Simple):
        return t._decode(storage.v[offset:offset + t._size_])
    return t._at(storage, offset)


def _store(t, storage, offset, x):
    if issubclass(t, _Simple):
        v = t._encode(x)
    elif isinstance(x, t):
        v = x._get()
    elif issubclass(t, _Array):
        arr = t._at(storage, offset)
        if t._type_ is c_char:
            arr.value = x
        else:
            for i, y in enumerate(x):
                arr[i] = y
        return
    else:
        raise TypeError('expected %s instance, got %s' % (t.__name__, type(x).__name__))
    storage.v[offset:offset + t._size_] = v


class _Field(object):
    def __init__(self, name, t, offset):
        self.name = name
        self.type = t
        self.offset = offset
        self.size = t._size_

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return _load(self.type, obj._storage, obj._offset + self.offset)

    def __set__(self, obj, x):
        _store(self.type, obj._storage, obj._offset + self.offset, x)


class _StructMeta(_ArrayMeta):
    def __init__(cls, name, bases, ns):
        super(_StructMeta, cls).__init__(name, bases, ns)
        if '_fields_' in ns:
            cls._layout()

    def __setattr__(cls, k, v):
        type.__setattr__(cls, k, v)
        if k == '_fields_':
            cls._layout()

    def _layout(cls):
        pack = cls.__dict__.get('_pack_', 0)
        base = [b for b in cls.__mro__[1:] if '_fields_' in b.__dict__]
        off = base[0]._size_ if base else 0
        align = base[0]._align_ if base else 1
        big = issubclass(cls, BigEndianStructure)
        for f in cls._fields_:
            if len(f) > 2:
                raise EngineGap('bit fields in a ctypes structure')
            if big:
                raise EngineGap('big-endian ctypes structure')
            n, t = f
            a = min(t._align_, pack) if pack else t._align_
            off = (off + a - 1) // a * a
            type.__setattr__(cls, n, _Field(n, t, off))
            off += t._size_
            align = max(align, a)
        type.__setattr__(cls, '_size_', (off + align - 1) // align * align)
        type.__setattr__(cls, '_align_', align)


class Structure(_Data, metaclass=_StructMeta):
    def __init__(self, *args, **kw):
        self._bind(_Storage([0] * self._size_), 0)
        names = [f[0] for f in self._fields_]
        if len(args) > len(names):
            raise TypeError('too many initializers')
        for n, x in zip(names, args):
            setattr(self, n, x)
        for n, x in kw.items():
            setattr(self, n, x)


class BigEndianStructure(Structure):
    pass


class Union(Structure):
    def __init__(self, *a, **k):
        raise EngineGap('ctypes.Union')


class _Ref(object):
    def __init__(self, obj, offset=0):
        self._obj = obj
        self._off = offset


def create_string_buffer(init, size=None):
    if size is not None:
        size = concrete_int(size, 'buffer size')
    v = elements(init)
    if v is not None:
        if size is None:
            size = len(v) + 1
        if len(v) > size:
            raise ValueError('byte string too long')
        v = list(v) + [0] * (size - len(v))
    elif is_symint(init) or isinstance(init, int):
        n = concrete_int(init, 'buffer size')
        if n < 0:
            raise ValueError('Array length must be >= 0, not %d' % n)
        v = [0] * n
    else:
        raise TypeError(init)
    return ARRAY(c_char, len(v))._at(_Storage(v), 0)


c_buffer = create_string_buffer


def sizeof(x):
    return x._size_


def alignment(x):
    return x._align_


def addressof(x):
    if not isinstance(x, _Data):
        raise TypeError('invalid type')
    return x._storage.address + x._offset


def byref(x, offset=0):
    if not isinstance(x, _Data):
        raise TypeError('byref() argument must be a ctypes instance, not %s' % type(x).__name__)
    return _Ref(x, offset)


class _Pointer(object):
    def __init__(self, obj):
        self.contents = obj


def pointer(x):
    return _Pointer(x)


def POINTER(t):
    return type('LP_' + t.__name__, (_Pointer,), {'_type_': t})


def _address(p):
    if p is None:
        return 0
    if isinstance(p, c_void_p):
        return _address(p.value)
    if isinstance(p, _Simple):
        return p.value
    if isinstance(p, _Data):
        return addressof(p)
    if isinstance(p, _Ref):
        return addressof(p._obj) + p._off
    if isinstance(p, _Pointer):
        return addressof(p.contents)
    if is_symint(p):
        return concrete_int(p, 'pointer')
    if isinstance(p, int):
        return p
    raise ArgumentError('wrong pointer type %s' % type(p).__name__)


def cast(x, t):
    if issubclass(t, c_void_p):
        r = t(_address(x) or None)
        r._objects = x
        return r
    raise EngineGap('ctypes.cast to %s' % t.__name__)


def _span(p, n):
    n = concrete_int(n, 'memory size')
    a = _address(p)
    if n == 0:
        return None, 0, 0
    st, off, room = MEM.find(a, n)
    if n > room:
        raise EngineGap('access of %d bytes at 0x%x, where %d are allocated' % (n, a, room))
    return st, off, n


def memset(dst, c, n):
    st, off, n = _span(dst, n)
    if n:
        st.v[off:off + n] = [c & 0xff] * n
    return _address(dst)


def memmove(dst, src, n):
    v = elements(src)
    if v is None:
        st, off, m = _span(src, n)
        v = st.v[off:off + m] if m else []
    st, off, n = _span(dst, n)
    if n:
        st.v[off:off + n] = list(v)[:n]
    return _address(dst)


def string_at(p, size=-1):
    v = elements(p)
    if v is not None:
        return make_bytes(list(v)[:size] if size >= 0 else v)
    size = concrete_int(size, 'memory size')
    if size < 0:
        st, off, room = MEM.find(_address(p), 1)
        return ARRAY(c_char, room)._at(st, off).value
    st, off, n = _span(p, size)
    return make_bytes(st.v[off:off + n] if n else [])


class _Routed(object):
    """a function of a foreign library: the environment of the harness answers"""

    def __init__(self, lib, name):
        self.lib = lib
        self.name = name
        self.restype = None
        self.argtypes = None
        self.errcheck = None

    def __call__(self, *args):
        import harness.env as env
        return env.foreign_call(self, args)


class _Library(object):
    def __init__(self, name, **kw):
        self._name = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = _Routed(self._name, n)
        setattr(self, n, f)
        return f

    def __getitem__(self, n):
        return getattr(self, n)


def CDLL(name=None, *a, **k):
    import harness.env as env
    if not env.library_present(name):
        raise OSError('cannot open shared object file')
    return _Library(name)


def _build(long_size, windows):
    m = types.ModuleType('ctypes')
    m.__dict__.update(dict(
        c_int=_simple('c_int', 4, True), c_uint=_simple('c_uint', 4, False),
        c_short=_simple('c_short', 2, True), c_ushort=_simple('c_ushort', 2, False),
        c_byte=_simple('c_byte', 1, True), c_ubyte=_simple('c_ubyte', 1, False),
        c_long=_simple('c_long', long_size, True), c_ulong=_simple('c_ulong', long_size, False),
        c_longlong=_simple('c_longlong', 8, True), c_ulonglong=_simple('c_ulonglong', 8, False),
        c_size_t=_simple('c_size_t', 8, False), c_ssize_t=_simple('c_ssize_t', 8, True),
        c_int8=_simple('c_byte', 1, True), c_uint8=_simple('c_ubyte', 1, False),
        c_int16=_simple('c_short', 2, True), c_uint16=_simple('c_ushort', 2, False),
        c_int32=_simple('c_int', 4, True), c_uint32=_simple('c_uint', 4, False),
        c_int64=_simple('c_longlong', 8, True), c_uint64=_simple('c_ulonglong', 8, False),
        c_char=c_char, c_void_p=c_void_p, c_bool=c_bool, Structure=Structure, LittleEndianStructure=Structure,
        BigEndianStructure=BigEndianStructure, Union=Union, Array=_Array, ARRAY=ARRAY,
        create_string_buffer=create_string_buffer, c_buffer=c_buffer, sizeof=sizeof, alignment=alignment,
        addressof=addressof, byref=byref, cast=cast, pointer=pointer, POINTER=POINTER, memset=memset, memmove=memmove,
        string_at=string_at, CDLL=CDLL, ArgumentError=ArgumentError, get_errno=lambda: _errno(),
        set_errno=lambda n: 0))
    if windows:
        m.windll = types.SimpleNamespace(kernel32=_Library('kernel32'))
        m.WinDLL = CDLL
    m.__all__ = [k for k in m.__dict__ if not k.startswith('_')]
    return m


def _errno():
    import harness.env as env
    return env.errno_of_last_call()


def modules():
    return {'ctypes': _build(8, False), 'ctypes@windows': _build(4, True)}
