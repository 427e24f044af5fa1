"""The operating system as the code under test sees it: fcntl, select, time and a few functions of os are replaced
by stand-ins that ask the harness's current environment object; nothing real is opened, written or slept on."""
import types

CURRENT = [None]


class Environment(object):
    """Base class of the environments harnesses supply. Everything that is not overridden is refused."""

    def ioctl(self, fd, request, arg=0, mutate_flag=True):
        raise OSError(25, 'no ioctl here')

    def select(self, r, w, x, timeout=None):
        raise OSError(9, 'no select here')

    def os_open(self, path, flags, mode=0o777):
        raise OSError(2, 'no files here')

    def os_close(self, fd):
        raise OSError(9, 'no files here')

    def os_read(self, fd, n):
        raise OSError(9, 'no files here')

    def os_write(self, fd, data):
        raise OSError(9, 'no files here')

    def time(self):
        return 0

    def sleep(self, n):
        pass

    def poll_events(self, fds, timeout):
        r, w, x = self.select(fds, [], [], timeout)
        return [(fd, 1) for fd in r]


    # shared libraries
    def has_library(self, name):
        return False

    def foreign(self, lib, name, args):
        """a function of a shared library: its C result"""
        raise OSError(38, 'no %s.%s here' % (lib, name))

    errno = 0

    def platform(self):
        return 'linux-ubuntu-x64'


def library_present(name):
    return CURRENT[0] is not None and CURRENT[0].has_library(name)


def errno_of_last_call():
    return CURRENT[0].errno


def foreign_call(f, args):
    r = CURRENT[0].foreign(f.lib, f.name, args)
    if f.errcheck is not None:
        return f.errcheck(r, f, args)
    return r


def use(ctx, environment):
    CURRENT[0] = environment
    ctx.env = environment
    return environment


class _Poll(object):
    def __init__(self):
        self.fds = []

    def register(self, fd, mask=0):
        self.fds.append(fd)

    def unregister(self, fd):
        self.fds.remove(fd)

    def poll(self, timeout=None):
        return CURRENT[0].poll_events(list(self.fds), None if timeout is None else timeout)


def _copy(mod, **over):
    m = types.ModuleType(mod.__name__)
    for k in dir(mod):
        if k not in ('__class__', '__dict__'):
            try:
                setattr(m, k, getattr(mod, k))
            except Exception:
                pass
    for k, v in over.items():
        setattr(m, k, v)
    return m


def _route(name, real):
    def f(*a, **k):
        cur = CURRENT[0]
        if cur is None:
            return real(*a, **k)
        return getattr(cur, name)(*a, **k)
    return f


def stand_ins():
    import fcntl
    import select
    import time
    import os
    return {
        'fcntl': _copy(fcntl, ioctl=_route('ioctl', fcntl.ioctl)),
        'select': _copy(select, select=_route('select', select.select), poll=lambda: _Poll()),
        'time': _copy(time, time=_route('time', time.time), sleep=_route('sleep', time.sleep),
                      monotonic=_route('time', time.time)),
        'os': _copy(os, open=_route('os_open', os.open), close=_route('os_close', os.close),
                    read=_route('os_read', os.read), write=_route('os_write', os.write)),
        'infi.os_info': _os_info(),
    }


def _os_info():
    m = types.ModuleType('infi.os_info')
    m.get_platform_string = lambda *a, **k: CURRENT[0].platform() if CURRENT[0] is not None else 'linux-ubuntu-x64'
    return m


class _Function(object):
    """stands for a function of a foreign library, for runs of the real code"""

    def __init__(self, lib, name):
        self.lib = lib
        self.name = name
        self.restype = self.argtypes = self.errcheck = None

    def __call__(self, *args):
        return foreign_call(self, args)


class _Lib(object):
    def __init__(self, name):
        self._name = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = _Function(self._name, n)
        setattr(self, n, f)
        return f


def _cdll(real):
    def CDLL(name=None, *a, **k):
        if CURRENT[0] is None:
            return real(name, *a, **k)
        if not library_present(name):
            raise OSError('cannot open shared object file')
        return _Lib(name)
    return CDLL


SYMBOLIC = [True]


def import_win32():
    """infi.asi.win32, whatever this machine runs"""
    import sys
    import importlib
    if SYMBOLIC[0]:
        return importlib.import_module('infi.asi.win32')
    if 'infi.asi.win32' in sys.modules:
        return sys.modules['infi.asi.win32']
    import ctypes
    win = _copy(ctypes, c_ulong=ctypes.c_uint, c_long=ctypes.c_int,
                windll=types.SimpleNamespace(kernel32=_Lib('kernel32')))
    if hasattr(win, '__all__'):
        del win.__all__
    sys.modules['ctypes'] = win
    try:
        return importlib.import_module('infi.asi.win32')
    finally:
        sys.modules['ctypes'] = ctypes


def install_concrete():
    SYMBOLIC[0] = False
    import sys
    import json, logging, traceback, ctypes, importlib, re, functools, subprocess   # noqa: bind the real ones first
    import infi.instruct, infi.instruct.buffer, infi.exceptools, infi.pyutils.decorators, infi.pyutils.contexts  # noqa
    import infi.pyutils.lazy  # noqa
    for name, mod in stand_ins().items():
        sys.modules[name] = mod
    ctypes.CDLL = _cdll(ctypes.CDLL)
    ctypes.get_errno = _errno(ctypes.get_errno)


def _errno(real):
    return lambda: errno_of_last_call() if CURRENT[0] is not None else real()
