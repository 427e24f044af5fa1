"""Every path starts from the state the code under test has after it was imported. What the code keeps in its modules
(variables, classes, default arguments, shared objects) is recorded when a module was loaded and put back before each
path, so that what one path leaves behind is never seen by another one; within a path, of course, it is."""
import collections
import types

_CONTAINERS = (dict, list, set, bytearray, collections.defaultdict, collections.OrderedDict, collections.deque)
_ATOMS = (int, str, bytes, float, bool, type(None), frozenset, complex, types.BuiltinFunctionType, types.ModuleType)


class State(object):
    def __init__(self):
        self.done = {}          # id -> (object, snapshot, kind): the object is kept, ids stay unique
        self.modules = []

    def _inside(self, name):
        return isinstance(name, str) and (name.startswith('infi.asi') or name.startswith('infi.instruct'))

    def add(self, module):
        self.modules.append((module, dict(module.__dict__)))
        work = list(module.__dict__.values())
        while work:
            self._visit(work.pop(), work)

    def _visit(self, o, work):
        t = type(o)
        if t in _ATOMS or id(o) in self.done:
            return
        if t is tuple:
            self.done[id(o)] = (o, None, None)
            work.extend(o)
        elif t in _CONTAINERS or isinstance(o, _CONTAINERS) and self._inside(t.__module__):
            snap = [k for k in (dict, list, set, bytearray, collections.deque) if isinstance(o, k)][0](o)
            self.done[id(o)] = (o, snap, 'c')
            if isinstance(o, dict):
                work.extend(o.values())
            elif not isinstance(o, bytearray):
                work.extend(o)
        elif t is types.FunctionType:
            if not self._inside(o.__module__):
                return
            self.done[id(o)] = (o, (o.__defaults__, o.__kwdefaults__ and dict(o.__kwdefaults__), dict(o.__dict__)), 'f')
            work.extend(o.__defaults__ or ())
            work.extend((o.__kwdefaults__ or {}).values())
            work.extend(o.__dict__.values())
            for c in o.__closure__ or ():
                try:
                    work.append(c.cell_contents)
                except ValueError:
                    continue
                self.done[id(c)] = (c, c.cell_contents, 'cell')
        elif isinstance(o, (staticmethod, classmethod)):
            work.append(o.__func__)
        elif isinstance(o, property):
            work.extend(x for x in (o.fget, o.fset, o.fdel) if x)
        elif isinstance(o, types.MethodType):
            work.extend((o.__func__, o.__self__))
        elif isinstance(o, type):
            if not (isinstance(o.__module__, str) and o.__module__.startswith('infi.asi')):
                return
            d = {k: v for k, v in o.__dict__.items() if k not in ('__dict__', '__weakref__', '__doc__', '__module__')}
            self.done[id(o)] = (o, d, 't')
            work.extend(d.values())
        elif self._inside(type(o).__module__):
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict):
                self.done[id(o)] = (o, dict(d), 'i')
                work.extend(d.values())

    def restore(self):
        for module, snap in self.modules:
            d = module.__dict__
            for k, v in snap.items():
                if d.get(k, self) is not v and not isinstance(v, types.ModuleType):
                    d[k] = v
            if len(d) != len(snap):
                for k in [k for k in d if k not in snap]:
                    # a module that was imported since is an attribute of its package
                    if not isinstance(d[k], types.ModuleType) and not k.startswith('__'):
                        del d[k]
        for o, snap, kind in self.done.values():
            if kind == 'c':
                if isinstance(o, dict):
                    if len(o) != len(snap) or any(o.get(k, self) is not v for k, v in snap.items()):
                        o.clear()
                        o.update(snap)
                elif isinstance(o, (list, collections.deque)):
                    if len(o) != len(snap) or any(a is not b for a, b in zip(o, snap)):
                        o.clear()
                        o.extend(snap)
                elif isinstance(o, set):
                    if o != snap:
                        o.clear()
                        o.update(snap)
                elif o != snap:
                    o[:] = snap
            elif kind == 'i':
                d = o.__dict__
                if len(d) != len(snap) or any(d.get(k, self) is not v for k, v in snap.items()):
                    d.clear()
                    d.update(snap)
            elif kind == 't':
                for k, v in snap.items():
                    if o.__dict__.get(k, self) is not v:
                        type.__setattr__(o, k, v)
                for k in [k for k in o.__dict__ if k not in snap and not k.startswith('__')]:
                    type.__delattr__(o, k)
            elif kind == 'f':
                if o.__defaults__ is not snap[0]:
                    o.__defaults__ = snap[0]
                if o.__dict__ and o.__dict__ != snap[2]:
                    o.__dict__.clear()
                    o.__dict__.update(snap[2])
            elif kind == 'cell':
                if o.cell_contents is not snap:
                    o.cell_contents = snap


STATE = State()
