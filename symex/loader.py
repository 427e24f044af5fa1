"""Loads the real source of infi.asi (from /repo/src) and of infi.instruct (its dependency, from the project's
environment) with the hooks of shims.py: the builtins a module sees are replaced, and membership tests, subscripts,
``str % x``, ``type(x)`` and a few method calls are routed through helpers that know symbolic values. Nothing else
in the source is changed; the source is read anew on every run."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import inspect
import os
import sys
import types
from . import shims, state, symctypes

REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = None
for _p in ('/opt/venv/lib/pypy3.9/site-packages',):
    if os.path.isdir(os.path.join(_p, 'infi', 'instruct')):
        SITE = _p

INSTRUMENTED = ('infi.asi', 'infi.instruct', 'harness')
PLAIN = ('infi.exceptools', 'infi.pyutils')


class Rewriter(ast.NodeTransformer):
    def _name(self, n, node):
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)

    def _call(self, fn, args, node):
        return ast.copy_location(ast.Call(func=self._name(fn, node), args=args, keywords=[]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = '__sx_in__' if isinstance(node.ops[0], ast.In) else '__sx_not_in__'
            return self._call(fn, [node.left, node.comparators[0]], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            if isinstance(node.slice, ast.Constant):
                if not isinstance(node.slice.value, (bool, type(None), str)):
                    return node
                return node
            if any(isinstance(n, ast.Slice) for n in getattr(node.slice, 'elts', [])):
                return node
            return self._call('__sx_getitem__', [node.value, node.slice], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'type' and len(node.args) == 1 and not node.keywords \
                and not isinstance(node.args[0], ast.Starred):
            return self._call('__sx_type__', node.args, node)
        if isinstance(f, ast.Attribute) and f.attr in shims.HOOKED_METHODS \
                and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                         and f.value.func.id == 'super'):
            new = ast.Call(func=self._name('__sx_call__', node),
                           args=[f.value, ast.Constant(value=f.attr)] + node.args, keywords=node.keywords)
            return ast.copy_location(new, node)
        return node

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, roots, overrides, harness_dir):
        self.roots = roots                  # package prefix -> directory holding 'infi'
        self.overrides = overrides          # module name -> replacement seen by instrumented code
        self.harness_dir = harness_dir
        self.builtins = shims.make_builtins()
        self.builtins['__import__'] = self._import
        self.sources = {}                   # filename -> module name, instrumented

    # -- what instrumented code imports
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == 'ctypes' and 'ctypes@windows' in self.overrides and \
                    (globals or {}).get('__name__') == 'infi.asi.win32':
                return self.overrides['ctypes@windows']
            if name in self.overrides:
                return self.overrides[name]
            head = name.split('.')[0]
            if '.' in name and not fromlist and head in self.overrides:
                __import__(name)
                return self.overrides[head]
        return __import__(name, globals, locals, fromlist, level)

    def _path(self, name):
        if name == 'harness' or name.startswith('harness.'):
            base = os.path.join(os.path.dirname(self.harness_dir), *name.split('.'))
        else:
            base = None
            for prefix, root in self.roots.items():
                if name == prefix or name.startswith(prefix + '.'):
                    base = os.path.join(root, *name.split('.'))
            if base is None:
                return None, False
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            return (init if os.path.isfile(init) else None), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def find_spec(self, name, path=None, target=None):
        if name == 'infi':
            spec = importlib.machinery.ModuleSpec(name, self, is_package=True)
            return spec
        f, pkg = self._path(name)
        if f is None and not pkg:
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=pkg)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        if name == 'infi':
            module.__path__ = [os.path.join(r, 'infi') for r in self.roots.values()]
            return
        f, pkg = self._path(name)
        if f is None:
            return
        module.__file__ = f
        if pkg:
            module.__path__ = [os.path.dirname(f)]
        with open(f, 'rb') as fd:
            src = fd.read()
        tree = ast.parse(src, f)
        if any(name == p or name.startswith(p + '.') for p in INSTRUMENTED):
            tree = ast.fix_missing_locations(Rewriter().visit(tree))
            module.__dict__['__builtins__'] = self.builtins
            self.sources[f] = name
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile(tree, f, 'exec')
        if not (name == 'infi.asi' or name.startswith('infi.asi.')):
            exec(code, module.__dict__)
            return
        symctypes.MEM.loading += 1
        try:
            exec(code, module.__dict__)
        finally:
            symctypes.MEM.loading -= 1
            symctypes.MEM.loaded()
        state.STATE.add(module)


def _pkg_resources():
    m = types.ModuleType('pkg_resources')
    m.declare_namespace = lambda name: None
    return m


FINDER = None


def install(harness_dir, overrides=None):
    global FINDER
    if FINDER is not None:
        return FINDER
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if not hasattr(inspect, 'getargspec'):
        import collections
        ArgSpec = collections.namedtuple('ArgSpec', 'args varargs keywords defaults')

        def getargspec(f):
            s = inspect.getfullargspec(f)
            return ArgSpec(s.args, s.varargs, s.varkw, s.defaults)
        inspect.getargspec = getargspec
    if 'pkg_resources' not in sys.modules:
        sys.modules['pkg_resources'] = _pkg_resources()
    import io
    import six
    import binascii
    ov = {
        'struct': shims.struct_module,
        'io': shims.clone_module(io, BytesIO=shims.SymBytesIO),
        'six': shims.clone_module(six, BytesIO=shims.SymBytesIO, int2byte=_int2byte, byte2int=lambda b: b[0],
                                  indexbytes=lambda b, i: b[i], iterbytes=iter),
        'binascii': shims.clone_module(binascii, hexlify=_hexlify, b2a_hex=_hexlify),
    }
    ov.update(overrides or {})
    roots = {'infi.asi': os.path.join(REPO, 'src'), 'infi.instruct': SITE, 'infi.exceptools': SITE,
             'infi.pyutils': SITE}
    FINDER = Finder(roots, ov, harness_dir)
    sys.meta_path.insert(0, FINDER)
    return FINDER


def _int2byte(x):
    return shims.make_bytes([shims.byte_value(x)])


def _hexlify(data, *a):
    v = shims.elements(data)
    return shims.make_bytes(shims.seq.hex_digits(v)) if any(shims.is_sym(x) for x in v) else \
        __import__('binascii').hexlify(bytes(v), *a)
