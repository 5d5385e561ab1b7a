"""Load the emva1288 sources of /repo as symbolic modules (no copy, no edits on disk).

The sources are parsed on every run, their number literals and `%` operators are redirected to
the engine and they are executed with builtins and an import hook that hand them the symbolic
stand-ins of numpy, scipy and math.
"""
import ast
import builtins
import hashlib
import io
import os
import sys
import types
from fractions import Fraction
from . import core, sym, text, npshim, arr, state
from .sym import Sym, mk

ROOT = os.environ.get('SX_SRC', '/repo/src')
PKG = 'emva1288'


class Stub(object):
    """Permissive stand-in for plotting / imaging libraries."""

    def __init__(self, name='stub'):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        s = Stub(self._name + '.' + n)
        self.__dict__[n] = s
        return s

    def __call__(self, *a, **k):
        impl = self.__dict__.get('_impl')
        if impl is not None:
            return impl(*a, **k)
        return Stub(self._name + '()')

    def __mro_entries__(self, bases):
        return (object,)

    def __iter__(self):
        return iter(())


class Transform(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(ast.Call(ast.Name('__sx_f__', ast.Load()), [ast.Constant(n.value)], []), n)
        return n

    def visit_JoinedStr(self, n):
        # leave format specs alone, transform the values
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
                if v.format_spec is not None:
                    for w in v.format_spec.values:
                        if isinstance(w, ast.FormattedValue):
                            w.value = self.visit(w.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__sx_mod__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], ast.Call(
                ast.Name('__sx_mod__', ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name('Exception', ast.Load())
        elif isinstance(n.type, ast.Name) and n.type.id == 'BaseException':
            n.type = ast.copy_location(ast.Name('Exception', ast.Load()), n.type)
        return n

    def visit_MatchValue(self, n):
        return n


def _f(v):
    return mk(core.snap(v) if v == v and abs(v) != float('inf') else v, float)


def _pick(name):
    real = getattr(builtins, name)
    op = '>' if name == 'max' else '<'

    def f(*a, **k):
        if k.get('key') is None and not ('default' in k and len(a) == 1):
            xs = list(a[0]) if len(a) == 1 else list(a)
            k2 = {x: y for x, y in k.items() if x not in ('key',)}
            if xs and all(sym.can_lift(x) and not isinstance(x, sym.CSym) for x in xs) and \
                    any(isinstance(x, Sym) for x in xs) and not k2:
                r = sym.lift(xs[0])
                for x in xs[1:]:
                    x = sym.lift(x)
                    if sym.nonfinite(x.e) or sym.nonfinite(r.e):
                        if sym.decide(sym.s_cmp(x, op, r)):
                            r = x
                        continue
                    c = sym.s_cmp(x, op, r)
                    r = sym.s_ite(c, x, r)
                return r
            return real(xs, **k2)
        return real(*a, **k)
    f.__name__ = name
    return f


def _sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def _round(x, n=None):
    if hasattr(x, '_ldt') or isinstance(x, Sym):
        return x.__round__() if n is None else x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, int(n))


def _type(*a, **k):
    if len(a) == 1 and not k:
        t = npshim.rep_type(a[0])
        if t is None:
            return builtins.type(a[0])
        if t is int:
            return PINT
        if t is float:
            return PFLOAT
        if t is bool:
            return bool
        return getattr(npshim.NP, t.__name__, t)
    return builtins.type(*a, **k)


def _pow(a, b, *m):
    if m:
        return builtins.pow(a, b, *m)
    return a ** b


PINT = npshim.TypeProxy(int, lambda x=0, *a, **k: text.to_int(x, *a, **k), sym.I8)
PFLOAT = npshim.TypeProxy(float, lambda x=0: text.to_float(x), sym.F8)
PTYPE = npshim.TypeProxy(type, _type, None)


def _print(*a, **k):
    """Prints only where a harness collects the output."""
    out = k.get('file') or sys.stdout
    if isinstance(out, io.StringIO):
        print(*a, **k)


class Package(object):
    """One symbolic instance of the package."""

    def __init__(self, root=None):
        self.root = root or ROOT
        self.mods = {}
        self.hashes = {}
        self.functions = {}
        self.stubs = {}
        self.keeper = state.Keeper(self.ready)
        b = types.ModuleType('builtins')
        b.__dict__.update(builtins.__dict__)
        d = b.__dict__
        d['int'], d['float'], d['type'] = PINT, PFLOAT, PTYPE
        d['round'] = _round
        d['max'], d['min'], d['sum'] = _pick('max'), _pick('min'), _sum
        d['isinstance'], d['issubclass'] = npshim.sx_isinstance, npshim.sx_issubclass
        d['print'] = _print
        d['pow'] = _pow
        d['__import__'] = self.imp
        d['__sx_f__'] = _f
        d['__sx_mod__'] = text.modop
        self.builtins = d

    def ready(self):
        """The modules that are loaded."""
        return self.mods.values()

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self.path_of(name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rsplit('.', 1)[0]
        if not os.path.isfile(path):
            if name == PKG + '._version':
                m.version = m.__version__ = '0'
                self.mods[name] = m
                return m
            if ispkg:
                self.mods[name] = m
                return m
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        with open(path, 'rb') as f:
            src = f.read()
        self.hashes[os.path.relpath(path, self.root)] = hashlib.sha256(src).hexdigest()[:16]
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Transform().visit(tree))
        code = compile(tree, path, 'exec', dont_inherit=True)
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            setattr(self.mods[par], leaf, m)
        return m

    def stub(self, name):
        top, _, rest = name.partition('.')
        s = self.stubs.get(top)
        if s is None:
            s = self.stubs[top] = Stub(top)
        for n in rest.split('.') if rest else ():
            s = getattr(s, n)
        return s

    def find(self, name):
        """Symbolic module, shim, stub or None."""
        if name == PKG or name.startswith(PKG + '.'):
            return self.load(name)
        if name in npshim.MODULES:
            return npshim.MODULES[name]
        top = name.split('.')[0]
        if top in ('PIL', 'matplotlib', 'pylab', 'mpl_toolkits'):
            return self.stub(name)
        if top in ('numpy', 'scipy'):
            # an unmodelled sub-module: every function of it is unsupported unless constant
            real = builtins.__import__(name, fromlist=['x'])
            m = npshim.sub(name, real, {})
            npshim.MODULES[name] = m
            return m
        return None

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        m = self.find(name)
        if m is None:
            return builtins.__import__(name, globals, locals, fromlist or (), 0)
        if fromlist:
            for n in fromlist:
                if n != '*' and not hasattr(m, n):
                    try:
                        s = self.find(name + '.' + n)
                    except ModuleNotFoundError:
                        s = None
                    if s is not None:
                        setattr(m, n, s)
            return m
        if name == top:
            return m
        t = self.find(top)
        # attach the chain
        parts = name.split('.')
        cur = t
        for i in range(1, len(parts)):
            s = self.find('.'.join(parts[:i + 1]))
            try:
                setattr(cur, parts[i], s)
            except Exception:
                pass
            cur = s
        return t
