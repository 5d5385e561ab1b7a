"""The interface harnesses are written against, in a symbolic and a concrete version."""
import copy
import importlib
import math
import os
import random
import shutil
import sys
import tempfile
from fractions import Fraction
import numpy as np
import z3
from . import core, sym, arr, npshim, text
from .core import PathEnd, Unsupported
from .sym import Sym, mk, lift

SRC = os.environ.get('SX_SRC', '/repo/src')


class Ambiguous(BaseException):
    """A concrete comparison too close to call (only in unprotected-by-solver runs)."""


class Fail(BaseException):
    """A property assertion failed in a concrete run."""

    def __init__(self, label, detail):
        BaseException.__init__(self, label)
        self.label = label
        self.detail = detail


def shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    return None


def is_num(x):
    return isinstance(x, (Sym, Num, int, float, Fraction, np.number, np.bool_)) or \
        (isinstance(x, np.ndarray) and x.ndim == 0)


class Base(object):
    sym = False

    def __init__(self, cfg):
        self.cfg = cfg
        self._undo = []
        self._tmp = []
        self.reach = {}

    # --- effects
    def patch(self, obj, name, value):
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else getattr(obj, name, missing)
        self._undo.append((obj, name, old, missing))
        setattr(obj, name, value)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='sxtmp')
        self._tmp.append(d)
        return d

    def close(self):
        for obj, name, old, missing in reversed(self._undo):
            if old is missing:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self._undo = []
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)
        self._tmp = []

    # --- calling the code under test
    def call(self, f, *a, **k):
        """(value, None) or (None, exception)."""
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    # --- inputs
    def choice(self, name, options):
        return options[self.index(name, len(options))]

    def flag(self, name):
        return self.index(name, 2) == 1

    def ints(self, name, shape, lo, hi, dtype='int64'):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        return self._arr([self.int('%s_%s' % (name, '_'.join(map(str, i))), lo, hi) for i in np.ndindex(*shape)],
                         dtype, shape)

    def reals(self, name, shape, lo, hi, dtype='float64'):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        return self._arr([self.real('%s_%s' % (name, '_'.join(map(str, i))), lo, hi) for i in np.ndindex(*shape)],
                         dtype, shape)

    # --- values
    def vals(self, x):
        """Nested lists of oracle numbers."""
        if isinstance(x, (list, tuple)):
            return [self.vals(y) for y in x]
        if isinstance(x, np.ndarray) and x.ndim:
            return [self.vals(y) for y in list(x)]
        return self.v(x)

    def flat(self, x):
        r = self.vals(x)
        out = []

        def rec(y):
            if isinstance(y, list):
                for z in y:
                    rec(z)
            else:
                out.append(y)
        rec(r)
        return out

    def sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def mean(self, xs):
        xs = list(xs)
        return self.div(self.sum(xs), len(xs))

    def var(self, xs, ddof=0):
        xs = list(xs)
        m = self.mean(xs)
        return self.div(self.sum([(x - m) * (x - m) for x in xs]), len(xs) - ddof)

    # --- structured comparison
    def eq(self, label, actual, expected, rel=1e-6, abs=1e-7):
        """actual == expected: same structure; numbers equal (within rounding when concrete)."""
        self._eq(label, actual, expected, rel, abs)

    def _eq(self, label, a, e, rel, tol):
        if isinstance(e, dict):
            self.check(label + ':dict', isinstance(a, dict))
            ka, ke = sorted(map(str, a.keys())), sorted(map(str, e.keys()))
            self.check(label + ':keys', ka == ke, '%r / %r' % (ka, ke))
            for k in e:
                self._eq('%s[%s]' % (label, k), a[k], e[k], rel, tol)
            return
        if isinstance(e, np.ndarray) and e.ndim:
            e2 = list(e)
            sh = e.shape
        elif isinstance(e, (list, tuple)):
            e2 = list(e)
            sh = None
        else:
            e2 = None
        if e2 is not None:
            if isinstance(a, np.ndarray):
                self.check(label + ':ndim', a.ndim >= 1, 'array expected')
                n = a.shape[0]
                items = list(a)
            else:
                self.check(label + ':seq', isinstance(a, (list, tuple)), 'sequence expected, got %r' % type(a))
                n = len(a)
                items = list(a)
            self.check(label + ':len', n == len(e2), 'length %s, expected %s' % (n, len(e2)))
            for i, (x, y) in enumerate(zip(items, e2)):
                self._eq('%s[%d]' % (label, i), x, y, rel, tol)
            return
        if e is None or isinstance(e, (str, bytes)):
            self.check(label, (a is None) if e is None else (not is_num(a) and a == e), 'got %r, expected %r' % (a, e))
            return
        self.num_eq(label, a, e, rel, tol)


# ================================================================= concrete numbers
PROTECT = [True]


class Num(object):
    """Exact oracle number in concrete runs; near ties raise Ambiguous when protected."""
    __slots__ = ('v', 'ex')

    def __init__(self, v, ex=False):
        self.v = v if isinstance(v, (int, Fraction)) else Fraction(v)
        self.ex = ex        # exact in the code under test as well

    @staticmethod
    def of(x):
        if isinstance(x, Num):
            return x
        if isinstance(x, (bool, np.bool_)):
            return Num(int(x), True)
        if isinstance(x, (int, np.integer)):
            return Num(int(x), True)
        if isinstance(x, Fraction):
            return Num(x, False)
        if isinstance(x, (float, np.floating)):
            f = float(x)
            if not math.isfinite(f):
                return f
            return Num(Fraction(core.snap(f)), False)
        return None

    def _b(self, o, f):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return f(float(self.v), o)
        r = f(Fraction(self.v), Fraction(o.v))
        return Num(r, self.ex and o.ex and r.denominator == 1)

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: b / a)

    def __floordiv__(self, o):
        return self._b(o, lambda a, b: Fraction(a // b))

    def __mod__(self, o):
        return self._b(o, lambda a, b: Fraction(a % b))

    def __pow__(self, n):
        if isinstance(n, int):
            return Num(Fraction(self.v) ** n, self.ex and n >= 0)
        return Num(Fraction(float(self.v) ** float(n)))

    def __neg__(self):
        return Num(-self.v, self.ex)

    def __abs__(self):
        return Num(abs(self.v), self.ex)

    def __float__(self):
        return float(self.v)

    def __int__(self):
        return int(self.v)

    def __hash__(self):
        return hash(self.v)

    def _c(self, o, op):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            a, b = float(self.v), o
        else:
            a, b = self.v, o.v
            if PROTECT[0] and not (self.ex and o.ex):
                if abs(a - b) <= Fraction(1, 10 ** 9) * max(abs(a), abs(b)):
                    if not (a == 0 and b == 0):
                        raise Ambiguous()
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]

    def __lt__(self, o):
        return self._c(o, '<')

    def __le__(self, o):
        return self._c(o, '<=')

    def __gt__(self, o):
        return self._c(o, '>')

    def __ge__(self, o):
        return self._c(o, '>=')

    def __eq__(self, o):
        return self._c(o, '==')

    def __ne__(self, o):
        return self._c(o, '!=')

    def __bool__(self):
        return self.v != 0

    def __repr__(self):
        return 'Num(%s)' % float(self.v)


def _flt(x):
    if isinstance(x, Num):
        return float(x.v)
    if isinstance(x, np.ndarray):
        x = x[()]
    return float(x)


class ConCtx(Base):
    """Runs the harness on the real package with concrete inputs."""

    def __init__(self, cfg, values, rng=None, protect=True):
        Base.__init__(self, cfg)
        self.values = values
        self.rng = rng
        self.used = {}
        self.np = np
        self.nchecks = 0
        PROTECT[0] = protect

    def mod(self, name):
        if SRC not in sys.path:
            sys.path.insert(0, SRC)
        return importlib.import_module('emva1288.' + name)

    def fresh(self):
        from . import explore
        explore.REAL.fresh()

    def _get(self, name, gen):
        if name in self.values:
            v = self.values[name]
        elif self.rng is not None:
            v = gen()
            self.values[name] = v
        else:
            v = gen(True)
        self.used[name] = v
        return v

    def int(self, name, lo, hi, dt=int):
        def gen(default=False):
            if default:
                return lo
            return self.rng.randint(lo, min(hi, lo + 10 ** 12))
        v = int(self._get(name, gen))
        if not lo <= v <= hi:
            raise PathEnd('range')
        return v if dt is int else np.dtype(dt).type(v)

    def real(self, name, lo, hi, dt=float):
        def gen(default=False):
            if default:
                return Fraction(lo)
            return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(self.rng.randint(1, 999), 1000)
        v = float(self._get(name, gen))
        return v if dt is float else np.dtype(dt).type(v)

    def index(self, name, n):
        return int(self._get(name, lambda default=False: 0 if default else self.rng.randrange(n)))

    def _arr(self, els, dtype, shape):
        return np.array(els, dtype=dtype).reshape(shape)

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def v(self, x):
        if isinstance(x, np.ndarray):
            x = x[()]
        r = Num.of(x)
        if r is None:
            raise Fail('value', 'not a number: %r' % (x,))
        return r

    def text(self, x, comma=False):
        t = repr(float(x)) if isinstance(x, (float, np.floating)) else str(int(x))
        return t.replace('.', ',') if comma else t

    def number(self, t):
        """The number written in a text, None when it is not one."""
        try:
            return Num(Fraction(t.strip()))
        except ValueError:
            return None

    def const(self, x):
        return Num.of(x) if not isinstance(x, str) else Num(Fraction(x))

    def hook_random(self, funcs):
        for k, f in funcs.items():
            self.patch(np.random, k, f)

    def stub(self, name, impl, real=False):
        if real:
            mod, leaf = name.rsplit('.', 1)
            self.patch(importlib.import_module(mod), leaf, impl)

    # --- oracle helpers
    def div(self, a, b):
        return Num.of(a) / Num.of(b)

    def sqrt(self, x):
        x = Num.of(x)
        r = core.sqrt_rat(x.v) if x.v >= 0 else None
        return Num(r if r is not None else Fraction(math.sqrt(x.v)) if x.v >= 0 else 0)

    def log10(self, x):
        return Num(Fraction(core.snap(math.log10(_flt(x)))))

    def ln(self, x):
        return Num(Fraction(core.snap(math.log(_flt(x)))))

    def exp(self, x):
        return Num(Fraction(core.snap(math.exp(_flt(x)))))

    def exp2(self, x):
        return Num(Fraction(core.snap(2.0 ** (_flt(x)))))

    def ite(self, c, a, b):
        return a if c else b

    def max(self, xs):
        xs = [Num.of(x) for x in xs]
        r = xs[0]
        for x in xs:
            if x.v > r.v:
                r = x
        return r

    def min(self, xs):
        xs = [Num.of(x) for x in xs]
        r = xs[0]
        for x in xs:
            if x.v < r.v:
                r = x
        return r

    def floor(self, x):
        x = Num.of(x)
        if PROTECT[0] and not x.ex and abs(x.v - round(x.v)) < Fraction(1, 10 ** 9) * max(1, abs(x.v)):
            raise Ambiguous()
        return Num(math.floor(x.v), True)

    def all(self, cs):
        return all(bool(c) for c in cs)

    def any(self, cs):
        return any(bool(c) for c in cs)

    def no(self, c):
        return not c

    def truth(self, c):
        return bool(c)

    def isnan(self, x):
        if isinstance(x, Num):
            return False
        return math.isnan(float(x))

    # --- assertions
    def assume(self, c):
        if not c:
            raise PathEnd('assume')

    def check(self, label, c, detail=''):
        self.nchecks += 1
        if not c:
            raise Fail(label, detail or 'condition is false')

    def fail(self, label, detail=''):
        raise Fail(label, detail)

    def num_eq(self, label, a, e, rel, tol):
        self.nchecks += 1
        try:
            x = Num.of(a if not isinstance(a, np.ndarray) else a[()])
            if x is None:
                if isinstance(a, (str, bytes)):
                    raise TypeError('text')
                x = float(a)
        except (TypeError, ValueError):
            raise Fail(label, 'got %r, expected number %r' % (a, e))
        if isinstance(a, np.ma.core.MaskedConstant):
            raise Fail(label, 'got masked, expected %r' % (e,))
        y = Num.of(e)
        if isinstance(x, float) or isinstance(y, float):
            fx, fy = _flt(x), _flt(y)
            if not (fx == fy or (math.isnan(fx) and math.isnan(fy))):
                raise Fail(label, 'got %r, expected %r' % (fx, fy))
            return
        d = abs(x.v - y.v)
        if x.ex and y.ex:
            ok = d == 0
        else:
            ok = d <= rel * max(abs(x.v), abs(y.v)) + tol
        if not ok:
            raise Fail(label, 'got %r, expected %r' % (_flt(x), _flt(y)))


# ================================================================= symbolic
class SymCtx(Base):
    sym = True

    def __init__(self, cfg, path, pkg, runner):
        Base.__init__(self, cfg)
        self.path = path
        self.pkg = pkg
        self.runner = runner
        self.np = npshim.NP
        self.inputs = {}
        self.nchecks = 0

    def mod(self, name):
        return self.pkg.load('emva1288.' + name)

    def fresh(self):
        """modules keep nothing of the calls so far"""
        self.pkg.keeper.fresh()

    def int(self, name, lo, hi, dt=int):
        n = core.SP.var(name, True, lo, hi)
        self.inputs[name] = n
        return mk(n, dt if dt is int else np.dtype(dt))

    def real(self, name, lo, hi, dt=float):
        lo, hi = (core.norm_num(Fraction(str(b)) if isinstance(b, float) else Fraction(b)) for b in (lo, hi))
        n = core.SP.var(name, False, lo, hi)
        self.inputs[name] = n
        return mk(n, dt if dt is float else np.dtype(dt))

    def index(self, name, n):
        v = core.SP.var(name, True, 0, n - 1)
        self.inputs[name] = v
        return self.path.concretize(v)

    def _arr(self, els, dtype, shape):
        dt = np.dtype(dtype)
        return arr.mkarr([mk(sym.lift(x).e, dt) for x in els], dt, shape)

    def array(self, x, dtype=None):
        return npshim.array(x, dtype=dtype)

    def v(self, x):
        if isinstance(x, np.ma.core.MaskedConstant):
            self.fail('value', 'masked value')
        if not sym.can_lift(x):
            self.fail('value', 'not a number: %r' % (x,))
        s = lift(x)
        if isinstance(s, sym.CSym):
            self.fail('value', 'complex value')
        e = sym.num(s.e)
        k = sym.kind(s.dt)
        if sym.nonfinite(e):
            return e
        return mk(e, int if k in 'iub' else float)

    def text(self, x, comma=False):
        x = lift(x)
        t = str(mk(x.e, float) if sym.kind(x.dt) == 'f' else x)
        return t.replace('XS', ',XS').replace('.', ',') if comma else t

    def number(self, t):
        try:
            return mk(lift(text.to_float(t)).e, float)
        except ValueError:
            return None

    def const(self, x):
        return mk(core.norm_num(Fraction(str(x))), float)

    def hook_random(self, funcs):
        old = dict(npshim.Hook.funcs)
        self.patch(npshim.Hook, 'funcs', dict(old, **funcs))

    def stub(self, name, impl, real=False):
        """Model of a function of an imaging or plotting library (concrete runs use the library)."""
        self.patch(self.pkg.stub(name), '_impl', impl)

    def div(self, a, b):
        return mk(sym.num(lift(a).e), float) / b

    def sqrt(self, x):
        return sym.s_sqrt(mk(lift(x).e, float))

    def log10(self, x):
        return sym.s_log(mk(lift(x).e, float), 'log10')

    def ln(self, x):
        return sym.s_log(mk(lift(x).e, float))

    def exp(self, x):
        return sym.s_exp(mk(lift(x).e, float))

    def exp2(self, x):
        return sym.s_pow(mk(2, float), mk(lift(x).e, float))

    def ite(self, c, a, b):
        c = self._c(c)
        if isinstance(c, bool):
            return a if c else b
        return sym.s_ite(c, lift(a), lift(b))

    def max(self, xs):
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = sym.s_max(lift(r), lift(x))
        return r

    def min(self, xs):
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = sym.s_min(lift(r), lift(x))
        return r

    def floor(self, x):
        return mk(core.floor(lift(x).e), int)

    def _c(self, c):
        if isinstance(c, (bool, z3.BoolRef)):
            return c
        if isinstance(c, np.bool_):
            return bool(c)
        if isinstance(c, Sym):
            return sym.truth(c)
        if isinstance(c, np.ndarray) and c.ndim == 0:
            return sym.truth(lift(c))
        return bool(c)

    def all(self, cs):
        r = True
        for c in cs:
            r = sym.zand(r, self._c(c))
        return mk(r, bool)

    def any(self, cs):
        r = False
        for c in cs:
            r = sym.zor(r, self._c(c))
        return mk(r, bool)

    def no(self, c):
        return mk(sym.znot(self._c(c)), bool)

    def truth(self, c):
        return self.path.decide(self._c(c))

    def isnan(self, x):
        if isinstance(x, float):
            return math.isnan(x)
        s = lift(x)
        return sym.nonfinite(s.e) and math.isnan(s.e)

    def assume(self, c):
        c = self._c(c)
        if c is False:
            raise PathEnd('assume')
        if c is True:
            return
        self.path.assert_(c)
        if self.path.get_model() is None and self.path.query()[0] == 'unsat':
            raise PathEnd('assume')

    def check(self, label, c, detail=''):
        self.nchecks += 1
        self.runner.obligation(self, label, self._c(c), detail)

    def fail(self, label, detail=''):
        self.nchecks += 1
        self.runner.obligation(self, label, False, detail)
        raise PathEnd('failed')

    def num_eq(self, label, a, e, rel, tol):
        self.nchecks += 1
        if isinstance(a, np.ma.core.MaskedConstant) or not sym.can_lift(a):
            self.runner.obligation(self, label, False, 'got %r, expected a number' % (a,))
            raise PathEnd('failed')
        x, y = lift(a), lift(e)
        if isinstance(x, sym.CSym):
            self.runner.obligation(self, label, False, 'complex')
            raise PathEnd('failed')
        xe, ye = sym.num(x.e), sym.num(y.e)
        if sym.nonfinite(xe) or sym.nonfinite(ye):
            ok = sym.nonfinite(xe) and sym.nonfinite(ye) and (xe == ye or (xe != xe and ye != ye))
            self.runner.obligation(self, label, ok, 'got %s, expected %s' % (
                xe if sym.nonfinite(xe) else 'finite', ye if sym.nonfinite(ye) else 'finite'))
            return
        self.runner.equal(self, label, xe, ye, rel, tol)
