"""Symbolic scalars with numpy (NEP 50) typing.

A Sym has a value `e` and a type `dt`.  `dt` is a numpy dtype, or one of the python types
int / float / bool for python numbers (weak typing).  `e` is
  * an exact number (int / Fraction) or a core.Node            for numeric types,
  * a python float nan / inf / -inf                            for non-finite floats,
  * a python bool or a z3 BoolRef                              for bool types.
Floats are modelled as exact reals; fixed width integers wrap.
"""
from fractions import Fraction
import math
import re
import numpy as np
import z3
from . import core
from .core import Node, Unsupported, isn

PATH = None        # the current path (explore.Path)


def set_path(p):
    global PATH
    PATH = p


def decide(c):
    if isinstance(c, bool):
        return c
    return PATH.decide(c)


B1 = np.dtype(bool)
I8 = np.dtype(np.int64)
F8 = np.dtype(np.float64)
C16 = np.dtype(np.complex128)


def kind(dt):
    if dt is int:
        return 'i'
    if dt is float:
        return 'f'
    if dt is bool:
        return 'b'
    return dt.kind


def isweak(dt):
    return dt is int or dt is float or dt is bool


def promote(a, b):
    if a is b:
        return a
    wa, wb = isweak(a), isweak(b)
    if wa and wb:
        return float if float in (a, b) else int if int in (a, b) else bool
    if wa:
        a, b = b, a
        wa, wb = wb, wa
    if wb:      # a numpy, b weak
        if b is bool:
            return a
        if b is int:
            return I8 if a.kind == 'b' else a
        return a if a.kind in 'fc' else F8
    if a == b:
        return a
    return np.promote_types(a, b)


def num(e):
    if isinstance(e, bool):
        return int(e)
    if isinstance(e, z3.BoolRef):
        return core.ite(e, 1, 0)
    return e


def nonfinite(e):
    return isinstance(e, float)


def isconst(e):
    return not isinstance(e, (Node, z3.AstRef))


NAN = float('nan')


def irange(dt):
    i = np.iinfo(dt)
    return int(i.min), int(i.max)


def fit_int(e, dt, wrapping=True):
    """The value of integer e stored in integer dtype dt (two's complement wrap)."""
    lo, hi = irange(dt)
    if not isn(e):
        if lo <= e <= hi:
            return e
        n = hi - lo + 1
        return (e - lo) % n + lo
    if e.lo is not None and e.hi is not None and lo <= e.lo and e.hi <= hi:
        return e
    over = core.cmp(e, '>', hi)
    under = core.cmp(e, '<', lo)
    c = zor(over, under)
    if c is False or (c is not True and not PATH.feasible(c)):
        return e
    PATH.note('wrap:%s' % dt)
    n = hi - lo + 1
    q = core.floor(core.div(core.sub(e, lo), n))
    r = core.sub(e, core.mul(n, q))
    if isn(r):
        # tighten the interval of the wrapped value
        r2 = core.SP.mk('add', (r, 0), True, lo, hi)
        return r2
    return r


_NARROW = {'float32': (24, 2 ** 24), 'float16': (11, 2 ** 11), 'float64': (53, 2 ** 53)}
EXACT64 = False    # model the rounding of integers beyond 2^53 in float64 as well (set per property)


def fit_float(e, dt):
    """Rounding noise of types narrower than float64 (float64 is modelled as exact)."""
    if not EXACT64 and (isweak(dt) or dt.itemsize >= 8 or dt.kind != 'f'):
        return e
    name = 'float64' if isweak(dt) else dt.name
    if name not in _NARROW or (isweak(dt) and dt is not float):
        return e
    if nonfinite(e):
        return e
    bits, big = _NARROW[name]
    if name == 'float64' and not (isn(e) and e.isint and not (e.lo is not None and e.hi is not None and -big <= e.lo and e.hi <= big)):
        return e
    if not isn(e):
        with np.errstate(all='ignore'):
            v = float(np.asarray(float(e), dtype=dt))
        return v if not math.isfinite(v) else core.snap(v)
    if e.isint and e.lo is not None and e.hi is not None and -big <= e.lo and e.hi <= big:
        return e
    d = core.SP.var('rnd!%d' % len(core.SP.nodes), False, -Fraction(1, 2 ** bits), Fraction(1, 2 ** bits))
    PATH.note('rounding:%s' % dt)
    return core.mul(e, core.add(1, d))


def mk(e, dt):
    s = Sym.__new__(Sym)
    s.e = e
    s.dt = dt
    return s


def lift(x):
    """A Sym (or CSym) for any scalar."""
    if isinstance(x, (Sym, CSym)):
        return x
    if isinstance(x, (bool,)):
        return mk(x, bool)
    if isinstance(x, np.bool_):
        return mk(bool(x), B1)
    if isinstance(x, int):
        return mk(x, int)
    if isinstance(x, np.integer):
        return mk(int(x), x.dtype)
    if isinstance(x, float) and not isinstance(x, np.floating):
        return mk(core.snap(x) if math.isfinite(x) else x, float)
    if isinstance(x, np.floating):
        v = float(x)
        return mk(core.snap(v) if math.isfinite(v) else v, x.dtype)
    if isinstance(x, Fraction):
        return mk(core.norm_num(x), float)
    if isinstance(x, complex) or isinstance(x, np.complexfloating):
        return CSym(lift(float(x.real)), lift(float(x.imag)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item()) if not hasattr(x, '_ldt') else lift(x.view(np.ndarray)[()])
    if x is None or isinstance(x, (str, bytes)):
        raise TypeError('unsupported operand: %r' % (x,))
    raise Unsupported('lift %r' % type(x))


def can_lift(x):
    return isinstance(x, (Sym, CSym, bool, np.bool_, int, np.integer, float, np.floating, Fraction)) \
        or (isinstance(x, np.ndarray) and x.ndim == 0)


# --------------------------------------------------------------- booleans
def zand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def zor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def znot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def truth(s):
    """bool or BoolRef: s != 0."""
    e = s.e
    if isinstance(e, (bool, z3.BoolRef)):
        return e
    if nonfinite(e):
        return True
    return core.cmp(e, '!=', 0)


# --------------------------------------------------------------- casting
def cast(s, dt):
    """numpy 'unsafe' cast / python conversion of a scalar."""
    if isinstance(s, CSym):
        if kind(dt) == 'c':
            return s
        return cast(s.re, dt)
    if s.dt is dt or (not isweak(dt) and s.dt == dt):
        return s
    k = kind(dt)
    if k == 'c':
        return CSym(s, mk(0, F8))
    if k == 'b':
        return mk(truth(s), dt)
    if k in 'iu':
        e = num(s.e)
        if nonfinite(e):
            if dt is int:
                raise (OverflowError('cannot convert float infinity to integer')
                       if not math.isnan(e) else ValueError('cannot convert float NaN to integer'))
            PATH.note('nan->int')
            return fresh('cast', dt)
        if kind(s.dt) == 'f':
            e = trunc(e)
            if dt is int:
                return mk(e, int)
            lo, hi = irange(dt)
            if isn(e):
                if not (e.lo is not None and e.hi is not None and lo <= e.lo and e.hi <= hi):
                    bad = zor(core.cmp(e, '<', lo), core.cmp(e, '>', hi))
                    if decide(bad):
                        PATH.note('float->int out of range')
                        return fresh('cast', dt)
            elif not lo <= e <= hi:
                PATH.note('float->int out of range')
                return fresh('cast', dt)
            return mk(e, dt)
        if dt is int:
            return mk(e, int)
        return mk(fit_int(e, dt), dt)
    if k == 'f':
        e = num(s.e)
        return mk(fit_float(e, dt), dt)
    if k == 'O':
        return s
    raise Unsupported('cast to %r' % (dt,))


def fresh(name, dt):
    """An arbitrary value of an integer dtype (undefined conversions)."""
    lo, hi = irange(dt)
    n = core.SP.var('%s!%d' % (name, len(core.SP.nodes)), True, lo, hi)
    return mk(n, dt)


def trunc(e):
    if not isn(e):
        return math.trunc(e)
    if e.isint:
        return e
    if e.lo is not None and e.lo >= 0:
        return core.floor(e)
    if e.hi is not None and e.hi <= 0:
        return core.neg(core.floor(core.neg(e)))
    c = core.cmp(e, '>=', 0)
    if c is True:
        return core.floor(e)
    if c is False:
        return core.neg(core.floor(core.neg(e)))
    return core.ite(c, core.floor(e), core.neg(core.floor(core.neg(e))))


def rint(e):
    """Round half to even."""
    if not isn(e):
        return round(Fraction(e))
    if e.isint:
        return e
    f = core.floor(core.add(e, Fraction(1, 2)))
    # tie (e + 1/2 integral) and f odd -> f - 1
    tie = core.cmp(core.sub(core.add(e, Fraction(1, 2)), f), '==', 0)
    if tie is False:
        return f
    half = core.floor(core.div(f, 2))
    odd = core.cmp(core.sub(f, core.mul(2, half)), '==', 1)
    c = zand(tie, odd)
    return core.ite(c, core.sub(f, 1), f)


# --------------------------------------------------------------- arithmetic
def _wrapres(e, dt):
    k = kind(dt)
    if k in 'iu' and not isweak(dt):
        return mk(fit_int(e, dt), dt)
    if k == 'f':
        return mk(fit_float(e, dt), dt)
    return mk(e, dt)


def _weakcheck(a, b):
    # NEP 50: an out-of-range python integer with a numpy integer type raises
    for x, y in ((a, b), (b, a)):
        if x.dt is int and not isweak(y.dt) and y.dt.kind in 'iu' and not isn(x.e):
            lo, hi = irange(y.dt)
            if not lo <= x.e <= hi:
                raise OverflowError('Python integer %d out of bounds for %s' % (x.e, y.dt))


def _pair(a, b):
    a, b = lift(a), lift(b)
    return a, b


def s_add(a, b, sign=1):
    a, b = _pair(a, b)
    if isinstance(a, CSym) or isinstance(b, CSym):
        a, b = tocx(a), tocx(b)
        return CSym(s_add(a.re, b.re, sign), s_add(a.im, b.im, sign))
    dt = promote(a.dt, b.dt)
    if kind(dt) == 'b':
        if dt is bool:
            dt = int
        elif sign == 1:
            return mk(zor(truth(a), truth(b)), dt)
        else:
            raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
    _weakcheck(a, b)
    x, y = num(a.e), num(b.e)
    if nonfinite(x) or nonfinite(y):
        if nonfinite(x) and nonfinite(y):
            return mk(x + sign * y, dt)
        return mk(x if nonfinite(x) else sign * y, dt)
    return _wrapres(core.add(x, y if sign == 1 else core.neg(y)), dt)


def s_sub(a, b):
    return s_add(a, b, -1)


def s_mul(a, b):
    a, b = _pair(a, b)
    if isinstance(a, CSym) or isinstance(b, CSym):
        if not isinstance(a, CSym):
            return CSym(s_mul(a, b.re), s_mul(a, b.im))
        if not isinstance(b, CSym):
            return CSym(s_mul(a.re, b), s_mul(a.im, b))
        return CSym(s_sub(s_mul(a.re, b.re), s_mul(a.im, b.im)),
                    s_add(s_mul(a.re, b.im), s_mul(a.im, b.re)))
    dt = promote(a.dt, b.dt)
    if kind(dt) == 'b':
        if dt is bool:
            dt = int
        else:
            return mk(zand(truth(a), truth(b)), dt)
    _weakcheck(a, b)
    x, y = num(a.e), num(b.e)
    if nonfinite(x) or nonfinite(y):
        if nonfinite(x) and nonfinite(y):
            return mk(x * y, dt)
        if nonfinite(y):
            x, y = y, x
        if math.isnan(x):
            return mk(NAN, dt)
        if decide(core.cmp(y, '==', 0)):
            return mk(NAN, dt)
        return mk(x if decide(core.cmp(y, '>', 0)) else -x, dt)
    return _wrapres(core.mul(x, y), dt)


def s_truediv(a, b):
    a, b = _pair(a, b)
    if isinstance(a, CSym) or isinstance(b, CSym):
        if not isinstance(b, CSym):
            return CSym(s_truediv(a.re, b), s_truediv(a.im, b))
        a, b = tocx(a), tocx(b)
        d = s_add(s_mul(b.re, b.re), s_mul(b.im, b.im))
        n = s_mul(a, CSym(b.re, s_neg(b.im)))
        return CSym(s_truediv(n.re, d), s_truediv(n.im, d))
    dt = promote(a.dt, b.dt)
    if isweak(dt):
        dt = float
    elif dt.kind in 'biu':
        dt = F8
    x, y = num(a.e), num(b.e)
    if nonfinite(x) or nonfinite(y):
        if nonfinite(x) and nonfinite(y):
            return mk(NAN, dt)
        if nonfinite(y):
            return mk(NAN if math.isnan(y) else 0, dt)
        if math.isnan(x):
            return mk(NAN, dt)
        return mk(x if decide(core.cmp(y, '>=', 0)) else -x, dt)
    z = core.cmp(y, '==', 0)
    if z if isinstance(z, bool) else PATH.decide_zero(z):
        if dt is float:
            raise ZeroDivisionError('division by zero')
        PATH.note('division by zero')
        if decide(core.cmp(x, '==', 0)):
            return mk(NAN, dt)
        return mk(float('inf') if decide(core.cmp(x, '>', 0)) else float('-inf'), dt)
    return _wrapres(core.div(x, y), dt)


def s_floordiv(a, b):
    a, b = _pair(a, b)
    dt = promote(a.dt, b.dt)
    if kind(dt) == 'b':
        dt = int if dt is bool else np.dtype(np.int8)
    _weakcheck(a, b)
    x, y = num(a.e), num(b.e)
    if nonfinite(x) or nonfinite(y):
        return mk(NAN, dt)
    if decide(core.cmp(y, '==', 0)):
        if isweak(dt):
            raise ZeroDivisionError('integer division or modulo by zero')
        PATH.note('division by zero')
        return mk(0, dt) if kind(dt) in 'iu' else mk(NAN, dt)
    return _wrapres(core.floor(core.div(x, _divisor(y))), dt)


def _divisor(y):
    """An integer divisor of few values is fixed by forking, the solver is weak on nonlinear integer division."""
    if core.isn(y) and y.isint and y.lo is not None and y.hi is not None and y.hi - y.lo <= 32:
        return PATH.concretize(y)
    return y


def s_mod(a, b):
    a, b = _pair(a, b)
    dt = promote(a.dt, b.dt)
    if kind(dt) == 'b':
        dt = int if dt is bool else np.dtype(np.int8)
    _weakcheck(a, b)
    x, y = num(a.e), num(b.e)
    if nonfinite(x) or nonfinite(y):
        return mk(NAN, dt)
    if decide(core.cmp(y, '==', 0)):
        if isweak(dt):
            raise ZeroDivisionError('integer modulo by zero')
        return mk(0, dt) if kind(dt) in 'iu' else mk(NAN, dt)
    y = _divisor(y)
    q = core.floor(core.div(x, y))
    return _wrapres(core.sub(x, core.mul(y, q)), dt)


def s_neg(a):
    a = lift(a)
    if isinstance(a, CSym):
        return CSym(s_neg(a.re), s_neg(a.im))
    if a.dt == B1:
        raise TypeError('The numpy boolean negative, the `-` operator, is not supported')
    if nonfinite(a.e):
        return mk(-a.e, a.dt)
    dt = int if a.dt is bool else a.dt
    return _wrapres(core.neg(num(a.e)), dt)


def s_abs(a):
    a = lift(a)
    if isinstance(a, CSym):
        return s_sqrt(s_add(s_mul(a.re, a.re), s_mul(a.im, a.im)))
    if kind(a.dt) == 'b':
        return a if a.dt is not bool else mk(num(a.e), int)
    if nonfinite(a.e):
        return mk(abs(a.e), a.dt)
    e = a.e
    if not isn(e):
        return _wrapres(abs(e), a.dt)
    if e.lo is not None and e.lo >= 0:
        return a
    c = core.cmp(e, '>=', 0)
    r = core.ite(c, e, core.neg(e))
    if isn(r) and r.op == 'ite' and (r.lo is None or r.lo < 0):
        hi = None if e.lo is None or e.hi is None else max(-e.lo, e.hi)
        r.lo, r.hi = 0, hi
    return _wrapres(r, a.dt)


def s_sqrt(a):
    a = lift(a)
    if isinstance(a, CSym):
        raise Unsupported('complex sqrt')
    dt = a.dt
    if kind(dt) in 'biu':
        dt = F8 if isweak(dt) or dt.itemsize >= 4 else np.dtype(
            np.float16 if dt.itemsize == 1 else np.float32)
    if dt is float:
        dt = F8
    e = num(a.e)
    if nonfinite(e):
        return mk(e if e > 0 else NAN, dt)
    if decide(core.cmp(e, '<', 0)):
        PATH.note('sqrt of negative')
        return mk(NAN, dt)
    return mk(fit_float(core.sqrt(e), dt), dt)


def _fdt(a):
    """float type of a unary float ufunc."""
    dt = a.dt
    if isweak(dt):
        return F8
    if dt.kind == 'f':
        return dt
    if dt.kind in 'biu' and dt.itemsize < 4:
        return np.dtype(np.float16 if dt.itemsize == 1 else np.float32)
    return F8


def s_log(a, which='ln'):
    a = lift(a)
    dt = _fdt(a)
    e = num(a.e)
    if nonfinite(e):
        return mk(e if e > 0 else NAN, dt)
    if decide(core.cmp(e, '<=', 0)):
        PATH.note('log of non-positive')
        if decide(core.cmp(e, '==', 0)):
            return mk(float('-inf'), dt)
        return mk(NAN, dt)
    if which == 'log10':
        return mk(core.log10(e), dt)
    if which == 'log2':
        return mk(core.div(core.ln(e), core.ln(2)), dt)
    return mk(core.ln(e), dt)


def s_pow(a, b):
    a, b = _pair(a, b)
    if isinstance(a, CSym):
        if isconst(b.e) and isinstance(b.e, int) and b.e >= 0:
            r = CSym(mk(1, F8), mk(0, F8))
            for _ in range(b.e):
                r = s_mul(r, a)
            return r
        raise Unsupported('complex power')
    dt = promote(a.dt, b.dt)
    if kind(dt) == 'b':
        dt = int if dt is bool else np.dtype(np.int8)
    x, y = num(a.e), num(b.e)
    if nonfinite(x) or nonfinite(y):
        if isconst(x) and isconst(y):
            return mk(float(x) ** float(y), dt)
        if nonfinite(y) and not math.isnan(y):
            raise Unsupported('power with infinite exponent')
        return mk(NAN, dt)
    if not isn(y):
        if y == int(y):
            n = int(y)
            if abs(n) > 64:
                if not isn(x):
                    return _wrapres(core.norm_num(Fraction(x) ** n), dt)
                raise Unsupported('large power')
            if n >= 0:
                return _wrapres(core.powi(x, n) if isn(x) else core.norm_num(Fraction(x) ** n), dt)
            if kind(dt) in 'iu' and not isweak(dt):
                raise ValueError('Integers to negative integer powers are not allowed.')
            if dt is int:
                dt = float
            one = mk(1, dt)
            return s_truediv(one, mk(core.powi(x, -n), dt))
        if Fraction(y).denominator == 2:
            r = s_sqrt(mk(x, dt))
            return s_pow(r, mk(int(2 * y), dt)) if y > 0 else s_truediv(mk(1, dt), s_pow(r, mk(int(-2 * y), dt)))
        if not isn(x):
            if x < 0:
                return mk(NAN, dt)
            return mk(core.snap(float(x) ** float(y)), dt)
        raise Unsupported('fractional power')
    # symbolic exponent
    if isn(x):
        if kind(b.dt) in 'iu':
            n = PATH.concretize(y)
            return s_pow(a, mk(n, b.dt))
        raise Unsupported('symbolic base and exponent')
    if x <= 0:
        raise Unsupported('non-positive base with symbolic exponent')
    if kind(dt) in 'iu':
        n = PATH.concretize(y)
        return s_pow(a, mk(n, b.dt))
    if x == 1:
        return mk(1, dt)
    return mk(core.powb(x, y), dt)


def s_exp(a):
    a = lift(a)
    dt = _fdt(a)
    e = num(a.e)
    if nonfinite(e):
        return mk(NAN if math.isnan(e) else e if e > 0 else 0, dt)
    if not isn(e):
        if e == 0:
            return mk(1, dt)
    return mk(core.powb('e', e), dt)


def s_cmp(a, op, b):
    """python bool or BoolRef"""
    a, b = _pair(a, b)
    if isinstance(a, CSym) or isinstance(b, CSym):
        a, b = tocx(a), tocx(b)
        r = zand(s_cmp(a.re, '==', b.re), s_cmp(a.im, '==', b.im))
        if op == '==':
            return r
        if op == '!=':
            return znot(r)
        raise TypeError('complex comparison')
    if op in ('==', '!=') and isinstance(a.e, (bool, z3.BoolRef)) and isinstance(b.e, (bool, z3.BoolRef)):
        if isinstance(a.e, bool):
            r = b.e if a.e else znot(b.e)
        elif isinstance(b.e, bool):
            r = a.e if b.e else znot(a.e)
        else:
            r = a.e == b.e
        return r if op == '==' else znot(r)
    x, y = num(a.e), num(b.e)
    if nonfinite(x) or nonfinite(y):
        if (nonfinite(x) and math.isnan(x)) or (nonfinite(y) and math.isnan(y)):
            return op == '!='
        fx = x if nonfinite(x) else 0.0
        fy = y if nonfinite(y) else 0.0
        return {'<': fx < fy, '<=': fx <= fy, '>': fx > fy, '>=': fx >= fy,
                '==': fx == fy, '!=': fx != fy}[op]
    return core.cmp(x, op, y)


def s_ite(c, a, b):
    """c bool/BoolRef."""
    if c is True:
        return a
    if c is False:
        return b
    a, b = _pair(a, b)
    if isinstance(a, CSym) or isinstance(b, CSym):
        a, b = tocx(a), tocx(b)
        return CSym(s_ite(c, a.re, b.re), s_ite(c, a.im, b.im))
    dt = promote(a.dt, b.dt)
    a, b = cast(a, dt), cast(b, dt)
    if nonfinite(a.e) or nonfinite(b.e):
        return a if decide(c) else b
    if isinstance(a.e, (bool, z3.BoolRef)):
        return mk(zor(zand(c, a.e), zand(znot(c), b.e)), dt)
    return mk(core.ite(c, a.e, b.e), dt)


def s_max(a, b):
    a, b = _pair(a, b)
    for x in (a, b):
        if nonfinite(x.e) and math.isnan(x.e):
            return mk(NAN, promote(a.dt, b.dt))
    return s_ite(s_cmp(a, '>=', b), a, b)


def s_min(a, b):
    a, b = _pair(a, b)
    for x in (a, b):
        if nonfinite(x.e) and math.isnan(x.e):
            return mk(NAN, promote(a.dt, b.dt))
    return s_ite(s_cmp(a, '<=', b), a, b)


def s_rint(a):
    a = lift(a)
    if nonfinite(a.e):
        return a
    if kind(a.dt) in 'iub':
        return mk(num(a.e), a.dt) if kind(a.dt) != 'b' else mk(num(a.e), np.dtype(np.float16))
    return mk(rint(a.e), a.dt)


def s_floor(a):
    a = lift(a)
    if nonfinite(a.e):
        return a
    if kind(a.dt) in 'iub':
        return a
    e = a.e
    if isn(e) and e.op == 'log10':
        return mk(floor_log10(e.args[0]), a.dt)
    return mk(core.floor(e), a.dt)


def floor_log10(x):
    """floor(log10(x)) for x > 0: the decade is found by forking."""
    lo, hi = core.rng(x)
    k0 = -12 if lo is None or lo <= 0 else math.floor(math.log10(lo)) - 1
    k1 = 15 if hi is None else math.floor(math.log10(hi)) + 1
    while k0 < k1:
        mid = (k0 + k1 + 1) // 2
        if decide(core.cmp(x, '>=', core.norm_num(Fraction(10) ** mid))):
            k0 = mid
        else:
            k1 = mid - 1
    return k0


def s_ceil(a):
    a = lift(a)
    if nonfinite(a.e) or kind(a.dt) in 'iub':
        return a
    return s_neg(s_floor(s_neg(a)))


def s_trunc(a):
    a = lift(a)
    if nonfinite(a.e) or kind(a.dt) in 'iub':
        return a
    return mk(trunc(a.e), a.dt)


def s_round(a, n=0):
    """Round to n decimals, half to even."""
    a = lift(a)
    n = int(n)
    if nonfinite(a.e):
        return a
    e = num(a.e)
    if kind(a.dt) in 'iub' and n >= 0:
        return a
    if n == 0:
        return mk(rint(e), a.dt)
    k = core.norm_num(Fraction(10) ** n)
    return mk(core.div(rint(core.mul(k, e)), k), a.dt)


def tocx(a):
    return a if isinstance(a, CSym) else CSym(a, mk(0, F8))


MARK = re.compile(r'SX(\d+)[.,]?XS', re.I)
# a decimal point is fine, a decimal comma is no number to python
MARKFULL = re.compile(r'\s*SX(\d+)\.?XS\s*\Z', re.I)


def _bin(f, refl=False):
    def g(self, other):
        if isinstance(other, np.ndarray):
            if other.ndim:
                return NotImplemented
        elif isinstance(other, (list, tuple)) and not isweak(self.dt):
            # a numpy scalar meets a sequence: elementwise
            from . import arr
            a = arr.toarr(other)
            els = [f(x, self) if refl else f(self, x) for x in arr.raw(a).reshape(-1)]
            return arr.mkarr(els, None, a.shape)
        if isinstance(other, Sym) or isinstance(other, CSym) or can_lift(other) or isinstance(other, complex):
            return f(other, self) if refl else f(self, other)
        return NotImplemented
    return g


def _cmpm(op):
    def g(self, other):
        if isinstance(other, np.ndarray) and other.ndim:
            return NotImplemented
        if not can_lift(other) and not isinstance(other, complex):
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        r = s_cmp(self, op, other)
        if isinstance(r, bool):
            return r
        return mk(r, B1 if not isweak(self.dt) else bool)
    return g


class Sym(object):
    __slots__ = ('e', 'dt')
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)

    def __repr__(self):
        try:
            t = str(self)
        except Exception:
            return 'Sym(%r,%s)' % (self.e, getattr(self.dt, '__name__', self.dt))
        return t if isweak(self.dt) else 'np.%s(%s)' % (self.dt, t)

    # ---- python protocol
    def __bool__(self):
        if nonfinite(self.e):
            return True
        return decide(truth(self))

    def __hash__(self):
        e = self.e
        if isinstance(e, (Node, z3.AstRef)):
            return 0
        return hash(e)

    def __int__(self):
        e = num(self.e)
        if nonfinite(e):
            return int(e)
        if isconst(e):
            return math.trunc(e)
        return PATH.concretize(trunc(e))

    def __index__(self):
        if kind(self.dt) not in 'iu' and self.dt is not bool:
            raise TypeError("'%s' object cannot be interpreted as an integer" % self.dt)
        e = num(self.e)
        if isconst(e):
            return int(e)
        return PATH.concretize(e)

    def __float__(self):
        e = num(self.e)
        if isconst(e):
            return float(e)
        return PATH.concrete_float(e)

    def __complex__(self):
        return complex(float(self))

    __add__ = _bin(s_add)
    __radd__ = _bin(s_add, True)
    __sub__ = _bin(s_sub)
    __rsub__ = _bin(s_sub, True)
    __mul__ = _bin(s_mul)
    __rmul__ = _bin(s_mul, True)
    __truediv__ = _bin(s_truediv)
    __rtruediv__ = _bin(s_truediv, True)
    __floordiv__ = _bin(s_floordiv)
    __rfloordiv__ = _bin(s_floordiv, True)
    __mod__ = _bin(s_mod)
    __rmod__ = _bin(s_mod, True)
    __rpow__ = _bin(s_pow, True)

    def __pow__(self, other, mod=None):
        if mod is not None:
            raise Unsupported('pow with modulus')
        if isinstance(other, np.ndarray) and other.ndim:
            return NotImplemented
        return s_pow(self, other)

    def __divmod__(self, o):
        return s_floordiv(self, o), s_mod(self, o)

    def __rdivmod__(self, o):
        return s_floordiv(o, self), s_mod(o, self)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __invert__(self):
        if kind(self.dt) == 'b':
            return mk(znot(self.e), self.dt)
        return s_sub(mk(-1, self.dt), self)

    def _bit(self, o, op):
        o = lift(o)
        if kind(self.dt) == 'b' and kind(o.dt) == 'b':
            dt = promote(self.dt, o.dt)
            f = {'&': zand, '|': zor}.get(op)
            if f:
                return mk(f(self.e, o.e), dt)
            return mk(s_cmp(self, '!=', o), dt)
        a, b = self, o
        if op == '&':
            if isconst(a.e) and not isconst(b.e):
                a, b = b, a
            if isconst(b.e) and b.e >= 0 and (b.e & (b.e + 1)) == 0:
                r = s_mod(a, mk(b.e + 1, int))
                return mk(r.e, promote(self.dt, o.dt))
        if isconst(a.e) and isconst(b.e):
            v = {'&': a.e & b.e, '|': a.e | b.e, '^': a.e ^ b.e}[op]
            return mk(v, promote(self.dt, o.dt))
        raise Unsupported('bitwise ' + op)

    def __and__(self, o):
        return self._bit(o, '&')

    def __or__(self, o):
        return self._bit(o, '|')

    def __xor__(self, o):
        return self._bit(o, '^')
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __lshift__(self, o):
        o = lift(o)
        if isconst(o.e):
            dt = promote(self.dt, o.dt)
            return _wrapres(core.mul(num(self.e), 2 ** o.e), dt)
        return self << PATH.concretize(o.e)

    def __rlshift__(self, o):
        return lift(o) << (self if isconst(self.e) else PATH.concretize(self.e))

    def __rshift__(self, o):
        o = lift(o)
        n = o.e if isconst(o.e) else PATH.concretize(o.e)
        return s_floordiv(self, mk(2 ** n, int))

    def __rrshift__(self, o):
        return lift(o) >> int(self)

    __eq__ = _cmpm('==')
    __ne__ = _cmpm('!=')
    __lt__ = _cmpm('<')
    __le__ = _cmpm('<=')
    __gt__ = _cmpm('>')
    __ge__ = _cmpm('>=')

    def __round__(self, n=None):
        if n is None:
            return cast(mk(rint(num(self.e)), float), int) if not nonfinite(self.e) else int(self.e)
        if isinstance(n, Sym):
            n = n.__index__()
        return s_round(self, n)

    def __trunc__(self):
        return cast(self, int)

    def __floor__(self):
        return cast(s_floor(self), int)

    def __ceil__(self):
        return cast(s_ceil(self), int)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    # ---- strings
    def __str__(self):
        e = self.e
        if isconst(e):
            if nonfinite(e):
                return str(e)
            if isinstance(e, bool):
                return str(e)
            if kind(self.dt) == 'f':
                v = float(e)
                return str(v)
            return str(e)
        return PATH.marker(self)

    def __format__(self, spec):
        from . import text
        return text.fmt(self, spec)

    # ---- numpy scalar protocol
    @property
    def dtype(self):
        if isweak(self.dt):
            raise AttributeError('dtype')
        return self.dt

    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return mk(0, self.dt)

    @property
    def numerator(self):
        return self

    def conjugate(self):
        return self
    conj = conjugate

    def astype(self, dt, **kw):
        from . import arr
        return cast(self, arr.todt(dt))

    def item(self, *a):
        e = self.e
        k = kind(self.dt)
        if isconst(e) and not nonfinite(e):
            return mk(e, {'f': float, 'b': bool}.get(k, int)) if k == 'f' else (bool(e) if k == 'b' else int(e))
        return mk(e, {'f': float, 'b': bool}.get(k, int))
    tolist = item

    def copy(self):
        return self

    def _same(self, *a, **k):
        return self
    mean = sum = max = min = squeeze = prod = _same

    def round(self, decimals=0, out=None):
        return s_round(self, decimals)

    def clip(self, lo=None, hi=None):
        r = self
        if lo is not None:
            r = s_max(r, lo)
        if hi is not None:
            r = s_min(r, hi)
        return r

    def std(self, *a, **k):
        return mk(0, F8)
    var = std

    def any(self, *a, **k):
        return mk(truth(self), B1)
    all = any

    def is_integer(self):
        r = core.cmp(self.e, '==', core.floor(self.e))
        return r if isinstance(r, bool) else mk(r, bool)

    def _toarr(self):
        from . import arr
        return arr.mkarr([self], None, ())

    def reshape(self, *shape):
        return self._toarr().reshape(*shape)

    def flatten(self, *a):
        return self._toarr().reshape(1)
    ravel = flatten

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        if isinstance(i, tuple) and all(x is None or x is Ellipsis for x in i) or i is None:
            return self._toarr()[i]
        if isweak(self.dt):
            raise TypeError("'float' object is not subscriptable")
        raise IndexError('invalid index to scalar variable.')


class CSym(object):
    """Complex value."""
    __slots__ = ('re', 'im')
    __array_priority__ = 1000
    dt = C16

    def __init__(self, re_, im):
        self.re = re_
        self.im = im

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)

    def __repr__(self):
        return 'CSym(%r,%r)' % (self.re, self.im)

    __add__ = _bin(s_add)
    __radd__ = _bin(s_add, True)
    __sub__ = _bin(s_sub)
    __rsub__ = _bin(s_sub, True)
    __mul__ = _bin(s_mul)
    __rmul__ = _bin(s_mul, True)
    __truediv__ = _bin(s_truediv)
    __rtruediv__ = _bin(s_truediv, True)

    def __pow__(self, o):
        return s_pow(self, o)

    def __neg__(self):
        return s_neg(self)

    def __abs__(self):
        return s_abs(self)

    def __eq__(self, o):
        r = s_cmp(self, '==', o)
        return r if isinstance(r, bool) else mk(r, B1)

    __hash__ = None

    def conjugate(self):
        return CSym(self.re, s_neg(self.im))
    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def dtype(self):
        return C16

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self
