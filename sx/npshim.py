"""numpy / math / scipy stand-ins used by the symbolically executed modules.

Shape functions run the real numpy implementation on object arrays; numeric functions are
implemented here over symbolic scalars; anything else runs the real numpy when all inputs are
constant and is Unsupported otherwise.
"""
import builtins
import itertools
import math
import types
from fractions import Fraction
import numpy as np
import z3
from . import sym, core, arr
from .core import Unsupported
from .sym import Sym, CSym, mk, lift, B1, I8, F8, C16, kind
from .arr import (SymArray, SymMasked, toarr, todt, mkarr, wrap, raw, fix_index, astype, mapel,
                  dispatch_ufunc, reduce_ufunc, norm_axes, npdt, outto)

NV = type(np._NoValue)


# --------------------------------------------------------------- type proxies
class TypeProxy(object):
    """Stands for a numeric type: callable on symbolic values, usable as dtype and in isinstance."""

    def __init__(self, real, conv, dt):
        self._sx_real = real
        self._conv = conv
        self._sx_dtype = dt
        self.__name__ = getattr(real, '__name__', str(real))

    def __call__(self, *a, **k):
        return self._conv(*a, **k)

    @property
    def dtype(self):
        return self._sx_dtype

    def __eq__(self, o):
        if isinstance(o, TypeProxy):
            return self._sx_real is o._sx_real
        if isinstance(o, np.dtype):
            return self._sx_dtype == o
        return self._sx_real is o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._sx_real)

    def __getattr__(self, n):
        return getattr(self._sx_real, n)

    def __repr__(self):
        return repr(self._sx_real)

    def __or__(self, o):
        return (self, o)

    def __mro_entries__(self, bases):
        return (self._sx_real,)


def _np_scalar(dt):
    def conv(x=0, *a):
        if isinstance(x, (list, tuple, np.ndarray)) and not (isinstance(x, np.ndarray) and x.ndim == 0):
            return astype(toarr(x), dt)
        if isinstance(x, str):
            from . import text
            x = text.to_float(x) if dt.kind == 'f' else text.to_int(x)
        if isinstance(x, np.ndarray):
            x = x[()]
        x = lift(x)
        if isinstance(x, Sym) and x.dt is int and dt.kind in 'iu' and not core.isn(x.e):
            lo, hi = sym.irange(dt)
            if not lo <= x.e <= hi:
                raise OverflowError('Python integer %d out of bounds for %s' % (x.e, dt))
        return sym.cast(x, dt)
    return conv


def unproxy(c):
    if isinstance(c, TypeProxy):
        return c._sx_real
    if isinstance(c, tuple):
        return tuple(unproxy(x) for x in c)
    return c


def rep_type(o):
    """the real type a symbolic value stands for"""
    if isinstance(o, Sym):
        if builtins.isinstance(o.dt, type):
            return o.dt
        return o.dt.type
    if isinstance(o, CSym):
        return np.complex128
    if isinstance(o, SymMasked):
        return np.ma.MaskedArray
    if isinstance(o, SymArray):
        return np.ndarray
    return None


def sx_isinstance(o, c):
    c = unproxy(c)
    t = rep_type(o)
    if t is None:
        return builtins.isinstance(o, c)
    return issubclass(t, c)


def sx_issubclass(a, c):
    return builtins.issubclass(unproxy(a), unproxy(c))


# --------------------------------------------------------------- helpers
def is_const(x):
    if isinstance(x, Sym):
        return sym.isconst(x.e)
    if isinstance(x, CSym):
        return is_const(x.re) and is_const(x.im)
    if isinstance(x, SymArray):
        return all(is_const(e) for e in raw(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        return all(is_const(e) for e in x)
    if isinstance(x, dict):
        return all(is_const(e) for e in x.values())
    return True


def concrete(x):
    """real numpy value of a constant symbolic value"""
    if isinstance(x, Sym):
        e = x.e
        if builtins.isinstance(x.dt, type):
            return x.dt(e)
        return x.dt.type(float(e) if x.dt.kind == 'f' else e)
    if isinstance(x, CSym):
        return complex(concrete(x.re), concrete(x.im))
    if isinstance(x, SymMasked):
        return np.ma.MaskedArray(concrete(x._data), x._mask.copy())
    if isinstance(x, SymArray):
        r = np.empty(x.shape, dtype=x._ldt)
        for i in np.ndindex(*x.shape):
            r[i] = concrete(raw(x)[i])
        return r
    if isinstance(x, TypeProxy):
        return x._sx_real
    if isinstance(x, (list, tuple)):
        return type(x)(concrete(e) for e in x) if type(x) in (list, tuple) else x
    if isinstance(x, dict):
        return {k: concrete(v) for k, v in x.items()}
    if isinstance(x, UfuncProxy):
        return x._uf
    return x


def symbolic(x):
    """symbolic version of a real numpy result"""
    if isinstance(x, np.ma.MaskedArray):
        return arr.to_masked(x)
    if isinstance(x, np.ndarray):
        return toarr(x) if x.dtype.kind in 'biufc' else x
    if isinstance(x, np.generic) and x.dtype.kind in 'biufc':
        return lift(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(symbolic(e) for e in x)
    if isinstance(x, list):
        return [symbolic(e) for e in x]
    if isinstance(x, float):
        return lift(x)
    return x


def arrz(x):
    """array operand keeping masks"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ma.MaskedArray):
        return arr.to_masked(x)
    return toarr(x)


def unwrap0(r):
    return r[()] if isinstance(r, SymArray) and r.ndim == 0 and not isinstance(r, SymMasked) else r


TABLE = {}


def impl(*names):
    def deco(f):
        for n in names or (f.__name__,):
            TABLE[n] = f
        return f
    return deco


# --------------------------------------------------------------- creation
@impl('array')
def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    d = todt(dtype)
    if isinstance(x, SymMasked) and subok:
        r = x.copy()
    else:
        r = toarr(x, d)
        if copy is not False and copy is not None and (isinstance(x, np.ndarray) and np.shares_memory(raw(r), raw(x))):
            r = r.copy()
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


@impl('asarray', 'ascontiguousarray', 'asfortranarray', 'asarray_chkfinite', 'require')
def asarray(x, dtype=None, order=None, copy=None, like=None, device=None):
    r = toarr(x, todt(dtype))
    return r.copy() if copy and isinstance(x, np.ndarray) and np.shares_memory(raw(r), raw(x)) else r


@impl('asanyarray')
def asanyarray(x, dtype=None, order=None):
    if isinstance(x, SymMasked):
        return x if dtype is None else astype(x, todt(dtype))
    return toarr(x, todt(dtype))


def shp(s):
    if isinstance(s, (list, tuple)):
        return tuple(v.__index__() for v in s)
    if isinstance(s, np.ndarray) and s.ndim:
        return tuple(v.__index__() for v in s)
    return (s.__index__(),)


def filled(shape, v, dt):
    shape = shp(shape)
    r = np.empty(shape, dtype=object)
    s = sym.cast(lift(v), dt) if dt.kind != 'c' else CSym(sym.cast(lift(v), F8), mk(0, F8))
    for i in np.ndindex(*shape):
        r[i] = s
    return wrap(r, dt)


@impl('zeros', 'empty')
def zeros(shape, dtype=None, order='C', **k):
    return filled(shape, 0, todt(dtype) or F8)


@impl('ones')
def ones(shape, dtype=None, order='C', **k):
    return filled(shape, 1, todt(dtype) or F8)


@impl('full')
def full(shape, v, dtype=None, order='C', **k):
    if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.ndim:
        a = toarr(v, todt(dtype))
        return wrap(np.broadcast_to(raw(a), shp(shape)).copy(), a._ldt)
    v = lift(v[()] if isinstance(v, np.ndarray) else v)
    return filled(shape, v, todt(dtype) or npdt(v.dt))


def _like(v):
    def f(a, dtype=None, order='K', subok=True, shape=None, **k):
        a = arrz(a)
        r = filled(shape if shape is not None else a.shape, v, todt(dtype) or a._ldt)
        return SymMasked.make(r, a._mask.copy()) if isinstance(a, SymMasked) and subok else r
    return f


TABLE['zeros_like'] = TABLE['empty_like'] = _like(0)
TABLE['ones_like'] = _like(1)


@impl('full_like')
def full_like(a, v, dtype=None, order='K', subok=True, shape=None):
    a = arrz(a)
    return full(shape if shape is not None else a.shape, v, todt(dtype) or a._ldt)


@impl('eye', 'identity')
def eye(n, m=None, k=0, dtype=None, **kw):
    n = int(n)
    m = n if m is None else int(m)
    r = zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return r


@impl('arange')
def arange(start=None, stop=None, step=1, dtype=None, **kw):
    if stop is None:
        start, stop = 0, start
    a, b, s = lift(start), lift(stop), lift(step if step is not None else 1)
    dt = todt(dtype) or npdt(sym.promote(sym.promote(a.dt, b.dt), s.dt))
    if kind(a.dt) in 'iu' and kind(b.dt) in 'iu' and is_const(s) and s.e in (1, -1):
        n = sym.cast(sym.s_sub(b, a) if s.e == 1 else sym.s_sub(a, b), int).__index__()
    else:
        n = sym.cast(sym.s_ceil(sym.s_truediv(sym.s_sub(b, a), mk(s.e, F8) if kind(s.dt) == 'f' else s)), int).__index__()
    n = max(n, 0)
    if n > 100000:
        raise Unsupported('arange too long')
    return mkarr([sym.cast(sym.s_add(a, sym.s_mul(mk(i, int), s)), dt) for i in range(n)], dt, (n,))


@impl('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = num.__index__()
    if num < 0:
        raise ValueError('Number of samples, %s, must be non-negative.' % num)
    if isinstance(start, np.ndarray) and start.ndim or isinstance(stop, np.ndarray) and stop.ndim:
        raise Unsupported('linspace of arrays')
    a = lift(start[()] if isinstance(start, np.ndarray) else start)
    b = lift(stop[()] if isinstance(stop, np.ndarray) else stop)
    div = num - 1 if endpoint else num
    d = sym.s_sub(mk(b.e, F8), mk(a.e, F8))
    step = sym.s_truediv(d, mk(div, F8)) if div > 0 else mk(float('nan'), F8)
    out = []
    for i in range(num):
        if div <= 0:
            out.append(mk(sym.num(a.e), F8))
        elif endpoint and i == num - 1:
            out.append(mk(sym.num(b.e), F8))
        else:
            out.append(sym.s_add(mk(a.e, F8), sym.s_mul(mk(i, F8), step)))
    r = mkarr(out, F8, (num,))
    if dtype is not None:
        dt = todt(dtype)
        if dt.kind in 'iu':
            r = mapel(sym.s_floor, r, F8)
        r = astype(r, dt)
    return (r, step) if retstep else r


@impl('logspace', 'geomspace')
def logspace(*a, **k):
    if not is_const(a) or not is_const(k):
        raise Unsupported('logspace')
    return symbolic(np.logspace(*concrete(a), **concrete(k)))


@impl('copy')
def copy(a, order='K', subok=False):
    return arrz(a).copy() if subok else toarr(a).copy()


@impl('fromiter')
def fromiter(it, dtype, count=-1):
    return toarr(list(it), todt(dtype))


@impl('meshgrid')
def meshgrid(*xs, copy=True, sparse=False, indexing='xy'):
    xs = [toarr(x) for x in xs]
    rs = np.meshgrid(*[raw(x) for x in xs], copy=True, sparse=sparse, indexing=indexing)
    return tuple(wrap(r, x._ldt) for r, x in zip(rs, xs))


# --------------------------------------------------------------- shape functions on object arrays
def shape_fn(name, argn=(0,)):
    real = getattr(np, name)

    def f(*args, **kw):
        args = list(args)
        x = args[0]
        if isinstance(x, SymMasked):
            m = real(x._mask, *[fix_index(a) for a in args[1:]], **kw)
            d = real(raw(x), *[fix_index(a) for a in args[1:]], **kw)
            r = SymMasked.make(wrap(d, x._ldt), m, x._fill)
            r._nomask = x._nomask
            return r
        a = toarr(x)
        r = real(raw(a), *[unscalar(fix_index(v)) for v in args[1:]],
                 **{k: unscalar(fix_index(v)) for k, v in kw.items()})
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(v, a._ldt) for v in r)
        return wrap(r, a._ldt) if isinstance(r, np.ndarray) else r
    f.__name__ = name
    TABLE[name] = f


def unscalar(v):
    if isinstance(v, tuple):
        return tuple(unscalar(x) for x in v)
    if isinstance(v, list):
        return [unscalar(x) for x in v]
    if isinstance(v, Sym):
        return v.__index__()
    if isinstance(v, SymArray):
        return fix_index(v)
    return v


for _n in ('tile', 'repeat', 'roll', 'flip', 'fliplr', 'flipud', 'rot90', 'transpose', 'reshape',
           'squeeze', 'expand_dims', 'swapaxes', 'moveaxis', 'broadcast_to', 'split',
           'array_split', 'hsplit', 'vsplit', 'delete', 'diag', 'diagonal', 'triu', 'tril', 'take',
           'atleast_1d', 'atleast_2d', 'atleast_3d', 'rollaxis', 'resize', 'permute_dims', 'matrix_transpose'):
    if hasattr(np, _n):
        shape_fn(_n)


@impl('ravel')
def ravel(a, order='C'):
    a = arrz(a)
    return a.ravel() if order in 'CK' else a.transpose().ravel()


@impl('pad')
def pad(a, width, mode='constant', **kw):
    a = toarr(a)
    if mode == 'constant':
        idx = np.arange(a.size).reshape(a.shape) + 1
        p = np.pad(idx, unscalar(width), mode)
        c = kw.get('constant_values', 0)
        flat = raw(a).reshape(-1)
        r = np.empty(p.shape, dtype=object)
        cv = sym.cast(lift(c), a._ldt)
        for i in np.ndindex(*p.shape):
            r[i] = flat[p[i] - 1] if p[i] else cv
        return wrap(r, a._ldt)
    if mode in ('edge', 'reflect', 'symmetric', 'wrap'):
        idx = np.arange(a.size).reshape(a.shape)
        p = np.pad(idx, unscalar(width), mode, **kw)
        return wrap(raw(a).reshape(-1)[p], a._ldt)
    raise Unsupported('pad mode')


def joiner(name):
    real = getattr(np, name)

    def f(seq, *args, **kw):
        dt = todt(kw.pop('dtype', None))
        if isinstance(seq, np.ndarray):
            seq = list(seq)
        seq = list(seq)
        if any(isinstance(s, SymMasked) for s in seq):
            raise Unsupported('masked ' + name)
        seq = [toarr(s) for s in seq]
        ldt = dt
        if ldt is None:
            for s in seq:
                ldt = s._ldt if ldt is None else np.promote_types(ldt, s._ldt)
        seq = [astype(s, ldt, False) for s in seq]
        out = kw.pop('out', None)
        return outto(wrap(real([raw(s) for s in seq], *unscalar(args), **unscalar_d(kw)), ldt), out)
    f.__name__ = name
    TABLE[name] = f


def unscalar_d(d):
    return {k: unscalar(v) for k, v in d.items()}


for _n in ('concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack', 'concat'):
    if hasattr(np, _n):
        joiner(_n)


@impl('append')
def append(a, v, axis=None):
    a, v = toarr(a), toarr(v)
    if axis is None:
        return TABLE['concatenate']([a.reshape(-1), v.reshape(-1)])
    return TABLE['concatenate']([a, v], axis=axis)


@impl('insert')
def insert(a, i, v, axis=None):
    a = toarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    v = toarr(v)
    if a.ndim != 1 or not hasattr(i, '__index__') or v.ndim > 1:
        raise Unsupported('insert')
    i = i.__index__()
    return TABLE['concatenate']([a[:i], astype(v.reshape(-1), a._ldt), a[i:]])


@impl('block')
def block(x):
    if isinstance(x, list) and x and isinstance(x[0], list):
        return TABLE['vstack']([TABLE['hstack'](r) for r in x])
    return TABLE['hstack'](x)


@impl('broadcast_arrays')
def broadcast_arrays(*xs, **k):
    xs = [toarr(x) for x in xs]
    s = np.broadcast_shapes(*[x.shape for x in xs])
    return tuple(wrap(np.broadcast_to(raw(x), s), x._ldt) for x in xs)


@impl('shape')
def shape(a):
    return a.shape if hasattr(a, 'shape') else toarr(a).shape


@impl('ndim')
def ndim(a):
    return a.ndim if hasattr(a, 'ndim') else toarr(a).ndim


@impl('size')
def size(a, axis=None):
    s = shape(a)
    return int(np.prod(s)) if axis is None else s[axis]


# --------------------------------------------------------------- reductions
def _axis(a):
    if isinstance(a, NV):
        return None
    if isinstance(a, (list, tuple)):
        return tuple(x.__index__() for x in a)
    return None if a is None else a.__index__()


def _red(name):
    def f(a, axis=None, *args, **kw):
        kw = {k: v for k, v in kw.items() if not isinstance(v, NV)}
        if isinstance(a, types.GeneratorType):
            a = list(a)
        return getattr(arrz(a), name)(_axis(axis), *args, **kw)
    return f


for _n in ('sum', 'prod', 'mean', 'std', 'var', 'min', 'max', 'any', 'all', 'argmin', 'argmax', 'ptp', 'cumsum', 'cumprod'):
    TABLE[_n] = _red(_n)
TABLE['amin'], TABLE['amax'] = TABLE['min'], TABLE['max']
TABLE['cumulative_sum'] = TABLE['cumsum']


def _nan(name):
    def f(a, axis=None, **kw):
        a = toarr(a)
        if axis is not None:
            raise Unsupported('nan reduction with axis')
        els = [x for x in raw(a).reshape(-1) if not (sym.nonfinite(x.e) and x.e != x.e)]
        if not els:
            return mk(0, a._ldt) if name == 'sum' else mk(float('nan'), F8)
        return getattr(mkarr(els, a._ldt, (len(els),)), name)(**kw)
    return f


for _n in ('sum', 'mean', 'std', 'var', 'min', 'max'):
    TABLE['nan' + _n] = _nan(_n)


@impl('average')
def average(a, axis=None, weights=None, returned=False, **k):
    a = arrz(a)
    if weights is None:
        return a.mean(axis)
    w = toarr(weights)
    if axis is not None and w.ndim != a.ndim:
        raise Unsupported('average with axis and weights')
    return (a * w).sum(axis) / w.sum(axis)


@impl('count_nonzero')
def count_nonzero(a, axis=None, **k):
    a = toarr(a)
    c = mapel(lambda x: mk(sym.num(sym.truth(x)), I8), a, I8)
    return reduce_ufunc(np.add, c, axis)


@impl('median')
def median(a, axis=None, **k):
    a = arrz(a)
    if isinstance(a, SymMasked):
        if axis is not None:
            raise Unsupported('masked median with axis')
        a = a.compressed()
    if axis is None:
        s = raw(sort(a.reshape(-1)))
        n = len(s)
        if n == 0:
            return mk(float('nan'), F8)
        if n % 2:
            return sym.cast(s[n // 2], arr._mean_dt(a._ldt, None))
        return sym.s_truediv(sym.s_add(sym.cast(s[n // 2 - 1], F8), sym.cast(s[n // 2], F8)), mk(2, int))
    return apply_along_axis(median, axis, a)


@impl('percentile')
def percentile(a, q, axis=None, **k):
    a = toarr(a)
    if axis is not None or k or not is_const(q) or ndim(q):
        raise Unsupported('percentile')
    s = raw(sort(a.reshape(-1)))
    n = len(s)
    pos = Fraction(sym.num(lift(q).e)) * (n - 1) / 100
    lo = math.floor(pos)
    fr = pos - lo
    if fr == 0:
        return sym.cast(s[lo], F8)
    return sym.s_add(s[lo], sym.s_mul(mk(fr, F8), sym.s_sub(s[lo + 1], s[lo])))


@impl('quantile')
def quantile(a, q, axis=None, **k):
    return percentile(a, lift(q) * 100, axis, **k)


@impl('apply_along_axis')
def apply_along_axis(f, axis, a, *args, **kw):
    a = arrz(a)
    axis = norm_axes(axis, a.ndim)[0]
    kept = [i for i in range(a.ndim) if i != axis]
    t = a.transpose(*(kept + [axis]))
    ks = t.shape[:-1]
    out = [f(t[i], *args, **kw) for i in np.ndindex(*ks)]
    r = toarr(out)
    r = r.reshape(ks + r.shape[1:])
    if r.ndim > len(ks):
        r = TABLE['moveaxis'](r, -1, axis)
    return r


@impl('diff')
def diff(a, n=1, axis=-1, **k):
    a = toarr(a)
    for _ in range(int(n)):
        t = TABLE['moveaxis'](a, axis, 0)
        a = TABLE['moveaxis'](t[1:] - t[:-1], 0, axis)
    return a


@impl('ediff1d')
def ediff1d(a, **k):
    return diff(toarr(a).reshape(-1))


@impl('gradient')
def gradient(*a, **k):
    raise Unsupported('gradient')


@impl('trapezoid', 'trapz')
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = toarr(y)
    if y.ndim != 1:
        raise Unsupported('trapezoid')
    d = dx if x is None else diff(x)
    return (d * (y[1:] + y[:-1]) / 2.0).sum()


# --------------------------------------------------------------- selection
@impl('where')
def where(c, *xy):
    if not xy:
        return arrz(c).nonzero()
    x, y = xy
    c = toarr(c)
    X = x if isinstance(x, (SymArray, Sym)) else (toarr(x) if isinstance(x, (list, tuple, np.ndarray)) else lift(x))
    Y = y if isinstance(y, (SymArray, Sym)) else (toarr(y) if isinstance(y, (list, tuple, np.ndarray)) else lift(y))
    if isinstance(X, SymMasked) or isinstance(Y, SymMasked):
        raise Unsupported('where on masked arrays')
    ldt = npdt(sym.promote(arr._indt(X), arr._indt(Y)))
    shapes = [v.shape for v in (c, X, Y) if isinstance(v, SymArray)]
    s = np.broadcast_shapes(*shapes)

    def bc(v):
        if isinstance(v, SymArray):
            return np.broadcast_to(raw(v), s)
        t = np.empty((), dtype=object)
        t[()] = v
        return np.broadcast_to(t, s)
    C, X, Y = bc(c), bc(X), bc(Y)
    r = np.empty(s, dtype=object)
    for i in np.ndindex(*s):
        t = sym.truth(C[i])
        a, b = sym.cast(X[i], ldt), sym.cast(Y[i], ldt)
        r[i] = sym.s_ite(t, a, b)
    return wrap(r, ldt) if s else wrap(r, ldt)


@impl('argwhere')
def argwhere(a):
    a = arrz(a)
    if isinstance(a, SymMasked):
        a = a.filled(0)
    nz = a.nonzero()
    return TABLE['stack'](nz, axis=1) if nz[0].size else zeros((0, a.ndim), I8)


@impl('nonzero')
def nonzero(a):
    return arrz(a).nonzero()


@impl('flatnonzero')
def flatnonzero(a):
    return toarr(a).reshape(-1).nonzero()[0]


@impl('extract')
def extract(c, a):
    return toarr(a).reshape(-1)[fix_index(toarr(c)).reshape(-1)]


@impl('compress')
def compress(c, a, axis=None):
    return toarr(a).compress(c, axis)


@impl('choose')
def choose(*a, **k):
    raise Unsupported('choose')


@impl('select')
def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


@impl('clip')
def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    if isinstance(a_min, NV):
        a_min = None
    if isinstance(a_max, NV):
        a_max = None
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    kw = {k: v for k, v in kw.items() if k not in ('casting',)}
    r = a if isinstance(a, (SymArray, Sym)) else arrz(a)
    if lo is None and hi is None:
        return outto(r.copy() if isinstance(r, SymArray) else r, out)
    if lo is not None:
        r = dispatch_ufunc(np.maximum, '__call__', (r, lo), {})
    if hi is not None:
        r = dispatch_ufunc(np.minimum, '__call__', (r, hi), {})
    return outto(r, out)


def sort_els(els):
    """sorting network: values only, without forking"""
    els = list(els)
    n = len(els)
    for i in range(1, n):
        for j in range(i, 0, -1):
            c = sym.s_cmp(els[j - 1], '<=', els[j])
            if c is True:
                break
            a, b = els[j - 1], els[j]
            els[j - 1], els[j] = sym.s_ite(c, a, b), sym.s_ite(c, b, a)
    return els


@impl('sort')
def sort(a, axis=-1, kind=None, order=None, stable=None):
    if isinstance(a, SymMasked):
        raise Unsupported('masked sort')
    a = toarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if a.ndim == 1:
        return mkarr(sort_els(raw(a)), a._ldt, a.shape)
    return apply_along_axis(sort, axis, a)


@impl('argsort')
def argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = toarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if a.ndim != 1:
        return apply_along_axis(argsort, axis, a)
    import functools
    els = raw(a)

    def c(i, j):
        if sym.decide(sym.s_cmp(els[i], '<', els[j])):
            return -1
        return 1 if sym.decide(sym.s_cmp(els[i], '>', els[j])) else 0
    idx = sorted(range(len(els)), key=functools.cmp_to_key(c))
    return mkarr([mk(i, I8) for i in idx], I8, (len(idx),))


@impl('lexsort')
def lexsort(keys, axis=-1):
    keys = [raw(toarr(k)) for k in keys]
    import functools

    def c(i, j):
        for k in reversed(keys):
            if sym.decide(sym.s_cmp(k[i], '<', k[j])):
                return -1
            if sym.decide(sym.s_cmp(k[i], '>', k[j])):
                return 1
        return 0
    idx = sorted(range(len(keys[0])), key=functools.cmp_to_key(c))
    return mkarr([mk(i, I8) for i in idx], I8, (len(idx),))


@impl('unique')
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = toarr(a).reshape(-1) if axis is None else toarr(a)
    if a.ndim != 1:
        raise Unsupported('unique with axis')
    els = raw(a)
    order = [int(i) for i in fix_index(argsort(a))]
    groups = []
    for i in order:
        if groups and sym.decide(sym.s_cmp(els[i], '==', els[groups[-1][0]])):
            groups[-1].append(i)
        else:
            groups.append([i])
    r = mkarr([els[g[0]] for g in groups], a._ldt, (len(groups),))
    out = [r]
    if return_index:
        out.append(toarr([min(g) for g in groups]) if groups else zeros(0, I8))
    if return_inverse:
        inv = [0] * len(els)
        for n, g in enumerate(groups):
            for i in g:
                inv[i] = n
        out.append(toarr(inv))
    if return_counts:
        out.append(toarr([len(g) for g in groups]))
    return tuple(out) if len(out) > 1 else r


@impl('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    a = toarr(a)
    if sorter is not None:
        a = a[sorter]
    els = raw(a)
    op = '<' if side == 'left' else '<='

    def one(x):
        return mk(core.sum_([sym.num(sym.s_cmp(e, op, x)) for e in els]), I8)
    if isinstance(v, (list, tuple, np.ndarray)) and ndim(v):
        return mapel(one, toarr(v), I8)
    return one(lift(v[()] if isinstance(v, np.ndarray) else v))


@impl('digitize')
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


@impl('histogram')
def histogram(a, bins=10, range=None, density=None, weights=None, **k):
    a = toarr(a).reshape(-1)
    if density or k:
        raise Unsupported('histogram density')
    if weights is not None:
        weights = raw(toarr(weights).reshape(-1))
    if isinstance(bins, str):
        raise Unsupported('histogram bins')
    els = raw(a)
    if ndim(bins) == 0:
        n = bins.__index__()
        if range is not None:
            lo, hi = range
        else:
            lo, hi = (a.min(), a.max()) if a.size else (0, 1)
        if sym.decide(sym.s_cmp(lift(lo), '==', lift(hi))):
            lo, hi = lift(lo) - sym.mk(Fraction(1, 2), float), lift(hi) + sym.mk(Fraction(1, 2), float)
        edges = linspace(lo, hi, n + 1)
    else:
        edges = toarr(bins)
        if edges.ndim != 1:
            raise ValueError('`bins` must be 1d, when an array')
        for p, q in zip(raw(edges)[:-1], raw(edges)[1:]):
            if sym.decide(sym.s_cmp(p, '>', q)):
                raise ValueError('`bins` must increase monotonically, when an array')
    E = raw(edges)
    n = len(E) - 1
    out = []
    for b in builtins.range(n):
        cs = []
        for j, x in enumerate(els):
            if sym.nonfinite(sym.num(x.e)) and x.e != x.e:
                continue
            c = sym.zand(sym.s_cmp(E[b], '<=', x), sym.s_cmp(x, '<=' if b == n - 1 else '<', E[b + 1]))
            v = sym.num(c)
            cs.append(v if weights is None else core.mul(v, sym.num(weights[j].e)))
        out.append(mk(core.sum_(cs), I8 if weights is None else F8))
    return mkarr(out, I8 if weights is None else F8, (n,)), edges


@impl('bincount')
def bincount(x, weights=None, minlength=0):
    x = toarr(x)
    if x.ndim != 1:
        raise ValueError('object too deep for desired array')
    if x._ldt.kind not in 'iub' and x.size:
        raise TypeError('Cannot cast array data to int64 according to the rule safe')
    if x.size == 0:
        return zeros(int(minlength), I8)
    if sym.decide(sym.s_cmp(x.min(), '<', mk(0, int))):
        raise ValueError("'list' argument must have no negative elements")
    n = max(x.max().__index__() + 1, minlength.__index__())
    els = raw(x)
    w = None if weights is None else raw(toarr(weights))
    out = []
    for b in range(n):
        cs = [sym.num(sym.s_cmp(e, '==', mk(b, int))) for e in els]
        if w is not None:
            cs = [core.mul(c, sym.num(v.e)) for c, v in zip(cs, w)]
        out.append(mk(core.sum_(cs), I8 if w is None else F8))
    return mkarr(out, I8 if w is None else F8, (n,))


@impl('isin', 'in1d')
def isin(a, b, **k):
    b = raw(toarr(b)).reshape(-1)

    def one(x):
        r = False
        for y in b:
            r = sym.zor(r, sym.s_cmp(x, '==', y))
        return mk(r, B1)
    return mapel(one, toarr(a), B1)


@impl('array_equal')
def array_equal(a, b, equal_nan=False):
    a, b = toarr(a), toarr(b)
    if a.shape != b.shape:
        return False
    return (a == b).all() if a.ndim else mk(sym.s_cmp(a[()], '==', b[()]), B1)


@impl('isclose')
def isclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), equal_nan=False):
    A = dispatch_ufunc(np.subtract, '__call__', (arrz(a), b), {})
    d = dispatch_ufunc(np.absolute, '__call__', (A,), {})
    t = dispatch_ufunc(np.absolute, '__call__', (arrz(b),), {})
    return dispatch_ufunc(np.less_equal, '__call__', (d, lift(atol) + lift(rtol) * t), {})


@impl('allclose')
def allclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return bool(r.all()) if isinstance(r, SymArray) else bool(r)


@impl('isscalar')
def isscalar(x):
    return isinstance(x, (Sym, CSym)) or np.isscalar(x)


@impl('isreal')
def isreal(x):
    return mapel(lambda e: mk(True, B1), toarr(x), B1)


@impl('iscomplexobj')
def iscomplexobj(x):
    return isinstance(x, CSym) or isinstance(x, SymArray) and x._ldt.kind == 'c'


@impl('isrealobj')
def isrealobj(x):
    return not iscomplexobj(x)


@impl('real')
def real(x):
    return x.real if hasattr(x, 'real') else toarr(x).real


@impl('imag')
def imag(x):
    return x.imag if hasattr(x, 'imag') else toarr(x).imag


@impl('round', 'around', 'round_')
def round_(a, decimals=0, out=None):
    decimals = decimals.__index__()
    if isinstance(a, Sym):
        r = sym.s_round(a, decimals)
        return mk(r.e, npdt(r.dt))
    return arrz(a).round(decimals, out=out)


@impl('fix')
def fix(a, out=None):
    return dispatch_ufunc(np.trunc, '__call__', (a,), {'out': out} if out is not None else {})


@impl('nan_to_num')
def nan_to_num(a, copy=True, nan=0, posinf=None, neginf=None):
    def f(x):
        if sym.nonfinite(x.e):
            if x.e != x.e:
                return sym.cast(lift(nan), x.dt)
            raise Unsupported('nan_to_num of inf')
        return x
    return mapel(f, arrz(a), arrz(a)._ldt) if not isinstance(a, Sym) else f(a)


# --------------------------------------------------------------- linear algebra
@impl('dot')
def dot(a, b, out=None):
    return outto(arr.matmul(a, b, dot=True), out)


@impl('vdot')
def vdot(a, b):
    return arr.matmul(toarr(a).reshape(-1), toarr(b).reshape(-1))


@impl('inner')
def inner(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim > 1 or b.ndim > 1:
        raise Unsupported('inner')
    return dot(a, b)


@impl('outer')
def outer(a, b, out=None):
    a, b = toarr(a).reshape(-1), toarr(b).reshape(-1)
    return a.reshape(-1, 1) * b.reshape(1, -1)


@impl('trace')
def trace(a):
    return toarr(a).trace()


@impl('einsum')
def einsum(spec, *ops, **kw):
    """explicit and implicit subscripts without ellipsis, by definition"""
    if not isinstance(spec, str) or set(kw) - {'optimize', 'dtype'}:
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    if '.' in spec:
        raise Unsupported('einsum with an ellipsis')
    left, arrow, out = spec.partition('->')
    terms = left.split(',')
    if not arrow:
        letters = left.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ops = [toarr(o) for o in ops]
    if len(terms) != len(ops):
        raise ValueError('more operands provided to einsum function than specified in the subscripts string')
    size = {}
    for t, o in zip(terms, ops):
        if len(t) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match the operand's dimensions")
        for c, n in zip(t, o.shape):
            if size.setdefault(c, n) != n:
                if 1 in (size[c], n):
                    raise Unsupported('einsum broadcasting')
                raise ValueError('operands could not be broadcast together')
    for c in out:
        if c not in size:
            raise ValueError('einstein sum subscripts string included an output subscript never appeared in an input')
    dt = todt(kw['dtype']) if kw.get('dtype') is not None else np.result_type(*[o._ldt for o in ops])
    ops = [astype(o, dt) for o in ops]
    summed = [c for c in size if c not in out]
    els = []
    for io in itertools.product(*[range(size[c]) for c in out]):
        at = dict(zip(out, io))
        tot = None
        for isum in itertools.product(*[range(size[c]) for c in summed]):
            at.update(zip(summed, isum))
            p = None
            for t, o in zip(terms, ops):
                e = raw(o)[tuple(at[c] for c in t)]
                p = e if p is None else sym.cast(p * e, dt)
            tot = p if tot is None else sym.cast(tot + p, dt)
        els.append(sym.cast(lift(0) if tot is None else tot, dt))
    r = mkarr(els, dt, tuple(size[c] for c in out))
    return r if out else r[()]


_LET = 'abcdefghijklmnopqrstuvwxyz'


@impl('tensordot')
def tensordot(a, b, axes=2):
    a, b = toarr(a), toarr(b)
    if isinstance(axes, int):
        xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        xa, xb = [[x] if isinstance(x, int) else list(x) for x in axes]
    xa, xb = [x % a.ndim for x in xa], [x % b.ndim for x in xb]
    la = list(_LET[:a.ndim])
    lb = list(_LET[a.ndim:a.ndim + b.ndim])
    for i, j in zip(xa, xb):
        lb[j] = la[i]
    out = [c for k, c in enumerate(la) if k not in xa] + [c for k, c in enumerate(lb) if k not in xb]
    return einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), a, b)


@impl('kron')
def kron(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim != b.ndim:
        raise Unsupported('kron of different dimensions')
    n = a.ndim
    x = a.reshape([k for s in a.shape for k in (s, 1)]) * b.reshape([k for s in b.shape for k in (1, s)])
    return x.reshape([p * q for p, q in zip(a.shape, b.shape)])


@impl('interp')
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp with a period')
    xp, fp = raw(astype(toarr(xp), F8)), raw(astype(toarr(fp), F8))

    def one(v):
        v = sym.cast(lift(v), F8)
        if v < xp[0]:
            return fp[0] if left is None else lift(left)
        for i in range(1, len(xp)):
            if v < xp[i]:
                return fp[i - 1] + (fp[i] - fp[i - 1]) * ((v - xp[i - 1]) / (xp[i] - xp[i - 1]))
        if v > xp[-1] and right is not None:
            return lift(right)
        return fp[-1]
    if isinstance(x, (np.ndarray, list, tuple)):
        return mapel(one, toarr(x), F8)
    return one(x)


@impl('cov')
def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if k:
        raise Unsupported('cov')
    rows = [toarr(m)] if y is None else [toarr(m), toarr(y)]
    x = [r for a in rows for r in (list(a) if a.ndim == 2 and rowvar else list(a.T) if a.ndim == 2 else [a])]
    dd = ddof if ddof is not None else 0 if bias else 1
    n = len(x[0])
    d = [r - arr.mean(astype(r, F8)) for r in x]
    els = [(p * q).sum() / (n - dd) for p in d for q in d]
    r = mkarr([lift(e) for e in els], F8, (len(x), len(x)))
    return r if len(x) > 1 else r[0, 0]


@impl('correlate')
def np_correlate(a, v, mode='valid'):
    return np_convolve(a, toarr(v)[::-1], mode=mode)


@impl('cross', 'corrcoef')
def _unsup(*a, **k):
    raise Unsupported('numpy function')


@impl('convolve')
def np_convolve(a, v, mode='full'):
    a, v = toarr(a), toarr(v)
    n, m = len(a), len(v)
    ldt = np.promote_types(a._ldt, v._ldt)
    ra, rv = raw(a), raw(v)
    full_ = []
    for k in range(n + m - 1):
        full_.append(arr.fold(np.add, [sym.cast(sym.s_mul(ra[i], rv[k - i]), ldt)
                                       for i in range(max(0, k - m + 1), min(n, k + 1))], ldt))
    if mode == 'same':
        L = max(n, m)
        s = (min(n, m) - 1) // 2
        full_ = full_[s:s + L]
    elif mode == 'valid':
        s = min(n, m) - 1
        full_ = full_[s:s + max(n, m) - min(n, m) + 1]
    return mkarr(full_, ldt, (len(full_),))


@impl('polyval')
def polyval(p, x):
    r = None
    for c in (toarr(p) if not isinstance(p, (list, tuple)) else p):
        r = c if r is None else r * x + c
    if not isinstance(r, SymArray) and isinstance(x, (np.ndarray, list, tuple)):
        r = r + toarr(x) * 0
    return r


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return sym.s_sub(sym.s_mul(M[0][0], M[1][1]), sym.s_mul(M[0][1], M[1][0]))
    r = None
    for j in range(n):
        sub = [row[:j] + row[j + 1:] for row in M[1:]]
        t = sym.s_mul(M[0][j], det(sub))
        r = t if r is None else (sym.s_sub(r, t) if j % 2 else sym.s_add(r, t))
    return r


class Singular(Exception):
    pass


def cramer(M, b):
    """Solve M x = b (lists of Syms)."""
    n = len(M)
    D = det(M)
    if sym.decide(sym.s_cmp(D, '==', mk(0, int))):
        raise Singular()
    xs = []
    for j in range(n):
        Mj = [row[:j] + [b[i]] + row[j + 1:] for i, row in enumerate(M)]
        xs.append(sym.s_truediv(det(Mj), D))
    return xs


def lsq(A, b, w=None):
    """Least squares solution of A x ~ b with rows A (lists of float Syms), weights w."""
    n = len(A[0])
    if n > 4:
        raise Unsupported('least squares with more than 4 unknowns')
    rows = range(len(A))
    W = [None] * len(A) if w is None else [sym.s_mul(x, x) for x in w]

    def tot(f):
        vals = []
        for i in rows:
            v = f(i)
            if W[i] is not None:
                v = sym.s_mul(W[i], v)
            vals.append(v)
        return arr.fold(np.add, vals, F8)
    M = [[tot(lambda i: sym.s_mul(A[i][p], A[i][q])) for q in range(n)] for p in range(n)]
    v = [tot(lambda i: sym.s_mul(A[i][p], b[i])) for p in range(n)]
    return cramer(M, v)


def _f8(xs):
    return [sym.cast(x, F8) for x in xs]


def _polyfit(x, y, deg, w, low_first):
    x = _f8(raw(toarr(x)))
    y = _f8(raw(toarr(y)))
    if len(x) == 0:
        raise TypeError('expected non-empty vector for x')
    if len(x) != len(y):
        raise TypeError('expected x and y to have same length')
    deg = deg.__index__()
    w = None if w is None else _f8(raw(toarr(w)))
    A = [[sym.s_pow(v, mk(k, int)) if k else mk(1, F8) for k in range(deg + 1)] for v in x]
    if len(x) < deg + 1:
        raise Unsupported('underdetermined polyfit')
    try:
        c = lsq(A, y, w)
    except Singular:
        raise Unsupported('singular polyfit')
    if not low_first:
        c = c[::-1]
    return mkarr(c, F8, (len(c),))


@impl('polyfit')
def polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    if full or cov:
        raise Unsupported('polyfit options')
    return _polyfit(x, y, deg, w, False)


def poly_polyfit(x, y, deg, rcond=None, full=False, w=None):
    if full:
        raise Unsupported('polyfit options')
    return _polyfit(x, y, deg, w, True)


def poly_polyval(x, c, tensor=True):
    return polyval(list(toarr(c))[::-1], x)


def lstsq(a, b, rcond=None):
    a, b = toarr(a), toarr(b)
    A = [[sym.cast(v, F8) for v in row] for row in raw(a)]
    if b.ndim != 1:
        raise Unsupported('lstsq with several right hand sides')
    bb = _f8(raw(b))
    if len(A) < len(A[0]):
        raise Unsupported('underdetermined lstsq')
    try:
        x = lsq(A, bb)
    except Singular:
        raise Unsupported('singular lstsq')
    res = [sym.s_sub(arr.fold(np.add, [sym.s_mul(p, q) for p, q in zip(row, x)], F8), t) for row, t in zip(A, bb)]
    ss = arr.fold(np.add, [sym.s_mul(r, r) for r in res], F8)
    return mkarr(x, F8, (len(x),)), mkarr([ss] if len(A) > len(x) else [], F8, (1 if len(A) > len(x) else 0,)), len(x), None


def linalg_solve(a, b):
    a, b = toarr(a), toarr(b)
    M = [[sym.cast(v, F8) for v in row] for row in raw(a)]
    try:
        if b.ndim == 1:
            x = cramer(M, _f8(raw(b)))
            return mkarr(x, F8, (len(x),))
    except Singular:
        raise np.linalg.LinAlgError('Singular matrix')
    raise Unsupported('solve')


def linalg_inv(a):
    n = len(a)
    e = eye(n)
    return TABLE['stack']([linalg_solve(a, e[i]) for i in range(n)], axis=1)


def linalg_det(a):
    return det([[sym.cast(v, F8) for v in row] for row in raw(toarr(a))])


def linalg_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported('norm')
    x = toarr(x)
    return dispatch_ufunc(np.sqrt, '__call__', ((x * x).sum(),), {})


def leastsq(func, x0, args=(), Dfun=None, full_output=False, **kw):
    """MINPACK least squares of a residual that is affine in the parameters: the exact minimum."""
    x0 = toarr(x0).reshape(-1)
    n = len(x0)
    if not isinstance(args, tuple):
        args = (args,)

    def res(v):
        r = toarr(func(mkarr([mk(x, F8) for x in v], F8, (n,)), *args)).reshape(-1)
        return [sym.cast(x, F8) for x in raw(r)]
    r0 = res([0] * n)
    if n > len(r0):
        raise TypeError('Improper input: func input vector length N=%d must not exceed func output '
                        'vector length M=%d' % (n, len(r0)))
    cols = []
    for j in range(n):
        cols.append([sym.s_sub(a, b) for a, b in zip(res([1 if i == j else 0 for i in range(n)]), r0)])
    probe = [3 + 2 * i for i in range(n)]
    for k, r in enumerate(res(probe)):
        t = r0[k]
        for j in range(n):
            t = sym.s_add(t, sym.s_mul(mk(probe[j], int), cols[j][k]))
        if not core.is_zero(core.sub(r.e, t.e)):
            raise Unsupported('non-affine least squares residual')
    A = [[cols[j][k] for j in range(n)] for k in range(len(r0))]
    try:
        x = lsq(A, [sym.s_neg(v) for v in r0])
    except Singular:
        sym.PATH.note('singular least squares')
        raise Unsupported('singular least squares')
    v = mkarr(x, F8, (n,))
    if full_output:
        raise Unsupported('leastsq full_output')
    return v, 1


def curve_fit(f, x, y, p0=None, **kw):
    import inspect
    n = len(p0) if p0 is not None else len(inspect.signature(f).parameters) - 1
    if kw:
        raise Unsupported('curve_fit options')
    x = toarr(x)
    v, _ = leastsq(lambda p: f(x, *p) - toarr(y), [1] * n)
    return v, None


class OptRes(dict):
    __getattr__ = dict.__getitem__


def least_squares(fun, x0, *a, args=(), **kw):
    v, _ = leastsq(fun, toarr(x0), args=args)
    return OptRes(x=v, success=True)


def linregress(x, y=None):
    c = _polyfit(x, y, 1, None, True)
    return OptRes(slope=c[1], intercept=c[0])


# --------------------------------------------------------------- fft
_TW = {}


def twiddle(n, k):
    """(cos, sin) of 2 pi k / n as exact numbers where possible."""
    k %= n
    key = (n, k)
    if key not in _TW:
        f = Fraction(k, n)
        ex = {Fraction(0): (1, 0), Fraction(1, 4): (0, 1), Fraction(1, 2): (-1, 0), Fraction(3, 4): (0, -1)}
        if f in ex:
            _TW[key] = ex[f]
        else:
            c, s = math.cos(2 * math.pi * k / n), math.sin(2 * math.pi * k / n)

            def q(v):
                r = core.snap(v)
                return r if abs(r.denominator if isinstance(r, Fraction) else 1) <= 2 else Fraction(v)
            if f.denominator in (12, 6, 3):
                # halves are exact, the others are sqrt(3)/2
                def h(v):
                    for t in (0, Fraction(1, 2), 1):
                        if abs(abs(v) - t) < 1e-9:
                            return core.norm_num(t if v >= 0 else -t)
                    return ('s3', 1 if v > 0 else -1)
                _TW[key] = (h(c), h(s))
            else:
                _TW[key] = (Fraction(round(c * 10 ** 15), 10 ** 15), Fraction(round(s * 10 ** 15), 10 ** 15))
    c, s = _TW[key]

    def num(v):
        if isinstance(v, tuple):
            return core.mul(Fraction(v[1], 2), core.sqrt(3))
        return v
    return num(c), num(s)


def dft(els, inverse=False):
    n = len(els)
    out = []
    for k in range(n):
        re, im = [], []
        for j, x in enumerate(els):
            c, s = twiddle(n, k * j)
            if not inverse:
                s = core.neg(s)
            xr, xi = (sym.num(x.re.e), sym.num(x.im.e)) if isinstance(x, CSym) else (sym.num(x.e), 0)
            re.append(core.sub(core.mul(xr, c), core.mul(xi, s)))
            im.append(core.add(core.mul(xr, s), core.mul(xi, c)))
        r, i = core.sum_(re), core.sum_(im)
        if inverse:
            r, i = core.div(r, n), core.div(i, n)
        out.append(CSym(mk(r, F8), mk(i, F8)))
    return out


def _norm(out, n, norm, inverse):
    if norm in (None, 'backward'):
        return out
    if norm == 'ortho':
        s = core.sqrt(n)
        f = core.div(1, s) if not inverse else s
    elif norm == 'forward':
        f = Fraction(1, n) if not inverse else n
    else:
        raise ValueError('Invalid norm value')
    f = mk(f, F8)
    return [CSym(sym.s_mul(x.re, f), sym.s_mul(x.im, f)) for x in out]


def _fft(inverse=False, half=False):
    def f(a, n=None, axis=-1, norm=None, out=None):
        a = toarr(a)
        axis = norm_axes(axis, a.ndim)[0]
        if n is not None and n.__index__() != a.shape[axis]:
            raise Unsupported('fft with n')
        t = np.moveaxis(raw(a), axis, -1)
        ks = t.shape[:-1]
        m = t.shape[-1]
        L = m // 2 + 1 if half else m
        r = np.empty(ks + (L,), dtype=object)
        for i in np.ndindex(*ks):
            v = _norm(dft(list(t[i]), inverse), m, norm, inverse)
            for k in range(L):
                r[i + (k,)] = v[k]
        return wrap(np.moveaxis(r, -1, axis), C16)
    return f


def _fftfreq(half):
    def f(n, d=1):
        n = n.__index__()
        d = lift(d)
        ks = list(range(n // 2 + 1)) if half else list(range((n - 1) // 2 + 1)) + list(range(-(n // 2), 0))
        return mkarr([sym.s_truediv(mk(k, F8), sym.s_mul(mk(n, int), d)) for k in ks], F8, (len(ks),))
    return f


# --------------------------------------------------------------- scipy.ndimage
def _refl(i, n):
    p = 2 * n
    i %= p
    return i if i < n else p - 1 - i


def _border(i, n, mode):
    if mode in ('reflect', 'grid-mirror'):
        return _refl(i, n)
    if mode == 'nearest':
        return min(max(i, 0), n - 1)
    if mode in ('wrap', 'grid-wrap'):
        return i % n
    if mode == 'mirror':
        if n == 1:
            return 0
        p = 2 * (n - 1)
        i %= p
        return i if i < n else p - i
    if mode in ('constant', 'grid-constant'):
        return i if 0 <= i < n else None
    raise Unsupported('border mode ' + str(mode))


def _corr(img, w, mode, cval, origin, conv, output=None):
    a = toarr(img)
    w = toarr(w)
    if w.ndim != a.ndim:
        raise RuntimeError('filter weights array has incorrect shape.')
    if not is_const(origin):
        raise Unsupported('origin')
    org = origin if isinstance(origin, (list, tuple)) else [origin] * a.ndim
    org = [int(o) for o in org]
    k = raw(w)
    if conv:
        k = k[tuple(slice(None, None, -1) for _ in k.shape)]
        org = [-o - (1 if s % 2 == 0 else 0) for o, s in zip(org, k.shape)]
    ldt = a._ldt if output is None else todt(output)
    src = raw(a)
    r = np.empty(a.shape, dtype=object)
    off = [s // 2 + o for s, o in zip(k.shape, org)]
    for p in np.ndindex(*a.shape):
        terms = []
        for q in np.ndindex(*k.shape):
            kv = sym.num(k[q].e)
            if not core.isn(kv) and kv == 0:
                continue
            idx = tuple(_border(i + j - o, n, mode) for i, j, o, n in zip(p, q, off, a.shape))
            v = sym.num(lift(cval).e) if None in idx else sym.num(src[idx].e)
            if sym.nonfinite(v):
                raise Unsupported('convolution of non-finite values')
            terms.append(core.mul(kv, v))
        r[p] = sym.cast(mk(core.sum_(terms), F8), ldt)
    return wrap(r, ldt)


def nd_convolve(input, weights, output=None, mode='reflect', cval=0.0, origin=0, **k):
    return _corr(input, weights, mode, cval, origin, True, output)


def nd_correlate(input, weights, output=None, mode='reflect', cval=0.0, origin=0, **k):
    return _corr(input, weights, mode, cval, origin, False, output)


def nd_uniform(input, size=3, output=None, mode='reflect', cval=0.0, origin=0, **k):
    a = toarr(input)
    s = size if isinstance(size, (list, tuple)) else [size] * a.ndim
    n = int(np.prod([int(v) for v in s]))
    if a._ldt.kind in 'iu':
        raise Unsupported('uniform_filter on integers')
    return _corr(a, full([int(v) for v in s], mk(Fraction(1, n), F8)), mode, cval, origin, False, output)


def sig_convolve2d(a, b, mode='full', boundary='fill', fillvalue=0):
    a, b = toarr(a), toarr(b)
    if boundary != 'fill':
        raise Unsupported('convolve2d boundary')
    ldt = np.promote_types(a._ldt, b._ldt)
    (m, n), (p, q) = a.shape, b.shape
    ra, rb = raw(a), raw(b)
    out = np.empty((m + p - 1, n + q - 1), dtype=object)
    for i in range(m + p - 1):
        for j in range(n + q - 1):
            ts = [sym.cast(sym.s_mul(ra[x, y], rb[i - x, j - y]), ldt)
                  for x in range(max(0, i - p + 1), min(m, i + 1)) for y in range(max(0, j - q + 1), min(n, j + 1))]
            out[i, j] = arr.fold(np.add, ts, ldt)
    if mode == 'same':
        si, sj = (p - 1) // 2, (q - 1) // 2
        out = out[si:si + m, sj:sj + n]
    elif mode == 'valid':
        out = out[p - 1:m, q - 1:n]
    return wrap(out.copy(), ldt)


# --------------------------------------------------------------- vectorize
class Vectorize(object):
    def __init__(self, f=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.pyfunc = f
        self.otypes = otypes
        if excluded or signature:
            self._bad = True
        self.__doc__ = doc or getattr(f, '__doc__', None)

    def __call__(self, *args, **kw):
        if self.pyfunc is None:
            self.pyfunc = args[0]
            return self
        if getattr(self, '_bad', False):
            raise Unsupported('vectorize options')
        arrs = [toarr(a) for a in args]
        s = np.broadcast_shapes(*[a.shape for a in arrs])
        if int(np.prod(s)) == 0 and not self.otypes:
            raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        bs = [np.broadcast_to(raw(a), s) for a in arrs]
        out = []
        for i in np.ndindex(*s):
            out.append(lift(self.pyfunc(*[b[i] for b in bs], **kw)))
        if self.otypes:
            t = self.otypes[0]
            dt = np.dtype(t) if isinstance(t, str) else todt(t)
        else:
            dt = npdt(out[0].dt)
        return mkarr([sym.cast(o, dt) for o in out], dt, s)


@impl('frompyfunc')
def frompyfunc(f, nin, nout, **k):
    if nout != 1:
        raise Unsupported('frompyfunc')
    v = Vectorize(f)
    return v


# --------------------------------------------------------------- ufunc proxies
class UfuncProxy(object):
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        n = self._uf.nin
        ins, outs = a[:n], a[n:]
        if outs:
            k['out'] = outs[0]
        if 'out' in k and k['out'] is None:
            del k['out']
        if len(ins) < n:
            raise TypeError('%s() takes from %d positional arguments' % (self.__name__, n))
        return dispatch_ufunc(self._uf, '__call__', ins, k)

    def _m(self, m, a, k):
        names = {'reduce': ('axis', 'dtype', 'out', 'keepdims', 'initial'),
                 'accumulate': ('axis', 'dtype', 'out')}.get(m, ())
        if m in ('reduce', 'accumulate'):
            for n, v in zip(names, a[1:]):
                k[n] = v
            a = a[:1]
        return dispatch_ufunc(self._uf, m, a, k)

    def reduce(self, *a, **k):
        return self._m('reduce', a, k)

    def accumulate(self, *a, **k):
        return self._m('accumulate', a, k)

    def outer(self, *a, **k):
        return self._m('outer', a, k)

    def at(self, *a, **k):
        return self._m('at', a, k)

    def __getattr__(self, n):
        return getattr(self._uf, n)


# --------------------------------------------------------------- np.ma
class MaskedProxy(TypeProxy):
    pass


def ma_array(data, mask=np.ma.nomask, dtype=None, copy=False, subok=True, ndmin=0, fill_value=None,
             keep_mask=True, hard_mask=None, shrink=True, order=None):
    base = data
    om = data._mask if isinstance(data, SymMasked) else None
    d = toarr(data, todt(dtype))
    if copy:
        d = d.copy()
    if mask is np.ma.nomask or (mask is False):
        r = SymMasked.make(d, None if om is None else om, fill_value)
        if om is not None:
            r._mask_ = om if not copy else om.copy()
            r._nomask = base._nomask
        return r
    m = mask
    if isinstance(m, SymArray):
        m = fix_index(astype(m, B1, False))
    elif m is True or isinstance(m, (np.bool_, bool)):
        m = np.full(d.shape, bool(m))
    elif isinstance(m, Sym):
        m = np.full(d.shape, bool(m))
    else:
        m = fix_index(toarr(m, B1))
    m = np.array(m, dtype=bool, copy=True if copy else None)
    if m.shape != d.shape:
        if m.size == 1:
            m = np.full(d.shape, bool(m.reshape(-1)[0]))
        elif m.size == d.size:
            m = m.reshape(d.shape)
        else:
            raise np.ma.MaskError('Mask and data not compatible: data size is %i, mask size is %i.' % (d.size, m.size))
    if om is not None and keep_mask:
        m = m | om
    r = SymMasked.make(d, m, fill_value)
    r._mask_ = m
    return r


def ma_getmask(a):
    if isinstance(a, SymMasked):
        return np.ma.nomask if a._nomask else a._mask
    return np.ma.nomask


def ma_getmaskarray(a):
    return a._mask if isinstance(a, SymMasked) else np.zeros(shape(a), dtype=bool)


def ma_getdata(a, subok=True):
    return toarr(a)


def ma_count(a, axis=None, keepdims=False):
    if isinstance(a, SymMasked):
        return a.count(axis)
    a = toarr(a)
    if axis is None:
        return a.size
    return a.shape[axis]


def ma_filled(a, fill_value=None):
    return a.filled(fill_value) if isinstance(a, SymMasked) else toarr(a)


def ma_compressed(a):
    return a.compressed() if isinstance(a, SymMasked) else toarr(a).reshape(-1)


def ma_where(cond_op):
    def f(a, v, copy=True):
        a = arrz(a)
        return ma_array(a, mask=fix_index(toarr(dispatch_ufunc(cond_op, '__call__', (toarr(a), v), {}))), copy=copy)
    return f


def build_ma():
    m = types.ModuleType('numpy.ma')
    T = MaskedProxy(np.ma.MaskedArray, ma_array, None)
    m.MaskedArray = m.masked_array = T
    m.array = ma_array
    m.asarray = m.asanyarray = lambda a, *k: a if isinstance(a, SymMasked) else ma_array(a)
    m.masked = np.ma.masked
    m.nomask = np.ma.nomask
    m.getmask = ma_getmask
    m.getmaskarray = ma_getmaskarray
    m.getdata = ma_getdata
    m.count = ma_count
    m.filled = ma_filled
    m.compressed = ma_compressed
    m.isMaskedArray = m.isMA = m.isarray = lambda a: isinstance(a, SymMasked)
    m.is_masked = lambda a: isinstance(a, SymMasked) and bool(a._mask.any())
    m.count_masked = lambda a, axis=None: int(ma_getmaskarray(a).sum()) if axis is None else toarr(ma_getmaskarray(a).sum(axis=axis))
    m.masked_where = lambda c, a, copy=True: ma_array(a, mask=fix_index(toarr(c)), copy=copy)
    m.masked_equal = ma_where(np.equal)
    m.masked_less = ma_where(np.less)
    m.masked_greater = ma_where(np.greater)
    m.masked_invalid = lambda a, copy=True: ma_array(a, mask=fix_index(dispatch_ufunc(np.isnan, '__call__', (toarr(a),), {})), copy=copy)
    m.MaskError = np.ma.MaskError
    for n in ('mean', 'std', 'var', 'sum', 'min', 'max', 'median', 'ravel', 'transpose', 'argmax', 'argmin', 'prod', 'all', 'any', 'cumsum', 'ptp', 'average'):
        def f(a, *k, _n=n, **kw):
            a = a if isinstance(a, SymMasked) else ma_array(a)
            return TABLE[_n](a, *k, **kw) if _n in ('median', 'ravel', 'transpose', 'average') else getattr(a, _n)(*k, **kw)
        setattr(m, n, f)
    for n in ('zeros', 'ones', 'empty'):
        setattr(m, n, lambda *a, _n=n, **k: ma_array(TABLE[_n](*a, **k)))
    for n in ('sqrt', 'abs', 'absolute', 'add', 'subtract', 'multiply', 'divide', 'log', 'exp', 'maximum', 'minimum'):
        if n in ('maximum', 'minimum', 'add', 'subtract', 'multiply', 'divide'):
            setattr(m, n, lambda a, b, _u=getattr(np, n): dispatch_ufunc(_u, '__call__', (ma_array(a), b), {}))
        else:
            setattr(m, n, lambda a, _u=getattr(np, n): dispatch_ufunc(_u, '__call__', (ma_array(a),), {}))
    m.core = m

    def ga(n):
        raise Unsupported('numpy.ma.' + n)
    m.__getattr__ = ga
    return m


# --------------------------------------------------------------- random
class Hook(object):
    """numpy.random functions provided by the harness."""
    funcs = {}


def build_random():
    m = types.ModuleType('numpy.random')

    def ga(n):
        if n.startswith('__'):
            raise AttributeError(n)

        def call(*a, **k):
            f = Hook.funcs.get(n)
            if f is None:
                raise Unsupported('numpy.random.' + n)
            return f(*a, **k)
        return call
    m.__getattr__ = ga
    return m


# --------------------------------------------------------------- modules
def array_function(func, args, kwargs):
    mod = getattr(func, '__module__', '')
    name = func.__name__
    key = name
    if mod.startswith('numpy.linalg'):
        key = 'linalg.' + name
    elif mod.startswith('numpy.fft'):
        key = 'fft.' + name
    f = TABLE.get(key)
    if f is not None:
        return f(*args, **kwargs)
    return fallback(func, name)(*args, **kwargs)


def fallback(real_f, name):
    def f(*a, **k):
        if name.startswith('random'):
            raise Unsupported(name)
        if is_const(a) and is_const(k):
            return symbolic(real_f(*concrete(a), **concrete(k)))
        raise Unsupported('numpy.' + name)
    f.__name__ = name
    return f


class Errstate(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def np_dtype(x=None, *a, **k):
    if isinstance(x, np.dtype):
        return x
    return todt(x) if x is not None else F8


def sub(name, real, table):
    m = types.ModuleType(name)
    for n, v in table.items():
        setattr(m, n, v)

    def ga(n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(real, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            return v
        if callable(v):
            return fallback(v, '%s.%s' % (name, n))
        return v
    m.__getattr__ = ga
    return m


def build_np():
    m = types.ModuleType('numpy')
    m.__path__ = []
    m._sx_shim = True
    for n in dir(np):
        if n.startswith('__'):
            continue
        try:
            v = getattr(np, n)
        except Exception:
            continue
        if isinstance(v, np.ufunc):
            setattr(m, n, UfuncProxy(v))
        elif isinstance(v, type) and issubclass(v, np.generic):
            try:
                dt = np.dtype(v)
            except TypeError:
                setattr(m, n, v)
                continue
            if dt.kind in 'biufc' and not v.__module__ == 'numpy.generic' and v not in (
                    np.integer, np.floating, np.number, np.inexact, np.signedinteger, np.unsignedinteger,
                    np.complexfloating):
                setattr(m, n, TypeProxy(v, _np_scalar(dt), dt))
            else:
                setattr(m, n, v)
        elif isinstance(v, types.ModuleType):
            continue
        elif isinstance(v, (type,)):
            setattr(m, n, v)
        elif callable(v):
            setattr(m, n, fallback(v, n))
        else:
            setattr(m, n, v)
    for n, v in TABLE.items():
        if '.' not in n:
            setattr(m, n, v)
    m.vectorize = Vectorize
    m.errstate = Errstate
    m.seterr = m.seterrcall = m.set_printoptions = lambda *a, **k: {}
    m.dtype = TypeProxy(np.dtype, np_dtype, None)
    m.dtype = np_dtype
    m.ndarray = np.ndarray
    m.finfo = lambda d: np.finfo(todt(d))
    m.iinfo = lambda d: np.iinfo(todt(d) if not isinstance(d, (Sym, SymArray)) else d.dtype)
    m.issubdtype = lambda a, b: np.issubdtype(unproxy(a) if not isinstance(a, np.dtype) else a, unproxy(b))
    m.result_type = lambda *a: np.result_type(*[x._ldt if isinstance(x, SymArray) else
                                                npdt(x.dt) if isinstance(x, Sym) else todt(x) if isinstance(x, TypeProxy) else x for x in a])
    m.promote_types = lambda a, b: np.promote_types(todt(a), todt(b))
    m.can_cast = lambda a, b, c='safe': np.can_cast(a._ldt if isinstance(a, SymArray) else todt(a), todt(b), c)
    m.ndindex, m.newaxis, m.pi, m.e, m.inf, m.nan = np.ndindex, None, np.pi, np.e, np.inf, np.nan
    m.s_, m.index_exp = np.s_, np.index_exp

    def ndenumerate(a):
        a = toarr(a)
        for i in np.ndindex(*a.shape):
            yield i, raw(a)[i]
    m.ndenumerate = ndenumerate

    def nditer(a, *k, **kw):
        if k or kw:
            raise Unsupported('nditer')
        return iter(toarr(a).flat)
    m.nditer = nditer

    def fill_diagonal(a, v, wrap=False):
        for i in range(min(a.shape)):
            a[i, i] = v
    m.fill_diagonal = fill_diagonal

    def copyto(dst, src, casting='same_kind', where=True):
        if where is not True:
            s = np.broadcast_to(raw(toarr(src)), dst.shape)
            w = np.broadcast_to(fix_index(toarr(where)), dst.shape)
            for i in np.ndindex(*dst.shape):
                if w[i]:
                    dst[i] = s[i]
        else:
            dst[...] = src
    m.copyto = copyto
    m.ma = build_ma()
    m.random = build_random()
    m.linalg = sub('linalg', np.linalg, {'lstsq': lstsq, 'solve': linalg_solve, 'inv': linalg_inv,
                                         'det': linalg_det, 'norm': linalg_norm, 'LinAlgError': np.linalg.LinAlgError})
    TABLE.update({'linalg.lstsq': lstsq, 'linalg.solve': linalg_solve, 'linalg.norm': linalg_norm})
    ff = {'fft': _fft(), 'ifft': _fft(True), 'rfft': _fft(half=True), 'fftfreq': _fftfreq(False), 'rfftfreq': _fftfreq(True)}
    m.fft = sub('fft', np.fft, ff)
    for k, v in ff.items():
        TABLE['fft.' + k] = v
    pp = sub('polynomial.polynomial', np.polynomial.polynomial, {'polyfit': poly_polyfit, 'polyval': poly_polyval})
    m.polynomial = types.ModuleType('numpy.polynomial')
    m.polynomial.polynomial = pp
    m.linalg.__name__, m.fft.__name__ = 'numpy.linalg', 'numpy.fft'
    m.exceptions = np.exceptions
    m.testing = sub('testing', np.testing, {})
    m.lib = np.lib

    def ga(n):
        # attributes that numpy itself does not have (np.int, np.float, ...) fail as in numpy
        return getattr(np, n)
    m.__getattr__ = ga
    return m


NP = build_np()


def _m1(f):
    """math function on floats"""
    def g(x):
        r = f(x)
        return mk(r.e, float)
    return g


def _msqrt(x):
    x = lift(x)
    if sym.decide(sym.s_cmp(x, '<', mk(0, int))):
        raise ValueError('math domain error')
    return mk(sym.s_sqrt(mk(sym.num(x.e), float)).e, float)


def _mlog(which):
    def g(x, base=None):
        x = lift(x)
        if sym.decide(sym.s_cmp(x, '<=', mk(0, int))):
            raise ValueError('math domain error')
        r = sym.s_log(mk(sym.num(x.e), float), which)
        if base is not None:
            r = sym.s_truediv(r, sym.s_log(mk(sym.num(lift(base).e), float)))
        return mk(r.e, float)
    return g


def build_math():
    from . import text
    m = types.ModuleType('math')
    for n in dir(math):
        if not n.startswith('__'):
            v = getattr(math, n)
            setattr(m, n, fallback(v, 'math.' + n) if callable(v) else v)
    m.sqrt = _msqrt
    m.log, m.log10, m.log2 = _mlog('ln'), _mlog('log10'), _mlog('log2')
    m.exp = lambda x: mk(arr._exp(mk(sym.num(lift(x).e), float)).e, float)

    def toint(f):
        def g(x):
            x = lift(x)
            if sym.nonfinite(x.e):
                return int(x.e)
            r = text.to_int(f(mk(sym.num(x.e), float)))
            return r
        return g
    m.floor, m.ceil, m.trunc = toint(sym.s_floor), toint(sym.s_ceil), toint(sym.s_trunc)
    m.fabs = lambda x: mk(sym.s_abs(lift(x)).e, float)
    m.pow = lambda a, b: mk(sym.s_pow(mk(sym.num(lift(a).e), float), lift(b)).e, float)
    m.isnan = lambda x: bool(arr._isnan(x).e)
    m.isinf = lambda x: bool(arr._isinf(x).e)
    m.isfinite = lambda x: bool(arr._isfinite(x).e)
    m.fsum = lambda xs: mk(sum(xs, lift(0.0)).e, float)
    m.hypot = lambda a, b: _msqrt(lift(a) * a + lift(b) * b)
    m.copysign = lambda a, b: sym.s_abs(a) if sym.decide(sym.s_cmp(lift(b), '>=', mk(0, int))) else sym.s_neg(sym.s_abs(a))
    m.isclose = lambda a, b, rel_tol=Fraction(1, 10 ** 9), abs_tol=0: bool(sym.s_abs(lift(a) - b) <= max(lift(rel_tol) * max(abs(a), abs(b)), lift(abs_tol)))
    return m


MATH = build_math()


def build_scipy():
    import scipy.optimize
    import scipy.ndimage
    import scipy.signal
    opt = sub('scipy.optimize', scipy.optimize, {'leastsq': leastsq, 'curve_fit': curve_fit, 'least_squares': least_squares})
    nd = sub('scipy.ndimage', scipy.ndimage, {'convolve': nd_convolve, 'correlate': nd_correlate, 'uniform_filter': nd_uniform})
    sg = sub('scipy.signal', scipy.signal, {'convolve2d': sig_convolve2d})
    st = types.ModuleType('scipy.stats')
    st.linregress = linregress
    fm = sub('scipy.fft', np.fft, {'fft': _fft(), 'ifft': _fft(True), 'rfft': _fft(half=True)})
    la = sub('scipy.linalg', np.linalg, {'lstsq': lstsq, 'solve': linalg_solve})
    s = types.ModuleType('scipy')
    s.__path__ = []
    s.optimize, s.ndimage, s.signal, s.stats, s.fft, s.linalg = opt, nd, sg, st, fm, la
    return {'scipy': s, 'scipy.optimize': opt, 'scipy.ndimage': nd, 'scipy.signal': sg, 'scipy.stats': st,
            'scipy.fft': fm, 'scipy.linalg': la}


MODULES = {'numpy': NP, 'numpy.ma': NP.ma, 'numpy.linalg': NP.linalg, 'numpy.fft': NP.fft,
           'numpy.random': NP.random, 'numpy.polynomial': NP.polynomial,
           'numpy.polynomial.polynomial': NP.polynomial.polynomial, 'math': MATH}
MODULES.update(build_scipy())
NP.ma.core = NP.ma
