"""Arrays of symbolic scalars: an ndarray subclass with a logical dtype, and masked arrays."""
import builtins
import itertools
import numpy as np
import z3
from . import sym, core
from .core import Unsupported
from .sym import Sym, CSym, mk, lift, kind, isweak, promote, B1, I8, F8, C16

O = np.dtype(object)


def todt(x):
    """A numpy dtype (or object dtype) for any dtype-like, including proxies."""
    if x is None:
        return None
    if isinstance(x, np.dtype):
        return x
    r = getattr(x, '_sx_dtype', None)
    if r is not None:
        return r
    return np.dtype(x)


def npdt(dt):
    """numpy dtype of a (possibly weak) type when stored in an array."""
    if dt is int:
        return I8
    if dt is float:
        return F8
    if dt is bool:
        return B1
    return dt


def raw(x):
    """base object ndarray view of a SymArray"""
    return x.view(np.ndarray) if isinstance(x, np.ndarray) else x


class SymArray(np.ndarray):
    _ldt = None

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._ldt = getattr(obj, '_ldt', None)

    # --- attributes
    @property
    def dtype(self):
        return self._ldt if self._ldt is not None else np.ndarray.dtype.__get__(self)

    @property
    def itemsize(self):
        return self._ldt.itemsize

    @property
    def nbytes(self):
        return self._ldt.itemsize * self.size

    @property
    def real(self):
        if self._ldt.kind == 'c':
            return mapel(lambda x: x.real, self, F8)
        return self

    @property
    def imag(self):
        if self._ldt.kind == 'c':
            return mapel(lambda x: x.imag, self, F8)
        return mapel(lambda x: mk(0, self._ldt), self, self._ldt)

    @property
    def flat(self):
        return Flat(self)

    # --- dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.array_function(func, args, kwargs)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        return arr

    # --- indexing
    def __getitem__(self, i):
        r = np.ndarray.__getitem__(raw(self), fix_index(i))
        if isinstance(r, np.ndarray):
            return wrap(r, self._ldt)
        return r

    def __setitem__(self, i, v):
        if isinstance(i, SymArray) and i._ldt.kind == 'b' and i.shape == self.shape \
                and not isinstance(i, SymMasked) and builtins.any(not isinstance(x.e, bool) for x in raw(i).flat):
            val = None
            if np.ndim(v) == 0:
                val = sym.cast(lift(v if not isinstance(v, np.ndarray) else v[()]), self._ldt)
            if val is not None and not sym_nonfinite(val):
                r = raw(self)
                m = raw(i)
                for idx in np.ndindex(*self.shape):
                    r[idx] = sym.s_ite(m[idx].e, val, r[idx])
                return
        i = fix_index(i)
        if isinstance(v, SymMasked):
            v = v.filled()
        if sym.can_lift(v) or isinstance(v, (CSym, complex)):
            val = cast_store(lift(v[()] if isinstance(v, np.ndarray) else v), self._ldt)
            r = raw(self)
            if isinstance(np.ndarray.__getitem__(r, i), np.ndarray):
                tmp = np.empty((1,), dtype=object)
                tmp[0] = val
                np.ndarray.__setitem__(r, i, tmp if r.ndim and np.ndarray.__getitem__(r, i).ndim else val)
            else:
                np.ndarray.__setitem__(r, i, val)
            return
        a = toarr(v)
        a = astype(a, self._ldt)
        np.ndarray.__setitem__(raw(self), i, raw(a))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for k in range(self.shape[0]):
            yield self[k]

    def __contains__(self, v):
        return bool(reduce_any((self == v).reshape(-1)))

    # --- python conversions
    def _one(self, what):
        if self.size != 1:
            raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
        return raw(self).reshape(-1)[0]

    def __bool__(self):
        if self.size == 0:
            raise ValueError('The truth value of an empty array is ambiguous.')
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(self._one('bool'))

    def __float__(self):
        return float(self._one('float'))

    def __int__(self):
        return int(self._one('int'))

    def __index__(self):
        if self.ndim != 0:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return self._one('index').__index__()

    def __complex__(self):
        return complex(self._one('complex'))

    def __round__(self, n=0):
        return self.round(n)

    def __repr__(self):
        return 'SymArray(shape=%s, dtype=%s)' % (self.shape, self._ldt)
    __str__ = __repr__

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self[()], spec)
        raise TypeError('unsupported format string passed to numpy.ndarray.__format__')

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    # --- conversion methods
    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        d = todt(dt)
        if casting != 'unsafe' and not np.can_cast(self._ldt, d, casting):
            raise TypeError('Cannot cast array data from %r to %r according to the rule %r'
                            % (self._ldt, d, casting))
        return astype(self, d, copy)

    def view(self, *a, **k):
        if not a and not k:
            return self[...]
        t = a[0] if a else k.get('dtype', k.get('type'))
        if t is np.ndarray or (isinstance(t, type) and issubclass(t, np.ndarray)):
            return np.ndarray.view(self, t)
        raise Unsupported('array view with dtype')

    def tolist(self):
        def rec(x):
            if x.ndim == 0:
                return x[()].item()
            return [rec(y) if isinstance(y, np.ndarray) else y.item() for y in x]
        return rec(self)

    def item(self, *a):
        r = np.ndarray.item(raw(self), *a)
        return r.item() if isinstance(r, Sym) else r

    def tobytes(self, *a):
        raise Unsupported('tobytes')
    tofile = tostring = tobytes

    def byteswap(self, *a):
        raise Unsupported('byteswap')

    def fill(self, v):
        self[...] = v

    def copy(self, order='C'):
        return wrap(np.ndarray.copy(raw(self)), self._ldt)

    def flatten(self, order='C'):
        return wrap(np.ndarray.flatten(raw(self), order), self._ldt)

    def conjugate(self):
        return dispatch_ufunc(np.conjugate, '__call__', (self,), {})
    conj = conjugate

    # --- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_ufunc(np.add, self, axis, dtype, out, keepdims, initial, where)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_ufunc(np.multiply, self, axis, dtype, out, keepdims, initial, where)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_ufunc(np.maximum, self, axis, None, out, keepdims, initial, where)

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_ufunc(np.minimum, self, axis, None, out, keepdims, initial, where)

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_ufunc(np.logical_or, self, axis, None, out, keepdims, None, where)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_ufunc(np.logical_and, self, axis, None, out, keepdims, None, where)

    def ptp(self, axis=None, out=None, keepdims=False):
        return self.max(axis=axis, keepdims=keepdims) - self.min(axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return outto(mean(self, axis, dtype, keepdims, where), out)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=None, correction=None):
        return outto(var(self, axis, dtype, ddof if correction is None else correction, keepdims, where), out)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=None, correction=None):
        v = var(self, axis, dtype, ddof if correction is None else correction, keepdims, where)
        return outto(dispatch_ufunc(np.sqrt, '__call__', (v,), {}), out)

    def argmax(self, axis=None, out=None, keepdims=False):
        return argbest(self, '>', axis, keepdims)

    def argmin(self, axis=None, out=None, keepdims=False):
        return argbest(self, '<', axis, keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return outto(accumulate(np.add, self, axis, dtype), out)

    def cumprod(self, axis=None, dtype=None, out=None):
        return outto(accumulate(np.multiply, self, axis, dtype), out)

    def round(self, decimals=0, out=None):
        return outto(mapel(lambda x: sym.s_round(x, int(decimals)), self, self._ldt), out)

    def clip(self, min=None, max=None, out=None, **kw):
        from . import npshim
        return npshim.clip(self, min, max, out=out, **kw)

    def nonzero(self):
        if self.ndim == 0:
            raise ValueError('Calling nonzero on 0d arrays is not allowed.')
        hit = [idx for idx in np.ndindex(*self.shape) if sym.decide(sym.truth(raw(self)[idx]))]
        return tuple(mkarr([mk(h[d], I8) for h in hit], I8, (len(hit),)) for d in range(self.ndim))

    def sort(self, axis=-1, kind=None, order=None, stable=None):
        from . import npshim
        self[...] = npshim.sort(self, axis)

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        from . import npshim
        return npshim.argsort(self, axis)

    def dot(self, b, out=None):
        return matmul(self, b, dot=True)

    def searchsorted(self, v, side='left', sorter=None):
        from . import npshim
        return npshim.searchsorted(self, v, side)

    def repeat(self, n, axis=None):
        return wrap(np.repeat(raw(self), fix_index(n), axis), self._ldt)

    def take(self, i, axis=None, out=None, mode='raise'):
        r = np.take(raw(self), fix_index(i), axis, mode=mode)
        return wrap(r, self._ldt) if isinstance(r, np.ndarray) else r

    def compress(self, c, axis=None):
        return wrap(np.compress(fix_index(toarr(c)), raw(self), axis), self._ldt)

    def diagonal(self, *a, **k):
        return wrap(np.diagonal(raw(self), *a, **k).copy(), self._ldt)

    def trace(self):
        return self.diagonal().sum()

    def setfield(self, *a):
        raise Unsupported('setfield')
    getfield = setfield

    def put(self, ind, v, mode='raise'):
        f = self.reshape(-1)
        f[ind] = v
        if f.base is not self and not np.shares_memory(raw(f), raw(self)):
            raise Unsupported('put on a non-contiguous array')


class Flat(object):
    def __init__(self, a):
        self.a = a
        self.idx = list(np.ndindex(*a.shape))
        self.k = 0

    def __iter__(self):
        for i in self.idx:
            yield raw(self.a)[i]

    def __next__(self):
        if self.k >= len(self.idx):
            raise StopIteration
        self.k += 1
        return raw(self.a)[self.idx[self.k - 1]]

    def __len__(self):
        return len(self.idx)

    def __getitem__(self, k):
        return self.a.flatten()[k]

    def __setitem__(self, k, v):
        sel = np.arange(len(self.idx))[fix_index(k)]
        if np.ndim(sel) == 0:
            self.a[self.idx[int(sel)]] = v
            return
        vv = toarr(v).reshape(-1)
        for j, s in enumerate(sel):
            self.a[self.idx[int(s)]] = vv[j % len(vv)]

    def __array__(self, *a, **k):
        raise Unsupported('flat as array')


def sym_nonfinite(s):
    return isinstance(s, CSym) or sym.nonfinite(s.e)


def cast_store(s, dt):
    """value stored by assignment: python ints out of range raise."""
    if isinstance(s, Sym) and s.dt is int and dt.kind in 'iu' and not core.isn(s.e):
        lo, hi = sym.irange(dt)
        if not lo <= s.e <= hi:
            raise OverflowError('Python integer %d out of bounds for %s' % (s.e, dt))
    return sym.cast(s, dt)


def wrap(objarr, ldt=None):
    """SymArray over an object ndarray of Syms."""
    r = np.ndarray.view(objarr, SymArray)
    if ldt is None:
        ldt = infer(objarr)
    r._ldt = ldt
    return r


def infer(objarr):
    ldt = None
    for x in objarr.reshape(-1):
        d = npdt(x.dt)
        if ldt is None:
            ldt = d
        elif d != ldt:
            ldt = np.promote_types(ldt, d)
    return F8 if ldt is None else ldt


def mkarr(lst, ldt, shape):
    """SymArray from a flat list of Syms (cast to ldt if given)."""
    a = np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        a[i] = x
    if ldt is None:
        ldt = infer(a)
    for i, x in enumerate(lst):
        if x.dt is not ldt:
            a[i] = sym.cast(x, ldt)
    r = np.ndarray.view(a.reshape(shape), SymArray)
    r._ldt = ldt
    return r


def toarr(x, dt=None):
    """SymArray (never masked) from anything array-like; no copy for SymArrays."""
    if isinstance(x, SymMasked):
        x = x._data
    if isinstance(x, SymArray):
        return x if dt is None or x._ldt == dt else astype(x, dt)
    if isinstance(x, (Sym, CSym)):
        s = x if dt is None else sym.cast(x, dt)
        return mkarr([s], dt, ())
    if hasattr(x, '__sx_array__'):
        x = x.__sx_array__()
        return x.copy() if dt is None else astype(x, dt)
    if isinstance(x, np.ndarray):
        if np.ndarray.dtype.__get__(x) == O:
            els = [lift(e) for e in x.reshape(-1)]
            return mkarr(els, dt, x.shape)
        if x.dtype.kind not in 'biufc':
            raise Unsupported('array of %s' % x.dtype)
        els = [mk_const(e, x.dtype) for e in x.reshape(-1)]
        r = mkarr(els, x.dtype, x.shape)
        return r if dt is None or dt == x.dtype else astype(r, dt)
    if isinstance(x, Flat):
        return x.a.flatten()
    if isinstance(x, (bool, int, float, complex, np.generic)) or sym.can_lift(x):
        return toarr(lift(x), dt)
    if isinstance(x, (list, tuple, range)):
        return from_seq(x, dt)
    if isinstance(x, str):
        if dt is not None and dt.kind in 'fiu':
            from . import text
            return toarr(sym.cast(text.to_float(x) if dt.kind == 'f' else text.to_int(x), dt), dt)
        raise Unsupported('string array')
    if hasattr(x, '__array__'):
        return toarr(np.asarray(x), dt)
    if hasattr(x, '__len__') and hasattr(x, '__getitem__') and not isinstance(x, dict):
        return from_seq(list(x), dt)
    raise Unsupported('array from %r' % type(x))


def mk_const(v, dt):
    if dt.kind == 'b':
        return mk(bool(v), dt)
    if dt.kind in 'iu':
        return mk(int(v), dt)
    if dt.kind == 'c':
        return lift(complex(v))
    v = float(v)
    return mk(core.snap(v) if np.isfinite(v) else v, dt)


def from_seq(x, dt=None):
    els = []

    def rec(s):
        if isinstance(s, (list, tuple, range)):
            shp = None
            for e in s:
                t = rec(e)
                if shp is None:
                    shp = t
                elif t != shp:
                    raise ValueError('setting an array element with a sequence. The requested array '
                                     'has an inhomogeneous shape')
            return (len(s),) + (shp or ())
        if isinstance(s, np.ndarray):
            a = toarr(s)
            els.extend(raw(a).reshape(-1))
            return a.shape
        if isinstance(s, str):
            if dt is not None and dt.kind in 'fiu':
                from . import text
                els.append(text.to_float(s) if dt.kind == 'f' else lift(text.to_int(s)))
                return ()
            raise Unsupported('string array')
        if s is None:
            if dt is not None and dt.kind == 'f':
                els.append(mk(float('nan'), F8))
                return ()
            raise Unsupported('object array')
        if isinstance(s, (Sym, CSym)) or sym.can_lift(s) or isinstance(s, complex):
            els.append(lift(s))
            return ()
        if isinstance(s, Flat) or hasattr(s, '__array__') or (hasattr(s, '__len__') and not isinstance(s, dict)):
            a = toarr(s)
            els.extend(raw(a).reshape(-1))
            return a.shape
        raise Unsupported('array element %r' % type(s))
    shape = rec(x)
    if dt is None and els:
        d = None
        for e in els:
            d = e.dt if d is None else promote(d, e.dt)
        dt = npdt(d)
    return mkarr(els, dt if dt is not None else F8, shape)


def astype(a, dt, copy=True):
    if isinstance(a, SymMasked):
        r = astype(a._data, dt, copy)
        return SymMasked.make(r, a._mask.copy(), a._fill)
    if a._ldt == dt:
        return a.copy() if copy else a
    if dt == O:
        return raw(a).copy()
    if dt.kind not in 'biufc':
        raise Unsupported('astype %s' % dt)
    return mapel(lambda x: sym.cast(x, dt), a, dt)


def mapel(f, a, ldt):
    r = np.empty(a.shape, dtype=object)
    s = raw(a)
    for i in np.ndindex(*a.shape):
        r[i] = f(s[i])
    w = wrap(r, ldt)
    if isinstance(a, SymMasked):
        return SymMasked.make(w, a._mask.copy(), a._fill)
    return w


def fix_index(i):
    if isinstance(i, tuple):
        return tuple(fix_index(j) for j in i)
    if isinstance(i, SymMasked):
        i = i._data
    if isinstance(i, SymArray):
        if i._ldt.kind == 'b':
            r = np.empty(i.shape, dtype=bool)
            for k in np.ndindex(*i.shape):
                r[k] = sym.decide(raw(i)[k].e)
            return r
        if i._ldt.kind not in 'iu':
            if i.size == 0:
                return np.zeros(i.shape, dtype=np.intp)
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        r = np.empty(i.shape, dtype=np.intp)
        for k in np.ndindex(*i.shape):
            r[k] = raw(i)[k].__index__()
        return r if r.ndim else r[()]
    if isinstance(i, Sym):
        if kind(i.dt) == 'b':
            return sym.decide(sym.truth(i))
        if kind(i.dt) not in 'iu':
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                             'and integer or boolean arrays are valid indices')
        return i.__index__()
    if isinstance(i, list):
        return [fix_index(j) for j in i]
    if isinstance(i, slice):
        def f(x):
            if isinstance(x, (Sym, SymArray)):
                return x.__index__()
            return x
        return slice(f(i.start), f(i.stop), f(i.step))
    return i


def outto(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out, = out
    if not isinstance(out, SymArray):
        raise Unsupported('out= of a foreign array')
    a = toarr(r)
    if not np.can_cast(a._ldt, out._ldt, 'same_kind'):
        raise TypeError("Cannot cast ufunc output from dtype('%s') to dtype('%s') with casting rule "
                        "'same_kind'" % (a._ldt, out._ldt))
    if isinstance(out, SymMasked):
        out._data[...] = a
        if isinstance(r, SymMasked):
            out._mask[...] = r._mask
        return out
    if a.shape != out.shape:
        b = np.broadcast_shapes(a.shape, out.shape)
        if b != out.shape:
            raise ValueError('non-broadcastable output operand')
    out[...] = a
    return out


# --------------------------------------------------------------- ufuncs
def _b(c):
    return mk(c, B1)


def _logical(f):
    def g(a, b):
        return _b(f(sym.truth(lift(a)), sym.truth(lift(b))))
    return g


def _sign(a):
    a = lift(a)
    if sym.nonfinite(a.e):
        return a if a.e != a.e else mk(1 if a.e > 0 else -1, a.dt)
    pos = sym.s_cmp(a, '>', mk(0, int))
    neg = sym.s_cmp(a, '<', mk(0, int))
    return mk(core.ite(pos, 1, core.ite(neg, -1, 0)), a.dt)


def _isnan(a):
    a = lift(a)
    if isinstance(a, CSym):
        return _b(sym.zor(_isnan(a.re).e, _isnan(a.im).e))
    return _b(sym.nonfinite(a.e) and a.e != a.e)


def _isfinite(a):
    a = lift(a)
    if isinstance(a, CSym):
        return _b(sym.zand(_isfinite(a.re).e, _isfinite(a.im).e))
    return _b(not sym.nonfinite(a.e))


def _isinf(a):
    a = lift(a)
    return _b(sym.nonfinite(a.e) and a.e == a.e)


def _trig(name):
    f = getattr(np, name)

    def g(a):
        a = lift(a)
        if not sym.isconst(a.e):
            raise Unsupported(name)
        return mk(core.snap(float(f(float(sym.num(a.e))))), sym._fdt(a))
    return g


def _fmod(a, b):
    a, b = lift(a), lift(b)
    q = sym.s_truediv(mk(sym.num(a.e), float), mk(sym.num(b.e), float))
    return mk(core.sub(sym.num(a.e), core.mul(sym.trunc(q.e), sym.num(b.e))), promote(a.dt, b.dt))


def _conj(a):
    a = lift(a)
    return a.conjugate()


def _fmax(a, b):
    a, b = lift(a), lift(b)
    if _isnan(a).e:
        return b
    if _isnan(b).e:
        return a
    return sym.s_max(a, b)


def _fmin(a, b):
    a, b = lift(a), lift(b)
    if _isnan(a).e:
        return b
    if _isnan(b).e:
        return a
    return sym.s_min(a, b)


def _cmpf(op):
    return lambda a, b: _b(sym.s_cmp(a, op, b))


def _exp(a):
    a = lift(a)
    if isinstance(a, CSym):
        raise Unsupported('complex exp')
    if sym.isconst(a.e) and not sym.nonfinite(a.e) and a.e != 0:
        with np.errstate(all='ignore'):
            v = float(np.exp(float(a.e)))
        return mk(core.snap(v) if np.isfinite(v) else v, sym._fdt(a))
    return sym.s_exp(a)


UF = {
    'add': sym.s_add, 'subtract': sym.s_sub, 'multiply': sym.s_mul,
    'divide': sym.s_truediv, 'true_divide': sym.s_truediv, 'floor_divide': sym.s_floordiv,
    'remainder': sym.s_mod, 'mod': sym.s_mod, 'fmod': _fmod,
    'negative': sym.s_neg, 'positive': lambda a: lift(a), 'absolute': sym.s_abs, 'abs': sym.s_abs,
    'fabs': sym.s_abs, 'power': sym.s_pow, 'float_power': sym.s_pow, 'pow': sym.s_pow,
    'square': lambda a: sym.s_mul(a, a),
    'sqrt': sym.s_sqrt, 'exp': _exp, 'log': sym.s_log,
    'log10': lambda a: sym.s_log(a, 'log10'), 'log2': lambda a: sym.s_log(a, 'log2'),
    'log1p': lambda a: sym.s_log(sym.s_add(a, mk(1, int))),
    'exp2': lambda a: sym.s_pow(mk(2, F8), a), 'expm1': lambda a: sym.s_sub(_exp(a), mk(1, int)),
    'reciprocal': lambda a: sym.s_truediv(mk(1, lift(a).dt), a),
    'rint': sym.s_rint, 'floor': sym.s_floor, 'ceil': sym.s_ceil, 'trunc': sym.s_trunc,
    'maximum': sym.s_max, 'minimum': sym.s_min, 'fmax': _fmax, 'fmin': _fmin,
    'equal': _cmpf('=='), 'not_equal': _cmpf('!='), 'less': _cmpf('<'), 'less_equal': _cmpf('<='),
    'greater': _cmpf('>'), 'greater_equal': _cmpf('>='),
    'logical_and': _logical(sym.zand), 'logical_or': _logical(sym.zor),
    'logical_not': lambda a: _b(sym.znot(sym.truth(lift(a)))),
    'logical_xor': _logical(lambda p, q: sym.zor(sym.zand(p, sym.znot(q)), sym.zand(sym.znot(p), q))),
    'bitwise_and': lambda a, b: lift(a) & b, 'bitwise_or': lambda a, b: lift(a) | b,
    'bitwise_xor': lambda a, b: lift(a) ^ b, 'invert': lambda a: ~lift(a),
    'bitwise_not': lambda a: ~lift(a), 'bitwise_invert': lambda a: ~lift(a),
    'left_shift': lambda a, b: lift(a) << b, 'right_shift': lambda a, b: lift(a) >> b,
    'isnan': _isnan, 'isfinite': _isfinite, 'isinf': _isinf, 'sign': _sign,
    'conjugate': _conj, 'conj': _conj, 'signbit': lambda a: _b(sym.s_cmp(a, '<', mk(0, int))),
    'sin': _trig('sin'), 'cos': _trig('cos'), 'tan': _trig('tan'), 'arctan': _trig('arctan'),
    'hypot': lambda a, b: sym.s_sqrt(sym.s_add(sym.s_mul(a, a), sym.s_mul(b, b))),
    'deg2rad': _trig('deg2rad'), 'radians': _trig('radians'),
}


def _indt(x):
    """type of an operand for promotion"""
    if isinstance(x, SymArray):
        return x._ldt
    return x.dt


def prep(x):
    """SymArray for array operands, Sym for scalars."""
    if isinstance(x, (SymArray, Sym, CSym)):
        return x
    if isinstance(x, np.ma.MaskedArray):
        return to_masked(x)
    if isinstance(x, np.ndarray):
        return toarr(x)
    if isinstance(x, (list, tuple, range, Flat)):
        return toarr(x)
    return lift(x)


_RDCACHE = {}


def result_dt(ufunc, ins, dtype=None):
    dts = tuple(_indt(x) for x in ins)
    key = (ufunc, dts, dtype)
    r = _RDCACHE.get(key)
    if r is None:
        args = tuple(bool_(d) for d in dts) + (None,) * ufunc.nout
        try:
            if dtype is not None:
                res = ufunc.resolve_dtypes(args, signature=(None,) * ufunc.nin + (dtype,))
            else:
                res = ufunc.resolve_dtypes(args)
            r = res[-1]
        except np._core._exceptions._UFuncNoLoopError as e:
            r = e
        except TypeError as e:
            r = e
        _RDCACHE[key] = r
    if isinstance(r, Exception):
        raise TypeError(str(r))
    return r


def bool_(d):
    return B1 if d is bool else d


def apply(ufunc, ins, dtype=None):
    """elementwise application to prepared operands (SymArray / Sym), unmasked."""
    f = UF.get(ufunc.__name__)
    if f is None:
        from . import npshim
        if npshim.is_const(list(ins)):
            return npshim.symbolic(ufunc(*npshim.concrete(list(ins)), **({} if dtype is None else {'dtype': dtype})))
        raise Unsupported('ufunc ' + ufunc.__name__)
    ldt = result_dt(ufunc, ins, dtype)
    arrs = [x for x in ins if isinstance(x, SymArray)]
    if dtype is not None and ldt.kind in 'fc':
        ins = [astype(x, ldt) if isinstance(x, SymArray) else sym.cast(x, ldt) for x in ins]
    if not arrs or all(x.ndim == 0 for x in arrs):
        vals = [raw(x)[()] if isinstance(x, SymArray) else x for x in ins]
        return sym.cast(f(*vals), ldt)
    shape = np.broadcast_shapes(*[x.shape for x in arrs])
    ops = []
    for x in ins:
        if isinstance(x, SymArray):
            ops.append(np.broadcast_to(raw(x), shape).reshape(-1))
        else:
            ops.append(itertools.repeat(x))
    r = np.empty(int(np.prod(shape)), dtype=object)
    for k, vals in zip(range(len(r)), zip(*ops)):
        # weak scalars stay weak: the element types decide as numpy does
        v = f(*vals)
        r[k] = v if v.dt is ldt else sym.cast(v, ldt)
    return wrap(r.reshape(shape), ldt)


def dispatch_ufunc(ufunc, method, inputs, kw):
    from . import npshim
    kw = dict(kw)
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    if ufunc is np.matmul and method == '__call__':
        return outto(matmul(*inputs), out)
    if ufunc.__name__ in ('divmod',) and method == '__call__':
        return (dispatch_ufunc(np.floor_divide, method, inputs, {}),
                dispatch_ufunc(np.remainder, method, inputs, {}))
    if ufunc.__name__ == 'modf' and method == '__call__':
        i = dispatch_ufunc(np.trunc, method, inputs, {})
        return dispatch_ufunc(np.subtract, method, (inputs[0], i), {}), i
    try:
        ins = [prep(x) for x in inputs]
    except TypeError:
        if ufunc.__name__ in ('equal', 'not_equal') and method == '__call__':
            return ufunc.__name__ == 'not_equal'
        raise
    if method == '__call__':
        where = kw.pop('where', True)
        dtype = todt(kw.pop('dtype', None))
        casting = kw.pop('casting', 'same_kind')
        kw.pop('order', None), kw.pop('subok', None)
        if kw:
            raise Unsupported('ufunc arguments %s' % sorted(kw))
        if any(isinstance(x, SymMasked) for x in ins):
            r = masked_apply(ufunc, ins, dtype)
        else:
            r = apply(ufunc, ins, dtype)
        if where is not True:
            if out is None:
                raise Unsupported('where= without out=')
            w = np.broadcast_to(fix_index(toarr(where)), out.shape)
            rr = np.broadcast_to(raw(toarr(r)), out.shape)
            for i in np.ndindex(*out.shape):
                if w[i]:
                    out[i] = rr[i]
            return out
        if out is not None and casting == 'unsafe':
            out[...] = r
            return out
        return outto(r, out)
    if method == 'reduce':
        a = ins[0]
        axis = kw.pop('axis', 0)
        if len(inputs) > 1:
            axis = inputs[1]
        a = toarr(a) if not isinstance(a, SymArray) else a
        return reduce_ufunc(ufunc, a, axis, kw.get('dtype'), out, kw.get('keepdims', False),
                            kw.get('initial'), kw.get('where', True))
    if method == 'accumulate':
        return outto(accumulate(ufunc, toarr(ins[0]), kw.get('axis', 0), kw.get('dtype')), out)
    if method == 'outer':
        a, b = toarr(ins[0]), toarr(ins[1])
        return apply(ufunc, [a.reshape(a.shape + (1,) * b.ndim), b])
    if method == 'at':
        a, idx = inputs[0], fix_index(inputs[1])
        b = toarr(inputs[2]) if len(inputs) > 2 else None
        flat = np.atleast_1d(np.asarray(idx))
        for k, i in enumerate(flat):
            i = int(i)
            a[i] = apply(ufunc, [a[i]] + ([b.reshape(-1)[k % b.size]] if b is not None else []))
        return None
    raise Unsupported('ufunc method ' + method)


_REDP = {'add', 'multiply'}


def norm_axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if not isinstance(axis, tuple):
        axis = (axis,)
    r = []
    for a in axis:
        a = a.__index__()
        if not -ndim <= a < ndim:
            raise np.exceptions.AxisError(a, ndim)
        r.append(a % ndim)
    return tuple(r)


def moved(a, axes):
    """(object ndarray with reduced axes last and flattened, kept shape)"""
    kept = [i for i in range(a.ndim) if i not in axes]
    t = np.transpose(raw(a), kept + list(axes))
    kshape = tuple(a.shape[i] for i in kept)
    n = int(np.prod([a.shape[i] for i in axes])) if axes else 1
    return t.reshape(kshape + (n,)), kshape


def keep(r, a, axes, keepdims):
    if keepdims:
        shp = tuple(1 if i in axes else a.shape[i] for i in range(a.ndim))
        return toarr(r).reshape(shp)
    return r


def fold(ufunc, els, ldt, initial=None):
    f = UF[ufunc.__name__]
    name = ufunc.__name__
    els = list(els)
    if initial is not None:
        els = [sym.cast(lift(initial), ldt)] + els
    if not els:
        if name == 'add':
            return mk(0, ldt) if ldt.kind != 'c' else lift(0j)
        if name == 'multiply':
            return mk(1, ldt)
        if name == 'logical_or':
            return _b(False)
        if name == 'logical_and':
            return _b(True)
        raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
    if ldt.kind != 'c' and name == 'add' and ldt.kind in 'iuf':
        vals = [sym.num(sym.cast(x, ldt).e) for x in els]
        if not any(sym.nonfinite(v) for v in vals):
            if ldt.kind in 'iu':
                return mk(sym.fit_int(core.sum_(vals), ldt), ldt)
            if ldt.itemsize >= 8:
                return mk(core.sum_(vals), ldt)
    acc = sym.cast(els[0], ldt) if name not in ('logical_or', 'logical_and') else _b(sym.truth(els[0]))
    for x in els[1:]:
        acc = f(acc, sym.cast(x, ldt) if name not in ('logical_or', 'logical_and') else x)
        acc = sym.cast(acc, ldt)
    return acc


def reduce_any(a):
    return fold(np.logical_or, raw(a).reshape(-1), B1)


def red_dt(ufunc, ldt, dtype):
    if dtype is not None:
        return todt(dtype)
    if ufunc.__name__ in _REDP:
        if ldt.kind == 'b':
            return I8
        if ldt.kind == 'i' and ldt.itemsize < 8:
            return I8
        if ldt.kind == 'u' and ldt.itemsize < 8:
            return np.dtype(np.uint64)
        return ldt
    if ufunc.__name__.startswith('logical'):
        return B1
    return ldt


def reduce_ufunc(ufunc, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if ufunc.__name__ not in UF:
        raise Unsupported('reduce ' + ufunc.__name__)
    if isinstance(initial, type(np._NoValue)):
        initial = None
    if isinstance(keepdims, type(np._NoValue)):
        keepdims = False
    if isinstance(where, type(np._NoValue)):
        where = True
    if isinstance(a, SymMasked):
        return masked_reduce(ufunc, a, axis, dtype, out, keepdims)
    axes = norm_axes(axis, a.ndim)
    ldt = red_dt(ufunc, a._ldt, dtype)
    if where is not True:
        w = np.broadcast_to(fix_index(toarr(where)), a.shape)
        ident = {'add': 0, 'multiply': 1, 'logical_or': False, 'logical_and': True}.get(ufunc.__name__, initial)
        if ident is None:
            raise ValueError('reduction operation with where needs an initial value')
        b = a.copy()
        for i in np.ndindex(*a.shape):
            if not w[i]:
                b[i] = ident
        a = b
    m, ks = moved(a, axes)
    if not ks:
        return outto(keep(fold(ufunc, m.reshape(-1), ldt, initial), a, axes, keepdims), out)
    r = np.empty(ks, dtype=object)
    for i in np.ndindex(*ks):
        r[i] = fold(ufunc, m[i], ldt, initial)
    return outto(keep(wrap(r, ldt), a, axes, keepdims), out)


def accumulate(ufunc, a, axis, dtype=None):
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    ldt = red_dt(ufunc, a._ldt, dtype)
    axis = norm_axes(axis, a.ndim)[0]
    r = np.empty(a.shape, dtype=object)
    src = np.moveaxis(raw(a), axis, 0)
    dst = np.moveaxis(r, axis, 0)
    f = UF[ufunc.__name__]
    for i in np.ndindex(*dst.shape[1:]):
        acc = None
        for k in range(dst.shape[0]):
            x = sym.cast(src[(k,) + i], ldt)
            acc = x if acc is None else sym.cast(f(acc, x), ldt)
            dst[(k,) + i] = acc
    return wrap(r, ldt)


def _mean_dt(ldt, dtype):
    if dtype is not None:
        return todt(dtype)
    if ldt.kind in 'biu':
        return F8
    return ldt


def mean(a, axis=None, dtype=None, keepdims=False, where=True):
    if isinstance(a, SymMasked):
        return masked_mean(a, axis, dtype, keepdims)
    axes = norm_axes(axis, a.ndim)
    ldt = _mean_dt(a._ldt, dtype)
    if where is not True and not isinstance(where, type(np._NoValue)):
        raise Unsupported('mean where=')
    s = reduce_ufunc(np.add, a, axis, ldt, None, bool(keepdims) if not isinstance(keepdims, type(np._NoValue)) else False)
    n = 1
    for i in axes:
        n *= a.shape[i]
    if n == 0:
        return mk(float('nan'), ldt) if isinstance(s, Sym) else mapel(lambda x: mk(float('nan'), ldt), s, ldt)
    d = mk(n, int)
    if isinstance(s, SymArray):
        return mapel(lambda x: sym.cast(sym.s_truediv(x, d), ldt), s, ldt)
    return sym.cast(sym.s_truediv(s, d), ldt)


def var(a, axis=None, dtype=None, ddof=0, keepdims=False, where=True):
    if isinstance(a, SymMasked):
        return masked_var(a, axis, dtype, ddof, keepdims)
    if isinstance(keepdims, type(np._NoValue)):
        keepdims = False
    axes = norm_axes(axis, a.ndim)
    ldt = _mean_dt(a._ldt, dtype)
    mu = mean(a, axes, dtype, True)
    d = apply(np.subtract, [a, toarr(mu)])
    if ldt.kind == 'c':
        raise Unsupported('complex variance')
    sq = apply(np.multiply, [d, d])
    s = reduce_ufunc(np.add, sq, axes, ldt, None, keepdims)
    n = 1
    for i in axes:
        n *= a.shape[i]
    ddof = lift(ddof)
    den = sym.s_max(sym.s_sub(mk(n, int), ddof), mk(0, int))

    def dv(x):
        return sym.cast(sym.s_truediv(x, mk(den.e, F8)), ldt)
    if isinstance(s, SymArray):
        return mapel(dv, s, ldt)
    return dv(s)


def best_index(els, op):
    """index (int, found by forking where needed) of the first best element."""
    n = len(els)
    if n == 0:
        raise ValueError('attempt to get argmax of an empty sequence')
    for i, x in enumerate(els):
        if sym.nonfinite(sym.num(x.e)) and x.e != x.e:
            return i
    best = 0
    for i in range(1, n):
        if sym.decide(sym.s_cmp(els[i], op, els[best])):
            best = i
    return best


def argbest(a, op, axis=None, keepdims=False):
    if isinstance(a, SymMasked):
        if axis is not None and a.ndim > 1:
            raise Unsupported('masked argmax with axis')
        idx = [k for k, m in enumerate(a._mask.reshape(-1)) if not m]
        if not idx:
            return mk(0, I8)
        els = [raw(a).reshape(-1)[k] for k in idx]
        return mk(idx[best_index(els, op)], I8)
    if axis is None or a.ndim == 1:
        r = mk(best_index(list(raw(a).reshape(-1)), op), I8)
        return keep(r, a, norm_axes(axis, a.ndim), keepdims)
    axes = norm_axes(axis, a.ndim)
    m, ks = moved(a, axes)
    r = np.empty(ks, dtype=object)
    for i in np.ndindex(*ks):
        r[i] = mk(best_index(list(m[i]), op), I8)
    return keep(wrap(r, I8), a, axes, keepdims)


def matmul(a, b, dot=False):
    a, b = toarr(a), toarr(b)
    if dot and (a.ndim == 0 or b.ndim == 0):
        return dispatch_ufunc(np.multiply, '__call__', (a, b), {})
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    ldt = np.promote_types(a._ldt, b._ldt)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('matmul of stacks')
    A = a.reshape(1, -1) if a.ndim == 1 else a
    B = b.reshape(-1, 1) if b.ndim == 1 else b
    if A.shape[1] != B.shape[0]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    ra, rb = raw(A), raw(B)
    r = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            r[i, j] = fold(np.add, [sym.cast(sym.s_mul(ra[i, k], rb[k, j]), ldt) for k in range(A.shape[1])], ldt)
    if a.ndim == 1:
        r = r[0]
        if b.ndim == 1:
            return r[0]
    elif b.ndim == 1:
        r = r[:, 0]
    return wrap(r, ldt)


# --------------------------------------------------------------- masked arrays
masked = np.ma.masked


class SymMasked(SymArray):
    """Masked array: an array over `_data` with a concrete boolean `_mask` of the same shape."""
    _mask_ = None
    _fill = None

    @staticmethod
    def make(data, mask, fill=None):
        r = np.ndarray.view(data, SymMasked)
        r._ldt = data._ldt
        m = np.zeros(data.shape, dtype=bool) if mask is None else np.array(mask, dtype=bool, copy=None)
        if m.shape != data.shape:
            m = np.broadcast_to(m, data.shape).copy()
        r._mask_ = m
        r._fill = fill
        r._nomask = mask is None
        return r

    _nomask = False

    def __array_finalize__(self, obj):
        self._ldt = getattr(obj, '_ldt', None)
        self._mask_ = None

    @property
    def _mask(self):
        if self._mask_ is None or self._mask_.shape != self.shape:
            raise Unsupported('masked array derived by an unmodelled operation')
        return self._mask_

    @property
    def mask(self):
        if self._nomask:
            return np.ma.nomask
        return self._mask

    @mask.setter
    def mask(self, m):
        if m is np.ma.nomask:
            self._mask[...] = False
            return
        self._nomask = False
        if m is masked:
            self._mask[...] = True
            return
        self._mask[...] = fix_index(toarr(m)) if not isinstance(m, (bool,)) else m

    @property
    def _data(self):
        return np.ndarray.view(self, SymArray)

    data = _data

    @property
    def fill_value(self):
        return default_fill(self._ldt) if self._fill is None else self._fill

    @fill_value.setter
    def fill_value(self, v):
        self._fill = v

    @property
    def T(self):
        return self.transpose()

    def _shape_op(self, f):
        d = f(raw(self))
        m = f(self._mask)
        r = SymMasked.make(wrap(d, self._ldt), m, self._fill)
        r._mask_ = m
        r._nomask = self._nomask
        return r

    def transpose(self, *a):
        return self._shape_op(lambda x: x.transpose(*a))

    def reshape(self, *a, **k):
        return self._shape_op(lambda x: x.reshape(*a, **k))

    def ravel(self, *a):
        return self._shape_op(lambda x: x.ravel(*a))

    def flatten(self, *a):
        return self._shape_op(lambda x: x.flatten(*a))

    def squeeze(self, *a):
        return self._shape_op(lambda x: x.squeeze(*a))

    def swapaxes(self, *a):
        return self._shape_op(lambda x: x.swapaxes(*a))

    def copy(self, order='C'):
        return self._shape_op(lambda x: x.copy())

    def view(self, *a, **k):
        if not a and not k:
            return self._shape_op(lambda x: x[...])
        return np.ndarray.view(self._data, a[0]) if a[0] in (np.ndarray, SymArray) else SymArray.view(self, *a, **k)

    def __getitem__(self, i):
        i = fix_index(i)
        d = np.ndarray.__getitem__(raw(self), i)
        m = self._mask[i]
        if isinstance(d, np.ndarray):
            r = SymMasked.make(wrap(d, self._ldt), m, self._fill)
            r._mask_ = m
            r._nomask = self._nomask
            return r
        return masked if m else d

    def __setitem__(self, i, v):
        i = fix_index(i)
        if v is masked:
            self._mask[i] = True
            self._nomask = False
            return
        if isinstance(v, SymMasked):
            SymArray.__setitem__(self._data, i, v._data)
            self._mask[i] = v._mask
            return
        SymArray.__setitem__(self._data, i, v)
        self._mask[i] = False

    def filled(self, fill_value=None):
        f = self.fill_value if fill_value is None else fill_value
        r = self._data.copy()
        rr = raw(r)
        if self._mask.any():
            fv = sym.cast(lift(f), self._ldt)
            for i in np.ndindex(*self.shape):
                if self._mask[i]:
                    rr[i] = fv
        return r

    def compressed(self):
        d = raw(self).reshape(-1)
        m = self._mask.reshape(-1)
        return mkarr([x for x, k in zip(d, m) if not k], self._ldt, (int((~m).sum()),))

    def count(self, axis=None, keepdims=False):
        if axis is None:
            return int((~self._mask).sum())
        return toarr((~self._mask).sum(axis=axis, keepdims=keepdims))

    def harden_mask(self):
        return self
    soften_mask = unshare_mask = shrink_mask = harden_mask

    def astype(self, dt, **k):
        return astype(self, todt(dt))

    def sort(self, *a, **k):
        raise Unsupported('masked sort')
    argsort = nonzero = dot = searchsorted = repeat = take = diagonal = sort

    def nonzero(self):
        return SymArray.nonzero(toarr(self.filled(0)))

    def cumsum(self, axis=None, dtype=None, out=None):
        r = SymArray.cumsum(self.filled(0), axis, dtype)
        m = self._mask.reshape(-1) if axis is None else self._mask
        return SymMasked.make(r, m.copy())

    def round(self, decimals=0, out=None):
        return mapel(lambda x: sym.s_round(x, int(decimals)), self, self._ldt)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def tolist(self):
        raise Unsupported('masked tolist')

    def __repr__(self):
        return 'SymMasked(shape=%s, dtype=%s)' % (self.shape, self._ldt)
    __str__ = __repr__

    def anom(self, axis=None):
        return self - self.mean(axis, keepdims=True) if axis is not None else self - self.mean()

    def __bool__(self):
        if self.size == 1 and self._mask.all():
            return False
        return SymArray.__bool__(self._data)


def default_fill(ldt):
    return {'b': True, 'i': 999999, 'u': 999999, 'f': 1e20}.get(ldt.kind, 1e20)


def to_masked(x):
    """SymMasked from a real masked array"""
    if isinstance(x, SymMasked):
        return x
    return SymMasked.make(toarr(x.data), np.ma.getmaskarray(x))


def getmaskof(x, shape):
    if isinstance(x, SymMasked):
        return np.broadcast_to(x._mask, shape)
    return None


def masked_apply(ufunc, ins, dtype=None):
    arrs = [x for x in ins if isinstance(x, SymArray)]
    shape = np.broadcast_shapes(*[x.shape for x in arrs])
    m = np.zeros(shape, dtype=bool)
    for x in ins:
        if isinstance(x, SymMasked):
            m = m | x._mask
    f = UF.get(ufunc.__name__)
    if f is None:
        raise Unsupported('ufunc ' + ufunc.__name__)
    ldt = result_dt(ufunc, [x for x in ins], dtype)
    ops = []
    for x in ins:
        if isinstance(x, SymArray):
            ops.append(np.broadcast_to(raw(x), shape))
        else:
            t = np.empty((), dtype=object)
            t[()] = x
            ops.append(np.broadcast_to(t, shape))
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        if m[i]:
            v = ops[0][i]
            r[i] = sym.cast(v, ldt) if not sym_nonfinite(v) or ldt.kind == 'f' else v
        else:
            r[i] = sym.cast(f(*[o[i] for o in ops]), ldt)
    w = SymMasked.make(wrap(r, ldt), m)
    w._nomask = all(x._nomask for x in ins if isinstance(x, SymMasked))
    if not shape:
        return masked if m[()] else r[()]
    return w


def masked_fold(a, axis, keepdims, f, ldt):
    """f(list of unmasked elements) along axis; masked where there are none."""
    axes = norm_axes(axis, a.ndim)
    d, ks = moved(a._data, axes)
    kept = [i for i in range(a.ndim) if i not in axes]
    m = np.transpose(a._mask, kept + list(axes)).reshape(d.shape)
    if not ks:
        els = [x for x, k in zip(d.reshape(-1), m.reshape(-1)) if not k]
        if not els:
            return masked
        r = f(els)
        return keep(r, a, axes, keepdims)
    r = np.empty(ks, dtype=object)
    rm = np.zeros(ks, dtype=bool)
    for i in np.ndindex(*ks):
        els = [x for x, k in zip(d[i], m[i]) if not k]
        if els:
            r[i] = f(els)
        else:
            rm[i] = True
            r[i] = mk(0, ldt) if ldt.kind != 'b' else _b(False)
    w = SymMasked.make(wrap(r, ldt), rm)
    if keepdims:
        return w.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return w


def masked_reduce(ufunc, a, axis=None, dtype=None, out=None, keepdims=False):
    if out is not None:
        raise Unsupported('masked reduction with out')
    ldt = red_dt(ufunc, a._ldt, dtype)
    return masked_fold(a, axis, keepdims, lambda els: fold(ufunc, els, ldt), ldt)


def masked_mean(a, axis=None, dtype=None, keepdims=False):
    if isinstance(keepdims, type(np._NoValue)):
        keepdims = False
    ldt = _mean_dt(a._ldt, dtype)
    return masked_fold(a, axis, keepdims, lambda els: sym.cast(
        sym.s_truediv(fold(np.add, els, ldt), mk(len(els), int)), ldt), ldt)


def masked_var(a, axis=None, dtype=None, ddof=0, keepdims=False):
    if isinstance(keepdims, type(np._NoValue)):
        keepdims = False
    ldt = _mean_dt(a._ldt, dtype)
    ddof = int(ddof)

    def f(els):
        return var(mkarr(list(els), a._ldt, (len(els),)), None, dtype, ddof)
    return masked_fold(a, axis, keepdims, f, ldt)
