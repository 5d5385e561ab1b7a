"""Development aid (not a check): compares the symbolic numpy model with numpy itself on constants."""
import os
import sys
import warnings
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sx import npshim, core, path
from sx.npshim import NP, concrete, symbolic

E = '''
np.einsum('ij,jk->ik', A, B)
np.einsum('ij->', A)
np.einsum('lij->ij', C3)
np.einsum('ij,ij', A, A)
np.einsum('ii', Q)
np.einsum('ij->ji', A)
np.einsum('lij,lij->ij', C3, C3)
np.tensordot(A, B, 1)
np.tensordot(A, A, ([0, 1], [0, 1]))
np.tensordot(C3, A, ([1], [0]))
np.kron(A, Q)
np.kron(V, V)
np.interp(2.5, V, W)
np.interp([0., 1.5, 9., 99.], V, W)
np.interp([0., 99.], V, W, left=-1, right=5)
np.cov(V, W)
np.cov(V)
np.cov(A)
np.cov(A, bias=True)
np.correlate(V, W[:2])
np.convolve(V, W[:2], 'same')
np.diff(C3, axis=0)
np.diff(V, n=2)
np.ptp(A, axis=1)
np.stack([A, A], axis=2)
np.percentile(V, 30)
np.median(A, axis=0)
np.var(A, ddof=1, axis=1)
np.std(U8)
np.mean(U8, axis=0)
np.sum(U8, dtype=np.uint8)
(U8 + U8)
(U8 - U8[::-1])
U8.astype(float) // 7
U8 // 7
U8 % 7
-I4 // 3
-I4 % 5
np.cumsum(A, axis=1)
np.bincount([0, 1, 1, 4])
np.bincount([0, 1, 1, 4], weights=[.5, 1, 2, 4])
np.histogram(V, bins=3)
np.histogram(V, bins=[0., 2., 3., 9.])
np.digitize(V, [1.5, 3])
np.searchsorted(V, [1., 2.5], side='right')
np.unique([3, 1, 3, 2], return_counts=True)
np.where(A > 2, A, -1)
np.argwhere(A > 2)
np.unravel_index(4, (2, 3))
np.argmax(A, axis=1)
np.clip(A, 2, 3)
np.roll(A, 1, axis=1)
np.pad(V, 2, mode='reflect')
np.tile(A, (2, 1))
np.repeat(V, 2)
np.outer(V, W)
np.trapezoid(V, W)
np.gradient(V)
np.linalg.norm(V)
np.linalg.lstsq(np.vstack([V, np.ones(len(V))]).T, W, rcond=None)[0]
np.polyfit(V, W, 1)
np.polynomial.polynomial.polyfit(V, W, 1)
np.fft.fft(V)
np.fft.rfft(V)
np.abs(np.fft.fft(V)) ** 2
np.fft.fftfreq(5, .5)
np.average(V, weights=W)
np.add.reduce(A, axis=0)
np.add.accumulate(V)
np.subtract.outer(V, W)
np.maximum.reduce(A)
np.arange(3, 9, 2)
np.arange(0, 1, .3)
np.linspace(0, 1, 4)
np.logical_and(A > 1, A < 4)
np.logical_and.reduce(A > 0)
np.left_shift(1, I4)
I4 & 3
I4 | 8
~I4
I4 ^ 5
np.round(V / 3, 1)
np.rint(V / 2)
np.sqrt(V)
np.ma.masked_where(A > 3, A).mean()
np.ma.masked_where(A > 3, A).sum(axis=0).filled(-1)
np.ma.array(A, mask=A > 3).compressed()
np.ma.array(A, mask=A > 3).std(ddof=1)
np.nan_to_num(np.array([np.nan, 1., np.inf]))
np.sort(-V)
np.argsort(-V, kind='stable')
np.take(A, [1, 0], axis=1)
np.swapaxes(C3, 0, 2)
np.array_split(V, 2)[0]
np.hsplit(A, 3)[1]
np.dstack([A, A])
np.isin(V, [1., 3.])
np.count_nonzero(A > 2, axis=0)
np.logspace(0, 2, 3)
np.floor_divide(-7, 2)
np.power(2, I4)
np.exp2(V)
np.log10(V)
np.array([1, 2], dtype=np.uint8) - np.uint8(2)
np.uint8(200) + np.uint8(100)
np.multiply(U8, 3)
np.true_divide(U8, 3)
np.bitwise_and(I4, 1)
np.packbits([1, 0, 1, 1, 0, 0, 0, 1])
np.triu(Q)
np.cross(V[:3], W[:3])
np.apply_along_axis(np.sum, 0, A)
np.vectorize(lambda x: x * 2)(V)
np.lib.stride_tricks.sliding_window_view(V, 2)
np.broadcast_to(V, (2, len(V)))
np.ix_([0, 1], [0, 2])[1]
np.fft.fftshift(V)
np.nanmean(np.array([np.nan, 1., 3.]))
np.minimum.accumulate(-V)
np.flatnonzero(A > 2)
np.sum([V, W], axis=0)
sum(V)
max(V)
np.quantile(V, .25)
np.allclose(V, V)
np.heaviside(V - 2, .5)
np.sign(V - 2)
np.square(V)
np.cbrt(V)
np.hypot(V, W)
np.trunc(V / 2)
np.divmod(I4, 3)
np.modf(V / 2)
np.add.at
np.frombuffer(b'abc', dtype=np.uint8)
np.asarray(A).ravel(order='F')
A.reshape(3, 2, order='F')
A.T.flatten()
A.var()
A.any(axis=1)
'''


def main():
    warnings.simplefilter('ignore')
    base = {'A': np.array([[1., 2, 3], [4, 5, 7]]), 'B': np.array([[1., 2], [0, 1], [5, 3]]),
            'C3': np.arange(12.).reshape(3, 2, 2) ** 2, 'Q': np.array([[1., 2], [3, 5]]), 'V': np.array([1., 2, 3, 5]),
            'W': np.array([2., 1, 4, 4]), 'U8': np.array([[1, 250, 9], [200, 3, 255]], dtype=np.uint8),
            'I4': np.array([1, 2, 3, 7], dtype=np.int32)}
    bad = 0
    for line in E.strip().split('\n'):
        try:
            r = eval(line, dict(base, np=np))
        except Exception as e:
            r = e
        sp = core.SP if hasattr(core, 'SP') else None
        try:
            with path_ctx():
                s = eval(line, dict({k: symbolic(v) for k, v in base.items()}, np=NP))
                s = conc(s)
        except core.Unsupported as e:
            s = 'UNSUPPORTED %s' % e
        except Exception as e:
            s = e
        if isinstance(s, TypeError) and 'Node' in str(s):
            continue    # an irrational constant stays a term
        if isinstance(s, str) or isinstance(r, Exception) or isinstance(s, Exception):
            ok = isinstance(r, Exception) and type(r) is type(s)
        elif callable(r):
            ok = True
        else:
            ok = same(r, s)
        if not ok:
            bad += 1
            print('%-60s numpy %r model %r' % (line, r, s))
    print(len(E.strip().split('\n')), 'expressions', bad, 'different')


def conc(s):
    if isinstance(s, tuple):
        return tuple(conc(x) for x in s)
    return concrete(s)


def same(r, s):
    if isinstance(r, tuple):
        return len(r) == len(s) and all(same(a, b) for a, b in zip(r, s))
    a, b = np.asarray(r), np.asarray(s)
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and (
        a.dtype == b.dtype or a.dtype.kind == 'b') and np.allclose(a, b, equal_nan=True)


class path_ctx(object):
    def __enter__(self):
        core.set_space(core.Space()) if hasattr(core, 'set_space') else None

    def __exit__(self, *a):
        return False


if __name__ == '__main__':
    main()
