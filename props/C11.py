"""C11: dark current and temporal dark noise come from dark data versus exposure time."""
import math
from .common import fit1, spatial_stub, earlier

MODULES = ['process.routines', 'process.results']
BOUNDS = ('1 to 4 dark points (thorough: 6) at one, two, three or more different symbolic exposure times (1 ms to 1 s, also 1 us to 1 ms and such gaps '
          'after 10 ms) in every order, also repeated ones; dark means, dark variances and gain symbolic, variance slope of either sign, its offset below '
          'and above the floor')
ASSUME = ['leastsq on a linear model returns the least-squares solution',
          'the dark variance slope is not within rounding of zero']


def configs(tier):
    pats = [[0], [0, 1], [0, 0], [0, 0, 0], [0, 1, 1], [0, 1, 2], [0, 1, 2, 3], [0, 0, 1, 2], [0, 1, 0, 1]]
    if tier == 'thorough':
        pats += [[0, 1, 2, 1], [0, 1, 2, 3, 4], [0, 1, 2, 3, 4, 5], [0, 0, 1, 1, 2, 2]]
    return [{'name': 'exposures %s' % p, 'p': p} for p in pats] + \
        [{'name': 'short exposures %s' % p, 'p': p, 'scale': 1000} for p in ([0, 1, 2], [0, 1, 0, 1]) + (([0, 1, 2, 3],) if tier == 'thorough' else ())] + \
        [{'name': 'close exposures %s' % p, 'p': p, 'scale': 1000, 'at': 10 ** 7} for p in ([0, 1, 2],)]


def harness(ctx, cfg):
    rs = ctx.mod('process.results')
    pat = cfg['p']
    n, u = len(pat), len(set(pat))
    # different exposure times, given by the smallest and the gaps between them
    lo, hi = 1000000 // cfg.get('scale', 1), 100000000 // cfg.get('scale', 1)
    t = [ctx.real('texp', lo, hi) + cfg.get('at', 0)]
    for i in range(1, u):
        t.append(t[-1] + ctx.real('gap%d' % i, lo, hi))
    order = ctx.choice('order', ['up', 'down', 'mixed'] if u > 2 else ['up', 'down'])
    if order == 'down':
        t = t[::-1]
    elif order == 'mixed':
        t = t[1:] + t[:1]
    tv = ctx.vals(t)
    texp = ctx.array([t[i] for i in pat])
    T = [tv[i] for i in pat]
    m = ctx.reals('u_ydark', n, 0, 1000)
    s = ctx.reals('s2_ydark', n, 0, 1000)
    K = ctx.real('K', '1/10', 20)
    k = ctx.v(K)
    # one point below 70 % of saturation, so that the gain is K
    y = [10.0 + 90.0 * (i > 0) + i for i in range(n)]
    if n == 1:
        y, bm, bs, bp, sat = [10.0, 100.0], ctx.array([m[0]] * 2), ctx.array([s[0]] * 2), 2, 1
    else:
        bm, bs, bp, sat = m, s, n, n - 1
    y = ctx.array(y)
    temporal = {'texp': texp, 'u_p': ctx.array([float(i + 1) for i in range(bp)]), 'u_ydark': bm, 's2_ydark': bs,
                'u_y': y + bm, 's2_y': y * K + bs}
    for f in (lambda i: pat[i % n] + 3, lambda i: 5 + i, lambda i: 7):
        earlier(ctx, rs, bp, ('u_I_mean', 'u_I_mean_DN', 'u_I_var', 'u_I_var_DN', 'sigma_y_dark'), sat, texp=f)
    r = rs.Results1288({'temporal': temporal, 'spatial': spatial_stub(ctx)}, index_u_ysat=sat)
    M, S = ctx.vals(m), ctx.vals(s)
    tol = dict(rel=1e-3, abs=0.05)
    if u <= 2:
        for q in ('u_I_mean', 'u_I_mean_DN', 'u_I_var', 'u_I_var_DN'):
            x = getattr(r, q)
            ctx.check(q + ' without enough exposures', ctx.isnan(x), 'got %r' % (x,))
        off = S[0]
    else:
        sm, om = fit1(ctx, T, M)
        sv, off = fit1(ctx, T, S)
        rng = sv * lo
        ctx.assume(ctx.any([rng >= ctx.const('0.001'), rng <= ctx.const('-0.001')]))
        e9 = 10 ** 9
        ctx.eq('u_I_mean_DN', r.u_I_mean_DN, sm * e9, **tol)
        ctx.eq('u_I_mean', r.u_I_mean, ctx.div(sm * e9, k), **tol)
        if ctx.truth(sv < 0):
            for q in ('u_I_var', 'u_I_var_DN'):
                x = getattr(r, q)
                ctx.check(q + ' of a falling variance', ctx.isnan(x), 'got %r' % (x,))
        else:
            ctx.eq('u_I_var_DN', r.u_I_var_DN, ctx.div(sv * e9, k), **tol)
            ctx.eq('u_I_var', r.u_I_var, ctx.div(sv * e9, k * k), **tol)
    sd = ctx.v(r.sigma_y_dark)
    if ctx.truth(off < ctx.const('0.24')):
        off = ctx.const('0.24')
    ctx.check('dark noise is not negative', sd >= 0)
    ctx.eq('sigma_y_dark squared', sd * sd, off, rel=1e-3, abs=1e-4)
