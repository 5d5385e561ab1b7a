"""C07: gain, responsivity and QE are least-squares fits, exact on ideal data."""
from .common import last_at_most, fit0, spatial_stub, earlier

MODULES = ['process.routines', 'process.results']
BOUNDS = ('series of 2 to 5 points (thorough: 7), every mean, variance, dark value and photon count an independent symbolic real '
          'with increasing (at first possibly negative) dark-corrected signal (3 and 4 points also with signals in any order), every saturation index; linear cameras with symbolic gain, quantum efficiency, '
          'dark mean, dark noise and photon counts')
ASSUME = ['leastsq on a linear model returns the least-squares solution']


def configs(tier):
    out = []
    for n in (2, 3, 4, 5) + ((6, 7) if tier == 'thorough' else ()):
        for s in range(1, n):
            out.append({'name': 'general n=%d sat=%d' % (n, s), 'n': n, 'sat': s, 'kind': 'general'})
        for s in range(1, n) if n in (3, 4) else ():
            out.append({'name': 'any order n=%d sat=%d' % (n, s), 'n': n, 'sat': s, 'kind': 'any'})
        out.append({'name': 'linear camera n=%d' % n, 'n': n, 'kind': 'ideal'})
    return out


def harness(ctx, cfg):
    rs = ctx.mod('process.results')
    n = cfg['n']
    if cfg['kind'] == 'ideal':
        K = ctx.real('K', '1/100', 50)
        eta = ctx.real('eta', '1/100', 1)
        k, q = ctx.v(K), ctx.v(eta)
        p = ctx.reals('p', n, 1, 100000)
        b0, s0 = ctx.reals('dark', n, 0, 500), ctx.reals('noise', n, 0, 500)
        pv = ctx.vals(p)
        for i in range(n - 1):
            ctx.assume(pv[i] < pv[i + 1])
        ctx.assume(pv[0] <= pv[-1] * ctx.const('0.69'))
        uy = p * (K * eta) + b0
        s2 = (uy - b0) * K + s0
        t = {'texp': ctx.array([1.0] * n), 'u_p': p, 'u_y': uy, 's2_y': s2, 'u_ydark': b0, 's2_ydark': s0}
        r = rs.Results1288({'temporal': t, 'spatial': spatial_stub(ctx)}, index_u_ysat=n - 1)
        ctx.eq('K of a linear camera', r.K, k)
        ctx.eq('R of a linear camera', r.R, k * q)
        ctx.eq('QE of a linear camera', r.QE, q * 100)
        ctx.eq('1/K of a linear camera', r.inverse_K(), ctx.div(1, k))
        return
    t = {'texp': ctx.array([float(i + 1) for i in range(n)])}
    for name, lo, hi in (('u_p', 1, 100000), ('u_y', 0, 70000), ('s2_y', 0, 70000), ('u_ydark', 0, 1000), ('s2_ydark', 0, 1000)):
        t[name] = ctx.reals(name, n, lo, hi)
    v = {k: ctx.vals(x) for k, x in t.items()}
    Y = [a - b for a, b in zip(v['u_y'], v['u_ydark'])]
    S = [a - b for a, b in zip(v['s2_y'], v['s2_ydark'])]
    # points may be darker than the dark image
    if cfg['kind'] == 'general':
        ctx.assume(Y[1] >= 1)
    else:
        ctx.assume(Y[cfg['sat']] >= 1)
    for y in Y:
        ctx.assume(y >= -100)
    for i in range(n - 1) if cfg['kind'] == 'general' else ():
        ctx.assume(Y[i] + ctx.const('0.1') <= Y[i + 1])
    lim = Y[cfg['sat']] * ctx.const('0.7')
    ctx.assume(ctx.any([y <= lim for y in Y]))
    e = last_at_most(ctx, Y, lim) + 1
    ctx.assume(ctx.sum(y * y for y in Y[:e]) >= 1)
    earlier(ctx, rs, n, ('K', 'R', 'QE', 'inverse_K'), cfg['sat'])
    r = rs.Results1288({'temporal': t, 'spatial': spatial_stub(ctx)}, index_u_ysat=cfg['sat'])
    K, R, QE, iK = r.K, r.R, None, None
    k = fit0(ctx, Y[:e], S[:e])
    q = fit0(ctx, v['u_p'][:e], Y[:e])
    ctx.eq('gain', K, k, abs=1e-6)
    ctx.eq('responsivity', R, q, abs=1e-6)
    ctx.assume(ctx.sum(a * b for a, b in zip(Y[:e], S[:e])) >= 1)
    ctx.assume(k >= ctx.const('0.001'))
    ctx.eq('quantum efficiency', r.QE, ctx.div(q * 100, k), abs=1e-5)
    ctx.eq('inverse gain', r.inverse_K(), ctx.div(1, k), abs=1e-5)
