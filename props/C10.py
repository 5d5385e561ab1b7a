"""C10: the linearity fit minimises the relative deviation and reports its extremes."""
from .common import last_at_most, first_at_least, spatial_stub, earlier

MODULES = ['process.routines', 'process.results']
BOUNDS = ('series of 3 and 4 points (thorough: 5), photons, signals and dark values independent symbolic reals with increasing '
          'dark-corrected signal, every saturation index and so every fit range of two or more points; 5 points (thorough: 6) with '
          'fixed photons; exactly linear data of 3 to 4 points with symbolic slope, offset and photons, 5 and 6 with fixed photons')
ASSUME = ['the fit range holds two or more points with different photon counts (normal equations not singular)']


def configs(tier):
    th = tier == 'thorough'
    out = []
    for n in (3, 4) + ((5,) if th else ()):
        for s in range(2, n):
            out.append({'name': 'general n=%d sat=%d' % (n, s), 'n': n, 'sat': s, 'kind': 'general'})
    for n in (5,) + ((6,) if th else ()):
        for s in range(2, n):
            out.append({'name': 'fixed photons n=%d sat=%d' % (n, s), 'n': n, 'sat': s, 'kind': 'general', 'p': True})
    for n in (3, 4):
        out.append({'name': 'linear data n=%d' % n, 'n': n, 'sat': n - 1, 'kind': 'ideal'})
    for n in (5, 6):
        out.append({'name': 'linear data, fixed photons, n=%d' % n, 'n': n, 'sat': n - 1, 'kind': 'ideal', 'p': True})
    return out


def harness(ctx, cfg):
    rs = ctx.mod('process.results')
    n, sat, c = cfg['n'], cfg['sat'], ctx.const
    p = ctx.array([7.0, 11.0, 23.0, 40.0, 55.0, 101.0][:n]) if cfg.get('p') else ctx.reals('u_p', n, 1, 100000)
    dark = ctx.reals('u_ydark', n, 0, 1000)
    ideal = cfg['kind'] == 'ideal'
    if ideal:
        a0, b0 = ctx.real('slope', '1/100', 50), ctx.real('offset', '-50', 50)
        y = p * a0 + b0 + dark
    else:
        # any signal, given by its dark-corrected value
        y = ctx.reals('signal', n, 0, 70000) + dark
    P, Y = ctx.vals(p), [u - d for u, d in zip(ctx.vals(y), ctx.vals(dark))]
    ctx.assume(Y[0] >= c('0.1'))
    for i in range(n - 1):
        ctx.assume(P[i] + 1 <= P[i + 1])
        ctx.assume(Y[i] + c('0.01') <= Y[i + 1])
    ones = ctx.array([1.0] * n)
    t = {'texp': ones, 'u_p': p, 'u_y': y, 'u_ydark': dark, 's2_y': ones, 's2_ydark': ones}
    # at least two points in the range
    ctx.assume(Y[0] <= Y[sat] * c('0.95'))
    lo = first_at_least(ctx, Y, Y[sat] * c('0.05'))
    hi = last_at_most(ctx, Y, Y[sat] * c('0.95'))
    ctx.assume(hi is not None and hi > lo)
    earlier(ctx, rs, n, ('linearity', 'LE_min', 'LE_max'), sat)
    r = rs.Results1288({'temporal': t, 'spatial': spatial_stub(ctx)}, index_u_ysat=sat)
    lin = r.linearity()
    a, b = ctx.v(lin['fit_slope']), ctx.v(lin['fit_offset'])
    R = range(lo, hi + 1)
    if ideal:
        ctx.eq('slope of linear data', a, ctx.v(a0), rel=1e-5, abs=1e-5)
        ctx.eq('offset of linear data', b, ctx.v(b0), rel=1e-5, abs=1e-3)
        for i in R:
            ctx.eq('deviation of linear data', lin['relative_deviation'][i], 0, abs=1e-3)
        ctx.eq('minimum error of linear data', lin['linearity_error_min'], 0, abs=1e-3)
        ctx.eq('maximum error of linear data', lin['linearity_error_max'], 0, abs=1e-3)
        ctx.eq('LE_min of linear data', r.LE_min, 0, abs=1e-3)
        ctx.eq('LE_max of linear data', r.LE_max, 0, abs=1e-3)
        return
    # weighted least squares, written as the solution of the normal equations
    w = {i: ctx.div(1, Y[i] * Y[i]) for i in R}
    sw, sx, sy = ctx.sum(w[i] for i in R), ctx.sum(w[i] * P[i] for i in R), ctx.sum(w[i] * Y[i] for i in R)
    sxx, sxy = ctx.sum(w[i] * P[i] * P[i] for i in R), ctx.sum(w[i] * P[i] * Y[i] for i in R)
    det = sw * sxx - sx * sx
    ea = ctx.div(sw * sxy - sx * sy, det)
    eb = ctx.div(sxx * sy - sx * sxy, det)
    ctx.eq('slope', a, ea, rel=1e-5, abs=1e-6)
    ctx.eq('offset', b, eb, rel=1e-5, abs=1e-4)
    dev = []
    ctx.check('one deviation per point', len(lin['relative_deviation']) == n)
    for i in range(n):
        f = a * P[i] + b
        ctx.assume(ctx.any([f > c('0.001'), f < c('-0.001')]))
        dev.append(ctx.div((Y[i] - f) * 100, f))
        ctx.eq('deviation', lin['relative_deviation'][i], dev[i], rel=1e-4, abs=1e-4)
    got = ctx.vals(lin['relative_deviation'])
    mn, mx = ctx.min([got[i] for i in R]), ctx.max([got[i] for i in R])
    ctx.eq('minimum error', lin['linearity_error_min'], mn, rel=1e-4, abs=1e-4)
    ctx.eq('maximum error', lin['linearity_error_max'], mx, rel=1e-4, abs=1e-4)
    ctx.eq('LE_min', r.LE_min, lin['linearity_error_min'], rel=1e-4, abs=1e-4)
    ctx.eq('LE_max', r.LE_max, lin['linearity_error_max'], rel=1e-4, abs=1e-4)
