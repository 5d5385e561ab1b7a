"""C09: the saturation point is the variance peak, and the fit ranges derive from it."""
from .common import last_at_most, first_at_least, spatial_stub, earlier

MODULES = ['process.routines', 'process.results']
BOUNDS = ('series of 1 to 6 points (thorough: 8) of symbolic variances with the peak at every index; every forced index of them; '
          'fit ranges for 2 to 5 (thorough: 7) symbolic non-decreasing dark-corrected signals and every saturation index')


def configs(tier):
    th = tier == 'thorough'
    out = []
    for n in range(1, 9 if th else 7):
        out.append({'name': 'peak n=%d' % n, 'n': n, 'kind': 'peak'})
        out.append({'name': 'forced n=%d' % n, 'n': n, 'kind': 'forced'})
    for n in range(2, 8 if th else 6):
        out.append({'name': 'ranges n=%d' % n, 'n': n, 'kind': 'ranges'})
    for n in range(2, 6 if th else 5):
        out.append({'name': 'ranges of the peak n=%d' % n, 'n': n, 'kind': 'ranges', 'auto': True})
    return out


def harness(ctx, cfg):
    rs = ctx.mod('process.results')
    n, kind = cfg['n'], cfg['kind']
    s2 = ctx.reals('s2_y', n, 0, 70000)
    v = ctx.vals(s2)
    t = {'texp': ctx.array([1.0] * n), 'u_p': ctx.array([float(i + 1) for i in range(n)]), 's2_y': s2,
         'u_y': ctx.array([10.0 * (i + 1) for i in range(n)]), 'u_ydark': ctx.array([0.5] * n), 's2_ydark': ctx.array([0.5] * n)}
    data = {'temporal': t, 'spatial': spatial_stub(ctx)}
    for k in (None, n // 2):
        earlier(ctx, rs, n, ('index_u_ysat', 'u_p_sat', 'index_sensitivity_min', 'index_sensitivity_max', 'index_linearity_min', 'index_linearity_max'), k)
    if kind == 'forced':
        k = ctx.index('forced', n)
        r = rs.Results1288(data, index_u_ysat=k)
        ctx.eq('forced saturation index', r.index_u_ysat, k)
        ctx.eq('forced saturation index, again', r.index_u_ysat, k)
        ctx.eq('photons at the forced saturation', r.u_p_sat, k + 1)
        return
    if kind == 'peak' or cfg.get('auto'):
        k = ctx.index('peak', n)
        for i in range(k):
            ctx.assume(v[i] + ctx.const('0.001') <= v[i + 1])
        for i in range(k, n - 1):
            ctx.assume(v[i] >= v[i + 1])
    if kind == 'peak':
        r = rs.Results1288(data)
        ctx.eq('saturation index', r.index_u_ysat, k)
        ctx.eq('saturation index, again', r.index_u_ysat, k)
        ctx.eq('photons at saturation', r.u_p_sat, k + 1)
        return
    t['u_y'] = ctx.reals('u_y', n, 0, 70000)
    t['u_ydark'] = ctx.reals('u_ydark', n, 0, 100)
    Y = [a - b for a, b in zip(ctx.vals(t['u_y']), ctx.vals(t['u_ydark']))]
    for i in range(n - 1):
        ctx.assume(Y[i] <= Y[i + 1])
    if cfg.get('auto'):
        r = rs.Results1288(data)
    else:
        k = ctx.index('forced', n)
        r = rs.Results1288(data, index_u_ysat=k)
    ctx.assume(Y[k] >= 1)
    c = ctx.const
    ctx.assume(Y[0] <= Y[k] * c('0.7'))
    got = r.index_sensitivity_min, r.index_sensitivity_max, r.index_linearity_min, r.index_linearity_max
    ctx.eq('sensitivity range start', got[0], 0)
    ctx.eq('sensitivity range end', got[1], last_at_most(ctx, Y, Y[k] * c('0.7')))
    ctx.eq('linearity range start', got[2], first_at_least(ctx, Y, Y[k] * c('0.05')))
    ctx.eq('linearity range end', got[3], last_at_most(ctx, Y, Y[k] * c('0.95')))
