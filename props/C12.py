"""C12: DSNU and PRNU are the roots of the right variance component, or NaN."""
from .common import earlier

MODULES = ['process.routines', 'process.results']
BOUNDS = ('every measured variance, row and column variance, temporal variance and mean an independent symbolic real of either sign '
          'of the resulting components, image sizes and counts symbolic (2..5000, 1..1000) or fixed and different between bright and '
          'dark, gain symbolic')
ASSUME = ['no component is within rounding of zero when the real code is replayed']


def configs(tier):
    out = []
    for part in ('', '_row', '_col', '_pixel'):
        out.append({'name': 'DSNU%s' % part, 'q': 'DSNU', 'part': part})
        out.append({'name': 'PRNU%s, fixed sizes' % part, 'q': 'PRNU', 'part': part, 'sizes': [3, 4, 6, 5]})
        if tier == 'thorough' or part == '':
            out.append({'name': 'PRNU%s' % part, 'q': 'PRNU', 'part': part})
    return out


def harness(ctx, cfg):
    rs = ctx.mod('process.results')
    sp = {}
    sizes = cfg.get('sizes')
    for i, p in enumerate(('', '_dark')):
        if sizes:
            M, N = sizes[2 * i:2 * i + 2]
        else:
            M, N = ctx.int('M' + p, 3, 5000), ctx.int('N' + p, 3, 5000)
        sp['M' + p], sp['N' + p], sp['L' + p] = M, N, ctx.int('L' + p, 1, 1000)
        for k in ('avg_var', 'avg_var_cav', 'avg_var_rav'):
            sp[k + p] = ctx.real(k + p, -1000, 10000)
        sp['var_mean' + p] = ctx.real('var_mean' + p, 0, 1000)
        sp['avg_mean' + p] = ctx.real('avg_mean' + p, 0, 60000)
    k = ctx.real('K', '1/10', 20)
    one = ctx.array([1.0, 1.0])
    t = {'texp': one, 'u_p': one, 'u_ydark': one, 's2_ydark': one, 'u_y': ctx.array([11.0, 101.0]),
         's2_y': ctx.array([10.0, 100.0]) * k + 1.0}
    earlier(ctx, rs, 2, [cfg['q'] + '1288' + x for x in ('', '_row', '_col', '_pixel')] + ['s_2_y', 's_2_y_dark'], 1)
    r = rs.Results1288({'temporal': t, 'spatial': sp}, index_u_ysat=1)
    eps = ctx.const('0.01')

    def comp(p):
        M, N = ctx.v(sp['M' + p]), ctx.v(sp['N' + p])
        tot = ctx.v(sp['avg_var' + p]) - ctx.div(ctx.v(sp['var_mean' + p]), ctx.v(sp['L' + p]))
        cav, rav = ctx.v(sp['avg_var_cav' + p]), ctx.v(sp['avg_var_rav' + p])
        # the solution of total = row + col + pixel, cav = col + pixel/M, rav = row + pixel/N
        q = ctx.div(tot - cav - rav, 1 - ctx.div(1, M) - ctx.div(1, N))
        return {'': tot, '_row': rav - ctx.div(q, N), '_col': cav - ctx.div(q, M), '_pixel': q}

    def verdict(name, value, sq, scale, v):
        """value is NaN for negative v, else the root of v, times scale (sq = scale squared)"""
        ctx.assume(ctx.any([v >= eps, v <= -eps]))
        if ctx.truth(v < 0):
            ctx.check(name + ' of a negative variance', ctx.isnan(value), 'got %r' % (value,))
            return
        ctx.check(name + ' is a number', not ctx.isnan(value), 'got %r' % (value,))
        x = ctx.v(value)
        ctx.check(name + ' sign', x * scale > 0)
        ctx.eq(name + ' squared', ctx.div(x * x, sq), v, rel=1e-5, abs=1e-5)
    part = cfg['part']
    dark = comp('_dark')[part]
    if cfg['q'] == 'DSNU':
        kv = ctx.v(k)
        verdict('DSNU' + part, getattr(r, 'DSNU1288' + part), ctx.div(1, kv * kv), ctx.div(1, kv), dark)
        if not part:
            verdict('DSNU_DN', r.DSNU1288_DN(), 1, 1, dark)
        return
    bright = comp('')[part]
    d = ctx.v(sp['avg_mean']) - ctx.v(sp['avg_mean_dark'])
    ctx.assume(ctx.any([d >= 1, d <= -1]))
    verdict('PRNU' + part, getattr(r, 'PRNU1288' + part), ctx.div(10000, d * d), ctx.div(100, d), bright - dark)
