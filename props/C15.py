"""C15: defect-pixel histograms describe the right deviation image in the right unit."""
import math

MODULES = ['process.routines', 'process.results']
BOUNDS = ('dark images of 2 to 4 pixels and 5x5 to 5x7 images for the filtered ones (thorough: 6x6), each with up to three symbolic '
          'sums, 1 to 16 images with equal and with different numbers of bright and dark images, values over few and over more units '
          'than there are bins, without mask and with a colour mask')


def configs(tier):
    out = []
    for shp, hi, L in (((1, 2), 8, 1), ((1, 3), 6, 4), ((2, 2), 4, 3), ((1, 2), 4000, 16)):
        out.append({'name': 'DSNU %dx%d sums to %d, L=%d' % (shp + (hi, L)), 'kind': 'DSNU', 'shape': list(shp), 'hi': hi, 'L': [2, L]})
    for shp, hi, L, m in (((5, 6), 1, (2, 2), 0), ((5, 7), 1, (3, 3), 0), ((5, 6), 1, (4, 2), 0), ((5, 6), 1, (2, 3), 0),
                          ((5, 6), 1000, (1, 2), 0), ((6, 6), 2, (2, 2), 1)):
        out.append({'name': 'PRNU %dx%d sums to %d, L=%s%s' % (shp + (hi, list(L), ' masked' if m else '')), 'kind': 'PRNU',
                    'shape': list(shp), 'hi': hi, 'L': list(L), 'mask': m})
    out.append({'name': 'DSNU masked', 'kind': 'DSNU', 'shape': [2, 2], 'hi': 6, 'L': [2, 2], 'mask': 1})
    if tier == 'thorough':
        out.append({'name': 'DSNU 2x3', 'kind': 'DSNU', 'shape': [2, 3], 'hi': 5, 'L': [2, 5]})
        out.append({'name': 'PRNU 6x6', 'kind': 'PRNU', 'shape': [6, 6], 'hi': 2, 'L': [6, 4], 'mask': 0})
    return out


def check(ctx, name, h, px, unit, shift, accumulated):
    """px: oracle integers; bins are (v - shift) / unit for the lower limits v."""
    bins, val = ctx.vals(h['bins']), ctx.vals(h['values'])
    n = len(bins)
    ctx.check(name + ' one value per bin', len(val) == n and n >= 1, '%d bins, %d values' % (n, len(val)))
    ctx.check(name + ' number of bins', n <= 256)
    low = [b * unit + shift for b in bins]
    mn, mx = ctx.min(px), ctx.max(px)
    ctx.eq(name + ' first bin', low[0], mn, abs=1e-6)
    eps = ctx.const('0.001')
    if n > 1:
        w = low[1] - low[0]
        ctx.check(name + ' bin width', w >= 1 - eps)
        for i in range(1, n):
            ctx.eq(name + ' uniform bins', low[i], mn + w * i, abs=1e-4)
        ctx.check(name + ' bins reach the largest value', mx < mn + w * n - eps)
    N = len(px)
    total = 0
    for i in range(n):
        lo = (mn + w * i if n > 1 else mn) - eps
        if accumulated:
            want = ctx.div(ctx.sum(ctx.ite(p >= lo, 1, 0) for p in px) * 100, N)
            ctx.eq(name + ' percentage', val[i], want)
        else:
            hi = lo + w if n > 1 else mx + 1
            ctx.eq(name + ' count', val[i], ctx.sum(ctx.ite(ctx.all([lo <= p, p < hi]), 1, 0) for p in px))
            total = total + val[i]
    if accumulated:
        ctx.eq(name + ' starts with all', val[0], 100)
        for i in range(n - 1):
            ctx.check(name + ' never increases', val[i + 1] <= val[i] + eps)
    else:
        ctx.eq(name + ' total', total, N)


def trunc(ctx, x):
    return ctx.floor(x) if ctx.truth(x >= 0) else -ctx.floor(-x)


def image(ctx, name, R, C, hi, free, base):
    px = [[base] * C for _ in range(R)]
    for k, (i, j) in enumerate(free):
        px[i][j] = ctx.int('%s%d' % (name, k), 0, hi)
    return px


def harness(ctx, cfg):
    rs = ctx.mod('process.results')
    R, C = cfg['shape']
    hi = cfg['hi']
    L, Ld = cfg['L']
    use = [[not cfg.get('mask') or (i + j) % 2 == 0 for j in range(C)] for i in range(R)]
    if cfg['kind'] == 'DSNU':
        free = [(i, j) for i in range(R) for j in range(C)]
        dark, bright = image(ctx, 'd', R, C, hi, free, 0), [[40] * C for _ in range(R)]
    else:
        inner = [(i, j) for i in range(2, R - 2) for j in range(2, C - 2)]
        dark = image(ctx, 'd', R, C, hi, inner[:1] if L == Ld else inner[-1:], 1)
        bright = image(ctx, 'b', R, C, hi, (inner[:2] if len(inner) < 4 else inner[:2] + inner[3:]), 3)
    B, D = ctx.array(bright, dtype='int64'), ctx.array(dark, dtype='int64')
    bv, dv = ctx.vals(B), ctx.vals(D)
    if cfg.get('mask'):
        mask = [[not u for u in r] for r in use]
        B, D = ctx.np.ma.array(B, mask=mask), ctx.np.ma.array(D, mask=mask)
    # the same histograms of another object of the same size before
    o = [[[(3 * i + 5 * j + k) % 7 + 9 * k for j in range(C)] for i in range(R)] for k in range(2)]
    o = [ctx.np.ma.array(ctx.array(x, dtype='int64'), mask=mask) if cfg.get('mask') else ctx.array(x, dtype='int64') for x in o]
    other = rs.Results1288({'temporal': {}, 'spatial': {'sum': o[1], 'sum_dark': o[0], 'L': L, 'L_dark': Ld}})
    for q in ('histogram_%s', 'histogram_%s_accumulated'):
        ctx.call(getattr, other, q % cfg['kind'])
    r = rs.Results1288({'temporal': {}, 'spatial': {'sum': B, 'sum_dark': D, 'L': L, 'L_dark': Ld}})
    # fewer bins keep the large values within reach (the default is 256)
    r._histogram_Qmax = 12 if hi >= 1000 else 64
    if cfg['kind'] == 'DSNU':
        px = [dv[i][j] for i in range(R) for j in range(C) if use[i][j]]
        mean = ctx.mean(px)
        unit = Ld
        h, acc = r.histogram_DSNU, r.histogram_DSNU_accumulated
        check(ctx, 'DSNU', h, px, unit, mean, False)
    else:
        n = L * Ld // math.gcd(L, Ld)
        y = [[bv[i][j] * (n // L) - dv[i][j] * (n // Ld) for j in range(C)] for i in range(R)]
        px = []
        for i in range(2, R - 2):
            for j in range(2, C - 2):
                if use[i][j]:
                    nb = [y[a][b] for a in range(i - 2, i + 3) for b in range(j - 2, j + 3) if use[a][b]]
                    k = len(nb)
                    px.append(y[i][j] * k - ctx.sum(nb))
        mean = ctx.mean(px)
        unit = n * k
        h, acc = r.histogram_PRNU, r.histogram_PRNU_accumulated
        check(ctx, 'PRNU', h, px, unit, 0, False)
    m = trunc(ctx, mean)
    dev = [ctx.max([p - m, m - p]) for p in px]
    check(ctx, cfg['kind'] + ' accumulated', acc, dev, unit, 0, True)
    ctx.eq('bright sum left alone', ctx.np.ma.getdata(B), bv)
    ctx.eq('dark sum left alone', ctx.np.ma.getdata(D), dv)
