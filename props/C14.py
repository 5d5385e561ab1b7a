"""C14: a histogram counts every pixel exactly once in uniform integer bins."""
import math
EXACT64 = True
MODULES = ['process.routines']
BOUNDS = ('1 to 4 pixels (thorough: 6) of symbolic integer values in one or two dimensions; bin limits 1 to 6 with values of both '
          'signs spread over up to 14 units; bin limits 4 and 8 (thorough: 256) with values up to +-10^6 (any bin width); two pixels over the '
          'whole range of every integer type up to 32 bits; an image of 66001 pixels of which one is symbolic; three at the ends of the 8 bit types with 255 and 256 bins; the model for two to '
          'four pixels of any mean and differences up to 4 (20; thorough 60) units, all after another image of the same size')


def configs(tier):
    th = tier == 'thorough'
    out = []
    out.append({'name': 'many pixels of one value', 'q': 256, 'shape': [1], 'lo': 0, 'hi': 2, 'dt': 'uint8', 'many': 66000})
    for q, shp, lo, hi in ((1, (2,), -3, 9), (2, (3,), -3, 9), (3, (2, 2), 0, 12), (4, (3,), -6, 8), (6, (2, 2), 0, 9), (5, (1, 1), -4, 4),
                           (4, (3,), -10 ** 6, 10 ** 6), (8, (2,), 0, 10 ** 6)):
        out.append({'name': 'Qmax=%d pixels %s range %d..%d' % (q, list(shp), lo, hi), 'q': q, 'shape': list(shp), 'lo': lo, 'hi': hi})
    if th:
        for q, shp, lo, hi in ((3, (2, 3), 0, 12), (256, (2,), 0, 10 ** 9), (16, (4,), -10 ** 6, 10 ** 6), (7, (2, 2), -20, 20)):
            out.append({'name': 'Qmax=%d pixels %s range %d..%d' % (q, list(shp), lo, hi), 'q': q, 'shape': list(shp), 'lo': lo, 'hi': hi})
    for dt, lo, hi in (('uint8', 0, 255), ('int8', -128, 127), ('uint16', 0, 65535), ('int16', -32768, 32767), ('int32', -2 ** 31, 2 ** 31 - 1),
                       ('uint64', 0, 2 ** 40)):
        for q in (1, 4) + ((6, 16) if th else ()):
            out.append({'name': 'Qmax=%d %s' % (q, dt), 'q': q, 'shape': [2], 'lo': lo, 'hi': hi, 'dt': dt})
        if hi < 256:
            for q in (255, 256):
                out.append({'name': 'Qmax=%d whole range of %s' % (q, dt), 'q': q, 'shape': [3], 'lo': lo, 'hi': hi, 'dt': dt, 'ends': True})
    out.append({'name': 'few large pixels, Qmax=256', 'q': 256, 'shape': [3], 'lo': 0, 'hi': 3, 'off': 100000})
    for q, steps, order in ((8, [3], [1, 0]), (8, [2, 2], [1, 2, 0]), (3, [4, 3], [0, 2, 1]), (4, [20], [0, 1])) + (
            ((8, [2, 3, 2], [2, 0, 1, 3]), (5, [30, 30], [2, 1, 0])) if th else ()):
        out.append({'name': 'model, Qmax=%d steps %s' % (q, steps), 'q': q, 'steps': steps, 'order': order, 'lo': -100, 'hi': 70000})
    return out


def histogram(ctx, h, px, qmax, scale=1, many=0):
    """The statement of the property for bins and values of pixels px (oracle numbers), the last one many times more."""
    bins, val = ctx.vals(h['bins']), ctx.vals(h['values'])
    bins = [b * scale for b in bins]
    n = len(bins)
    ctx.check('one value per bin', len(val) == n)
    ctx.check('number of bins', 1 <= n <= qmax, '%d bins' % n)
    mn, mx = ctx.min(px), ctx.max(px)
    ctx.eq('first bin', bins[0], mn)
    if n == 1:
        ctx.eq('count of a single bin', val[0], len(px) + many)
        ctx.check('single bin', ctx.any([mx == mn, ctx.all([qmax == 1])]))
        return
    w = bins[1] - bins[0]
    ctx.check('width is positive', w >= ctx.const('0.999'))
    ctx.eq('width is an integer', w, ctx.floor(w + ctx.const('0.5')))
    ctx.check('width is one if it can be', ctx.any([mx - mn + 1 > qmax, ctx.all([w >= ctx.const('0.999'), w <= ctx.const('1.001')])]))
    for i in range(1, n):
        ctx.eq('uniform bins', bins[i], bins[0] + w * i)
    ctx.check('last bin holds the largest value', ctx.all([bins[-1] <= mx + ctx.const('0.001'), mx <= bins[-1] + w - ctx.const('0.999')]))
    for i in range(n):
        lo = mn + w * i - ctx.const('0.001')
        n1 = [ctx.ite(ctx.all([lo <= p, p < lo + w]), 1, 0) for p in px]
        ctx.eq('count', val[i], ctx.sum(n1 + [n1[-1] * many]))
    ctx.eq('every pixel once', ctx.sum(val), len(px) + many)


def model(ctx, h, px):
    """Normal distribution with mean and deviation of the pixels at the bins."""
    mn, mx = ctx.min(px), ctx.max(px)
    if not ctx.truth(mx > mn):
        return
    bins, m = ctx.vals(h['bins']), ctx.vals(h['model'])
    n = len(bins)
    ctx.check('one model value per bin', len(m) == n)
    mean, var = ctx.mean(px), ctx.var(px)
    for b, y in zip(bins[:8] + bins[8:][-1:], m[:8] + m[8:][-1:]):
        want = ctx.div((mx - mn) * len(px), n * ctx.sqrt(2 * ctx.const(repr(math.pi)) * var)) * ctx.exp(-ctx.div((b - mean) * (b - mean), 2 * var))
        ctx.eq('normal distribution', y, want)


def harness(ctx, cfg):
    rt = ctx.mod('process.routines')
    off = cfg.get('off', 0)
    lo, hi, dt = cfg['lo'] + off, cfg['hi'] + off, cfg.get('dt', 'int64')
    if cfg.get('steps'):
        # ascending values, so that the smallest and the largest one are known
        y = ctx.int('y', lo, hi, dt)
        px = [y]
        for k, d in enumerate(cfg['steps']):
            px.append(px[-1] + ctx.int('d%d' % k, 0, d, dt))
        img = ctx.array([px[i] for i in cfg['order']], dtype=dt)
    elif cfg.get('ends'):
        # close to both ends of the type
        img = ctx.array([ctx.int('low', lo, lo + 1, dt), ctx.int('high', hi - 1, hi, dt), ctx.int('middle', -1 if lo < 0 else 126, 128 + min(lo, -1), dt)],
                        dtype=dt)
    else:
        img = ctx.ints('y', tuple(cfg['shape']), lo, hi, dt)
    many = cfg.get('many', 0)
    if many:
        # an image of realistic size, all pixels but one of them concrete
        img = ctx.np.concatenate([ctx.np.zeros(many, dtype=dt), img])
        px = ctx.flat(img[-1:]) + [ctx.v(0)]
        h = rt.Histogram1288(img, cfg['q'])
        histogram(ctx, h, px, cfg['q'], many=many - 1)
        ctx.eq('image left alone', ctx.flat(img[-1:]) + ctx.flat(img[:1]), px)
        return
    px = ctx.flat(img)
    if len(px) > 1:
        # another image of the same size before
        rt.Histogram1288((ctx.np.arange(len(px)) % 97).reshape(img.shape).astype(dt), cfg['q'])
    h = rt.Histogram1288(img, cfg['q'])
    histogram(ctx, h, px, cfg['q'])
    if cfg.get('steps'):
        model(ctx, h, px)
    ctx.eq('image left alone', ctx.flat(img), px)
