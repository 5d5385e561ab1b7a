"""C18: masked pixels never influence spectrograms, filters, histograms or profiles."""
from .C17 import spectrum
from .common import Fig, Test

MODULES = ['process.routines', 'process.plotting']
BOUNDS = ('masked images of 2x2 to 5x5 (filter: 4x4 to 6x7) symbolic integer pixels, hidden values arbitrary; every mask of 2x2, 2x3 and '
          '3x2 images that leaves a pixel (spectrogram, histogram), colour patterns, fully masked rows and columns and irregular masks '
          'for larger ones; profiles with at least 3 lines in each direction; larger masks after an image of the same size with the opposite mask')

MASKS = {
    'colour': ['1.1.1', '.....', '1.1.1', '.....', '1.1.1'],
    'other colour': ['.1.1.', '1.1.1', '.1.1.', '1.1.1', '.1.1.'],
    'column': ['11.11', '11.11', '11.11', '11.11', '11.11'],
    'middle row hidden': ['11111', '11111', '.....', '11111', '11111'],
    'irregular': ['1..11', '.1111', '11...', '11111', '..1.1'],
    'single': ['.....', '...1.', '.....', '.....', '.....'],
    'all': ['11111'] * 5,
}


def configs(tier):
    out = []

    def add(kind, name, **k):
        out.append(dict({'name': '%s %s' % (kind, name), 'kind': kind}, **k))
    for R, C in ((2, 2), (2, 3), (3, 2)) + (((3, 3), (2, 4)) if tier == 'thorough' else ()):
        add('fft', 'every mask of %dx%d' % (R, C), shape=[R, C], mask=None, rot=False)
        add('hist', 'every mask of %dx%d' % (R, C), shape=[R, C], mask=None)
        if R * C < 8:
            add('fft', 'rotated, every mask of %dx%d' % (R, C), shape=[R, C], mask=None, rot=True)
    for m in MASKS:
        for R, C in ((4, 4), (3, 5)):
            for rot in (False, True):
                add('fft', '%s %dx%d%s' % (m, R, C, ' rotated' if rot else ''), shape=[R, C], mask=m, rot=rot)
        for R, C in ((3, 3), (3, 4), (4, 3)) + (((5, 5),) if tier == 'thorough' else ()):
            add('profile', '%s %dx%d' % (m, R, C), shape=[R, C], mask=m)
    for m in ('colour', 'column', 'middle row hidden'):
        add('hist', '%s 3x4' % m, shape=[3, 3], mask=m)
    for m, R, C, d in (('colour', 5, 5, 3), ('other colour', 5, 5, 3), ('column', 5, 5, 5), ('column', 5, 5, 3), ('all', 4, 4, 3), ('colour', 4, 5, 1)):
        add('filter', '%s %dx%d d=%d' % (m, R, C, d), shape=[R, C], mask=m, d=d)
    return out


def compress(rows, use):
    rows = [[x for x, u in zip(r, s) if u] for r, s in zip(rows, use)]
    rows = [r for r in rows if r]
    n = min(len(r) for r in rows)
    return [r[:n] for r in rows]


def harness(ctx, cfg):
    rt, pl = ctx.mod('process.routines'), ctx.mod('process.plotting')
    kind, (R, C) = cfg['kind'], cfg['shape']
    if cfg['mask']:
        m = MASKS[cfg['mask']]
        use = [[m[i][j] == '1' for j in range(C)] for i in range(R)]
    else:
        use = [[ctx.flag('use%d_%d' % (i, j)) for j in range(C)] for i in range(R)]
    if not any(any(r) for r in use):
        return
    mask = [[not u for u in r] for r in use]
    hi = 6 if kind == 'hist' else 10000

    def image(name, lo=0, hi=hi):
        """two images that agree where they are not masked"""
        a = ctx.ints(name, (R, C), lo, hi)
        h = ctx.ints(name + '_hidden', (R, C), lo - 3, hi + 3)
        b = ctx.array([[a[i, j] if use[i][j] else h[i, j] for j in range(C)] for i in range(R)], dtype='int64')
        return [ctx.np.ma.array(x, mask=mask) for x in (a, b)], ctx.vals(a), [ctx.vals(x) for x in (a, b)]

    def untouched(images, was):
        for im, px in zip(images, was):
            ctx.eq('image data left alone', ctx.np.ma.getdata(im), px)
            ctx.check('mask left alone', ctx.np.ma.getmaskarray(im).tolist() == mask)

    (A, B), px, was = image('y')
    # another image of the same size with the opposite mask before
    other = ctx.np.ma.array((ctx.np.arange(R * C) % 97).reshape(R, C), mask=use)
    if cfg['mask'] and kind != 'profile' and any(sum(r) < C for r in use):
        ctx.call({'fft': lambda: rt.FFT1288(other, rotate=cfg['rot'], n=2), 'hist': lambda: rt.Histogram1288(other, 4),
                  'filter': lambda: rt.high_pass_filter(other, cfg['d'])}[kind])
    if kind == 'fft':
        rot = cfg['rot']
        lines = [list(x) for x in zip(*px)] if rot else px
        lu = [list(x) for x in zip(*use)] if rot else use
        want = spectrum(ctx, compress(lines, lu), 2)
        for im in (A, B):
            got = ctx.vals(rt.FFT1288(im, rotate=rot, n=2))
            ctx.check('number of entries', len(got) == len(want), '%d / %d' % (len(got), len(want)))
            for g, w in zip(got, want):
                ctx.eq('spectrogram of the unmasked pixels', g, w, rel=1e-6, abs=1e-5)
        untouched((A, B), was)
    elif kind == 'hist':
        n = sum(map(sum, use))
        if n < 2:
            return
        q = 4
        a, b = rt.Histogram1288(A, q), rt.Histogram1288(B, q)
        seen = [x for r, s in zip(px, use) for x, u in zip(r, s) if u]
        for h in (a, b):
            ctx.eq('counts the unmasked pixels', ctx.sum(ctx.vals(h['values'])), n)
            bins = ctx.vals(h['bins'])
            ctx.eq('first bin', bins[0], ctx.min(seen))
            w = bins[1] - bins[0] if len(bins) > 1 else 1
            for i, v in enumerate(ctx.vals(h['values'])):
                lo = bins[i] - ctx.const('0.001')
                last = i == len(bins) - 1
                ctx.eq('count of a bin', v, ctx.sum(ctx.ite(ctx.all([lo <= p] + ([] if last else [p < lo + w])), 1, 0) for p in seen))
        ctx.check('same bins', len(a['bins']) == len(b['bins']))
        ctx.eq('bins', b['bins'], ctx.vals(a['bins']))
        ctx.eq('values', b['values'], ctx.vals(a['values']))
        untouched((A, B), was)
    elif kind == 'filter':
        out = []
        for im in (A, B):
            r, exc = ctx.call(rt.high_pass_filter, im, cfg['d'])
            ctx.check('regular mask accepted', exc is None, '%r' % (exc,))
            out.append(r)
        a, b = out
        h = cfg['d'] // 2
        if any(u for r in use[h:R - h] for u in r[h:C - h]):
            ctx.eq('factor', b['multiplicator'], ctx.v(a['multiplicator']))
        da, db = ctx.np.ma.getdata(a['img']), ctx.np.ma.getdata(b['img'])
        ctx.check('mask of the result', ctx.np.ma.getmaskarray(a['img']).tolist() == [r[h:C - h] for r in mask[h:R - h]])
        ctx.check('same mask', ctx.np.ma.getmaskarray(b['img']).tolist() == [r[h:C - h] for r in mask[h:R - h]])
        for i in range(h, R - h):
            for j in range(h, C - h):
                if use[i][j]:
                    nb = [px[u][v] for u in range(i - h, i + h + 1) for v in range(j - h, j + h + 1) if use[u][v]]
                    ctx.eq('filtered', da[i - h, j - h], px[i][j] * len(nb) - ctx.sum(nb), abs=1e-5)
                    ctx.eq('filtered with other hidden data', db[i - h, j - h], px[i][j] * len(nb) - ctx.sum(nb), abs=1e-5)
        untouched((A, B), was)
    else:
        (DA, DB), dpx, dwas = image('d', 1, 1000)
        first = None
        for bim, dim in ((A, DA), (B, DB)):
            t = Test()
            t.spatial = {'sum': bim, 'sum_dark': dim, 'L': 4, 'L_dark': 4}
            per = []
            for cls in (pl.PlotHorizontalProfile, pl.PlotVerticalProfile):
                vert = cls is pl.PlotVerticalProfile
                fig = Fig()
                pic = lambda v: [list(x) for x in zip(*v)] if vert else v
                p = cls(fig)
                p.plot(t)
                p.rearrange()
                us = pic(use)
                keep = [j for j in range(len(us[0])) if any(r[j] for r in us)]
                for dark in (False, True):
                    v = dpx if dark else [[x - y for x, y in zip(r, s)] for r, s in zip(px, dpx)]
                    v = pic(v)
                    cols = [[r[j] for r, s in zip(v, us) if s[j]] for j in keep]
                    ax = p.ax2 if dark else p.ax
                    for lab, f in (('Mean', ctx.mean), ('Min', ctx.min), ('Max', ctx.max)):
                        li = [x for x in ax.lines if x.label == lab]
                        ctx.check('one line for each statistic', len(li) == 1)
                        X, Y = (li[0].y, li[0].x) if vert else (li[0].x, li[0].y)
                        ctx.check('positions', [int(ctx.v(x)) for x in ctx.vals(X)] == keep, lab)
                        ctx.check('one value for each position', len(Y) == len(keep))
                        for y, c in zip(ctx.vals(Y), cols):
                            ctx.eq('%s profile' % lab.lower(), y, ctx.div(f(c), 4))
                    per += [(ctx.vals(li.x), ctx.vals(li.y)) for li in ax.lines]
            if first is None:
                first = per
            else:
                ctx.check('same lines', len(per) == len(first))
                for (x, y), (x0, y0) in zip(per, first):
                    ctx.check('same length', len(x) == len(x0) and len(y) == len(y0))
                    for a, b in zip(x + y, x0 + y0):
                        ctx.eq('profile with other hidden data', a, b)
        untouched((A, B), was)
        untouched((DA, DB), dwas)
