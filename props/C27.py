"""C27: patterns and colour filters are tiled periodically over the requested size."""

MODULES = ['camera.routines']
BOUNDS = ('1D patterns of 1 to 4 and 2D patterns of up to 3x3 (thorough 4x4) symbolic elements, tiled to every height and width from 1 to 7 '
          '(thorough 9); Bayer filters of 1x1 to 5x4 pixels, odd and even, with 2 to 8 wavelengths, the peaks among, between and outside of them, and different, equal and fractional transmissions; the 2x2 '
          'tiling of Bayer filters with symbolic transmissions for every size up to 5x5 (thorough 7x7); all after other patterns or filters of the same size too')
ASSUME = ('the pattern of a Bayer filter is tiled by array_tile (checked with symbolic transmissions where it exists)',)
TS = [(500, 600, 450, 520), (600, 500, 500, 450), (450, 450, 600, 500), (520.7, 450.2, 600.9, 500)]


def configs(tier):
    out = []
    top = 9 if tier == 'thorough' else 7
    for n in (1, 2, 3, 4):
        out.append({'name': '1D pattern of %d' % n, 'kind': 'tile', 'shape': (n,), 'top': top})
    for s in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1)) + (((4, 4), (3, 4), (5, 2)) if tier == 'thorough' else ()):
        out.append({'name': '2D pattern of %dx%d' % s, 'kind': 'tile', 'shape': s, 'top': top})
    for i in range(len(TS)):
        out.append({'name': 'bayer %d' % i, 'kind': 'bayer', 't': i, 'top': top - 2})
    for n in (1, 2, 3):
        out.append({'name': 'array tile of %d wavelengths' % n, 'kind': 'array', 'n': n, 'top': top - 2})
    return out


def harness(ctx, cfg):
    rt = ctx.mod('camera.routines')
    kind, top = cfg['kind'], cfg['top']
    if kind == 'bayer':
        h, w = ctx.choice('size', [(1, 1), (1, 3), (2, 2), (3, 2), (2, 5), (3, 3), (5, 4)])
    else:
        h, w = 1 + ctx.index('height', top), 1 + ctx.index('width', top)
    if kind == 'tile':
        sh = tuple(cfg['shape'])
        a = ctx.reals('a', sh, -1000, 1000) if not ctx.flag('integers') else ctx.ints('a', sh, -1000, 1000)
        A = ctx.vals(a)
        rt.get_tile(ctx.np.ones(sh) * 7, h, w)
        r = rt.get_tile(a, h, w)
        ctx.eq('pattern unchanged', a, A)
        ctx.check('size', getattr(r, 'shape', None) == ((w,) if h == 1 else (h, w)), '%s for %s' % (getattr(r, 'shape', None), (h, w)))
        R = ctx.vals(r)
        if h == 1:
            R = [R]
        P = A if len(sh) == 2 else [A]
        for i in range(h):
            for j in range(w):
                ctx.eq('element', R[i][j], P[i % len(P)][j % len(P[0])])
        return
    if kind == 'array':
        if not hasattr(rt, 'array_tile'):
            return
        n = cfg['n']
        a = ctx.reals('a', (2, 2, n), 0, 1)
        A = ctx.vals(a)
        rt.array_tile(ctx.np.ones((2, 2, n)) * 7, h, w)
        r = rt.array_tile(a, h, w)
        ctx.eq('pattern unchanged', a, A)
        ctx.check('size', getattr(r, 'shape', None) == (h, w, n), '%s for %s' % (getattr(r, 'shape', None), (h, w)))
        R = ctx.vals(r)
        for i in range(h):
            for j in range(w):
                ctx.eq('transmission', R[i][j], A[i % 2][j % 2])
        return
    t = TS[cfg['t']]
    more = ctx.flag('peaks among the wavelengths') if (h, w) in ((2, 2), (3, 3)) else True
    waves = ctx.choice('wavelengths', [[450, 500, 520, 600], [440, 450, 480, 500, 520, 560, 600, 640]] if more else
                       [[460, 500, 580], [610, 620, 700], [400, 440]])
    if ctx.flag('real wavelengths'):
        waves = [x + 0.25 for x in waves]
    if (h, w) in ((3, 2), (2, 5)):
        # of the same size, with other transmissions and then with other wavelengths
        rt.get_bayer_filter(t[3], t[2], t[1], t[0] + 20, w, h, ctx.array(waves))
        rt.get_bayer_filter(t[0], t[1], t[2], t[3], w, h, ctx.array([x + 30 for x in waves]))
    r = rt.get_bayer_filter(t[0], t[1], t[2], t[3], w, h, ctx.array(waves))
    ctx.check('size', getattr(r, 'shape', None) == (h, w, len(waves)), '%s for %s' % (getattr(r, 'shape', None), (h, w)))
    R = ctx.vals(r)
    for i in range(h):
        for j in range(w):
            k = t[(i % 2) * 2 + j % 2]
            curve = R[i][j]
            ctx.eq('maximum of one', ctx.max(curve), 1)
            if int(k) < waves[0] or int(k) > waves[-1]:
                # the peak is not among the wavelengths: the nearest one has the maximum
                ctx.eq('most transmission nearest to the given wavelength', curve[0 if int(k) < waves[0] else -1], 1)
            for x, v in zip(waves, curve):
                if int(k) not in waves:
                    break
                if int(x) == int(k):
                    ctx.eq('most transmission at the given wavelength', v, 1)
                else:
                    ctx.check('less transmission elsewhere', ctx.all([v < ctx.const('0.999'), v >= 0]))
            ctx.eq('periodic', curve, R[i % 2][j % 2])
