"""C31: plots show the measured data and exactly the reported results."""
from .common import Fig
from .C17 import spectrum

MODULES = ['process.routines', 'process.results', 'process.plotting']
BOUNDS = ('1 to 3 tests plotted together (with and without identifiers), series of 5 points with the saturation at the end and in the '
          'middle and with points below the linearity range, symbolic photon counts, signals and dark values, temporal noise with points without noise, SNR curves at their first, middle and last point; 2x3, 3x2, 3x3, 2x4 and 4x2 '
          'spatial images with symbolic bright and dark pixels, equal and different numbers of bright and dark images, masked pixels '
          '(profiles); every plot alone, of one test also after the one of another test of the same size, and all plots by default')
ASSUME = ('matplotlib draws what plot, axhline and axvline are given',)
BUDGET = 200
T_PLOTS = ['PTC', 'Sensitivity', 'Linearity', 'DeviationLinearity', 'SNR', 'UyDark']


def configs(tier):
    out = []
    for p in T_PLOTS:
        for shape in ('end', 'middle', 'dim'):
            out.append({'name': '%s, saturation at the %s' % (p, shape), 'kind': 'temporal', 'plot': 'Plot' + p, 'sat': shape, 'tests': 1})
        out.append({'name': '%s of two tests' % p, 'kind': 'temporal', 'plot': 'Plot' + p, 'sat': 'end', 'tests': 2})
    out.append({'name': 'three tests', 'kind': 'temporal', 'plot': 'PlotSensitivity', 'sat': 'end', 'tests': 3})
    for p in ('LogarithmicHistogramDSNU', 'LogarithmicHistogramPRNU', 'AccumulatedLogHistogramDSNU', 'AccumulatedLogHistogramPRNU'):
        for n in (1, 2):
            out.append({'name': '%s of %d' % (p, n), 'kind': 'histogram', 'plot': 'Plot' + p, 'tests': n, 'size': (5, 5)})
    for p in ('HorizontalSpectrogramDSNU', 'VerticalSpectrogramDSNU', 'HorizontalSpectrogramPRNU', 'VerticalSpectrogramPRNU'):
        for s in ((2, 3), (3, 2), (3, 3), (2, 4), (4, 2)) + (((3, 4), (4, 3), (5, 2), (2, 6)) if tier == 'thorough' else ()):
            out.append({'name': '%s %dx%d' % ((p,) + s), 'kind': 'spectrogram', 'plot': 'Plot' + p, 'size': s, 'tests': 1})
        out.append({'name': '%s of two tests' % p, 'kind': 'spectrogram', 'plot': 'Plot' + p, 'size': (2, 3), 'tests': 2})
    for p in ('HorizontalProfile', 'VerticalProfile'):
        for s in ((2, 3), (3, 2), (1, 2), (2, 1), (3, 3)) + (((4, 5), (5, 3)) if tier == 'thorough' else ()):
            out.append({'name': '%s %dx%d' % ((p,) + s), 'kind': 'profile', 'plot': 'Plot' + p, 'size': s, 'tests': 1})
        out.append({'name': '%s masked' % p, 'kind': 'profile', 'plot': 'Plot' + p, 'size': (3, 3), 'tests': 1, 'mask': True})
        out.append({'name': '%s of two tests' % p, 'kind': 'profile', 'plot': 'Plot' + p, 'size': (2, 2), 'tests': 2})
    out.append({'name': 'all plots by default', 'kind': 'default', 'tests': 2, 'size': (5, 5)})
    out.append({'name': 'several plots', 'kind': 'several', 'tests': 2, 'size': (5, 5)})
    return out


def make(ctx, cfg, k, free_t, free_s):
    """a results object of symbolic temporal or spatial data"""
    rs = ctx.mod('process.results')
    p = 'test%d_' % k
    arr = ctx.array
    base = {'end': [10.0, 30.0, 60.0, 95.0, 100.0], 'middle': [10.0, 50.0, 80.0, 100.0, 101.0],
            'dim': [1.0, 2.0, 50.0, 90.0, 100.0]}[cfg.get('sat', 'end')]
    noise = {'end': [1.0, 3.0, 6.0, 9.5, 10.0], 'middle': [1.0, 5.0, 8.0, 2.0, 0.0],
             'dim': [0.1, 0.2, 5.0, 9.0, 10.0]}[cfg.get('sat', 'end')]
    n = 5
    if free_t:
        y = arr(base) * ctx.real(p + 'scale', 1, 10)
        dark = ctx.reals(p + 'dark', n, 0, 10)
        up = arr([100.0, 300.0, 610.0, 950.0, 1000.0] if cfg.get('sat') != 'dim' else [10.0, 20.0, 510.0, 880.0, 1000.0]) * ctx.real(p + 'photons', 1, 10)
        K = ctx.real(p + 'K', '1/10', 10)
        s2d = arr([1.0] * n) * ctx.real(p + 'dark_noise', 0, 2) + arr([0.0, 0.01, 0.02, 0.03, 0.04]) if cfg.get('sat') != 'middle' else arr([0.0] * n)
        s2 = arr(noise) * K + s2d
    else:
        y, dark = arr(base), arr([1.0 + k] * n)
        up = arr([100.0, 300.0, 610.0, 950.0, 1000.0])
        s2d = arr([1.0] * n)
        s2 = arr(noise) + s2d
    texp = arr([1000.0] * n if not cfg.get('exposures') else [1000.0, 2000.0, 3000.0, 4000.0, 5000.0])
    t = {'texp': texp, 'u_p': up, 'u_y': y + dark, 'u_ydark': dark, 's2_y': s2, 's2_ydark': s2d}
    H, W = cfg.get('size', (5, 5))
    if free_s == 'all':
        B, D = ctx.ints(p + 'bright', (H, W), 200, 1000), ctx.ints(p + 'dark_image', (H, W), 0, 99)
    else:
        b = [[20 + (3 * i + 5 * j) % 7 for j in range(W)] for i in range(H)]
        d = [[2 + (2 * i + j + k) % 3 for j in range(W)] for i in range(H)]
        if free_s == 'one':
            d[0][0] = ctx.int(p + 'd', 2, 3)
            b[-1][-1] = ctx.int(p + 'b', 19, 21)
        B, D = arr(b, dtype='int64'), arr(d, dtype='int64')
    L, LD = (2, 2) if cfg.get('fixed') or not ctx.flag(p + 'different numbers') else (4, 2)
    if cfg.get('mask'):
        at = ctx.choice('masked', [[(0, 0)], [(1, 1)], [(1, 0), (1, 1), (1, 2)], [(0, 1), (1, 1), (2, 1)], [(2, 2), (0, 1)]])
        m = [[(i, j) in at for j in range(W)] for i in range(H)]
        cfg = dict(cfg, at=at)
        B, D = ctx.np.ma.array(B, mask=arr(m)), ctx.np.ma.array(D, mask=arr(m))
    s = {'sum': B, 'sum_dark': D, 'L': L, 'L_dark': LD, 'texp': 1000.0, 'u_p': 500.0}
    for q, x in (('', 10.0), ('_dark', 1.0)):
        s.update({'avg_var' + q: 8 * x, 'avg_var_cav' + q: 2.5 * x, 'avg_var_rav' + q: 2.5 * x, 'var_mean' + q: 1.5 * x, 'M' + q: H, 'N' + q: W})
    s['avg_mean'], s['avg_mean_dark'] = 60.0, 3.0
    data = {'temporal': t, 'spatial': s}
    return rs.Results1288(data, pixel_area=20.0), t, s, cfg.get('at', [])


def harness(ctx, cfg):
    pl = ctx.mod('process.plotting')
    kind = cfg['kind']
    figs = []

    def figure(*a, **k):
        figs.append(Fig())
        return figs[-1]
    ctx.stub('matplotlib.pyplot.figure', figure, real=True)
    ctx.stub('matplotlib.pyplot.show', lambda *a, **k: None, real=True)
    if kind == 'temporal' and cfg['plot'] == 'PlotUyDark':
        cfg = dict(cfg, exposures=ctx.flag('exposures'))
    free_s = {'spectrogram': 'all', 'profile': 'all', 'histogram': 'one'}.get(kind)
    tests = [make(ctx, cfg, k, kind == 'temporal', free_s) for k in range(cfg['tests'])]
    given = []
    for k, t in enumerate(tests):
        if ctx.flag('named%d' % k) if len(tests) < 3 else k == 1:
            t[0].id = 10 + k
    p = pl.Plotting1288(*[t[0] for t in tests])
    if kind in ('default', 'several'):
        classes = list(pl.EVMA1288plots) if kind == 'default' else [pl.PlotSNR, pl.PlotPTC, pl.PlotHorizontalProfile]
        p.plot(*([] if kind == 'default' else classes))
        ctx.check('one figure for each plot', len(figs) == len(classes))
        if kind == 'default':
            ctx.check('all kinds of plots', len(set(c.__name__ for c in classes)) == 16)
        for f, c in zip(figs, classes):
            per = [li for _, li in f.lines]
            ctx.check('every test is in every plot', len(per) and len(per) % len(tests) == 0)
            h = len(per) // len(tests)
            for k in range(1, len(tests)):
                ctx.check('the same lines for every test', [(a.kind, a.label if a.kind == 'plot' else '') for a in per[:h]]
                          == [(a.kind, a.label if a.kind == 'plot' else '') for a in per[k * h:(k + 1) * h]])
        # the values of some of them
        for f, c in zip(figs, classes):
            if c.__name__ in ('PlotPTC', 'PlotHorizontalProfile', 'PlotSensitivity'):
                for k, t in enumerate(tests):
                    verify(ctx, c.__name__, f, k, t)
        return
    if cfg['tests'] == 1:
        # the same plot of another test before
        c = dict(cfg, fixed=1)
        c.pop('mask', None)
        pl.Plotting1288(make(ctx, c, 9, False, None)[0]).plot(getattr(pl, cfg['plot']))
        del figs[:]
    p.plot(getattr(pl, cfg['plot']))
    ctx.check('one figure', len(figs) == 1)
    for k, t in enumerate(tests):
        verify(ctx, cfg['plot'], figs[0], k, t)


def verify(ctx, plot, fig, k, t):
    test, te, sp, masked = t
    n = len(te['u_p'])

    def line(label, pos=None):
        ls = [li for p, li in fig.lines if li.label == label and (pos is None or p == pos)]
        ctx.check('%s of every test' % label, len(ls) > k, '%d' % len(ls))
        return ls[k]

    def same(label, li, xs, ys):
        if xs is not None:
            ctx.eq(label + ' x', ctx.flat(li.x), xs)
        ctx.eq(label + ' y', ctx.flat(li.y), ys)

    up = ctx.vals(te['u_p'])
    X = [a - b for a, b in zip(ctx.vals(te['u_y']), ctx.vals(te['u_ydark']))]
    v = ctx.v
    if plot == 'PlotSensitivity':
        R = v(test.R)
        a, b = test.index_sensitivity_min, test.index_sensitivity_max
        same('data', line('Data'), up, X)
        same('fit', line('Fit'), up, [R * x for x in up])
        same('fit range', line('Fit range'), [up[a], up[b]], [X[a], X[b]])
    elif plot == 'PlotPTC':
        Y = [a - b for a, b in zip(ctx.vals(te['s2_y']), ctx.vals(te['s2_ydark']))]
        K = v(test.K)
        a, b, s = test.index_sensitivity_min, test.index_sensitivity_max, test.index_u_ysat
        same('data', line('Data'), X, Y)
        same('fit', line('Fit'), X, [K * x for x in X])
        same('fit range', line('Fit range'), [X[a], X[b]], [Y[a], Y[b]])
        same('saturation', line('Saturation'), [X[s]], [Y[s]])
    elif plot == 'PlotLinearity':
        li = test.linearity()
        m, c = v(li['fit_slope']), v(li['fit_offset'])
        a, b = test.index_linearity_min, test.index_linearity_max
        same('data', line('Data'), up, X)
        same('fit', line('Fit'), up, [m * x + c for x in up])
        same('fit range', line('Fit range'), [up[a], up[b]], [X[a], X[b]])
    elif plot == 'PlotDeviationLinearity':
        dev = ctx.vals(test.linearity()['relative_deviation'])
        a, b = test.index_linearity_min, test.index_linearity_max
        same('data', line('Data'), up[a:b + 1], dev[a:b + 1])
        same('fit range', line('Fit range'), [up[a], up[b]], [dev[a], dev[b]])
    elif plot == 'PlotSNR':
        s2 = ctx.vals(te['s2_y'])
        keep = [i for i in range(n) if ctx.truth(s2[i] > 0)]
        same('data', line('Data'), [up[i] for i in keep], [ctx.div(X[i], ctx.sqrt(s2[i])) for i in keep])
        marks = [li for _, li in fig.lines if li.kind == 'axvline']
        ctx.check('sensitivity threshold and saturation', len(marks) >= 2 * k + 2)
        ctx.check('marks are named', 'min' in str(marks[2 * k].label) and 'sat' in str(marks[2 * k + 1].label))
        ctx.eq('sensitivity threshold', marks[2 * k].x, v(test.u_p_min))
        ctx.eq('saturation', marks[2 * k + 1].x, v(test.u_p_sat))
        # the curves, at some of their points: (signal / noise)^2 is rational
        QE, K, sd, q = v(test.QE), v(test.K), v(test.sigma_d), v(test.s2q)
        dsnu, prnu, lo, hi = v(test.DSNU1288), v(test.PRNU1288), v(test.u_p_min), v(test.u_p_sat)
        for label in ('Theoretical', 'Ideal', 'Total SNR'):
            li = line(label)
            xs, ys = ctx.flat(li.x), ctx.flat(li.y)
            ctx.check('%s curve' % label, len(xs) == len(ys) and len(xs) > 1, '%d %d' % (len(xs), len(ys)))
            ctx.check('%s curve from the threshold to saturation' % label,
                      ctx.all([xs[0] <= lo * ctx.const('1.001'), xs[-1] * ctx.const('1.02') >= hi]))
            for i in (0, len(xs) // 2, len(xs) - 1):
                x, y = xs[i], ys[i]
                e = QE * x / 100
                dark = sd * sd + ctx.div(q, K * K)
                ctx.check('%s SNR not negative' % label, y >= 0)
                if label == 'Ideal':
                    ctx.eq('ideal SNR', y * y, x)
                elif label == 'Theoretical':
                    ctx.eq('theoretical SNR', y * y * (dark + e), e * e)
                elif not ctx.truth(ctx.isnan(dsnu)) and not ctx.truth(ctx.isnan(prnu)):
                    p = prnu * e / 100
                    ctx.eq('total SNR', y * y * (dark + e + dsnu * dsnu + p * p), e * e)
    elif plot == 'PlotUyDark':
        same('data', line('Data'), ctx.vals(te['texp']), ctx.vals(te['u_ydark']))
    elif 'Histogram' in plot:
        which = plot[-4:]
        h = getattr(test, 'histogram_' + which + ('_accumulated' if 'Accumulated' in plot else ''))
        same('histogram', line('Data'), ctx.flat(h['bins']), ctx.flat(h['values']))
        if 'Accumulated' not in plot:
            same('model', line('Model'), ctx.flat(h['bins']), ctx.flat(h['model']))
    elif 'Spectrogram' in plot:
        L, LD = v(sp['L']), v(sp['L_dark'])
        D = [[ctx.div(x, LD) for x in r] for r in ctx.vals(sp['sum_dark'])]
        px = D
        if 'PRNU' in plot:
            px = [[ctx.div(b, L) - d for b, d in zip(rb, rd)] for rb, rd in zip(ctx.vals(sp['sum']), D)]
        if 'Vertical' in plot:
            px = [list(c) for c in zip(*px)]
        want = spectrum(ctx, px, 1)
        if 'PRNU' in plot:
            mean = ctx.mean([x for r in px for x in r])
            want = [ctx.div(w * 10000, mean * mean) for w in want]
        li = line('Data')
        got, at = ctx.flat(li.y), ctx.flat(li.x)
        ctx.check('number of frequencies', len(at) == len(got))
        ctx.check('length of the spectrogram', len(want) - 1 <= len(got) <= len(want), '%d' % len(got))
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.eq('frequency', at[i], ctx.div(i, len(px[0])))
            ctx.check('not negative', g >= 0)
            ctx.eq('square root of the spectrogram', g * g, w)
        which = plot[-4:]
        marks = [li for _, li in fig.lines if li.kind == 'axhline' and which in str(li.label)]
        ctx.check('reported %s of every test' % which, len(marks) > k)
        ctx.eq('reported %s' % which, marks[k].y, v(test.DSNU1288_DN() if which == 'DSNU' else test.PRNU1288))
        noise = [li for _, li in fig.lines if li.kind == 'axhline' and 'stack' in str(li.label)]
        ctx.check('temporal noise of every test', len(noise) > k)
        s2 = v(test.sigma_2_y_stack_dark if which == 'DSNU' else test.sigma_2_y_stack)
        at = noise[k].y
        ctx.check('temporal noise not negative', ctx.any([at >= 0, mean < 0]) if which == 'PRNU' else at >= 0)
        ctx.eq('temporal noise', at * at * mean * mean if which == 'PRNU' else at * at, s2 * 10000 if which == 'PRNU' else s2)
    else:
        vertical = 'Vertical' in plot
        rows, cols = len(ctx.np.asarray(sp['sum'])), len(ctx.np.asarray(sp['sum'])[0])
        at = lambda a, i, j: v(ctx.np.asarray(a.data if masked else a)[i, j])
        L, LD = v(sp['L']), v(sp['L_dark'])
        D = [[ctx.div(at(sp['sum_dark'], i, j), LD) for j in range(cols)] for i in range(rows)]
        B = [[ctx.div(at(sp['sum'], i, j), L) - D[i][j] for j in range(cols)] for i in range(rows)]
        if fig.lines and vertical:
            bright, dark = (1, 2, 2), (1, 2, 1)
        else:
            bright, dark = (2, 1, 1), (2, 1, 2)
        for name, img, pos in (('bright', B, bright), ('dark', D, dark)):
            # lines along the direction: for each index the pixels to reduce
            groups = []
            for i in range(rows if vertical else cols):
                g = [(img[i][j] if vertical else img[j][i]) if ((i, j) if vertical else (j, i)) not in masked else None
                     for j in range(cols if vertical else rows)]
                groups.append(g)
            ok = [i for i, g in enumerate(groups) if any(x is not None for x in g)]
            live = [[x for x in groups[i] if x is not None] for i in ok]
            want = {'Mean': [ctx.mean(g) for g in live], 'Min': [ctx.min(g) for g in live], 'Max': [ctx.max(g) for g in live]}
            for label, ys in want.items():
                li = line(label, pos)
                x, y = (li.y, li.x) if vertical else (li.x, li.y)
                ctx.eq('%s %s profile index' % (name, label), ctx.flat(x), ok)
                ctx.eq('%s %s profile' % (name, label), ctx.flat(y), ys)
            li = line('Mid', pos)
            x, y = (li.y, li.x) if vertical else (li.x, li.y)
            m = len(groups[0]) // 2
            if all(g[m] is None for g in groups):
                continue
            ok = [i for i, g in enumerate(groups) if g[m] is not None]
            ctx.eq('%s middle line index' % name, ctx.flat(x), ok)
            ctx.eq('%s middle line' % name, ctx.flat(y), [groups[i][m] for i in ok])
