"""C34: quantum efficiency tables are validated and never shared by accident."""

MODULES = ['camera.routines']
BOUNDS = ('sensors of 1x1 to 3x3 pixels, 1 to 3 wavelengths; tables of every shape with each dimension up to 3, of 0, 1, 2 and 4 dimensions, '
          'transposed ones; symbolic tables and filters (of the same shape, per wavelength, per pixel, one number, 0 included); simulated '
          'tables for symbolic wavelengths from 1 to 2000 nm; several objects made from one table or one filter')


def configs(tier):
    out = []
    sizes = ((1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 3), (2, 2, 2), (3, 2, 1)) + (((3, 3, 3), (2, 3, 4)) if tier == 'thorough' else ())
    for s in sizes:
        for f in ('none', 'same', 'wavelengths', 'pixels', 'number'):
            out.append({'name': 'table %s filter %s' % (s, f), 'kind': 'table', 'size': s, 'filter': f})
        out.append({'name': 'wrong shapes for %s' % (s,), 'kind': 'wrong', 'size': s})
    for n in (1, 2, 3):
        for f in ('none', 'same', 'number'):
            out.append({'name': 'simulated %d filter %s' % (n, f), 'kind': 'simulated', 'size': (1, 2, n), 'filter': f})
    for lo, hi in ((1, 200), (200, 400), (400, 800), (800, 1000), (1000, 1100), (1100, 1500), (1500, 3000)):
        out.append({'name': 'simulated from %d to %d nm' % (lo, hi), 'kind': 'range', 'lo': lo, 'hi': hi})
    out.append({'name': 'default wavelengths', 'kind': 'default'})
    return out


def product(ctx, label, got, t, f, sh, form):
    ctx.check(label + ' shape', getattr(got, 'shape', None) == sh, '%s' % (getattr(got, 'shape', None),))
    g = ctx.vals(got)
    for i in range(sh[0]):
        for j in range(sh[1]):
            for k in range(sh[2]):
                x = {'none': lambda: 1, 'same': lambda: f[i][j][k], 'wavelengths': lambda: f[k], 'pixels': lambda: f[i][j][0],
                     'number': lambda: f}[form]()
                ctx.eq(label, g[i][j][k], t[i][j][k] * x)


def make_filter(ctx, form, sh):
    if form == 'none':
        return None
    if form == 'number':
        return ctx.real('filter', 0, 2)
    return ctx.reals('filter', {'same': sh, 'wavelengths': sh[2:], 'pixels': sh[:2] + (1,)}[form], 0, 2)


def harness(ctx, cfg):
    rt = ctx.mod('camera.routines')
    kind = cfg['kind']
    if kind == 'default':
        q = rt.Qe(width=2, height=1)
        ctx.check('shape', q.qe.shape == (1, 2, 100))
        ctx.check('wavelengths', len(q.w) == 100)
        for x in ctx.flat(q.qe):
            ctx.check('not negative', x >= 0)
        r = rt.Qe(width=2, height=1, filter=ctx.real('f', 0, 1))
        ctx.check('tables are different objects', r.qe is not q.qe)
        return
    if kind == 'range':
        lo, hi = cfg['lo'], cfg['hi']
        w = [lo + (hi - lo) * k / 8.0 for k in range(9)]
        if ctx.flag('any wavelength'):
            w[4] = ctx.real('w', lo, hi)
        q = rt.Qe(wavelength=ctx.array(w), width=2, height=2)
        ctx.check('shape', q.qe.shape == (2, 2, 9))
        for x in ctx.flat(q.qe):
            ctx.check('not negative', x >= 0)
        return
    sh = tuple(cfg['size'])
    H, W, n = sh
    waves = ctx.reals('w', n, 1, 2000)
    if kind == 'wrong':
        good = ctx.reals('q', sh, 0, 1)
        r, exc = ctx.call(rt.Qe, good, waves, W, H)
        ctx.check('right shape accepted', exc is None, '%r' % (exc,))
        form = ctx.index('form', 4)
        if form == 0:
            bad = tuple(1 + ctx.index('dimension%d' % i, 4) for i in range(3))
        elif form == 1:
            bad = ctx.choice('dimensions', [(n,), (H, W), (W, n), (H * W, n), (H, W, n, 1), (1, H, W, n), (H * W * n,)])
        elif form == 2:
            bad = ctx.choice('transposed', [(W, H, n), (n, H, W), (H, n, W), (n, W, H), (W, n, H)])
        else:
            bad = ctx.choice('one more or less', [(H + 1, W, n), (H, W + 1, n), (H, W, n + 1), (H - 1, W, n), (H, W - 1, n), (H, W, n - 1)])
        if bad == sh:
            return
        table = ctx.np.ones(bad)
        for f in (None, 1.0):
            r, exc = ctx.call(rt.Qe, table, waves, W, H, f)
            ctx.check('wrong shape raises ValueError', isinstance(exc, ValueError), 'shape %s for %s: %r' % (bad, sh, exc))
        return
    form = cfg['filter']
    f = make_filter(ctx, form, sh)
    F = ctx.vals(f) if f is not None else None
    W0 = ctx.vals(waves)
    if kind == 'table':
        t = ctx.reals('q', sh, 0, 1)
        T = ctx.vals(t)
        a = rt.Qe(qe=t, wavelength=waves, width=W, height=H, filter=f)
        b = rt.Qe(qe=t, wavelength=waves, width=W, height=H, filter=f)
        c = rt.Qe(t, waves, W, H)
        ctx.eq('given table unchanged', t, T)
        product(ctx, 'first', a.qe, T, F, sh, form)
        product(ctx, 'second', b.qe, T, F, sh, form)
        product(ctx, 'without filter', c.qe, T, None, sh, 'none')
    else:
        plain = rt.Qe(wavelength=waves, width=W, height=H)
        ctx.check('shape', plain.qe.shape == sh)
        T = ctx.vals(plain.qe)
        for x in ctx.flat(plain.qe):
            ctx.check('not negative', x >= 0)
        for p in range(W):
            ctx.eq('the same for all pixels', T[0][p], T[0][0])
        a = rt.Qe(wavelength=waves, width=W, height=H, filter=f)
        product(ctx, 'filtered', a.qe, T, F, sh, form)
        ctx.eq('unfiltered unchanged', plain.qe, T)
    if F is not None:
        ctx.eq('filter unchanged', f, F)
    ctx.eq('wavelengths unchanged', waves, W0)
    ctx.eq('wavelengths', a.w, W0)
