"""C04: temporal measurement series are sorted and stay aligned."""
MODULES = ['process.data']
BOUNDS = ('1 to 3 exposure times with 1 to 3 bright points each (thorough: 4), exposure times and photon counts distinct symbolic reals '
          '(hence every order), the dark entry at every position, sums symbolic integers, mean differences symbolic reals, '
          'images 1x1 to 3x2 for the spatial part; every exposure without dark or bright point; 0 to 2 spatial exposures '
          'with 1 to 3 points')


def configs(tier):
    shapes = [[1], [2], [3], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [1, 2, 1]]
    if tier == 'thorough':
        shapes += [[4], [2, 3], [3, 2], [1, 1, 1, 1], [2, 2, 2]]
    out = [{'name': 'bright points %s' % s, 'n': s, 'bad': None} for s in shapes]
    for bad in ('dark', 'bright', 'spatial'):
        for s in ([1], [2, 1], [1, 1, 2]):
            out.append({'name': 'without %s %s' % (bad, s), 'n': s, 'bad': bad})
    out.append({'name': 'shared photon counts', 'n': [2, 2], 'bad': None, 'shared': True})
    return out


def entry(ctx, name, W, H):
    return {'sum': ctx.int(name + '_sum', 0, 10 ** 9), 'pvar': ctx.int(name + '_pvar', 0, 10 ** 12),
            'dmean': ctx.real(name + '_dm', -100, 100)}


def spentry(ctx, name, W, H, L):
    return {'sum': ctx.ints(name + '_sum', (H, W), 0, 10000), 'pvar': ctx.ints(name + '_pvar', (H, W), 0, 10 ** 6), 'L': L}


def distinct(ctx, xs):
    for i in range(len(xs)):
        for j in range(i):
            d = xs[i] - xs[j]
            ctx.assume(ctx.any([d > ctx.const('0.000001'), d < ctx.const('-0.000001')]))


def insert(ctx, name, items):
    """dict of the items, its dark entry (first item) moved to any position"""
    k = ctx.index(name, len(items)) if len(items) > 1 else 0
    items = items[1:k + 1] + items[:1] + items[k + 1:]
    return dict(items)


def harness(ctx, cfg):
    dm = ctx.mod('process.data')
    W, H = 2, 3
    bad = cfg['bad']
    nexp = len(cfg['n'])
    texp = [ctx.real('t%d' % i, 1, 1000000) for i in range(nexp)]
    distinct(ctx, texp)
    where = ctx.index('where', nexp) if bad in ('dark', 'bright') else None
    temporal, ref = {}, []
    shared = None
    for i in range(nexp):
        if cfg.get('shared') and shared:
            ps = shared
        else:
            ps = shared = [ctx.real('p%d_%d' % (i, j), 1, 100000) for j in range(cfg['n'][i])]
            distinct(ctx, ps)
        dark = (0.0, entry(ctx, 'd%d' % i, W, H))
        bright = [(p, entry(ctx, 'b%d_%d' % (i, j), W, H)) for j, p in enumerate(ps)]
        items = [dark] + bright
        if i == where:
            items = [dark] if bad == 'bright' else bright
        temporal[texp[i]] = insert(ctx, 'pos%d' % i, items) if i != where else dict(items)
        ref.append((texp[i], dark[1], bright))
    spatial = {texp[0]: {0.0: spentry(ctx, 'sd', W, H, 2), 70.0: spentry(ctx, 'sb', W, H, 3)}}
    if bad == 'spatial':
        kind = ctx.choice('kind', ['none', 'two', 'no dark', 'no bright', 'three'])
        e = spentry(ctx, 'sx', W, H, 2)
        t = texp[0]
        if kind == 'none':
            spatial = {}
        elif kind == 'two':
            spatial = {t: dict(spatial[t]), 2000000.0: dict(spatial[t])}
        elif kind == 'no dark':
            spatial = {t: {3.0: e, 70.0: spatial[t][70.0]} if ctx.flag('twobright') else {70.0: e}}
        elif kind == 'no bright':
            spatial = {t: {0.0: e}}
        else:
            spatial[t][80.0] = e
    data = {'temporal': temporal, 'spatial': spatial, 'width': W, 'height': H}
    if not bad:
        # another data set with the same points before
        e = {'sum': 1000, 'pvar': 5000, 'dmean': 0.25}
        dm.Data1288({'temporal': {t: {p: e for p in s} for t, s in temporal.items()}, 'width': W, 'height': H,
                     'spatial': {t: {p: {'sum': ctx.np.ones((H, W)), 'pvar': ctx.np.ones((H, W)), 'L': 5} for p in s} for t, s in spatial.items()}})
    res, exc = ctx.call(dm.Data1288, data)
    if bad:
        ctx.check('rejected', isinstance(exc, ValueError), 'got %r' % (exc,))
        return
    if exc is not None:
        raise exc
    got = res.data['temporal']
    npx = W * H

    def mv(e):
        return ctx.div(ctx.v(e['sum']), 2 * npx), ctx.div(ctx.v(e['pvar']), 4 * npx) - ctx.v(e['dmean']) * ctx.v(e['dmean']) / 2
    ref = order(ctx, ref)
    want = {k: [] for k in ('texp', 'u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark')}
    for t, d, bright in ref:
        m, v = mv(d)
        want['texp'].append(ctx.v(t))
        want['u_ydark'].append(m)
        want['s2_ydark'].append(v)
        for p, e in order(ctx, bright):
            m, v = mv(e)
            want['u_p'].append(ctx.v(p))
            want['u_y'].append(m)
            want['s2_y'].append(v)
    if nexp == 1:
        for k in ('texp', 'u_ydark', 's2_ydark'):
            want[k] = want[k] * len(want['u_p'])
    for k in want:
        ctx.eq(k, got[k], want[k])


def order(ctx, items):
    items = list(items)
    out = []
    while items:
        k = 0
        for i in range(1, len(items)):
            if ctx.truth(ctx.v(items[i][0]) < ctx.v(items[k][0])):
                k = i
        out.append(items.pop(k))
    return out
