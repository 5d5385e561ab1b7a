"""C13: the high-pass filter is exactly pixel minus local box mean, scaled, borders cut."""
EXACT64 = True
MODULES = ['process.routines']
BOUNDS = ('images up to 7x8 (thorough: 9x9) of symbolic pixels (over the whole range of 8 to 32 bit types, 64 bit integers, floats, nested lists), filter sizes 1, 3, 5 (thorough: 7); '
          'all 15 masks of period 2x2 and some of period 3x3, each also with one pixel flipped anywhere; every even size up to 6; with size 3 after a plain and a differently masked image of the same size')


def configs(tier):
    th = tier == 'thorough'
    out = []
    for d, shp, dt in ((1, (2, 3), 'int64'), (3, (3, 3), 'int64'), (3, (5, 4), 'int32'), (3, (4, 6), 'float64'), (5, (6, 7), 'int64'),
                       (5, (5, 5), 'float64'), (3, (3, 4), 'uint8'), (5, (5, 6), 'uint16'), (3, (4, 3), 'int16'),
                       (5, (5, 5), 'uint8'), (3, (3, 3), 'int8'), (3, (3, 3), 'uint32')) + (((7, (8, 7), 'int64'), (5, (9, 9), 'int64')) if th else ()):
        out.append({'name': 'd=%d %dx%d %s' % ((d,) + shp + (dt,)), 'd': d, 'shape': list(shp), 'dt': dt, 'mask': None})
    for p in range(1, 16):
        m = [[p & 1, p >> 1 & 1], [p >> 2 & 1, p >> 3 & 1]]
        for d, shp in ((3, (4, 5)), (5, (6, 7))) + (((5, (7, 8)), (3, (6, 5))) if th else ()):
            out.append({'name': 'd=%d %dx%d pattern %s' % ((d,) + shp + (m,)), 'd': d, 'shape': list(shp), 'dt': 'int64', 'mask': m})
    for dt in ('uint8', 'uint16', 'int32'):
        out.append({'name': 'd=3 masked %s' % dt, 'd': 3, 'shape': [4, 5], 'dt': dt, 'mask': [[1, 0], [0, 1]]})
    for m in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [1, 1, 0], [0, 0, 0]]):
        for d, shp in ((3, (5, 5)), (5, (7, 6))):
            out.append({'name': 'd=%d %dx%d pattern %s' % ((d,) + shp + (m,)), 'd': d, 'shape': list(shp), 'dt': 'int64', 'mask': m})
    out.append({'name': 'one flipped pixel', 'd': 3, 'shape': [4, 5], 'dt': 'int64', 'mask': [[1, 0], [0, 0]], 'flip': True})
    out.append({'name': 'one flipped pixel, d=5', 'd': 5, 'shape': [6, 6], 'dt': 'int64', 'mask': [[0, 1], [1, 0]], 'flip': True})
    out.append({'name': 'empty mask', 'd': 3, 'shape': [4, 3], 'dt': 'int64', 'mask': [[1]]})
    out.append({'name': 'nested list', 'd': 3, 'shape': [4, 4], 'dt': 'int64', 'mask': None, 'list': True})
    out.append({'name': 'even sizes', 'd': 0, 'shape': [6, 6], 'dt': 'int64', 'mask': None, 'even': True})
    return out


def harness(ctx, cfg):
    rt = ctx.mod('process.routines')
    R, C = cfg['shape']
    d, dt = cfg['d'], cfg['dt']
    if dt == 'float64':
        img = ctx.reals('y', (R, C), -1000, 1000)
    else:
        lo, hi = {'uint8': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535), 'int16': (-32768, 32767), 'uint32': (0, 2 ** 32 - 1)}.get(dt, (-100000, 1000000))
        img = ctx.ints('y', (R, C), lo, hi, dt)
    before = ctx.vals(img)
    if cfg.get('list'):
        img = [[img[i, j] for j in range(C)] for i in range(R)]
    mask = None
    if cfg.get('even'):
        d = ctx.choice('d', [2, 4, 6])
        if ctx.flag('masked'):
            img = ctx.np.ma.array(img, mask=[[bool((i + j) % 2) for j in range(C)] for i in range(R)])
        _, exc = ctx.call(rt.high_pass_filter, img, d)
        ctx.check('even size rejected', isinstance(exc, ValueError), 'got %r' % (exc,))
        return
    if cfg['mask']:
        m = cfg['mask']
        use = [[bool(m[i % len(m)][j % len(m[0])]) for j in range(C)] for i in range(R)]
        if cfg.get('flip'):
            k = ctx.index('flip', R * C)
            use[k // C][k % C] = not use[k // C][k % C]
        mask = [[not u for u in r] for r in use]
        img = ctx.np.ma.array(img, mask=mask)
    else:
        use = [[True] * C for i in range(R)]
    h = d // 2
    inner = [(i, j) for i in range(h, R - h) for j in range(h, C - h)]
    nb = {(i, j): [(a, b) for a in range(i - h, i + h + 1) for b in range(j - h, j + h + 1) if use[a][b]] for i, j in inner}
    counts = sorted({len(nb[i, j]) for i, j in inner if use[i][j]})
    if not counts:
        return
    if d == 3:
        # other images of the same size and type before
        other = (ctx.np.arange(R * C) % 97).reshape(R, C).astype(dt)
        for k in range(2):
            hide = [[u if mask else bool((i + j) % 2) for j, u in enumerate(r)] for i, r in enumerate(use)]
            ctx.call(rt.high_pass_filter, ctx.np.ma.array(other, mask=hide) if k else other, d)
    res, exc = ctx.call(rt.high_pass_filter, img, d)
    if len(counts) > 1:
        ctx.check('irregular mask rejected', isinstance(exc, ValueError), 'got %r, counts %s' % (exc, counts))
        return
    if exc is not None:
        raise exc
    n = counts[0]
    out = res['img']
    ctx.eq('factor', res['multiplicator'], n)
    ctx.check('shape', tuple(out.shape) == (R - 2 * h, C - 2 * h), '%s' % (out.shape,))
    om = ctx.np.ma.getmaskarray(out) if mask else None
    data = ctx.np.ma.getdata(out)
    for i, j in inner:
        if mask:
            ctx.check('mask kept', bool(om[i - h, j - h]) == (not use[i][j]))
        if use[i][j]:
            want = before[i][j] * n - ctx.sum(before[a][b] for a, b in nb[i, j])
            ctx.eq('filtered pixel', data[i - h, j - h], want, abs=1e-5)
    ctx.eq('input left alone', [[ctx.v(x) for x in r] for r in img] if cfg.get('list') else ctx.np.ma.getdata(img), before)
    if mask:
        ctx.check('input mask left alone', ctx.np.ma.getmaskarray(img).tolist() == mask)
