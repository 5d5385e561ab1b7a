"""C01: reducing an image series is exact and leaves the images untouched."""
MODULES = ['process.routines']
BOUNDS = ('images of 1x1 to 3x2 pixels, series of 2 to 6 images (33 and 60 for one pixel; thorough: up to 8 and 300), '
          'of 999 images in which one or two images repeat, '
          'every pixel an independent symbolic integer over the full range of 8/10/12/16 bit values in '
          'uint8/int16/uint16/int32/uint32/int64/uint64 storage; up to 6 images after another series of the same size')
EXACT64 = True
RANGE = {'uint8': (0, 255), 'int8': (-128, 127), 'int16': (-32768, 32767), 'uint16': (0, 65535), 'int32': (-32768, 65535),
         'uint32': (0, 65535), 'int64': (-65536, 65535), 'uint64': (0, 65535), 'mixed': (0, 255)}


def configs(tier):
    out = []

    def add(shape, L, dt, layout='C'):
        out.append({'name': '%dx%d L=%d %s%s' % (shape[0], shape[1], L, dt, '' if layout == 'C' else ' ' + layout),
                    'shape': list(shape), 'L': L, 'dt': dt, 'layout': layout})
    for dt in ('uint8', 'int8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64'):
        add((2, 2), 3, dt)
        add((1, 2), 2, dt)
    add((2, 3), 5, 'uint16')
    add((3, 2), 6, 'uint8')
    add((3, 2), 2, 'mixed')
    add((2, 3), 2, 'uint16', 'T')
    add((1, 1), 33, 'uint8')
    add((1, 1), 33, 'uint16')
    add((1, 1), 60, 'uint16')
    add((2, 2), 1, 'uint16')
    for dt in ('uint16', 'int16', 'uint8'):
        out.append({'name': '1x1 L=999 %s repeated' % dt, 'shape': [1, 1], 'L': 999, 'dt': dt, 'layout': 'C', 'repeat': 1})
    out.append({'name': '1x2 L=999 uint16 alternating', 'shape': [1, 2], 'L': 999, 'dt': 'uint16', 'layout': 'C', 'repeat': 2})
    if tier == 'thorough':
        for dt in ('uint8', 'int16', 'uint16', 'int32'):
            add((3, 3), 8, dt)
            add((4, 2), 4, dt)
            add((1, 1), 300, dt)
            add((1, 1), 100, dt)
            add((2, 2), 20, dt)
    return out


def harness(ctx, cfg):
    r = ctx.mod('process.routines')
    lo, hi = RANGE[cfg['dt']]
    L = cfg['L']
    imgs = []
    p = cfg.get('repeat', L)
    for k in range(p):
        dt = cfg['dt'] if cfg['dt'] != 'mixed' else ('uint8', 'uint16')[k % 2]
        im = ctx.ints('y%d' % k, cfg['shape'], lo, hi, dt)
        if cfg['layout'] == 'T':
            im = im.T
        imgs.append(im)
    imgs = [imgs[k % p] for k in range(L)]
    before = [ctx.vals(i) for i in imgs]
    if L < 7:
        # another series of the same size before
        r.get_int_imgs([(ctx.np.arange(im.size) % 97 + k).reshape(im.shape).astype(im.dtype) for k, im in enumerate(imgs)])
    res = r.get_int_imgs(imgs)
    n = L
    rows, cols = imgs[0].shape
    c = [len(range(k, n, p)) for k in range(p)]
    S = [[ctx.sum(before[k][i][j] * c[k] for k in range(p)) for j in range(cols)] for i in range(rows)]
    Q = [[ctx.sum(before[k][i][j] * before[k][i][j] * c[k] for k in range(p)) for j in range(cols)] for i in range(rows)]
    ctx.check('number of images', res['L'] == n)
    ctx.eq('sum', res['sum'], S, rel=0, abs=0)
    ctx.eq('pvar', res['pvar'], [[(Q[i][j] * n - S[i][j] * S[i][j]) * n for j in range(cols)] for i in range(rows)], rel=0, abs=0)
    means = [ctx.mean([x for row in b for x in row]) for b in before]
    d = 0
    for k in range(1, n):
        d = d + (means[k] - means[k - 1])
    ctx.eq('dmean', res['dmean'], d)
    ctx.eq('images unchanged', [ctx.vals(i) for i in imgs], before, rel=0, abs=0)
    ctx.check('series unchanged', len(imgs) == n)
