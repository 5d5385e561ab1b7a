"""C17: the spectrogram is the row-averaged power spectrum of the mean-free image."""
import math

MODULES = ['process.routines']
BOUNDS = ('images of 1 to 4 rows and 1 to 8 columns (thorough: to 6 rows and 12 columns) of symbolic pixels (8, 16 and 64 bit '
          'integers, floats), plain and rotated, sums of 1 to 16 images and a symbolic number of them; images of 700 rows and of 700 columns with four symbolic pixels; odd numbers of rows after other images of the same size')


def configs(tier):
    out = []

    def add(R, C, dt='int64', rot=False, n=1, **k):
        out.append(dict({'name': '%dx%d %s%s n=%s' % (R, C, dt, ' rotated' if rot else '', n), 'shape': [R, C], 'dt': dt, 'rot': rot, 'n': n}, **k))
    for R, C in ((1, 1), (1, 2), (2, 1), (1, 5), (2, 2), (3, 2), (2, 3), (3, 3), (2, 4), (4, 3), (3, 5), (2, 6), (2, 7), (3, 8)):
        add(R, C)
    for R, C in ((3, 2), (2, 3), (4, 2), (2, 5), (4, 4)):
        add(R, C, rot=True, n=2)
    add(2, 4, 'uint8', n=1)
    add(3, 4, 'uint16', n=1)
    add(3, 3, 'uint8', True, n=3)
    add(2, 5, 'float64', n=16)
    add(2, 4, 'int64', n='symbolic')
    add(3, 4, 'int64', True, n='symbolic')
    # images of realistic height, all pixels but four of them concrete
    add(700, 2, 'int64', many=True)
    add(2, 700, 'uint16', True, 2, many=True)
    if tier == 'thorough':
        for R, C in ((6, 4), (4, 6), (2, 9), (2, 10), (3, 11), (2, 12), (5, 8)):
            add(R, C)
            add(C, R, 'uint16', True, 4)
    return out


def trig(ctx, n, k):
    """cos and sin of 2 pi k / n"""
    k %= n

    def num(v):
        for t in (0, 0.5, 1):
            if abs(abs(v) - t) < 1e-12:
                return ctx.const(str(t)) * (1 if v > 0 else -1)
        if n in (3, 6, 12) and abs(abs(v) - math.sqrt(3) / 2) < 1e-12:
            return ctx.sqrt(ctx.const('3')) * ctx.const('0.5') * (1 if v > 0 else -1)
        return ctx.const('%.15f' % v)
    return num(math.cos(2 * math.pi * k / n)), num(math.sin(2 * math.pi * k / n))


def spectrum(ctx, px, n=1):
    """definition for nested lists of oracle numbers; n is an oracle number"""
    C = len(px[0])
    mean = ctx.mean([x for r in px for x in r])
    out = []
    for k in range(C // 2 + 1):
        tot = []
        for r in px:
            cs = [trig(ctx, C, k * j) for j in range(C)]
            re = ctx.sum((x - mean) * c for x, (c, s) in zip(r, cs))
            im = ctx.sum((x - mean) * s for x, (c, s) in zip(r, cs))
            tot.append(re * re + im * im)
        out.append(ctx.div(ctx.mean(tot), n * n * C))
    return out


def harness(ctx, cfg):
    rt = ctx.mod('process.routines')
    R, C = cfg['shape']
    dt, rot = cfg['dt'], cfg['rot']
    if dt == 'float64':
        img = ctx.reals('y', (R, C), -1000, 1000)
    else:
        img = ctx.ints('y', (2, 2) if cfg.get('many') else (R, C), 0 if dt[0] == 'u' else -10000, 255 if dt == 'uint8' else 60000, dt)
    if cfg.get('many'):
        m = max(R, C)
        a = (ctx.np.arange(2 * (m - 2)) % 251).reshape(m - 2, 2)
        img = ctx.np.concatenate([img[:1], a.astype(dt), img[1:]])
        if R < C:
            R, C = 2, m
            img = img.transpose()
    elif R % 2:
        # other images of the same size before
        other = (ctx.np.arange(R * C) % 97).reshape(R, C).astype(dt)
        for k in (1, 5):
            rt.FFT1288(other, rotate=rot, n=k)
            rt.FFT1288(other, rotate=not rot, n=k)
    px = ctx.vals(img)
    n = ctx.int('n', 1, 100) if cfg['n'] == 'symbolic' else cfg['n']
    N = ctx.v(n)
    f = lambda im: ctx.vals(rt.FFT1288(im, rotate=rot, n=n))
    if cfg['n'] == 1 and not rot:
        res = ctx.vals(rt.FFT1288(img))
    else:
        res = f(img)
    lines = [list(c) for c in zip(*px)] if rot else px
    want = spectrum(ctx, lines, N)
    cols = len(lines[0])
    ctx.check('number of entries', len(res) == cols // 2 + 1, '%d' % len(res))
    for k, w in enumerate(want):
        ctx.eq('entry %d' % k if k < 2 else 'entry', res[k], w, rel=1e-6, abs=1e-6)
    ctx.eq('image left alone', ctx.vals(img), px)
    mean = ctx.mean([x for r in px for x in r])
    dev = ctx.sum((x - mean) * (x - mean) for r in px for x in r)
    inner = [r * (1 if k == 0 or 2 * k == cols else 2) for k, r in enumerate(res)]
    ctx.eq('sum of the entries', ctx.sum(inner), ctx.div(dev, N * N * len(lines)), rel=1e-5, abs=1e-5)
    if dt in ('int64', 'float64'):
        for k, (a, b) in enumerate(zip(f(img + 1000), res)):
            ctx.eq('constant added', a, b, rel=1e-5, abs=1e-5)
        for k, (a, b) in enumerate(zip(f(img * 3), res)):
            ctx.eq('scaled', a, b * 9, rel=1e-5, abs=1e-5)
        order = list(range(1, len(lines))) + [0]
        moved = ctx.array([[img[j, i] if rot else img[i, j] for j in range(len(lines[0]))] for i in order], dtype=dt)
        for k, (a, b) in enumerate(zip(f(moved.transpose() if rot else moved), res)):
            ctx.eq('rows reordered', a, b, rel=1e-5, abs=1e-5)
