"""C28: operating points cover the requested range with one dark point per exposure time."""
from .camera import hook, photons_per_radiance, make_qe
from .C26 import nearest

MODULES = ['camera.routines', 'camera.camera', 'camera.points_generator']
BOUNDS = ('2 to 7 (thorough 11) points; symbolic shortest and longest exposure time (given or of the camera, at least 1 ns per point apart), fixed '
          'exposure time, radiances (given as numbers, 0 included, as arrays, or default) and noise of the dark image; gain and black '
          'offset symbolic, given (0 included) or not, on cameras of 1x1 to 2x2 pixels, 1 or 2 wavelengths and 3 to 4 steps of gain and black offset; three points also after the same ones of other cameras')


def configs(tier):
    out = []
    for s in (2, 3, 4, 5, 6, 7) + ((9, 10, 11) if tier == 'thorough' else ()):
        for g in ('given', 'camera') if s < 5 else ('given',):
            out.append({'name': '%d exposure times, range %s' % (s, g), 'kind': 'exposure', 'steps': s, 'range': g})
        for g in ('number', 'array', 'default') if s < 5 else ('number', 'default'):
            out.append({'name': '%d radiances %s' % (s, g), 'kind': 'illumination', 'steps': s, 'range': g})
    for kind in ('exposure', 'illumination'):
        for g in ('gain', 'blackref', 'both', 'zero'):
            out.append({'name': '%s %s set' % (kind, g), 'kind': kind, 'steps': 3, 'range': 'given' if kind == 'exposure' else 'default', 'set': g})
        out.append({'name': '%s 2x2x2' % kind, 'kind': kind, 'steps': 3, 'range': 'given' if kind == 'exposure' else 'number', 'size': (2, 2, 2)})
    out.append({'name': 'only radiance minimum', 'kind': 'illumination', 'steps': 3, 'range': 'minimum'})
    out.append({'name': 'only radiance maximum', 'kind': 'illumination', 'steps': 3, 'range': 'maximum'})
    out.append({'name': 'only shortest', 'kind': 'exposure', 'steps': 3, 'range': 'minimum'})
    out.append({'name': 'only longest', 'kind': 'exposure', 'steps': 3, 'range': 'maximum'})
    return out


def harness(ctx, cfg):
    hook(ctx, limit=1000)
    rt, cm, pg = ctx.mod('camera.routines'), ctx.mod('camera.camera'), ctx.mod('camera.points_generator')
    H, W, n = cfg.get('size', (1, 1, 1) if cfg['steps'] != 4 else (1, 2, 1))
    steps, kind, rng = cfg['steps'], cfg['kind'], cfg['range']
    exposure = kind == 'exposure'
    qe, w = make_qe(ctx, rt, H, W, n)
    dark = ctx.real('dark_current', 0, 100)
    lo, hi = 500000.0, 5000000.0
    if exposure:
        lo = ctx.real('shortest', 1, 10 ** 6)
        hi = lo + ctx.real('range', steps, 10 ** 7)
    K0, off = 1.0, 2.0
    cam = cm.Camera(width=W, height=H, bit_depth=8, qe=qe, K=K0, K_min=0.5, K_max=2, K_steps=4, blackoffset=off, blackoffset_min=0,
                    blackoffset_max=4, blackoffset_steps=3, dark_current_ref=dark, temperature=30, exposure=1000000.0,
                    exposure_min=lo if rng in ('camera', 'maximum') else 777.0, exposure_max=hi if rng in ('camera', 'minimum') else 99999999.0)
    k = {'steps': steps}
    what = cfg.get('set')
    gain, black = K0, off
    if what in ('gain', 'both'):
        gain = k['gain'] = ctx.real('gain', 0, 3)
    if what in ('blackref', 'both'):
        black = k['blackref'] = ctx.real('blackref', -1, 5)
    if what == 'zero':
        gain, black = k['gain'], k['blackref'] = 0, ctx.choice('zero', [0, 0.0])
    if exposure:
        if rng in ('given', 'minimum'):
            k['exposure_min'] = lo
        if rng in ('given', 'maximum'):
            k['exposure_max'] = hi
    else:
        t = k['exposure_fixed'] = ctx.real('exposure', 1000, 10 ** 7) if ctx.flag('real exposure') else ctx.int('iexposure', 1000, 10 ** 7)
        rmin = rmax = None
        if rng in ('number', 'minimum', 'array'):
            rmin = ctx.real('rmin', 0, 10 ** 4)
            k['radiance_min'] = rmin if rng != 'array' else ctx.np.ones((H, W, n)) * rmin
        if rng in ('number', 'maximum', 'array'):
            rmax = ctx.real('rmax', 10 ** 4, 10 ** 6)
            k['radiance_max'] = rmax if rng != 'array' else ctx.np.ones((H, W, n)) * rmax
    if steps == 3:
        # the same points of other cameras before
        for q in (0.25, 0.75):
            pg.PointsGenerator(cm.Camera(width=W, height=H, bit_depth=8, qe=make_qe(ctx, rt, H, W, n, False)[0], K=K0, K_min=0.5, K_max=2,
                                         K_steps=4, blackoffset=off, blackoffset_min=0, blackoffset_max=4, blackoffset_steps=3, dark_current_ref=q,
                                         temperature=20, exposure=1000000.0, exposure_min=lo, exposure_max=hi), **k)
    pts = pg.PointsGenerator(cam, **k).points
    ctx.check('kinds of points', isinstance(pts, dict) and sorted(pts) == ['spatial', 'temporal'])
    # settings of the camera
    nearest(ctx, 'gain', cam.K, gain, [ctx.const(x) for x in ('0.5', '1', '1.5', '2')])
    nearest(ctx, 'black offset', cam.blackoffset, black, [ctx.v(x) for x in (0, 2, 4)])
    K = ctx.v(cam.K)
    temporal, spatial = list(pts['temporal'].items()), list(pts['spatial'].items())
    mq = ctx.mean([x for r in ctx.vals(qe.qe) for c in r for x in c])

    def image(r, label):
        ctx.check(label + ' is an image', getattr(r, 'shape', None) == (H, W, n), '%s' % (getattr(r, 'shape', None),))
        return ctx.flat(r)

    def is_zero(r):
        for x in image(r, 'dark'):
            ctx.eq('no radiance', x, 0, abs=1e-30)

    def saturates(r, t):
        v = image(r, 'bright')
        T = ctx.v(t)
        for i in range(0, len(v), n):
            ph = ctx.sum(v[i + x] * photons_per_radiance(ctx, T, ctx.v(25), ctx.v(w[x]), ctx.v(8)) for x in range(n))
            ctx.eq('saturating radiance', (ctx.v(dark) * T * ctx.const('1e-9') + ph * mq) * K, 255, abs=1e-6)

    middle = steps // 2
    if exposure:
        ctx.check('number of exposure times', len(temporal) == steps, '%d' % len(temporal))
        for i, (t, rs) in enumerate(temporal):
            x = ctx.v(lo) + ctx.div((ctx.v(hi) - ctx.v(lo)) * i, steps - 1)
            d = ctx.v(t) - x
            ctx.check('equally spaced', ctx.max([d, -d]) <= ctx.const('0.0500001'), 'point %d' % i)
            u = ctx.v(t) * 10
            f = ctx.floor(u + ctx.const('0.5'))
            ctx.eq('one decimal', u, f)
            ctx.check('one bright and one dark', len(rs) == 2)
            saturates(rs[0], hi)
            is_zero(rs[1])
        ctx.check('one spatial point', len(spatial) == 1)
        ctx.eq('the middle one', spatial[0][0], temporal[middle][0])
        ctx.check('one bright and one dark spatial', len(spatial[0][1]) == 2)
        saturates(spatial[0][1][0], hi)
        is_zero(spatial[0][1][1])
        return
    for label, series in (('temporal', temporal), ('spatial', spatial)):
        ctx.check('one exposure time', len(series) == 1)
        d = ctx.v(series[0][0]) - ctx.v(t)
        ctx.check('the fixed exposure time', ctx.max([d, -d]) <= ctx.const('0.500001'))
    ctx.eq('the same exposure time', spatial[0][0], temporal[0][0])
    rs, sp = temporal[0][1], spatial[0][1]
    ctx.check('number of radiances', len(rs) == steps + 1, '%d' % len(rs))
    vs = []
    for r in rs[:-1]:
        v = image(r, 'bright')
        vs.append(v[0])
        if rng != 'default':
            for x in v:
                ctx.eq('uniform', x, v[0], abs=1e-30)
    if rmin is not None:
        ctx.eq('minimum radiance', vs[0], ctx.v(rmin), abs=1e-30)
    if rmax is not None:
        ctx.eq('maximum radiance', vs[-1], ctx.v(rmax), abs=1e-30)
    elif n == 1:
        saturates(rs[-2], t)
    for i in range(steps):
        ctx.eq('equally spaced', vs[i], vs[0] + ctx.div((vs[-1] - vs[0]) * i, steps - 1), abs=1e-30)
    is_zero(rs[-1])
    ctx.check('a bright and a dark spatial', len(sp) == 2)
    for x, y in zip(image(sp[0], 'bright'), image(rs[middle], 'bright')):
        ctx.eq('the middle radiance', x, y, abs=1e-30)
    is_zero(sp[1])
