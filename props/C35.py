"""C35: a data set is generated at the smallest black offset and gain that satisfy the standard."""
import os
from .camera import hook

MODULES = ['camera.routines', 'camera.camera', 'camera.points_generator', 'camera.dataset_generator']
BOUNDS = ('cameras of 1x1 to 2x2 pixels with symbolic dark images for every step (four pixels of the pairs of 2x2 images), '
          'and of 16x13 and 20x12 pixels with four symbolic ones; 1 to 4 '
          'steps of black offset and gain; 8, 12 and 16 bits; neither, one or both given (0 included)')
ASSUME = ('dark images of one black offset (and of one gain: pairs of images) are arbitrary but do not depend on how often they are taken',
          'the share of non-zero pixels is not exactly 99.5 % and the noise not exactly 0.5 DN')


def configs(tier):
    out = []
    T = tier == 'thorough'
    for s in (1, 2, 3) + ((4, 5) if T else ()):
        for size in ((1, 1), (1, 2), (2, 2)):
            out.append({'name': 'black offset, %d steps, %dx%d' % ((s,) + size), 'kind': 'offset', 'steps': s, 'size': size, 'bits': 8})
            if size != (1, 1):
                out.append({'name': 'gain, %d steps, %dx%d' % ((s,) + size), 'kind': 'gain', 'steps': s, 'size': size, 'bits': 8})
    for bits in (12, 16):
        out.append({'name': 'black offset, %d bits' % bits, 'kind': 'offset', 'steps': 2, 'size': (1, 2), 'bits': bits})
        out.append({'name': 'gain, %d bits' % bits, 'kind': 'gain', 'steps': 2, 'size': (1, 2), 'bits': bits})
    for size in ((16, 13), (20, 12)):
        out.append({'name': 'black offset, %dx%d' % size, 'kind': 'offset', 'steps': 2, 'size': size, 'bits': 8})
    out.append({'name': 'both found', 'kind': 'both', 'steps': 2, 'size': (1, 2), 'bits': 8})
    out.append({'name': 'both given', 'kind': 'given', 'steps': 2, 'size': (1, 2), 'bits': 8})
    return out


def harness(ctx, cfg):
    hook(ctx, free=False)
    rt, cm, dg = ctx.mod('camera.routines'), ctx.mod('camera.camera'), ctx.mod('camera.dataset_generator')
    H, W = cfg['size']
    bits, S, kind = cfg['bits'], cfg['steps'], cfg['kind']
    dt = 'uint8' if bits <= 8 else 'uint16'
    top = 2 ** bits - 1
    qe = rt.Qe(qe=ctx.np.ones((H, W, 1)) * 0.5, wavelength=ctx.array([500.0]), width=W, height=H)
    find = {'offset': ('B',), 'gain': ('K',), 'both': ('B', 'K'), 'given': ()}[kind]
    offsets = [4.0 * (k + 1) for k in range(S)]
    gains = [0.5 * (k + 1) for k in range(S)]
    images, seen, levels = {}, {}, {}
    arm = [True]

    def pixels(name, lo, hi):
        if H * W == 4 and name[0] == 'K':
            # any two pixels differ between the images
            a = (ctx.np.ones((H, W)) * 2).astype(dt)
            k = int(name.split('_')[1])
            a[k, 0] = ctx.int(name + 'a', lo, hi, dt)
            a[1, 1] = ctx.int(name + 'b', lo, hi, dt)
            return a
        if H * W <= 4:
            return ctx.ints(name, (H, W), lo, hi, dt)
        a = ctx.np.ones((H, W), dtype=dt) * 3
        a = a.astype(dt)
        for k, (i, j) in enumerate([(0, 0), (H - 1, W - 1), (1, 2), (H // 2, 0)]):
            a[i, j] = ctx.int('%s_%d' % (name, k), lo, hi, dt)
        return a

    def grab(cam, radiance, *a, **k):
        if not arm[0]:
            return ctx.np.zeros((H, W), dtype=dt)
        ctx.check('only dark images', not ctx.truth(ctx.any(x > 0 for x in (ctx.flat(radiance) if getattr(radiance, 'ndim', 0) else [ctx.v(radiance)]))))
        b = min(range(S), key=lambda i: abs(offsets[i] - float(cam.blackoffset)))
        g = min(range(S), key=lambda i: abs(gains[i] - float(cam.K)))
        if kind == 'gain' or phase():
            n = seen[g] = seen.get(g, 0) + 1
            key = ('K', g, n % 2)
        else:
            key = ('B', b, 0)
        if key not in images:
            images[key] = image(key)
        return images[key].copy()

    def image(key):
        # both kinds of dark images when both are searched: noise is in the first bit, so zero or not comes first
        return pixels('%s%d_%d_' % key, 0, 3 if key[0] == 'B' else top if H * W <= 2 else 5)

    def phase():
        """whether the search for the black offset is over"""
        return kind == 'both' and cur['done']
    cur = {'done': False}
    ctx.patch(cm.Camera, 'grab', grab)
    P = dg.PointsGenerator

    def points(cam, *a, **k):
        arm[0] = False
        return P(cam, *a, **k)
    ctx.patch(dg, 'PointsGenerator', points)
    ctx.patch(dg.DatasetGenerator, 'run_test', lambda self: '')
    if kind == 'both':
        # the gain is searched when the black offset found is set, or the other way round: keep both searches apart by the settings
        old_k = cm.Camera.K

        def set_k(self, v):
            if hasattr(self, '_sx_made'):
                cur['done'] = True
            old_k.fset(self, v)
        ctx.patch(cm.Camera, 'K', property(old_k.fget, set_k))
        made = dg.Cam

        def make(*a, **k):
            c = made(*a, **k)
            c._sx_made = True
            return c
        ctx.patch(dg, 'Cam', make)
    k = {'steps': 2, 'L': 2, 'bit_depth': bits, 'height': H, 'width': W, 'qe': qe, 'dark_current_ref': 0.0, 'K_min': gains[0], 'K_max': gains[-1],
         'K_steps': S, 'blackoffset_min': offsets[0], 'blackoffset_max': offsets[-1], 'blackoffset_steps': S,
         'exposure_fixed': 10.0 ** 6, 'radiance_min': 1000.0, 'radiance_max': 2000.0, 'outdir': os.path.join(ctx.tmpdir(), 'out')}
    want = {}
    if 'B' not in find:
        k['blackoffset'] = ctx.choice('given offset', [offsets[-1], 0]) if kind == 'given' else offsets[-1]
        want['B'] = offsets[-1] if k['blackoffset'] else offsets[0]
    if 'K' not in find:
        k['K'] = ctx.choice('given gain', [gains[-1], 0]) if kind == 'given' else gains[-1]
        want['K'] = gains[-1] if k['K'] else gains[0]
    cam = dg.DatasetGenerator(**k).cam
    if 'B' in find:
        want['B'] = offsets[-1]
        for b in range(S):
            if ('B', b, 0) not in images:
                images['B', b, 0] = image(('B', b, 0))
            n = ctx.sum(ctx.ite(x > 0, 1, 0) for x in ctx.flat(images['B', b, 0]))
            if ctx.truth(n * 1000 > 995 * H * W):
                want['B'] = offsets[b]
                break
    if 'K' in find:
        want['K'] = gains[-1]
        for g in range(S):
            for e in (0, 1):
                if ('K', g, e) not in images:
                    images['K', g, e] = image(('K', g, e))
            d = [x - y for x, y in zip(ctx.flat(images['K', g, 0]), ctx.flat(images['K', g, 1]))]
            v = ctx.var(d)
            ctx.assume(ctx.any([v > ctx.const('0.2501'), v < ctx.const('0.2499')]))
            if ctx.truth(v > ctx.const('0.25')):
                want['K'] = gains[g]
                break
    ctx.eq('black offset', cam.blackoffset, ctx.v(want['B']))
    ctx.eq('gain', cam.K, ctx.v(want['K']))
