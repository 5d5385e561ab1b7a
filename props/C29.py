"""C29: a generated data set read back gives exactly the points and images that were generated."""
import os
from .camera import hook, photons_per_radiance
from .images import Model

MODULES = ['camera.routines', 'camera.camera', 'camera.points_generator', 'camera.dataset_generator', 'process.parser', 'process.loader',
           'process.routines']
BOUNDS = ('data sets of 2 to 4 (thorough 6) points and 3 to 4 images per spatial point, 1x1 to 2x2 pixels, 1 and 2 wavelengths, bit depths 1 to 16, '
          'PNG and TIFF, and one data set of 254 exposure times (1019 images, about 22 of them symbolic); symbolic pixels of every image over the full range, exposure range or fixed exposure time, radiances, gain; '
          'photon counts of at least 0.001 that differ by more than the three decimals; into a given and a temporary folder')
ASSUME = ('PIL image model: 8 and 16 bit greyscale PNG and TIFF files keep all pixels, 32 bit images saved as PNG are clipped to 16 bits (every counterexample and a sample of all paths are run with the real PIL)', 'images grabbed by the camera are arbitrary values of its range (C23)')


def configs(tier):
    out = []
    T = tier == 'thorough'
    for bits in (1, 7, 8, 9, 10, 12, 14, 15, 16):
        out.append({'name': '%d bits' % bits, 'kind': 'exposure', 'steps': 2, 'L': 3, 'size': (1, 2, 1), 'bits': bits})
    for s in (2, 3, 4) + ((5, 6) if T else ()):
        for kind in ('exposure', 'illumination'):
            out.append({'name': '%s %d points' % (kind, s), 'kind': kind, 'steps': s, 'L': 3, 'size': (1, 1, 1), 'bits': 8})
    # more images than any counter of three digits has names
    out.append({'name': 'exposure 254 points', 'kind': 'exposure', 'steps': 254, 'L': 3, 'size': (1, 1, 1), 'bits': 8, 'long': True})
    for kind in ('exposure', 'illumination'):
        out.append({'name': '%s 2x2' % kind, 'kind': kind, 'steps': 2, 'L': 3, 'size': (2, 2, 1), 'bits': 10})
        out.append({'name': '%s 2x1 two wavelengths' % kind, 'kind': kind, 'steps': 2, 'L': 4, 'size': (2, 1, 2), 'bits': 12})
        out.append({'name': '%s tif' % kind, 'kind': kind, 'steps': 2, 'L': 3, 'size': (1, 2, 1), 'bits': 12, 'format': 'tif'})
        out.append({'name': '%s temporary folder' % kind, 'kind': kind, 'steps': 2, 'L': 3, 'size': (1, 1, 1), 'bits': 8, 'tmp': True})
        out.append({'name': '%s found gain and offset' % kind, 'kind': kind, 'steps': 2, 'L': 3, 'size': (1, 1, 1), 'bits': 8, 'find': True})
    return out


def harness(ctx, cfg):
    hook(ctx, free=False)
    Model(ctx)
    rt, cm, dg = ctx.mod('camera.routines'), ctx.mod('camera.camera'), ctx.mod('camera.dataset_generator')
    ps, ld, pr = ctx.mod('process.parser'), ctx.mod('process.loader'), ctx.mod('process.routines')
    H, W, n = cfg['size']
    bits, steps, L = cfg['bits'], cfg['steps'], cfg['L']
    waves = ctx.array([400.0, 550.0][:n])
    eff = 0.5
    qe = rt.Qe(qe=ctx.np.ones((H, W, n)) * eff, wavelength=waves, width=W, height=H)
    grabs = []
    arm = [False]
    dt = 'uint8' if bits <= 8 else 'uint16'

    def grab(cam, radiance, *a, **k):
        if not arm[0]:
            # before the images of the data set: dark images to set up the camera
            return ctx.np.zeros((H, W), dtype=dt)
        if cfg.get('long') and len(grabs) % 100 > 1:
            img = ctx.np.full((H, W), len(grabs) * 7 % 251, dtype=dt)
        else:
            img = ctx.ints('image%d' % len(grabs), (H, W), 0, 2 ** bits - 1, dt)
        grabs.append({'exposure': ctx.v(cam.exposure), 'radiance': ctx.vals(radiance), 'image': ctx.vals(img), 'K': ctx.v(cam.K),
                      'blackoffset': ctx.v(cam.blackoffset)})
        return img
    ctx.patch(cm.Camera, 'grab', grab)
    old = dg.DatasetGenerator.run_test

    def run_test(self):
        arm[0] = True
        return old(self)
    ctx.patch(dg.DatasetGenerator, 'run_test', run_test)
    gain = 0.5 if cfg.get('long') else ctx.real('gain', '1/10', 2)
    k = {'steps': steps, 'L': L, 'bit_depth': bits, 'height': H, 'width': W, 'qe': qe, 'dark_current_ref': 0.0, 'K_min': gain, 'K_max': gain, 'K_steps': 1,
         'blackoffset_min': 1, 'blackoffset_max': 2, 'blackoffset_steps': 2}
    if not cfg.get('find'):
        k.update(K=gain, blackoffset=2)
    if not cfg.get('tmp'):
        k['outdir'] = os.path.join(ctx.tmpdir(), 'out')
    if 'format' in cfg:
        k['image_format'] = cfg['format']
    if cfg['kind'] == 'exposure':
        lo = 1000 if cfg.get('long') else ctx.real('shortest', 1000, 10 ** 5)
        hi = lo + (10 ** 6 if cfg.get('long') else ctx.real('range', steps, 10 ** 6))
        # at least one photon at the shortest exposure time
        k.update(exposure_min=lo, exposure_max=hi)
    else:
        t = ctx.real('fixed', 10 ** 6, 10 ** 8)
        r0 = ctx.real('rmin', 100, 10 ** 5)
        k.update(exposure_fixed=t, radiance_min=r0, radiance_max=r0 + ctx.real('span', 1000, 10 ** 6))
    if 'format' in cfg or cfg.get('find'):
        k['version'] = '3.1'
    dset = dg.DatasetGenerator(**k)
    cam = dset.cam

    def photons(rad, t):
        """mean number of photons of all pixels"""
        v = ctx.vals(rad)
        return ctx.mean([ctx.sum(v[i][j][x] * photons_per_radiance(ctx, t, ctx.v(25), ctx.v(waves[x]), ctx.v(8)) for x in range(n))
                         for i in range(H) for j in range(W)])

    # points of the generator with the images grabbed for them
    expected = {}
    for kind, m in (('temporal', 2), ('spatial', L)):
        expected[kind] = []
        for te, rads in dset.points[kind].items():
            for rad in rads:
                expected[kind].append({'t': ctx.v(te), 'te': float(te) if cfg.get('long') else None, 'rad': ctx.vals(rad), 'p': photons(rad, ctx.v(te)), 'n': m})
    for kind in expected:
        for i, e in enumerate(expected[kind]):
            dark = not ctx.truth(ctx.any(x > 0 for r in e['rad'] for c in r for x in c))
            e['dark'] = dark
            if not dark:
                ctx.assume(e['p'] >= ctx.const('0.002'))
            for f in expected[kind][:i] if cfg['kind'] == 'illumination' else ():
                if not dark and not f['dark']:
                    d = e['p'] - f['p']
                    ctx.assume(ctx.max([d, -d]) >= ctx.const('0.002'))
    # read back
    parsed = ps.ParseEmvaDescriptorFile(dset.descriptor_path)
    for a, b in (('bits', bits), ('width', W), ('height', H)):
        ctx.eq(a, parsed.format[a], b)
    if 'version' in k:
        ctx.check('version', parsed.version == k['version'], '%r' % (parsed.version,))
    loaded = ld.LoadImageData(parsed.images)
    data = loaded.data
    ctx.check('size of the images', (data['height'], data['width']) == (H, W))
    used = []
    for kind in expected:
        found = [(t, p) for t in data[kind] for p in data[kind][t]]
        ctx.check('one entry for each point', len(found) == len(expected[kind]), '%d, %d expected' % (len(found), len(expected[kind])))
        listed = [(t, p) for t in parsed.images[kind] for p in parsed.images[kind][t]]
        for e in expected[kind]:
            def fits(t, p):
                if cfg.get('long') and abs(float(t) - e['te']) > 1:
                    return False
                dt_, dp = ctx.v(t) - e['t'], ctx.v(p) - (0 if e['dark'] else e['p'])
                return ctx.truth(ctx.all([ctx.max([dt_, -dt_]) <= ctx.const('0.000001'),
                                          ctx.max([dp, -dp]) <= ctx.const('0.000501' if not e['dark'] else '0')]))
            hits = [tp for tp in found if fits(*tp)]
            ctx.check('point found', len(hits) == 1, '%d entries for a point' % len(hits))
            t, p = hits[0]
            u = ctx.v(p) * 1000
            ctx.eq('three decimals', u, ctx.floor(u + ctx.const('0.5')), abs=1e-5)
            names = [parsed.images[kind][a][b] for a, b in listed if fits(a, b)]
            ctx.check('point listed', len(names) == 1)
            ctx.check('number of images', len(names[0]) == e['n'], '%d, %d expected' % (len(names[0]), e['n']))
            for x in names[0]:
                ctx.check('image listed once', os.path.realpath(x) not in used, x)
                used.append(os.path.realpath(x))
            e['images'] = [ctx.vals(pr.load_image(x)) for x in names[0]]
            got = data[kind][t][p]
            tot = [[ctx.sum(im[i][j] for im in e['images']) for j in range(W)] for i in range(H)]
            if kind == 'spatial':
                ctx.eq('loaded images', got['sum'], tot)
                ctx.check('loaded number of images', got['L'] == L)
            else:
                ctx.eq('loaded images', got['sum'], ctx.sum(x for r in tot for x in r))
    # every image that was grabbed is the one read back for its point
    ctx.check('number of images grabbed', len(grabs) == len(used), '%d, %d read' % (len(grabs), len(used)))
    at = 0
    # whichever kind is generated first
    with open(dset.descriptor_path) as f:
        first = [x for x in f.read().splitlines() if x[:1] in ('b', 'd', 'i')]
    temporal_first = len(first) > 3 and first[3][0] != 'i'
    for kind in ('temporal', 'spatial') if temporal_first else ('spatial', 'temporal'):
        for e in expected[kind]:
            for img in e['images']:
                g = grabs[at]
                at += 1
                ctx.eq('grabbed image', img, g['image'])
                ctx.eq('grabbed at the exposure time', g['exposure'], e['t'])
                ctx.eq('grabbed at the radiance', g['radiance'], e['rad'], abs=1e-30)
                ctx.eq('grabbed with the gain', g['K'], ctx.v(cam.K))
                ctx.eq('grabbed with the black offset', g['blackoffset'], ctx.v(cam.blackoffset))
