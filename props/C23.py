"""C23: simulated images stay in range and follow the sensor equation."""
from .camera import hook, photons_per_radiance, snapshot, frame, make_qe

MODULES = ['camera.routines', 'camera.camera']
BOUNDS = ('sensors of 1x1 to 2x2 pixels and 1 to 3 wavelengths; bit depths 1 to 32; symbolic radiances (array, vector, scalar, 0), gain, '
          'black offset, full well, dark current, temperatures, exposure time, f-number, electronics mean and variance, DSNU, PRNU and '
          'quantum efficiency; every outcome of the random draws (normal and Poisson numbers up to 10^6 electrons); environment values '
          'and values given for one image; two images in a row, also with any or all of the settings changed in between')
ASSUME = ('numpy Generator draws: poisson any integer >= 0, normal mean + deviation * z, uniform low + (high - low) * u; '
          'exact arithmetic for floats',)


def configs(tier):
    out = []
    bits = (1, 2, 8, 9, 10, 12, 14, 16, 17, 24, 32) if tier == 'thorough' else (1, 8, 9, 12, 16, 17, 32)
    for b in bits:
        out.append({'name': 'range of %d bits' % b, 'kind': 'range', 'bits': b, 'H': 1, 'W': 1})
    for h, w, n in ((1, 1, 2), (2, 1, 1), (1, 2, 2), (2, 2, 1)) + (((2, 2, 2), (1, 3, 3)) if tier == 'thorough' else ()):
        for r in ('array', 'vector', 'scalar', 'zero'):
            out.append({'name': 'equation %dx%dx%d radiance %s' % (h, w, n, r), 'kind': 'equation', 'bits': 12, 'H': h, 'W': w, 'n': n,
                        'radiance': r})
    for t in ('both', 'temperature', 'f_number', 'temperature 0'):
        out.append({'name': 'given for one image: %s' % t, 'kind': 'given', 'bits': 10, 'H': 1, 'W': 2, 'n': 2, 'radiance': 'array', 'given': t})
    out.append({'name': 'two images', 'kind': 'two', 'bits': 8, 'H': 1, 'W': 2, 'n': 1, 'radiance': 'array'})
    out.append({'name': 'changed settings', 'kind': 'changed', 'bits': 8, 'H': 1, 'W': 2, 'n': 1, 'radiance': 'array'})
    out.append({'name': 'default non-uniformities', 'kind': 'default', 'bits': 8, 'H': 2, 'W': 1, 'n': 1, 'radiance': 'array'})
    return out


def harness(ctx, cfg):
    rng = hook(ctx)
    rt, cm = ctx.mod('camera.routines'), ctx.mod('camera.camera')
    kind, H, W, bits = cfg['kind'], cfg['H'], cfg['W'], cfg['bits']
    rate = kind != 'range'
    n = cfg.get('n', 1)
    qe, w = make_qe(ctx, rt, H, W, n, free=rate)
    p = {'f_number': ctx.real('f', '1/2', 32) if rate else 8, 'pixel_area': ctx.real('area', 1, 100) if rate else 25,
         'temperature': ctx.real('T', -40, 90) if rate else 22, 'temperature_ref': ctx.real('Tref', 0, 40) if rate else 30,
         'temperature_doubling': ctx.choice('Td', [8, 5.5]) if rate else 8,
         'exposure': ctx.real('exposure', 1000, 10 ** 10) if rate else 10 ** 6,
         'dark_current_ref': ctx.real('dark_current', 0, 1000) if rate else 30}
    mean = ctx.real('dark_signal', 0, 100)
    dev = ctx.real('deviation', 0, 50)
    full = ctx.real('full_well', 10, 10 ** 5)
    K = ctx.real('K', '1/100', 17)
    off = ctx.real('offset', 0, 2 ** bits)
    dsnu = ctx.reals('dsnu', (H, W), -100, 10 ** 5) if kind != 'default' else None
    prnu = ctx.reals('prnu', (H, W), 0, 3) if kind != 'default' else None
    several = int(kind == 'changed')
    K2 = K + ctx.real('more_gain', '1/100', 3) if several else K
    cam = cm.Camera(bit_depth=bits, width=W, height=H, qe=qe, K=K, K_min=K, K_max=K2, K_steps=1 + several, blackoffset=off, blackoffset_min=off,
                    blackoffset_max=off + 1, blackoffset_steps=1 + several, dark_signal_0=mean, sigma2_dark_0=dev * dev, u_esat=full, dsnu=dsnu, prnu=prnu, **p)
    form = cfg.get('radiance', 'zero')
    rad = {'array': lambda: ctx.reals('radiance', (H, W, n), 0, 10 ** 6), 'vector': lambda: ctx.reals('radiance', n, 0, 10 ** 6),
           'scalar': lambda: ctx.real('radiance', 0, 10 ** 6), 'zero': lambda: 0}[form]()
    if kind == 'changed':
        # with or without an image before, and any of the settings
        first = ctx.choice('image before', ['none', 'plain', 'given'])
        if first == 'plain':
            cam.grab(rad)
        elif first == 'given':
            cam.grab(rad, temperature=ctx.real('first_T', -40, 90), f_number=ctx.real('first_f', '1/2', 32))
        new = ctx.choice('changed', ['all', 'exposure', 'temperature', 'f_number', 'gain', 'DSNU', 'none'])
        if new in ('all', 'exposure'):
            p['exposure'] = cam.exposure = ctx.real('new_exposure', 1000, 10 ** 10)
        if new in ('all', 'temperature'):
            p['temperature'] = cam.environment['temperature'] = ctx.real('new_T', -40, 90)
        if new in ('all', 'f_number'):
            p['f_number'] = cam.environment['f_number'] = ctx.real('new_f', '1/2', 32)
        if new in ('all', 'gain'):
            K = K2
            cam.K = K
            off = off + 1
            cam.blackoffset = off
        if new in ('all', 'DSNU'):
            dsnu = ctx.reals('new_dsnu', (H, W), 0, 10 ** 5)
            cam.DSNU = dsnu
    arrays = {'dsnu': dsnu, 'prnu': prnu, 'qe': qe.qe, 'w': w, 'radiance': rad}
    before, kept = snapshot(ctx, cam), {k: ctx.vals(v) for k, v in arrays.items() if v is not None}
    for image in range(2 if kind == 'two' else 1):
        q, args = dict(p), {}
        given = cfg.get('given')
        if given:
            if given != 'f_number':
                args['temperature'] = q['temperature'] = ctx.real('given_T', -40, 90) if given != 'temperature 0' else 0
            if given in ('both', 'f_number'):
                args['f_number'] = q['f_number'] = ctx.real('given_f', '1/2', 32)
        rng.start()
        img = cam.grab(rad, **args)
        frame(ctx, cam, before, 'settings unchanged')
        for k, v in arrays.items():
            if v is not None:
                ctx.eq(k + ' unchanged', v, kept[k])
        ctx.check('shape of the sensor', getattr(img, 'shape', None) == (H, W), '%s' % (getattr(img, 'shape', None),))
        dt = str(img.dtype)
        ctx.check('type holds the range', (dt.startswith('uint') and int(dt[4:]) >= bits) or (dt.startswith('int') and int(dt[3:]) > bits), dt)
        iv = ctx.vals(img)
        top = 2 ** bits - 1
        D = ctx.vals(dsnu) if dsnu is not None else [[0] * W] * H
        P = ctx.vals(prnu) if prnu is not None else [[1] * W] * H
        Q = ctx.vals(qe.qe)
        u_i = ctx.v(p['dark_current_ref']) * ctx.exp2(ctx.div(ctx.v(q['temperature']) - ctx.v(p['temperature_ref']), ctx.v(p['temperature_doubling'])))
        therm = u_i * ctx.v(p['exposure']) * ctx.const('0.000000001')
        R = ctx.vals(rad)
        for i in range(H):
            for j in range(W):
                z, e, lam = rng.pixel(i, j, H, W)
                if rate:
                    light = 0
                    for k in range(n):
                        r = R[i][j][k] if form == 'array' else R[k] if form == 'vector' else R
                        light = light + r * photons_per_radiance(ctx, ctx.v(q['exposure']), ctx.v(p['pixel_area']), ctx.v(w[k]),
                                                                 ctx.v(q['f_number'])) * Q[i][j][k]
                    ctx.eq('mean electrons', lam, therm + light * P[i][j])
                s = D[i][j] + ctx.v(mean) + ctx.v(dev) * z + e
                s = ctx.min([ctx.max([s, ctx.v(0.0)]), ctx.v(full)])
                x = s * ctx.v(K) + ctx.v(off)
                c = ctx.min([ctx.max([x, ctx.v(0)]), ctx.v(top)])
                y = iv[i][j]
                ctx.check('in range', ctx.all([y >= 0, y <= top]))
                ctx.check('pixel follows the equation', ctx.all([y - c <= 1 + ctx.const('0.000001'), c - y <= 1 + ctx.const('0.000001')]))
