"""C25: the radiance for a target signal produces exactly that target."""
from .camera import hook, photons_per_radiance, snapshot, frame, make_qe

MODULES = ['camera.routines', 'camera.camera']
BOUNDS = ('sensors of 1x1 to 2x2 pixels and 1 to 3 wavelengths (non-uniform quantum efficiency); symbolic gain, exposure time, f-number, '
          'pixel area, dark current, temperatures and target; target, exposure time, both or neither given; target numbers above and below '
          'the dark signal, for a gain that is fixed or one of several steps; asked once, or before and after any or all of the settings are changed')


def configs(tier):
    out = []
    for h, w, n in ((1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 2), (2, 2, 3) if tier == 'thorough' else (2, 2, 1)):
        for g in ('neither', 'mean', 'exposure', 'both'):
            out.append({'name': '%dx%dx%d %s given' % (h, w, n, g), 'H': h, 'W': w, 'n': n, 'given': g})
    for g in ('neither', 'mean', 'exposure', 'both'):
        out.append({'name': 'changed camera %s given' % g, 'H': 1, 'W': 1, 'n': 1, 'given': g, 'changed': True})
    for b in (8, 10, 12, 16):
        out.append({'name': 'full range of %d bits' % b, 'H': 1, 'W': 1, 'n': 1, 'given': 'neither', 'bits': b})
    return out


def harness(ctx, cfg):
    hook(ctx)
    rt, cm = ctx.mod('camera.routines'), ctx.mod('camera.camera')
    H, W, n, bits = cfg['H'], cfg['W'], cfg['n'], cfg.get('bits', 12)
    w = ctx.array([400.0, 550.0, 700.0][:n])
    q = ctx.reals('qe', (H, W, n), '1/10', 1)
    qe = rt.Qe(qe=q, wavelength=w, width=W, height=H)
    K, t = ctx.real('K', '1/100', 17), ctx.real('t', 1000, 10 ** 10)
    p = {'f_number': ctx.real('f', '1/2', 32), 'pixel_area': ctx.real('area', 1, 100), 'temperature': ctx.real('T', -40, 90),
         'temperature_ref': ctx.real('Tref', 0, 40), 'temperature_doubling': ctx.choice('Td', [8, 5.5]),
         'dark_current_ref': ctx.real('dark_current', 0, 1000)}
    several = int(bool(cfg.get('changed')))
    K2 = K + ctx.real('more_gain', '1/100', 3) if several else K
    cam = cm.Camera(bit_depth=bits, width=W, height=H, qe=qe, K=K, K_min=K, K_max=K2, K_steps=1 + several, exposure=t, **p)
    k = {}
    target = ctx.v(2 ** bits - 1)
    if cfg['given'] in ('mean', 'both'):
        k['mean'] = ctx.real('target', '1/100', 2 ** bits)
        target = ctx.v(k['mean'])
    if cfg['given'] in ('exposure', 'both'):
        t = k['exposure'] = ctx.real('given_t', 1000, 10 ** 10)
    if several:
        # with or without asking before, and any of the settings
        first = ctx.choice('asked before', ['nothing', 'default', 'the same'])
        if first != 'nothing':
            cam.get_radiance_for(**(k if first == 'the same' else {}))
        new = ctx.choice('changed', ['all', 'exposure', 'temperature', 'f_number', 'gain', 'none'])
        if new in ('all', 'exposure'):
            cam.exposure = ctx.real('new_t', 1000, 10 ** 10)
            t = t if 'exposure' in k else cam.exposure
        if new in ('all', 'temperature'):
            p['temperature'] = cam.environment['temperature'] = ctx.real('new_T', -40, 90)
        if new in ('all', 'f_number'):
            p['f_number'] = cam.environment['f_number'] = ctx.real('new_f', '1/2', 32)
        if new in ('all', 'gain'):
            K = cam.K = K2
    before = snapshot(ctx, cam)
    rad = cam.get_radiance_for(**k)
    frame(ctx, cam, before, 'camera unchanged')
    ctx.check('shape', getattr(rad, 'shape', None) == (H, W, n), '%s' % (getattr(rad, 'shape', None),))
    R = ctx.vals(rad)
    Q = [x for r in ctx.vals(q) for c in r for x in c]
    mq = ctx.mean(Q)
    u_i = ctx.v(p['dark_current_ref']) * ctx.exp2(ctx.div(ctx.v(p['temperature']) - ctx.v(p['temperature_ref']), ctx.v(p['temperature_doubling'])))
    T = ctx.v(t)
    therm = u_i * T * ctx.const('1e-9')
    for i in range(H):
        for j in range(W):
            ph = ctx.sum(R[i][j][x] * photons_per_radiance(ctx, T, ctx.v(p['pixel_area']), ctx.v(w[x]), ctx.v(p['f_number'])) for x in range(n))
            ctx.eq('expected signal', (therm + ph * mq) * ctx.v(K), target, rel=1e-6, abs=1e-6)
            for x in range(n):
                ctx.eq('uniform', R[i][j][x], R[0][0][x], abs=1e-30)
