"""C24: photon count and radiance conversions are inverse and proportional."""
from .camera import hook, photons_per_radiance, snapshot, frame, make_qe

MODULES = ['camera.routines', 'camera.camera']
BOUNDS = ('radiances and photon counts as numbers, vectors of 1 to 3 wavelengths and arrays of up to 2x2x3, symbolic elements from 0; '
          'symbolic exposure time, pixel area, f-number and wavelengths; photons of the camera with its current and with given exposure '
          'time and f-number, any values, before and after changes of exposure time and f-number, asked once or after other photons were asked')


def configs(tier):
    out = []
    for form in ('number', 'vector 1', 'vector 3', 'array 1x1x2', 'array 2x1x1', 'array 1x2x3', 'array 2x2x1') + (
            ('array 2x2x3', 'vector 5') if tier == 'thorough' else ()):
        for kind in ('photons', 'radiance'):
            out.append({'name': '%s of %s' % (kind, form), 'kind': kind, 'form': form})
    for g in ('neither', 'exposure', 'f_number', 'both'):
        out.append({'name': 'camera, %s given' % g, 'kind': 'camera', 'given': g, 'form': 'array 1x2x2'})
        out.append({'name': 'changed camera, %s given' % g, 'kind': 'changed', 'given': g, 'form': 'array 1x1x2'})
    out.append({'name': 'proportional', 'kind': 'proportional', 'form': 'vector 2'})
    return out


def shape(form):
    w = form.split()
    return () if len(w) == 1 else tuple(int(x) for x in w[1].split('x'))


def value(ctx, name, sh, hi):
    return ctx.reals(name, sh, 0, hi) if sh else ctx.real(name, 0, hi)


def walk(x, path=()):
    if isinstance(x, list):
        for i, y in enumerate(x):
            for z in walk(y, path + (i,)):
                yield z
    else:
        yield path, x


def harness(ctx, cfg):
    hook(ctx)
    rt, cm = ctx.mod('camera.routines'), ctx.mod('camera.camera')
    kind, sh = cfg['kind'], shape(cfg['form'])
    n = sh[-1] if sh else 1
    t, area, f = ctx.real('t', 1000, 10 ** 10), ctx.real('area', '1/10', 1000), ctx.real('f', 0, 64)
    T, A, F = ctx.v(t), ctx.v(area), ctx.v(f)
    if kind in ('camera', 'changed'):
        H, W = sh[:2]
        qe, w = make_qe(ctx, rt, H, W, n)
        cam = cm.Camera(width=W, height=H, qe=qe, exposure=t, pixel_area=area, f_number=f)
        # photons asked before, with current or with given values
        first = ctx.choice('asked before', ['nothing', 'current', 'given'])
        other = value(ctx, 'other', sh, 10 ** 6) if first != 'nothing' else None
        if first == 'current':
            cam.get_photons(other)
        elif first == 'given':
            cam.get_photons(other, **{x: v for x, v in (('exposure', ctx.real('first t', 1000, 10 ** 10)), ('f_number', ctx.real('first f', 0, 64)))
                                      if x in (cfg['given'], 'exposure' if cfg['given'] != 'f_number' else x)})
        if kind == 'changed':
            new = ctx.choice('changed', ['both', 'exposure', 'f_number'])
            if new != 'f_number':
                t = cam.exposure = ctx.real('new t', 1000, 10 ** 10)
            if new != 'exposure':
                f = cam.environment['f_number'] = ctx.real('new f', 0, 64)
            T, F = ctx.v(t), ctx.v(f)
        k = {}
        if cfg['given'] in ('exposure', 'both'):
            k['exposure'] = ctx.real('given t', 1000, 10 ** 10)
            T = ctx.v(k['exposure'])
        if cfg['given'] in ('f_number', 'both'):
            k['f_number'] = ctx.real('given f', 0, 64)
            F = ctx.v(k['f_number'])
        rad = value(ctx, 'radiance', sh, 10 ** 6)
        R = ctx.vals(rad)
        before = snapshot(ctx, cam)
        ph = cam.get_photons(rad, **k)
        frame(ctx, cam, before, 'camera unchanged')
        ctx.eq('radiance unchanged', rad, R)
        ctx.check('shape', getattr(ph, 'shape', None) == sh)
        got = ctx.vals(ph)
        for p, r in walk(R):
            ctx.eq('photons', got[p[0]][p[1]][p[2]], r * photons_per_radiance(ctx, T, A, ctx.v(w[p[2]]), F), abs=1e-30)
        return
    w = ctx.reals('w', n, 100, 1200) if sh else ctx.real('w', 100, 1200)
    wv = ctx.vals(w) if sh else [ctx.v(w)]
    if kind == 'proportional':
        rad = value(ctx, 'radiance', sh, 10 ** 6)
        c = ctx.real('factor', '1/100', 100)
        base = ctx.vals(rt.get_photons(t, rad, area, w, f))
        C = ctx.v(c)
        for label, got in (('radiance', rt.get_photons(t, rad * c, area, w, f)), ('area', rt.get_photons(t, rad, area * c, w, f)),
                           ('time', rt.get_photons(t * c, rad, area, w, f))):
            for x, y in zip(ctx.vals(got), base):
                ctx.eq('proportional to ' + label, x, y * C, abs=1e-30)
        return
    if kind == 'photons':
        x = value(ctx, 'radiance', sh, 10 ** 6)
        X = ctx.vals(x)
        y = rt.get_photons(t, x, area, w, f)
        back = rt.get_radiance(t, y, area, f, w)
    else:
        x = value(ctx, 'photons', sh, 10 ** 6)
        X = ctx.vals(x)
        y = rt.get_radiance(t, x, area, f, w)
        back = rt.get_photons(t, y, area, w, f)
    ctx.eq('input unchanged', x, X)
    if sh:
        ctx.check('shape', getattr(y, 'shape', None) == sh and getattr(back, 'shape', None) == sh)
    Y, B = ctx.vals(y), ctx.vals(back)

    def at(v, p):
        for i in p:
            v = v[i]
        return v
    for p, v in walk(X):
        k = photons_per_radiance(ctx, T, A, wv[p[-1] if p else 0], F)
        ctx.eq('conversion', at(Y, p), v * k if kind == 'photons' else ctx.div(v, k), abs=1e-30)
        ctx.eq('back and forth', at(B, p), v, abs=1e-30)
