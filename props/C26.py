"""C26: gain and black offset always take the nearest available step."""

from .camera import hook

MODULES = ['camera.routines', 'camera.camera']
BOUNDS = ('1 to 7 (thorough 12) equally spaced steps between symbolic minimum and maximum (also equal, and maximum 0), any requested value at '
          'construction and in up to three settings one after the other, below, above, between and exactly on steps; gain and black '
          'offset; default and stated maximum black offset for bit depths 1 to 32; requests of 0 and integers')


def configs(tier):
    out = []
    for what in ('K', 'blackoffset'):
        for n in (1, 2, 3, 4, 5, 7) + ((9, 12) if tier == 'thorough' else ()):
            out.append({'name': '%s %d steps' % (what, n), 'kind': 'nearest', 'what': what, 'n': n, 'sets': 1 if n > 3 else 2 if n > 2 else 3})
        out.append({'name': '%s on a step' % what, 'kind': 'step', 'what': what, 'n': 4})
        out.append({'name': '%s equal bounds' % what, 'kind': 'equal', 'what': what, 'n': 3})
    out.append({'name': 'nearest value of any list', 'kind': 'list'})
    for m in ('default', 'none', 'stated', '0'):
        out.append({'name': 'maximum black offset %s' % m, 'kind': 'maximum', 'm': m})
    out.append({'name': 'defaults', 'kind': 'defaults'})
    return out


def nearest(ctx, label, got, want, steps):
    g, r = ctx.v(got), ctx.v(want)
    hit = []
    for s in steps:
        d, e = g - r, s - r
        eps = ctx.const('0.000000001')
        ctx.check(label + ' nearest', ctx.max([d, -d]) <= ctx.max([e, -e]) + eps)
        hit.append(ctx.max([g - s, s - g]) <= eps)
    ctx.check(label + ' available', ctx.any(hit))


def harness(ctx, cfg):
    hook(ctx)
    cm, rt = ctx.mod('camera.camera'), ctx.mod('camera.routines')
    kind = cfg['kind']
    if kind == 'list':
        n = 2 + ctx.index('n', 3)
        a = ctx.reals('a', n, -100, 100)
        x = ctx.real('x', -200, 200)
        nearest(ctx, 'value', rt.nearest_value(x, a), x, ctx.vals(a))
        return
    if kind == 'defaults':
        cam = cm.Camera(width=1, height=1, qe=rt.Qe(ctx.array([[[0.5]]]), ctx.array([500.0]), 1, 1))
        for name, lo, hi in (('Ks', ctx.const('0.1'), ctx.v(17)), ('blackoffsets', ctx.v(0), ctx.v(15))):
            s = ctx.vals(getattr(cam, name))
            ctx.check('255 steps', len(s) == 255)
            for i in range(255):
                ctx.eq(name, s[i], lo + ctx.div((hi - lo) * i, 254))
        nearest(ctx, 'K', cam.K, ctx.const('0.1'), ctx.vals(cam.Ks))
        nearest(ctx, 'blackoffset', cam.blackoffset, 0, ctx.vals(cam.blackoffsets))
        return
    if kind == 'maximum':
        bits = ctx.choice('bits', [1, 4, 5, 8, 9, 10, 12, 14, 16, 17, 32])
        k = {'bit_depth': bits}
        hi = ctx.v((2 ** bits - 1) // 16)
        lo = 0
        if cfg['m'] == 'none':
            k['blackoffset_max'] = None
        elif cfg['m'] == 'stated':
            k['blackoffset_max'] = ctx.real('max', 0, 500) if ctx.flag('real') else ctx.int('imax', 0, 500)
            hi = ctx.v(k['blackoffset_max'])
        elif cfg['m'] == '0':
            k['blackoffset_max'] = ctx.choice('zero', [0, 0.0])
            lo = k['blackoffset_min'] = ctx.real('min', -10, 0)
            hi = ctx.v(0)
        n = 3
        cam = cm.Camera(width=1, height=1, qe=rt.Qe(ctx.array([[[0.5]]]), ctx.array([500.0]), 1, 1), blackoffset_steps=n, **k)
        s = ctx.vals(cam.blackoffsets)
        ctx.check('number of steps', len(s) == n)
        for i in range(n):
            ctx.eq('step', s[i], ctx.v(lo) + ctx.div((hi - ctx.v(lo)) * i, n - 1))
        return
    what, n = cfg['what'], cfg['n']
    lo = ctx.real('lo', 0, 10)
    span = ctx.real('span', '1/2', 50) if kind != 'equal' else 0
    hi = lo + span
    L, S = ctx.v(lo), ctx.v(span)
    steps = [L + ctx.div(S * i, max(n - 1, 1)) for i in range(n)]

    def request(name):
        if kind == 'step':
            return lo + span * ctx.index(name, n) / (n - 1)
        return ctx.real(name, -20, 80) if not ctx.flag(name + ' zero') else 0
    other = {'K': 'blackoffset', 'blackoffset': 'K'}[what]
    plural = {'K': 'Ks', 'blackoffset': 'blackoffsets'}
    first = request('first')
    k = {what: first, what + '_min': lo, what + '_max': hi, what + '_steps': n, other: 1.25, other + '_min': 1, other + '_max': 2,
         other + '_steps': 3}
    cam = cm.Camera(width=1, height=1, qe=rt.Qe(ctx.array([[[0.5]]]), ctx.array([500.0]), 1, 1), **k)

    def verify(r, label):
        nearest(ctx, label, getattr(cam, what), r, steps)
        got = ctx.vals(getattr(cam, plural[what]))
        ctx.check('number of steps', len(got) == n, '%d' % len(got))
        for x, y in zip(got, steps):
            ctx.eq('steps', x, y)
        ctx.eq('other steps', getattr(cam, plural[other]), ctx.array([1.0, 1.5, 2.0]))
        nearest(ctx, 'other', getattr(cam, other), ctx.const('1.25'), [ctx.v(1.0), ctx.v(1.5)])
    verify(first, 'construction')
    for i in range(cfg.get('sets', 2)):
        r = request('set%d' % i)
        setattr(cam, what, r)
        verify(r, 'setting')
