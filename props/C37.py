"""C37: cameras with the same seed and settings give the same images, whatever else goes on."""
from .camera import make_qe

MODULES = ['camera.routines', 'camera.camera', 'camera.bad_images']
BOUNDS = ('two cameras of 1x1, 1x2 and 2x1 pixels with equal symbolic settings and seed, and a third with another seed or without one that shares '
          'the arrays of the first or has its own; every schedule of 3 or 4 (thorough: 4 or 5) events out of: the next image of either camera '
          '(symbolic radiance, with and without a temperature or f-number of its own), an image or a change of the settings of the third '
          'camera, queries, draws from the global numpy generator, injection of bad pixels into the third camera; symbolic results of the '
          'generators: equal for equal seed, position and parameters, free otherwise')
ASSUME = ('numpy random generators are functions of the seed, the number of the draw and its parameters', )
EVENTS = ('first', 'second', 'third', 'settings', 'queries', 'bad pixels')


def configs(tier):
    out = []
    for h, w, given in ((1, 1, 'seed'), (1, 1, 'temperature'), (1, 2, 'f_number'), (2, 1, 'seed')):
        for other in ('other seed', 'no seed'):
            n = 3 if h * w > 1 or given == 'seed' else 4
            out.append({'name': '%dx%d, %s, %s' % (h, w, given, other), 'H': h, 'W': w, 'given': given, 'other': other,
                        'seed': 0 if h * w == 1 and given == 'seed' else 7, 'n': n + (tier == 'thorough')})
    return out


class Source(object):
    """The results of numpy's generators: by seed, number of the draw and parameters."""

    def __init__(self, ctx):
        self.ctx, self.known, self.fresh = ctx, {}, 0

    def same(self, a, b):
        ctx = self.ctx
        fa, fb = ctx.flat(a), ctx.flat(b)
        if len(fa) != len(fb):
            return False
        if not ctx.sym:
            return [float(x) for x in fa] == [float(x) for x in fb]
        return ctx.truth(ctx.all([ctx.all([x <= y, x >= y]) for x, y in zip(fa, fb)]))

    def draw(self, seed, index, kind, params, shape, lo, hi):
        ctx = self.ctx
        p = [ctx.vals(x) if getattr(x, 'ndim', 0) else ctx.v(x) for x in params]
        mem = self.known.setdefault((seed, index, kind, shape), [])
        for q, val in mem:
            if all(self.same(a, b) for a, b in zip(p, q)):
                return val
        name = '%s_%s_%d_%d' % (kind, seed, index, len(mem))
        if kind == 'poisson':
            val = ctx.int(name, lo, hi) if shape is None else ctx.ints(name, shape, lo, hi)
        else:
            val = ctx.real(name, lo, hi) if shape is None else ctx.reals(name, shape, lo, hi)
        mem.append((p, val))
        return val


class Generator(object):
    def __init__(self, src, seed):
        if isinstance(seed, Generator):
            seed = seed.seed
        if seed is None:
            src.fresh += 1
            seed = 'free%d' % src.fresh
        self.src, self.seed, self.count = src, str(seed), 0

    def _draw(self, kind, params, size, lo, hi):
        self.count += 1
        shape = None
        if size is None:
            for p in params:
                if getattr(p, 'ndim', 0):
                    shape = p.shape
        else:
            shape = (size,) if isinstance(size, int) else tuple(size)
        r = self.src.draw(self.seed, self.count, kind, params, shape, lo, hi)
        return r.copy() if shape is not None else r

    def poisson(self, lam=1.0, size=None):
        return self._draw('poisson', (lam,), size, 0, 1000)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._draw('normal', (loc, scale), size, -10, 10)

    def standard_normal(self, size=None, dtype=None, out=None):
        return self.normal(0.0, 1.0, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._draw('uniform', (low, high), size, 0, '999/1000')

    def random(self, size=None, dtype=None, out=None):
        return self.uniform(0.0, 1.0, size)

    random_sample = random

    def choice(self, a, size=None, replace=True, p=None):
        n = 1 if size is None else size
        return self.src.ctx.array(list(range(n)), dtype='int64')


def harness(ctx, cfg):
    src = Source(ctx)
    make = lambda seed=None, *a, **k: Generator(src, seed)
    shared = Generator(src, 'global')
    hooks = {k: getattr(shared, k) for k in ('poisson', 'normal', 'standard_normal', 'uniform', 'random', 'random_sample', 'choice')}
    hooks['rand'] = lambda *s: shared.uniform(0.0, 1.0, s or None)
    hooks['randn'] = lambda *s: shared.normal(0.0, 1.0, s or None)

    def reseed(seed=None):
        g = Generator(src, seed)
        shared.seed, shared.count = g.seed, 0
    hooks['seed'] = reseed
    for k in ('default_rng', 'Generator', 'RandomState', 'PCG64', 'SeedSequence', 'MT19937'):
        hooks[k] = make
    ctx.hook_random(hooks)
    rt, cm, bi = ctx.mod('camera.routines'), ctx.mod('camera.camera'), ctx.mod('camera.bad_images')
    H, W = cfg['H'], cfg['W']
    qe, _ = make_qe(ctx, rt, H, W, 1)
    qe2 = rt.Qe(qe=qe.qe.copy(), wavelength=qe.w.copy(), width=W, height=H)
    t = ctx.real('t', 10 ** 6, 10 ** 8)
    dsnu = ctx.reals('dsnu', (H, W), 0, 10)
    settings = dict(width=W, height=H, exposure=t, K=0.5, blackoffset=3, bit_depth=8, K_steps=3, blackoffset_steps=3,
                    u_esat=1000, sigma2_dark_0=4, dark_current_ref=10)
    # the arrays are copied for the second camera, so that it is the undisturbed one
    a = cm.Camera(qe=qe, dsnu=dsnu, seed=cfg['seed'], **settings)
    c = cm.Camera(qe=qe, dsnu=dsnu, seed=None if cfg['other'] == 'no seed' else 8, **settings)
    b = cm.Camera(qe=qe2, dsnu=dsnu.copy(), seed=cfg['seed'], **settings)
    imgs = {'first': [], 'second': []}
    rad = [ctx.array([ctx.real('radiance%d' % k, 0, 1)]) for k in range(2)]
    x = ctx.real('x', 0, 40)
    extra = {}
    if cfg['given'] == 'temperature':
        extra = {'temperature': x}
    elif cfg['given'] == 'f_number':
        extra = {'f_number': x}

    def grab(cam, key):
        k = len(imgs[key])
        im = cam.grab(rad[k % 2], **(extra if k == 0 else {}))
        imgs[key].append(ctx.vals(im))
    for k in range(cfg['n']):
        ev = EVENTS[ctx.index('event%d' % k, len(EVENTS))]
        if ev == 'first':
            grab(a, ev)
        elif ev == 'second':
            grab(b, ev)
        elif ev == 'third':
            c.grab(ctx.array([0.5]), temperature=30.0)
        elif ev == 'settings':
            c.exposure = 2.0 * t
            c.K = 5.0
            c.blackoffset = 10
            c.environment['temperature'] = 60.0
            c.environment['f_number'] = 1.0
        elif ev == 'queries':
            a.get_radiance_for(mean=50.0)
            a.get_radiance_for(mean=50.0, exposure=3.0 * t)
            a.get_photons(ctx.array([0.25]))
            a.get_photons(ctx.array([0.25]), exposure=3.0 * t, f_number=2.0)
            ctx.np.random.uniform()
        else:
            bi.bad_pixel(c, 1, 0.5)
    # both get at least one image
    for key, cam in (('first', a), ('second', b)):
        if not imgs[key]:
            grab(cam, key)
    for k, (p, q) in enumerate(zip(imgs['first'], imgs['second'])):
        ctx.eq('image %d' % (k + 1), p, q, rel=0)
