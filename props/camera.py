"""Stand-ins and oracles for the camera simulator."""


class FakeRNG(object):
    """numpy.random.Generator whose outcomes are inputs of the harness."""

    def __init__(self, ctx, limit=10 ** 6, free=True):
        self.ctx, self.limit, self.free, self.count = ctx, limit, free, 0
        self.start()

    def start(self):
        self.normals, self.poissons, self.uniforms = [], [], []

    def _name(self):
        self.count += 1
        return 'draw%d' % self.count

    def _shape(self, size, *params):
        if size is None:
            for p in params:
                if getattr(p, 'ndim', 0):
                    return p.shape
            return None
        return (size,) if isinstance(size, int) else tuple(size)

    def _reals(self, name, shape, lo, hi):
        if not self.free:
            return 0.0 if shape is None else self.ctx.np.zeros(shape)
        return self.ctx.real(name, lo, hi) if shape is None else self.ctx.reals(name, shape, lo, hi)

    def poisson(self, lam=1.0, size=None):
        shape = self._shape(size, lam)
        n = self._name()
        if not self.free:
            k = 0 if shape is None else self.ctx.np.zeros(shape, dtype='int64')
        else:
            k = self.ctx.int(n, 0, self.limit) if shape is None else self.ctx.ints(n, shape, 0, self.limit)
        self.poissons.append((lam, k))
        return k.copy() if shape is not None else k

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._reals(self._name(), self._shape(size, loc, scale), -1000, 1000)
        self.normals.append(z)
        return loc + scale * z

    def standard_normal(self, size=None, dtype=None, out=None):
        return self.normal(0.0, 1.0, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._reals(self._name(), self._shape(size, low, high), 0, '999999/1000000')
        self.uniforms.append(u)
        return low + (high - low) * u

    def random(self, size=None, dtype=None, out=None):
        return self.uniform(0.0, 1.0, size)

    def pixel(self, i, j, H, W):
        """(standard normal number, generated electrons, their mean) of a pixel in the images since start()"""
        ctx = self.ctx

        def at(v):
            nd = getattr(v, 'ndim', 0)
            if nd == 0:
                return ctx.v(v)
            while v.ndim < 2:
                v = v[None]
            return ctx.v(v[i if v.shape[0] > 1 else 0, j if v.shape[1] > 1 else 0])
        ctx.check('one draw of electronics noise', len(self.normals) == 1, '%d' % len(self.normals))
        for k in [self.normals[0]] + [k for _, k in self.poissons]:
            ctx.check('noise drawn for every pixel', getattr(k, 'shape', None) == (H, W), '%s' % (getattr(k, 'shape', None),))
        return at(self.normals[0]), ctx.sum(at(k) for _, k in self.poissons), ctx.sum(at(lam) for lam, _ in self.poissons)


def photons_per_radiance(ctx, t, area, w, f):
    """pi A t w^2 / (h c (1 + 4 f^2)) with um^2, ns, nm"""
    import math
    pi = ctx.v(math.pi)
    k = ctx.const('1e-12') * ctx.const('1e-9') * ctx.const('1e-18') * pi
    hc = ctx.const('6.63e-34') * ctx.const('3e8')
    return ctx.div(k * area * t * w * w, hc * (f * f * 4 + 1))


def make_qe(ctx, rt, H, W, n, free=True):
    w = ctx.array([400.0, 550.0, 700.0][:n])
    q = ctx.reals('qe', (H, W, n), '1/100', 1) if free else ctx.array([[[0.5] * n] * W] * H)
    return rt.Qe(qe=q, wavelength=w, width=W, height=H), w


SETTINGS = ('bit_depth', 'pixel_area', 'img_max', 'width', 'height', 'exposure', 'exposure_min', 'exposure_max', 'K', 'Ks', 'blackoffset',
            'blackoffsets')


def snapshot(ctx, cam, skip=()):
    d = {s: ctx.vals(getattr(cam, s)) for s in SETTINGS if s not in skip}
    d['environment'] = dict(cam.environment)
    d['DSNU'] = ctx.vals(cam.DSNU)
    d['qe'] = ctx.vals(cam.qe.qe)
    d['w'] = ctx.vals(cam.qe.w)
    return d


def frame(ctx, cam, before, label, skip=()):
    now = snapshot(ctx, cam)
    for k, v in before.items():
        if k not in skip:
            ctx.eq('%s %s' % (label, k), now[k], v)


def hook(ctx, **k):
    """the random numbers of cameras made from now on"""
    rng = FakeRNG(ctx, **k)
    ctx.hook_random({'default_rng': lambda *a, **kw: rng})
    return rng
