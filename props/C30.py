"""C30: defect-pixel injection changes exactly the requested number of pixels."""
from .camera import hook, snapshot, frame, make_qe

MODULES = ['camera.routines', 'camera.camera', 'camera.bad_images']
BOUNDS = ('sensors of 1x1 to 3x3 pixels (also tall and wide), 0 to all pixels defective, symbolic fraction and full well capacity, default or given symbolic '
          'DSNU of real or integer numbers, every outcome of the random selection; two injections in a row; default fraction and fraction None; two given pixels of a sensor of 257x256')
ASSUME = ('numpy random: choice any elements (distinct exactly if replace is false), permutation any order, randint and integers any '
          'number below the limit',)
SIZES = [(1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2)]


def configs(tier):
    out = []
    # a sensor of realistic size
    out.append({'name': '2 of 257x256', 'H': 257, 'W': 256, 'n': 2, 'many': [0, 65536]})
    for h, w in SIZES + ([(3, 3), (2, 4), (5, 2)] if tier == 'thorough' else []):
        for n in range(h * w + 1):
            if h * w < 6 or n < 4 or tier == 'thorough':
                out.append({'name': '%d of %dx%d' % (n, h, w), 'H': h, 'W': w, 'n': n})
    out.append({'name': 'default fraction', 'H': 2, 'W': 2, 'n': 2, 'default': True})
    out.append({'name': 'no fraction', 'H': 2, 'W': 2, 'n': 1, 'none': True})
    out.append({'name': 'integer DSNU', 'H': 2, 'W': 2, 'n': 2, 'integers': True})
    out.append({'name': 'twice', 'H': 2, 'W': 2, 'n': 1, 'twice': True})
    return out


class Choices(object):
    """numpy.random functions with arbitrary outcomes"""

    def __init__(self, ctx, some=None):
        # of many outcomes some
        self.ctx, self.count, self.some = ctx, 0, some

    def index(self, n):
        self.count += 1
        if self.some and n > len(self.some):
            return [k for k in self.some if k < n][self.ctx.index('pick%d' % self.count, len([k for k in self.some if k < n]))]
        return self.ctx.index('pick%d' % self.count, n)

    def _items(self, a):
        return list(range(int(a))) if not hasattr(a, '__len__') else list(a)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        items = self._items(a)
        n = 1 if size is None else int(size) if not isinstance(size, tuple) else int(size[0])
        if not replace and n > len(items):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        out = []
        for i in range(n):
            k = self.index(len(items))
            out.append(items[k] if replace else items.pop(k))
        return out[0] if size is None else self.ctx.array(out, dtype='int64')

    def permutation(self, a):
        return self.choice(a, len(self._items(a)), replace=False)

    def shuffle(self, a):
        a[:] = self.permutation(list(a))

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        r = range(int(low), int(high) + (1 if endpoint else 0))
        return self.choice(list(r), size)

    integers = randint


def harness(ctx, cfg):
    hook(ctx, free=not cfg.get('many'))
    r = Choices(ctx, cfg.get('many'))
    ctx.hook_random({k: getattr(r, k) for k in ('choice', 'permutation', 'shuffle', 'randint')})
    rt, cm, bi = ctx.mod('camera.routines'), ctx.mod('camera.camera'), ctx.mod('camera.bad_images')
    # other cameras with their own random numbers
    ctx.hook_random({'default_rng': lambda *a, **k: r})
    H, W, n = cfg['H'], cfg['W'], cfg['n']
    if cfg.get('many'):
        qe = rt.Qe(qe=ctx.np.full((H, W, 1), 0.5), wavelength=ctx.array([500.0]), width=W, height=H)
    else:
        qe, w = make_qe(ctx, rt, H, W, 1)
    full = ctx.real('full_well', 1, 10 ** 5)
    given = ctx.flag('given DSNU') if H * W <= 4 else True
    dsnu = None
    if given:
        if cfg.get('many'):
            dsnu = ctx.np.full((H, W), -0.5)
            for k in cfg['many'] + [300]:
                dsnu[k // W, k % W] = ctx.real('dsnu%d' % k, -100, '-1/100')
        else:
            dsnu = ctx.ints('dsnu', (H, W), -100, -1, 'int64') if cfg.get('integers') else ctx.reals('dsnu', (H, W), -100, '-1/100')
    table = ctx.vals(dsnu) if given else None
    more = {'prnu': ctx.np.ones((H, W))} if cfg.get('many') else {}
    cam = cm.Camera(width=W, height=H, qe=qe, u_esat=full, dsnu=dsnu, **more, K_steps=3, blackoffset_steps=3)
    before = snapshot(ctx, cam)
    args = ()
    frac = ctx.v(1)
    if not cfg.get('default'):
        f = None if cfg.get('none') else ctx.real('fraction', '1/1000', 1) if cfg.get('many') or ctx.flag('fraction') else 1
        args, frac = (f,), ctx.v(1 if f is None else f)
    bi.bad_pixel(cam, n, *args)
    if cfg.get('twice'):
        # the second injection with another fraction
        mid = ctx.vals(cam.DSNU)
        before['DSNU'] = mid
        n = 2
        f = ctx.real('other', 2, 3)
        frac = ctx.v(f)
        bi.bad_pixel(cam, n, f)
    frame(ctx, cam, before, 'unchanged', skip=('DSNU',))
    if given:
        # another camera may have been given the same array
        for i in range(H):
            for j in range(W):
                ctx.eq('given array', ctx.v(dsnu[i, j]), table[i][j], rel=0)
    ctx.check('shape', cam.DSNU.shape == (H, W))
    new = [x for row in ctx.vals(cam.DSNU) for x in row]
    old = [x for row in before['DSNU'] for x in row]
    # defective pixels are the ones that have the bad value
    bad = 0
    for x, y in zip(new, old):
        if ctx.truth(ctx.max([x - y, y - x]) >= ctx.const('0.0000001')):
            bad += 1
            ctx.eq('fraction of the full well', x, ctx.v(full) * frac, abs=1e-9)
    ctx.check('number of changed pixels', bad == n, '%d, %d requested' % (bad, n))
