"""C03: temporal mean and noise are exact and immune to drift between the two images."""
from .common import flat

MODULES = ['process.routines', 'process.loader', 'process.data']
BOUNDS = ('pairs of images of 1x1 to 3x4 pixels (thorough: to 5x5), every pixel an independent symbolic integer, for a bright and a dark '
          'point of one or two exposure times; the pair goes through the loader reduction and Data1288')


def configs(tier):
    out = []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 4)]
    if tier == 'thorough':
        shapes += [(4, 4), (5, 5), (1, 9)]
    for s in shapes:
        for dt in ('uint8', 'uint16'):
            for n in (1, 2):
                out.append({'name': '%dx%d %s exposures=%d' % (s[0], s[1], dt, n), 'shape': list(s), 'dt': dt, 'n': n})
    return out


def harness(ctx, cfg):
    r = ctx.mod('process.loader')
    dm = ctx.mod('process.data')
    import os
    hi = 255 if cfg['dt'] == 'uint8' else 65535
    M, N = cfg['shape']
    tmp = ctx.tmpdir()
    files = {}

    def series(tag, n):
        names = []
        for k in range(n):
            f = os.path.join(tmp, '%s_%d' % (tag, k))
            open(f, 'w').close()
            files[f] = ctx.ints('%s_%d' % (tag, k), cfg['shape'], 0, hi, cfg['dt'])
            names.append(os.path.basename(f))
        return names
    images = {'temporal': {}, 'spatial': {}}
    texp = [10.0, 20.0][:cfg['n']]
    for i, t in enumerate(texp):
        images['temporal'][t] = {0.0: series('d%d' % i, 2), 50.0: series('b%d' % i, 2)}
    images['spatial'][10.0] = {0.0: series('sd', 2), 50.0: series('sb', 2)}
    # the same names in another directory before
    old = ctx.tmpdir()
    for f in files:
        open(os.path.join(old, os.path.basename(f)), 'w').close()
    other = r.LoadImageData(images, path=old, fload=lambda f: (ctx.np.arange(M * N) % 7 + len(f) % 5 + int(f[-1])).reshape(M, N).astype(cfg['dt']))
    dm.Data1288(other.data)
    ld = r.LoadImageData(images, path=tmp, fload=lambda f: files[f])
    data = dm.Data1288(ld.data).data['temporal']

    def expect(tag):
        a, b = (flat(ctx.vals(files[os.path.join(tmp, '%s_%d' % (tag, k))])) for k in (0, 1))
        mean = ctx.mean(a + b)
        diff = [x - y for x, y in zip(a, b)]
        return mean, ctx.var(diff) / 2
    for i, t in enumerate(texp):
        m, v = expect('b%d' % i)
        ctx.eq('bright mean', data['u_y'][i], m)
        ctx.eq('bright variance', data['s2_y'][i], v)
        m, v = expect('d%d' % i)
        ctx.eq('dark mean', data['u_ydark'][i], m)
        ctx.eq('dark variance', data['s2_ydark'][i], v)
    ctx.eq('exposure', data['texp'], texp)
    ctx.eq('photons', data['u_p'], [50.0] * len(texp))
    for k in ('u_y', 's2_y', 'u_ydark', 's2_ydark'):
        ctx.check('length ' + k, len(data[k]) == len(texp))
