"""C05: spatial statistics follow their definitions for bright and dark images."""
from .common import stack_stats, flat

EXACT64 = True
MODULES = ['process.routines', 'process.data']
BOUNDS = ('image stacks of 1x2 to 4x3 pixels (thorough: 5x4) and 2 to 5 images per series, all pixels independent symbolic '
          'integers; different L and M != N; reduction included')


def configs(tier):
    out = []
    shapes = [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (4, 3), (2, 5)]
    if tier == 'thorough':
        shapes += [(5, 4), (3, 6), (1, 8)]
    for s in shapes:
        for L, Ld in ((2, 2), (3, 2), (2, 4)) + (((5, 3), (4, 7)) if tier == 'thorough' else ()):
            if s[0] * s[1] * (L + Ld) <= 60 or tier == 'thorough':
                out.append({'name': '%dx%d L=%d/%d' % (s[0], s[1], L, Ld), 'shape': list(s), 'L': L, 'Ld': Ld,
                            'dt': 'uint8' if L == 2 else 'uint16'})
    return out


def harness(ctx, cfg):
    r = ctx.mod('process.routines')
    dm = ctx.mod('process.data')
    M, N = cfg['shape']
    hi = 255 if cfg['dt'] == 'uint8' else 65535
    bright = [ctx.ints('b%d' % k, (M, N), 0, hi, cfg['dt']) for k in range(cfg['L'])]
    dark = [ctx.ints('d%d' % k, (M, N), 0, hi, cfg['dt']) for k in range(cfg['Ld'])]
    tb = {'sum': 10, 'pvar': 10, 'dmean': 0.0}
    data = {'temporal': {5.0: {0.0: dict(tb), 9.0: dict(tb)}}, 'width': N, 'height': M,
            'spatial': {5.0: {40.0: r.get_int_imgs(bright), 0.0: r.get_int_imgs(dark)} if cfg['L'] != 3 else
                        {0.0: r.get_int_imgs(dark), 40.0: r.get_int_imgs(bright)}}}
    # another data set of the same size before
    o = lambda n, k: r.get_int_imgs([(ctx.np.arange(M * N) % (7 + k + i)).reshape(M, N).astype(cfg['dt']) for i in range(n)])
    dm.Data1288({'temporal': {5.0: {0.0: dict(tb), 9.0: dict(tb)}}, 'width': N, 'height': M, 'spatial': {5.0: {40.0: o(cfg['L'], 3), 0.0: o(cfg['Ld'], 0)}}})
    sp = dm.Data1288(data).data['spatial']
    ctx.eq('exposure', sp['texp'], 5.0)
    ctx.eq('photons', sp['u_p'], 40.0)
    for imgs, post in ((bright, ''), (dark, '_dark')):
        L = len(imgs)
        v = [ctx.vals(i) for i in imgs]
        S, P, _ = stack_stats(ctx, v)
        ctx.eq('sum' + post, sp['sum' + post], S)
        ctx.eq('L' + post, sp['L' + post], L)
        ctx.eq('M' + post, sp['M' + post], M)
        ctx.eq('N' + post, sp['N' + post], N)
        avg = [[ctx.div(x, L) for x in row] for row in S]
        ctx.eq('avg_mean' + post, sp['avg_mean' + post], ctx.mean(flat(avg)))
        ctx.eq('avg_var' + post, sp['avg_var' + post], ctx.var(flat(avg), 1))
        # unbiased temporal variance of each pixel from its values
        tv = ctx.mean([ctx.var([im[i][j] for im in v], 1) for i in range(M) for j in range(N)])
        ctx.eq('var_mean' + post, sp['var_mean' + post], tv)
        cols = [ctx.mean([avg[i][j] for i in range(M)]) for j in range(N)]
        rows = [ctx.mean([avg[i][j] for j in range(N)]) for i in range(M)]
        ctx.eq('avg_var_cav' + post, sp['avg_var_cav' + post], ctx.var(cols) - tv / (L * M))
        ctx.eq('avg_var_rav' + post, sp['avg_var_rav' + post], ctx.var(rows) - tv / (L * N))
