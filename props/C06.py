"""C06: spatial variance splits into row, column and pixel parts that add up."""
from .common import earlier

MODULES = ['process.routines', 'process.data', 'process.results']
BOUNDS = ('image sizes as symbolic integers 2..5000 with M*N > M+N, measured variances as symbolic reals of any sign, image counts '
          'symbolic 1..1000; the transposition with 2x3 to 4x3 images of symbolic pixels and two images per series')

QS = ('s_2_y_measured', 'sigma_2_y_stack', 's_2_y', 's_2_y_cav', 's_2_y_rav', 's_2_y_row', 's_2_y_col', 's_2_y_pixel')


def configs(tier):
    out = [{'name': 'symbolic sizes', 'kind': 'sym'}, {'name': 'square', 'kind': 'square'}]
    for s in ((2, 3), (3, 2), (4, 3), (3, 3)) + (((5, 4), (3, 7)) if tier == 'thorough' else ()):
        out.append({'name': 'transpose %dx%d' % s, 'kind': 'T', 'shape': list(s)})
    return out


def harness(ctx, cfg):
    rs = ctx.mod('process.results')
    if cfg['kind'] == 'T':
        return transpose(ctx, cfg, rs)
    sp = {}
    for p in ('', '_dark'):
        M = ctx.int('M' + p, 2, 5000)
        N = ctx.int('N' + p, 2, 5000) if cfg['kind'] == 'sym' else M
        ctx.assume(ctx.v(M) * ctx.v(N) > ctx.v(M) + ctx.v(N))
        sp['M' + p], sp['N' + p] = M, N
        sp['L' + p] = ctx.int('L' + p, 1, 1000)
        for k in ('avg_var', 'avg_var_cav', 'avg_var_rav'):
            sp[k + p] = ctx.real(k + p, -1000, 100000)
        sp['var_mean' + p] = ctx.real('var_mean' + p, 0, 100000)
    earlier(ctx, rs, 2, [q + p for p in ('', '_dark') for q in QS], spatial={q + p: 3.0 + 2 * i for p in ('', '_dark') for i, q in enumerate(
        ('L', 'M', 'N', 'avg_var_cav', 'avg_var_rav', 'var_mean', 'avg_var'))})
    r = rs.Results1288({'temporal': {}, 'spatial': sp})
    split(ctx, r, sp)


def split(ctx, r, sp):
    for p in ('', '_dark'):
        v = lambda n: ctx.v(getattr(r, n + p))
        tot = ctx.v(sp['avg_var' + p]) - ctx.div(ctx.v(sp['var_mean' + p]), ctx.v(sp['L' + p]))
        cav, rav = ctx.v(sp['avg_var_cav' + p]), ctx.v(sp['avg_var_rav' + p])
        M, N = ctx.v(sp['M' + p]), ctx.v(sp['N' + p])
        ctx.eq('measured' + p, getattr(r, 's_2_y_measured' + p), ctx.v(sp['avg_var' + p]))
        ctx.eq('stack' + p, getattr(r, 'sigma_2_y_stack' + p), ctx.v(sp['var_mean' + p]))
        ctx.eq('total' + p, getattr(r, 's_2_y' + p), tot)
        ctx.eq('columns' + p, getattr(r, 's_2_y_cav' + p), cav)
        ctx.eq('rows' + p, getattr(r, 's_2_y_rav' + p), rav)
        row, col, pix = v('s_2_y_row'), v('s_2_y_col'), v('s_2_y_pixel')
        ctx.eq('row + column + pixel' + p, row + col + pix, tot, abs=1e-5)
        ctx.eq('column + pixel/M' + p, col + ctx.div(pix, M), cav, abs=1e-5)
        ctx.eq('row + pixel/N' + p, row + ctx.div(pix, N), rav, abs=1e-5)


def transpose(ctx, cfg, rs):
    rt = ctx.mod('process.routines')
    dm = ctx.mod('process.data')
    M, N = cfg['shape']
    bright = [ctx.ints('b%d' % k, (M, N), 0, 255, 'uint8') for k in range(2)]
    dark = [ctx.ints('d%d' % k, (M, N), 0, 255, 'uint8') for k in range(2)]
    res = []
    for T in (False, True):
        b, d = ([i.T for i in x] if T else x for x in (bright, dark))
        tb = {'sum': 10, 'pvar': 10, 'dmean': 0.0}
        data = {'temporal': {5.0: {0.0: tb, 9.0: tb}}, 'width': M if T else N, 'height': N if T else M,
                'spatial': {5.0: {40.0: rt.get_int_imgs(b), 0.0: rt.get_int_imgs(d)}}}
        dd = dm.Data1288(data).data
        r = rs.Results1288(dd)
        split(ctx, r, dd['spatial'])
        res.append(r)
    a, b = res
    for p in ('', '_dark'):
        for x, y in (('s_2_y', 's_2_y'), ('s_2_y_pixel', 's_2_y_pixel'), ('s_2_y_row', 's_2_y_col'), ('s_2_y_col', 's_2_y_row'),
                     ('s_2_y_cav', 's_2_y_rav'), ('s_2_y_rav', 's_2_y_cav')):
            ctx.eq('transposed ' + x + p, getattr(b, x + p), ctx.v(getattr(a, y + p)), abs=1e-5)
