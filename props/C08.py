"""C08: thresholds, capacities, SNR and dynamic range follow their definitions."""
from .common import spatial_stub, earlier

MODULES = ['process.routines', 'process.results']
BOUNDS = ('series of 2 and 3 points (thorough: 4) with symbolic photons in any order, signals and variances of positive gain and quantum efficiency, '
          'symbolic dark variance below and above its floor, symbolic pixel area, none or 0; every saturation index')

QS = ('sigma_y_dark', 'sigma_d', 'u_p_min', 'u_e_min', 'u_p_sat', 'u_e_sat', 'u_p_min_area', 'u_e_min_area', 'u_p_sat_area', 'u_e_sat_area', 'SNR_max',
      'SNR_max_dB', 'SNR_max_bit', 'inverse_SNR_max', 'DR', 'DR_dB', 'DR_bit')


def configs(tier):
    out = []
    for n, s in ((2, 1), (3, 1), (3, 2)) + (((4, 2), (4, 3)) if tier == 'thorough' else ()):
        for area in ('none', 'zero', 'float', 'int'):
            out.append({'name': 'n=%d sat=%d area=%s' % (n, s, area), 'n': n, 'sat': s, 'area': area})
    return out


def harness(ctx, cfg):
    rs = ctx.mod('process.results')
    n, sat = cfg['n'], cfg['sat']
    p = ctx.reals('u_p', n, 1, 100000)
    y = ctx.reals('u_y', n, 1, 60000)
    v = ctx.reals('s2_y', n, 1, 60000)
    yv, vv, pv = ctx.vals(y), ctx.vals(v), ctx.vals(p)
    for i in range(n - 1):
        ctx.assume(yv[i] + 1 <= yv[i + 1])
    ctx.assume(yv[0] * 2 <= yv[sat])
    d2 = ctx.real('s2_ydark', 0, '4/5', dt='float64')
    t = {'texp': ctx.array([1.0] * n), 'u_p': p, 'u_y': y, 's2_y': v, 'u_ydark': ctx.array([0.5] * n),
         's2_ydark': ctx.array([d2] * n)}
    area = {'none': None, 'zero': 0, 'float': None, 'int': 7}[cfg['area']]
    if cfg['area'] == 'float':
        area = ctx.real('area', '1/10', 400)
    earlier(ctx, rs, n, QS, sat, area=3.0, texp=lambda i: 1)
    r = rs.Results1288({'temporal': t, 'spatial': spatial_stub(ctx)}, pixel_area=area, index_u_ysat=sat)
    K, QE, s = ctx.v(r.K), ctx.v(r.QE), ctx.v(r.sigma_y_dark)
    T = dict(rel=1e-6, abs=1e-9)
    s2 = ctx.max([ctx.v(d2), ctx.const('0.24')])
    ctx.eq('sigma_y_dark', s * s, s2, **T)
    # s*s is used for the radicand, s for the rest
    ctx.eq('sigma_d', r.sigma_d, ctx.div(ctx.sqrt(s * s - ctx.div(1, 12)), K), **T)
    pmin = ctx.div(100, QE) * (ctx.div(s, K) + ctx.div(1, 2))
    psat = pv[sat]
    emin, esat = QE * pmin / 100, QE * psat / 100
    ctx.eq('u_p_min', r.u_p_min, pmin, **T)
    ctx.eq('u_e_min', r.u_e_min, emin, **T)
    ctx.eq('u_p_sat', r.u_p_sat, psat, **T)
    ctx.eq('u_e_sat', r.u_e_sat, esat, **T)
    for name, e in (('u_p_min', pmin), ('u_e_min', emin), ('u_p_sat', psat), ('u_e_sat', esat)):
        got = getattr(r, name + '_area')
        if not cfg['area'] in ('float', 'int'):
            ctx.check(name + '_area without area', got is None)
        else:
            ctx.eq(name + '_area', got, ctx.div(e, ctx.v(area)), **T)
    snr = ctx.sqrt(esat)
    ctx.eq('SNR_max', r.SNR_max, snr, **T)
    ctx.eq('SNR_max_dB', r.SNR_max_dB(), ctx.log10(snr) * 20, **T)
    ctx.eq('SNR_max_bit', r.SNR_max_bit(), ctx.div(ctx.ln(snr), ctx.ln(2)), **T)
    ctx.eq('inverse_SNR_max', r.inverse_SNR_max(), ctx.div(100, snr), **T)
    ctx.eq('DR', r.DR, ctx.div(psat, pmin), **T)
    ctx.eq('DR_dB', r.DR_dB(), ctx.log10(ctx.div(psat, pmin)) * 20, **T)
