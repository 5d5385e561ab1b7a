"""C16: evaluating results is pure: order, repetition and sharing change nothing."""
from .common import fit0, last_at_most

MODULES = ['process.routines', 'process.results']
BOUNDS = ('temporal series of 3 points (symbolic signals, variances and dark values, exposure times equal and different), 5x5 and 5x6 '
          'sum images with symbolic pixels, symbolic spatial variances and pixel area; all documented quantities evaluated forward, '
          'backward, twice, from every rotation and interleaved with the results dictionary; every ordered pair of quantities; '
          'a second object on the same and on different data')
BUDGET = 160


def configs(tier):
    out = [{'name': 'other data of the same size in between', 'sat': 2, 'exp': 'same', 'order': 'other', 'cols': 5},
           {'name': 'other data of the same mean in between', 'sat': 2, 'exp': 'same', 'order': 'other', 'cols': 5, 'pixels': 'fixed'}]
    for sat in (None, 0, 2):
        for exp in ('same', 'different'):
            for o in ('forward', 'backward', 'rotated', 'dictionary first'):
                if o != 'rotated' or tier == 'thorough' or (sat, exp) == (2, 'different'):
                    out.append({'name': 'sat=%s %s exposures %s' % (sat, exp, o), 'sat': sat, 'exp': exp, 'order': o,
                                'rotations': 8 if tier == 'thorough' else 3})
    out.append({'name': 'other data in between', 'sat': None, 'exp': 'same', 'order': 'other'})
    out.append({'name': 'pairs', 'sat': 2, 'exp': 'same', 'order': 'pairs'})
    return out


def dataset(ctx, p, exp, cols=5, free=True, pixels=None):
    n = 3
    K = ctx.real(p + 'K', '1/10', 10)
    y = ctx.array([10.0, 60.0, 100.0]) * ctx.real(p + 'scale', 1, 10)
    dark, nd = ctx.reals(p + 'u_ydark', n, 0, 10), ctx.reals(p + 's2_ydark', n, 1, 10)
    t = {'texp': ctx.array([1000.0] * n if exp == 'same' else [1000.0, 2000.0, 3000.0]), 'u_p': ctx.reals(p + 'u_p', n, 10, 1000),
         'u_y': y + dark, 's2_y': y * K + nd, 'u_ydark': dark, 's2_ydark': nd}
    up = ctx.vals(t['u_p'])
    ctx.assume(up[0] + 10 <= up[1])
    ctx.assume(up[1] + 10 <= up[2])
    # saturation at the last point, so that fit and linearity range hold points
    sv = ctx.vals(t['s2_y'])
    ctx.assume(sv[0] + 1 <= sv[1])
    ctx.assume(sv[1] + 1 <= sv[2])
    B = [[3] * cols for _ in range(5)]
    D = [[1] * cols for _ in range(5)]
    B[2][2], D[1][1] = pixels or ((ctx.int(p + 'b', 3, 4), ctx.int(p + 'd', 1, 2)) if free else (5, 3))
    s = {'sum': ctx.array(B, dtype='int64'), 'sum_dark': ctx.array(D, dtype='int64'), 'L': 2, 'L_dark': 2, 'M': 5, 'N': cols,
         'M_dark': 5, 'N_dark': cols}
    # all components real, or some of them not (square roots of negative numbers give NaN)
    real = ctx.flag(p + 'components real') if free else True
    for q, x in (('', 10), ('_dark', 1)):
        s['avg_var' + q] = ctx.real(p + 'avg_var' + q, 8 * x, 9 * x)
        s['avg_var_cav' + q] = ctx.real(p + 'cav' + q, 2 * x, 3 * x) if real else ctx.real(p + 'cav' + q, x, 2 * x)
        s['avg_var_rav' + q] = ctx.real(p + 'rav' + q, 2 * x, 3 * x)
        s['var_mean' + q] = ctx.real(p + 'var_mean' + q, x, 2 * x) if real else ctx.real(p + 'var_mean' + q, 17 * x, 18 * x)
    s['avg_mean'], s['avg_mean_dark'] = ctx.real(p + 'avg_mean', 50, 100), ctx.real(p + 'avg_mean_dark', 0, 20)
    return {'temporal': t, 'spatial': s}


def snap(ctx, x):
    """Nested plain copy of a result: numbers become oracle numbers or NaN."""
    if isinstance(x, dict):
        return {k: snap(ctx, v) for k, v in x.items()}
    if x is None or isinstance(x, (str, bool)):
        return x
    if hasattr(x, 'ndim') and x.ndim:
        return [snap(ctx, y) for y in list(x)]
    if isinstance(x, (list, tuple)):
        return [snap(ctx, y) for y in x]
    if isinstance(x, float) and x != x:
        return x
    try:
        return ctx.v(x)
    except Exception:
        return x


def same(ctx, label, a, b):
    """snapshots agree exactly"""
    if isinstance(b, dict):
        ctx.check(label, isinstance(a, dict) and sorted(a) == sorted(b))
        for k in b:
            same(ctx, label, a[k], b[k])
    elif isinstance(b, list):
        ctx.check(label, isinstance(a, list) and len(a) == len(b))
        for x, y in zip(a, b):
            same(ctx, label, x, y)
    elif b is None or isinstance(b, (str, bool)):
        ctx.check(label, a == b if a is None or isinstance(a, (str, bool)) else False, '%r / %r' % (a, b))
    else:
        na, nb = nan(a), nan(b)
        if na or nb:
            ctx.check(label, na and nb, '%r / %r' % (a, b))
        else:
            ctx.eq(label, a, b, rel=1e-9, abs=1e-12)


def nan(x):
    return isinstance(x, float) and x != x


def value(r, q):
    v = getattr(r, q)
    return v() if callable(v) else v


def harness(ctx, cfg):
    rs, rt = ctx.mod('process.results'), ctx.mod('process.routines')
    names = list(rt.cls_1288_info(rs.Results1288).keys())
    ctx.check('documented quantities', len(names) >= 40, '%d' % len(names))
    data = dataset(ctx, '', cfg['exp'], free=cfg['order'] != 'pairs', pixels=(4, 2) if 'pixels' in cfg else None)
    area = ctx.real('area', 1, 100)
    new = lambda d=data: rs.Results1288(d, pixel_area=area, index_u_ysat=cfg['sat'])
    before = snap(ctx, data)
    skip = ()
    if cfg['sat'] == 0:
        # no point lies below 70 % or 95 % of the first one
        skip = tuple(q for q in names if ctx.call(value, new(), q)[1] is not None)
        names = [q for q in names if q not in skip]
        ctx.check('quantities left', len(names) >= 8)
    o = cfg['order']
    if o == 'pairs':
        # one quantity alone, then any other before it
        i, j = ctx.index('first', len(names)), ctx.index('then', len(names))
        alone = snap(ctx, value(new(), names[j]))
        r = new()
        v = value(r, names[i])
        v0 = snap(ctx, v)
        got = value(r, names[j])
        same(ctx, 'value after another', snap(ctx, got), alone)
        same(ctx, 'earlier value', snap(ctx, v), v0)
        same(ctx, 'data', snap(ctx, data), before)
        return
    if o == 'other':
        od = dataset(ctx, 'other_', 'different', cfg.get('cols', 6), False)
        isolated = {q: snap(ctx, value(rs.Results1288(od), q)) for q in names}
        ctx.fresh()
    fresh = {q: snap(ctx, value(new(), q)) for q in names}
    same(ctx, 'data', snap(ctx, data), before)
    r, r2 = new(), new()
    seq = list(names)
    if o == 'backward':
        seq = seq[::-1]
    elif o == 'rotated':
        n = cfg['rotations']
        k = ctx.index('rotation', n) * len(seq) // n
        seq = seq[k:] + seq[:k]
    elif o == 'dictionary first' and not skip:
        d = r.results
        same(ctx, 'keys of the dictionary', sorted(d), sorted(names))
        for q in names:
            same(ctx, 'dictionary value', snap(ctx, d[q].get('data', d[q].get('value'))), fresh[q])
        e = r.results_by_section
        for sec in e:
            for q in e[sec]:
                same(ctx, 'value by section', snap(ctx, e[sec][q].get('data', e[sec][q].get('value'))), fresh[q])
    other = None
    if o == 'other':
        other = rs.Results1288(od)
        ov = {q: snap(ctx, value(other, q)) for q in names[::-1]}
        for q in names:
            same(ctx, 'other value of %s, as without the first data' % q, ov[q], isolated[q])
        # the dictionaries of both objects, one after the other
        dicts = []
        for x in (r, other, r2):
            dicts += [(d, snap(ctx, d), ov if x is other else fresh) for d in (x.results, {q: v for e in x.results_by_section.values() for q, v in e.items()})]
    kept = []
    for rep in range(2):
        for q in seq:
            v = value(r, q)
            kept.append((q, v))
            same(ctx, 'value of ' + q, snap(ctx, v), fresh[q])
            if rep:
                same(ctx, 'value of %s in a second object' % q, snap(ctx, value(r2, q)), fresh[q])
    for q, v in kept:
        same(ctx, 'returned value of ' + q, snap(ctx, v), fresh[q])
    same(ctx, 'data', snap(ctx, data), before)
    if other:
        for d, s, want in dicts:
            same(ctx, 'returned dictionary', snap(ctx, d), s)
            for q in names:
                same(ctx, 'dictionary value of ' + q, snap(ctx, d[q].get('data', d[q].get('value'))), want[q])
        for q in names:
            same(ctx, 'other value of ' + q, snap(ctx, value(other, q)), ov[q])
        # and they are those of the other data
        t, s = od['temporal'], od['spatial']
        up, Y = ctx.vals(t['u_p']), [a - b for a, b in zip(ctx.vals(t['u_y']), ctx.vals(t['u_ydark']))]
        k = other.index_u_ysat
        ctx.eq('other saturation', ov['u_p_sat'], ctx.v(t['u_p'][k]))
        e = last_at_most(ctx, Y, ctx.v(Y[int(k)]) * ctx.const('0.7')) + 1
        ctx.eq('other responsivity', ov['R'], fit0(ctx, up[:e], Y[:e]), abs=1e-5)
        ctx.eq('other variance', ov['s_2_y_measured'], ctx.v(s['avg_var']))
