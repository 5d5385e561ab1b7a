"""C36: processing a descriptor file gives the results the definitions give on the pixels of the listed images."""
import contextlib
import io
import os
from .common import Fig, fit0, fit1, flat
from .images import Model

MODULES = ['process', 'process.routines', 'process.parser', 'process.loader', 'process.data', 'process.results', 'process.plotting']
BOUNDS = ('descriptors with one exposure time and 5 photon counts and with 3 exposure times, 5x6 images of 8 and 12 bit with up to 12 symbolic '
          'pixels in the temporal and spatial series, 2 to 4 images per spatial series, symbolic photon counts and exposure times; the '
          'series in file order, reversed and interleaved; all numeric results, from the parsed descriptor to the XML read back and the printed text')
ASSUME = ('the temporal variance has one peak, at the next to last or last point', 'leastsq on a linear model returns the least-squares solution')
H, W = 5, 6
BUDGET = 200


def configs(tier):
    out = []
    for kind in ('illumination', 'exposure'):
        for order in ('as is', 'reversed', 'mixed'):
            for free in ('temporal', 'spatial') if order == 'as is' or tier == 'thorough' else (('temporal',) if order == 'mixed' else ('spatial',)):
                out.append({'name': '%s, %s, %s pixels' % (kind, order, free), 'kind': kind, 'order': order, 'free': free, 'bits': 8})
    out.append({'name': '12 bits', 'kind': 'illumination', 'order': 'mixed', 'free': 'photons', 'bits': 12})
    out.append({'name': 'exposure times', 'kind': 'exposure', 'order': 'mixed', 'free': 'photons', 'bits': 8})
    out.append({'name': 'printed', 'kind': 'illumination', 'order': 'as is', 'free': 'photons', 'bits': 8, 'print': True})
    return out


def dataset(ctx, cfg):
    """series in file order and in ascending order of exposure and photons: (kind, exposure, photons, images)"""
    bits = cfg['bits']
    dt, scale = ('uint8', 1) if bits == 8 else ('uint16', 16)
    noise = lambda i, j: 1 if (i + j) % 2 else -1
    fixed = lambda i, j: (2 * i + 3 * j) % 5
    count = [0]

    def pair(mean, amp, dark, free):
        out = []
        for s in (0, 1):
            im = [[mean + fixed(i, j) + (amp * noise(i, j) if s else 0) for j in range(W)] for i in range(H)]
            out.append(im)
        if free:
            count[0] += 1
            out[count[0] % 2][1][2 + count[0]] += ctx.int('t%d' % count[0], 0, 2)
        return out

    def stack(mean, n, name, free):
        out = []
        a, b, c = (4, 5, 7 if cfg['order'] == 'as is' else 3) if name == 'sb' else (2, 2, 3 if cfg['order'] == 'as is' else 1)
        pattern = lambda i, j: a * fixed(i, j) + b * (i % 3) + c * (j * j % 4)
        for k in range(n):
            im = [[mean + pattern(i, j) + (i * i * k) % 3 - k * j % 4 + 2 * (i % 2) for j in range(W)] for i in range(H)]
            out.append(im)
        if free:
            out[0][0][0] += ctx.int(name + 'a', 0, 3)
            out[n - 1][2][3] += ctx.int(name + 'b', 0, 3)
        return out
    ft, fs, fp = (cfg['free'] == x for x in ('temporal', 'spatial', 'photons'))
    u = ctx.real('unit', '1/2', 10 ** 7 if cfg.get('print') else 20) if fp else 1.5
    out = []
    if cfg['kind'] == 'illumination':
        t = ctx.real('t', 1000, 10 ** 6) if fp else 1000.0
        for k, (m, amp, ph) in enumerate(((30, 2, 100.0), (50, 4, 200.0), (65, 6, 280.0), (90, 10, 400.0), (95, 3, 450.0))):
            out.append(('b', t, ph * u, pair(m * scale, amp * scale, False, ft and k in (1, 3))))
        out.append(('d', t, None, pair(10 * scale, 2, True, ft)))
        spatial = (t, 280.0 * u)
    else:
        for k, (m, amp, te, dm, da) in enumerate(((30, 3, 1000.0, 10, 1), (60, 6, 2000.0, 11, 2), (95, 10, 3500.0, 13, 3))):
            te = te * (u if fp else 1.0)
            out.append(('b', te, 90.0 * (k + 1), pair(m * scale, amp * scale, False, ft and k == 1)))
            out.append(('d', te, None, pair(dm * scale, da, True, ft and k == 2)))
        spatial = (out[2][1], 180.0)
    out.append(('b', spatial[0], spatial[1], stack(60 * scale, 3, 'sb', fs)))
    out.append(('d', spatial[0], None, stack(10 * scale, 4 if cfg['kind'] == 'illumination' else 3, 'sd', fs)))
    ascending = list(out)
    if cfg['order'] == 'reversed':
        out.reverse()
    elif cfg['order'] == 'mixed':
        out = out[1::2] + out[-2::-2]
        assert len(out) == len(set(map(id, out)))
    return out, ascending, dt


def definitions(ctx, series):
    """all results from the pixels"""
    div, sqrt, v = ctx.div, ctx.sqrt, ctx.v
    dark, bright, sp = [], [], {}
    for c, t, p, imgs in series:
        px = [[[v(x) for x in r] for r in im] for im in imgs]
        if len(imgs) == 2:
            a, b = flat(px[0]), flat(px[1])
            d = [x - y for x, y in zip(a, b)]
            e = (v(t), v(p) if p is not None else 0, ctx.mean(a + b), ctx.var(d) / 2)
            (dark if c == 'd' else bright).append(e)
        else:
            sp[c] = px
    single = len(dark) == 1
    dk = dark * len(bright) if single else dark
    Y = [b[2] - d[2] for b, d in zip(bright, dk)]
    V = [b[3] - d[3] for b, d in zip(bright, dk)]
    P = [b[1] for b in bright]
    S = [b[3] for b in bright]
    n = len(S)
    sat = 3 if single else 2
    for i in range(1, n):
        ctx.assume(S[i] > S[i - 1] + ctx.const('0.01') if i <= sat else S[i] < S[i - 1] - ctx.const('0.01'))
    R = {'index_u_ysat': sat, 'index_start': 0, 'index_sensitivity_min': 0}
    within = [i for i in range(n) if ctx.truth(Y[i] <= Y[sat] * ctx.const('0.7'))]
    smax = within[-1]
    R['index_sensitivity_max'] = smax
    lo = [i for i in range(n) if ctx.truth(Y[i] >= Y[sat] * ctx.const('0.05'))][0]
    hi = [i for i in range(n) if ctx.truth(Y[i] <= Y[sat] * ctx.const('0.95'))][-1]
    R['index_linearity_min'], R['index_linearity_max'] = lo, hi
    r = R['R'] = fit0(ctx, P[:smax + 1], Y[:smax + 1])
    K = R['K'] = fit0(ctx, Y[:smax + 1], V[:smax + 1])
    R['inverse_K'] = div(1, K)
    QE = R['QE'] = div(r, K) * 100
    T, DM, DV = [d[0] for d in dark], [d[2] for d in dark], [d[3] for d in dark]
    nan = float('nan')
    if single:
        s2 = DV[0]
        R.update(u_I_mean=nan, u_I_mean_DN=nan, u_I_var=nan, u_I_var_DN=nan)
    else:
        m, _ = fit1(ctx, T, DM)
        w, s2 = fit1(ctx, T, DV)
        m, w = m * 10 ** 9, w * 10 ** 9
        R['u_I_mean_DN'], R['u_I_mean'] = m, div(m, K)
        if ctx.truth(w < 0):
            R.update(u_I_var=nan, u_I_var_DN=nan)
        else:
            R['u_I_var_DN'], R['u_I_var'] = div(w, K), div(div(w, K), K)
    s2 = ctx.max([s2, ctx.const('0.24')])
    s = R['sigma_y_dark'] = sqrt(s2)
    R['sigma_d'] = div(sqrt(s2 - div(1, 12)), K)
    pmin = R['u_p_min'] = div(100, QE) * (div(s, K) + div(1, 2))
    R['u_e_min'] = QE * pmin / 100
    psat = R['u_p_sat'] = P[sat]
    esat = R['u_e_sat'] = QE * psat / 100
    R['SNR_max'] = sqrt(esat)
    R['inverse_SNR_max'] = div(100, sqrt(esat))
    R['DR'] = div(psat, pmin)
    # linearity: relative deviations are minimised
    X, Z = P[lo:hi + 1], Y[lo:hi + 1]
    w = [div(1, z * z) for z in Z]
    s0, sx, sy = ctx.sum(w), ctx.sum(a * x for a, x in zip(w, X)), ctx.sum(a * z for a, z in zip(w, Z))
    sxx, sxy = ctx.sum(a * x * x for a, x in zip(w, X)), ctx.sum(a * x * z for a, x, z in zip(w, X, Z))
    det = s0 * sxx - sx * sx
    m, c = div(s0 * sxy - sx * sy, det), div(sxx * sy - sx * sxy, det)
    dev = [div((z - (m * x + c)) * 100, m * x + c) for x, z in zip(X, Z)]
    R['LE_min'], R['LE_max'] = ctx.min(dev), ctx.max(dev)
    # spatial
    comp = {}
    for k in 'bd':
        im = sp[k]
        L = len(im)
        avg = [[ctx.sum(x[i][j] for x in im) / L for j in range(W)] for i in range(H)]
        stack = ctx.mean([ctx.var([x[i][j] for x in im], 1) for i in range(H) for j in range(W)])
        tot = ctx.var(flat(avg), 1) - stack / L
        rows = ctx.var([ctx.mean(r) for r in avg]) - stack / (L * W)
        cols = ctx.var([ctx.mean(x) for x in zip(*avg)]) - stack / (L * H)
        # total = row + col + pixel, cols = col + pixel/M, rows = row + pixel/N
        det = div(H * W - H - W, H * W)
        pix = div(tot - rows - cols, det)
        comp[k] = {'': tot, '_row': rows - pix / W, '_col': cols - pix / H, '_pixel': pix, 'mean': ctx.mean(flat(avg)), 'stack': stack,
                   'avg': avg}
        q = '_dark' if k == 'd' else ''
        R['sigma_2_y_stack' + q] = stack
        R['s_2_y_measured' + q] = ctx.var(flat(avg), 1)
        R['s_2_y' + q] = tot
        for x in ('_row', '_col', '_pixel'):
            R['s_2_y' + x + q] = comp[k][x]
    for x in ('', '_row', '_col', '_pixel'):
        d = comp['d'][x]
        if ctx.truth(d < 0):
            R['DSNU1288' + x] = nan
            if not x:
                R['DSNU1288_DN'] = nan
        else:
            R['DSNU1288' + x] = div(sqrt(d), K)
            if not x:
                R['DSNU1288_DN'] = sqrt(d)
        e = comp['b'][x] - d
        R['PRNU1288' + x] = nan if ctx.truth(e < 0) else div(sqrt(e) * 100, comp['b']['mean'] - comp['d']['mean'])
    comp['ptc'] = (Y, V)
    comp['dark'] = ([d[0] for d in dk], [d[2] for d in dk])
    return R, comp


def harness(ctx, cfg):
    Model(ctx)
    pc, rt = ctx.mod('process'), ctx.mod('process.routines')
    tmp = ctx.tmpdir()
    series, ascending, dt = dataset(ctx, cfg)
    if ctx.sym:
        fromarray = ctx.pkg.stub('PIL.Image.fromarray')
    else:
        from PIL.Image import fromarray
    lines, k = ['v 3.1', 'n %d %d %d' % (cfg['bits'], W, H)], 0
    for c, t, p, imgs in series:
        lines.append('%s %s%s' % (c, ctx.text(t), '' if p is None else ' ' + ctx.text(p)))
        for im in imgs:
            # the same names in different folders
            sub, name = 'folder%d' % (k % 3), 'image%d.png' % (k // 3)
            k += 1
            os.makedirs(os.path.join(tmp, sub), exist_ok=True)
            fromarray(ctx.array(im, dtype=dt)).save(os.path.join(tmp, sub, name))
            lines.append('i %s\\%s' % (sub, name))
    fname = os.path.join(tmp, 'descriptor.txt')
    with open(fname, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    R, comp = definitions(ctx, ascending)
    e = pc.Emva1288(fname)
    out = os.path.join(tmp, 'results.xml')
    e.xml(out)
    got = rt.xml_to_dict(out)
    if cfg.get('print'):
        again = rt.xml_to_dict(e.xml())
        ctx.check('the same sections as text', set(again) == set(got))
        for sec in got:
            ctx.check('the same entries as text', set(again[sec]) == set(got[sec]), sec)
            for n in got[sec]:
                a, b = again[sec][n].get('value'), got[sec][n].get('value')
                ctx.check('the same value as text', (a is None) == (b is None), n)
                if a is not None and not isinstance(a, str) and not ctx.truth(ctx.isnan(b)):
                    ctx.eq('the same value as text', a, b)
    found = {}
    for s in got:
        for n in got[s]:
            ctx.check('one entry', n not in found, n)
            found[n] = got[s][n]
    isnan = lambda x: isinstance(x, float) and x != x
    for n, want in R.items():
        n = n.lower()
        ctx.check('result in the file', n in found and 'value' in found[n], '%s: %s' % (n, found.get(n)))
        g = found[n]['value']
        if isnan(want):
            ctx.check('no value', g is None or ctx.isnan(g), '%s: %r' % (n, g))
        else:
            ctx.check('a value', g is not None, n)
            ctx.eq(n, g, want, rel=1e-6, abs=1e-9)
    for n in ('u_p_min_area', 'u_p_sat_area', 'u_e_min_area', 'u_e_sat_area'):
        ctx.check('no area', n in found and found[n].get('value') is None, n)
    for n, size in (('histogram_dsnu', H * W), ('histogram_prnu', (H - 4) * (W - 4))):
        ctx.check('histogram in the file', n in found and 'data' in found[n], n)
        ctx.eq(n + ' counts every pixel', ctx.sum(ctx.vals(found[n]['data']['values'])), size)
        acc = ctx.vals(found[n + '_accumulated']['data']['values'])
        ctx.eq(n + '_accumulated starts with all pixels', acc[0], 100)
    if cfg.get('print'):
        figs = []

        def figure(*a, **k):
            figs.append(Fig())
            return figs[-1]
        ctx.stub('matplotlib.pyplot.figure', figure, real=True)
        ctx.stub('matplotlib.pyplot.show', lambda *a, **k: None, real=True)
        pl = ctx.mod('process.plotting')
        e.plot(pl.PlotPTC, pl.PlotUyDark)
        ctx.check('one figure per requested plot', len(figs) == 2)
        for f, (xs, ys) in zip(figs, (comp['ptc'], comp['dark'])):
            data = [li for _, li in f.lines if li.label == 'Data']
            ctx.check('one line of data', len(data) == 1)
            ctx.eq('plotted x', ctx.flat(data[0].x), xs, rel=1e-9, abs=1e-9)
            ctx.eq('plotted y', ctx.flat(data[0].y), ys, rel=1e-9, abs=1e-9)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            e.results()
        shown = buf.getvalue().splitlines()
        secs = pc.Emva1288(fname)._results.results_by_section if hasattr(e, '_results') else {}
        for s in secs:
            ctx.check('section is printed', s in [x.strip() for x in shown], s)
            at = [x.strip() for x in shown].index(s)
            part = []
            for x in shown[at + 1:]:
                if x.startswith('**'):
                    break
                part.append(x)
            for n, info in secs[s].items():
                if 'value' not in info:
                    continue
                val = info['value']
                mine = [x for x in part if str(info.get('short')) in x and str(info.get('symbol')) in x]
                ctx.check('quantity is printed', mine, n)
                nums = [ctx.number(x.split()[-1]) for x in mine]
                if val is None or ctx.isnan(val):
                    continue
                ctx.check('printed value', any(y is not None and ctx.truth(ctx.all([y - ctx.v(val) <= ctx.max([ctx.v(val), -ctx.v(val)]) / 10 ** 6,
                                                                                  ctx.v(val) - y <= ctx.max([ctx.v(val), -ctx.v(val)]) / 10 ** 6]))
                                               for y in nums), n)
