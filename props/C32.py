"""C32: reports number every operating point and mark missing numbers."""
import copy
import os
import re
from .common import Fig, Anything
from . import C31

MODULES = ['report.report', 'process.results', 'process.plotting', 'process.routines']
BOUNDS = ('reports of 1 to 4 operating points, each unnamed (None or empty) or named, with or without an identifier of another report, full or summary only, with given or computed results, '
          'symbolic gain and photon counts of each; two reports at the same time; the filters for every kind of missing value (None, NaN of '
          'every number type, computed NaN), zero, and symbolic numbers up to 10^6 with 0 to 5 decimals; the rendered data sheet with '
          'symbolic result numbers, each of them missing in turn; a data sheet of twelve points of which one is symbolic')
ASSUME = ('jinja2 is run as it is; matplotlib draws and saves what it is given',)
BUDGET = 200
NANS = ['None', 'nan', 'np.nan', 'computed', 'float32', 'float64', '0-d']
# results with at least one decimal and results rounded to a whole number
PARTS = {'sensitivity': ['QE', 'K', 'inverse_K', 'sigma_d', 'sigma_y_dark', 'SNR_max_dB', 'SNR_max_bit', 'inverse_SNR_max', 'u_p_min',
                         'u_p_min_area', 'u_e_min', 'u_e_min_area', 'u_p_sat_area', 'DR_dB'],
         'spatial': [p + '1288' + d for p in ('DSNU', 'PRNU') for d in ('', '_row', '_col', '_pixel')],
         'linearity': ['LE_min', 'LE_max'],
         'dark_current': ['u_I_mean', 'u_I_mean_DN', 'u_I_var', 'u_I_var_DN']}
WHOLE = {'sensitivity': ['SNR_max', 'u_p_sat', 'u_e_sat', 'u_e_sat_area', 'DR']}


def configs(tier):
    out = []
    for n in (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3):
        out.append({'name': 'report of %d points' % n, 'kind': 'add', 'n': n})
    out.append({'name': 'given results', 'kind': 'add', 'n': 2, 'given': True})
    out.append({'name': 'two reports', 'kind': 'two'})
    out.append({'name': 'missing numbers', 'kind': 'missing'})
    for p in range(6 if tier == 'thorough' else 4):
        out.append({'name': 'numbers with %d decimals' % p, 'kind': 'number', 'precision': p})
    out.append({'name': 'missing objects', 'kind': 'object'})
    out.append({'name': 'data sheet', 'kind': 'sheet', 'n': 1})
    out.append({'name': 'data sheet of two points', 'kind': 'sheet', 'n': 2})
    out.append({'name': 'data sheet of twelve points', 'kind': 'sheet', 'n': 12, 'many': True})
    out.append({'name': 'data sheet with missing numbers', 'kind': 'sheet', 'n': 1, 'missing': True})
    out.append({'name': 'information of the report', 'kind': 'info'})
    return out


def setup(ctx, rr):
    """matplotlib figures that record what is drawn and where it is saved"""
    saved = {}

    class Figure(Fig):
        def savefig(self, name, *a, **k):
            saved[os.path.abspath(str(name))] = self

    def figure(*a, **k):
        return Figure()
    ctx.stub('matplotlib.pyplot.figure', figure, real=True)
    ctx.stub('matplotlib.figure.Figure', figure, real=True)
    if not ctx.sym:
        for n, f in (('Figure', figure), ('FigureCanvas', lambda f: Anything())):
            if hasattr(rr, n):
                ctx.patch(rr, n, f)
    return saved


def missing(ctx, kind):
    if kind == 'computed':
        return ctx.array([float('nan'), 1.0])[0] * ctx.array([2.0])[0]
    import numpy
    return {'None': None, 'nan': float('nan'), 'np.nan': ctx.np.nan, 'float32': numpy.float32('nan'), 'float64': numpy.float64('nan'),
            '0-d': ctx.np.array(float('nan'))}[kind]


def harness(ctx, cfg):
    rr = ctx.mod('report.report')
    saved = setup(ctx, rr)
    globals()['h_' + cfg['kind']](ctx, cfg, rr, saved)


def point(ctx, rr, k):
    """information of an operating point, and its name"""
    op = rr.info_op()
    # also information that was already part of another report
    name, ident = ctx.choice('name%d' % k, [(None, None), ('cold', 'OP%d' % (2 - k)), ('', 'OP7')]) if k < 2 else ([None, 'cold'][k % 2], None)
    op['name'] = name
    op['id'] = ident
    op['summary_only'] = bool(k % 2)
    op['camera_settings']['Gain'] = 'g%d' % k
    return op, name


def data_of(ctx, k):
    t, te, sp, _ = C31.make(ctx, {}, k, False, None)
    K = ctx.real('gain%d' % k, '1/10', 10)
    te['s2_y'] = te['s2_ydark'] + (te['s2_y'] - te['s2_ydark']) * K
    te['u_p'] = te['u_p'] * ctx.real('photons%d' % k, 1, 10)
    return {'temporal': te, 'spatial': sp}


def own(ctx, rr, report, k, op, name, data, saved, outdir, pixel_area):
    rs = ctx.mod('process.results')
    ident = 'OP%d' % (k + 1)
    ctx.check('identifier', op['id'] == ident, '%r' % op['id'])
    ctx.check('name', op['name'] == (name or ident), '%r' % op['name'])
    ctx.check('other information is kept', op['summary_only'] == bool(k % 2) and dict(op['camera_settings']) == {'Gain': 'g%d' % k})
    ref = rs.Results1288(data, pixel_area=pixel_area)
    res = op['results']
    for sec, names in (('sensitivity', ('K', 'R', 'QE', 'u_p_sat', 'sigma_d')), ('spatial', ('DSNU1288', 'PRNU1288'))):
        for n in names:
            ctx.eq('own result %s' % n, res[sec][n]['value'], ctx.v(getattr(ref, n)))
    if pixel_area:
        ctx.eq('own pixel area', res['sensitivity']['u_p_sat_area']['value'], ctx.div(ctx.v(ref.u_p_sat), ctx.v(pixel_area)))
    classes = ctx.mod('process.plotting').EVMA1288plots
    ctx.check('all plots', sorted(op['plots']) == sorted(c.__name__ for c in classes))
    te = data['temporal']
    for n in op['plots']:
        path = os.path.abspath(os.path.join(outdir, op['plots'][n]))
        ctx.check('plot is where the report looks for it', path in saved, '%s' % n)
    ctx.check('every plot has its own file', len(set(op['plots'].values())) == len(op['plots']))
    for n, x, y in (('PlotSensitivity', 'u_p', ('u_y', 'u_ydark')), ('PlotUyDark', 'texp', ('u_ydark',)), ('PlotPTC', None, ('s2_y', 's2_ydark'))):
        fig = saved[os.path.abspath(os.path.join(outdir, op['plots'][n]))]
        li = [li for _, li in fig.lines if li.label == 'Data']
        ctx.check('one series in the plot of one test', len(li) == 1, '%d' % len(li))
        if x:
            ctx.eq('own data in %s' % n, ctx.flat(li[0].x), ctx.vals(te[x]))
        w = ctx.vals(te[y[0]])
        if len(y) == 2:
            w = [a - b for a, b in zip(w, ctx.vals(te[y[1]]))]
        ctx.eq('own values in %s' % n, ctx.flat(li[0].y), w)


def h_add(ctx, cfg, rr, saved):
    outdir = ctx.tmpdir()
    report = rr.Report1288(outdir)
    rs = ctx.mod('process.results')
    seen = []
    for k in range(cfg['n']):
        op, name = point(ctx, rr, k)
        data = data_of(ctx, k)
        area = None
        if cfg.get('given'):
            area = 10.0 + k
            report.add(op, data, results=rs.Results1288(data, pixel_area=area))
        else:
            report.add(op, data)
        seen.append((op, name, data, area))
        ctx.check('number of points', len(report.ops) == k + 1, '%d' % len(report.ops))
    for k, (op, name, data, area) in enumerate(seen):
        ctx.check('points are kept in order', report.ops[k] is op or report.ops[k] == op)
        own(ctx, rr, report, k, report.ops[k], name, data, saved, outdir, area)
    ids = [o['id'] for o in report.ops]
    ctx.check('distinct identifiers', len(set(ids)) == len(ids))


def h_two(ctx, cfg, rr, saved):
    dirs = [ctx.tmpdir(), ctx.tmpdir()]
    reports = [rr.Report1288(d) for d in dirs]
    seen = [[], []]
    order = ctx.choice('order', [(0, 1, 0), (0, 0, 1), (1, 0, 1)])
    for j, w in enumerate(order):
        op = rr.info_op()
        op['name'] = name = [None, 'cold', None][j]
        op['summary_only'] = bool(len(seen[w]) % 2)
        op['camera_settings']['Gain'] = 'g%d' % len(seen[w])
        data = data_of(ctx, j)
        reports[w].add(op, data)
        seen[w].append((op, name, data))
    for w in (0, 1):
        ctx.check('number of points', len(reports[w].ops) == len(seen[w]))
        for k, (op, name, data) in enumerate(seen[w]):
            own(ctx, rr, reports[w], k, reports[w].ops[k], name, data, saved, dirs[w], None)


def render(r, text, **k):
    return r.from_string(text).render(**k)


def h_missing(ctx, cfg, rr, saved):
    r = rr.Report1288.template_renderer()
    p = ctx.choice('precision', [0, 2, 3])
    x = missing(ctx, ctx.choice('value', NANS))
    ctx.check('missing number', render(r, '%{{ x|missingnumber(p) %}}', x=x, p=p) == '-')


def h_number(ctx, cfg, rr, saved):
    r = rr.Report1288.template_renderer()
    p = cfg['precision']
    kind = ctx.choice('kind', ['real', 'int', 'array', 'float32', 'zero', 'negative zero', 'int zero', 'one'])
    if kind == 'real':
        x = ctx.real('x', -10 ** 6, 10 ** 6)
    elif kind == 'int':
        x = ctx.int('i', -10 ** 6, 10 ** 6)
    elif kind == 'array':
        x = ctx.reals('a', 2, -10 ** 6, 10 ** 6)[1]
    elif kind == 'float32':
        x = ctx.real('f', -100, 100, dt='float32')
    else:
        x = {'zero': 0.0, 'negative zero': -0.0, 'int zero': 0, 'one': 1}[kind]
    t = render(r, '%{{ x|missingnumber(p) %}}', x=x, p=p)
    n = ctx.number(t)
    ctx.check('a number', n is not None, t)
    scaled = n * 10 ** p
    d = scaled - ctx.v(x) * 10 ** p
    ctx.check('rounded to the precision', ctx.all([d <= ctx.const('0.501'), d >= ctx.const('-0.501')]))
    ctx.eq('not more decimals than the precision', scaled, ctx.floor(scaled + ctx.const('0.25')))
    if not ctx.sym:
        ctx.check('decimals', len(t.partition('.')[2]) == p, t)
    elif kind in ('zero', 'negative zero', 'int zero', 'one'):
        ctx.check('decimals', len(t.partition('.')[2]) == p, t)


def h_object(ctx, cfg, rr, saved):
    r = rr.Report1288.template_renderer()
    kind = ctx.choice('value', NANS + ['text', 'empty', 'list', 'zero', 'float zero', 'false', 'number'])
    default = ctx.choice('default', [None, 'none given', ''])
    t = '%{{ x|missing %}}' if default is None else '%{{ x|missing(d) %}}'
    want = '-' if default is None else default
    if kind == 'number':
        x = ctx.real('x', -10 ** 6, 10 ** 6)
        n = ctx.number(render(r, t, x=x, d=default))
        ctx.check('a number', n is not None)
        ctx.eq('number is kept', n, ctx.v(x))
        return
    if kind in NANS:
        ctx.check('missing object', render(r, t, x=missing(ctx, kind), d=default) == want)
        return
    x = {'text': 'CMOS', 'empty': '', 'list': [1, 2], 'zero': 0, 'float zero': 0.0, 'false': False}[kind]
    ctx.check('objects are kept', render(r, t, x=x, d=default) == str(x))


TOKEN = re.compile(r'(SYM|UNIT|SHORT)<(\d+)\.(\w+)>')


def h_sheet(ctx, cfg, rr, saved):
    rs = ctx.mod('process.results')
    outdir = ctx.tmpdir()
    report = rr.Report1288(outdir)
    want = {}
    allnames = [(s, n) for P in (PARTS, WHOLE) for s in P for n in P[s]]
    if cfg.get('missing'):
        lost = ctx.choice('missing result', allnames)
        kind = ctx.choice('kind', ['None', 'nan', 'computed'])
    for k in range(cfg['n']):
        secs = {}
        for s, n in allnames:
            if cfg.get('missing'):
                x = missing(ctx, kind) if (s, n) == lost else 1.5
            else:
                # of many points one has symbolic results
                x = ctx.real('x%d_%s' % (k, n), -10 ** 6, 10 ** 6) if not cfg.get('many') or k == 9 else 100.0 * k + len(want) % 100
            want[str(k), n] = x
            tag = '<%d.%s>' % (k, n)
            secs.setdefault(s, {})[n] = {'section': s, 'short': 'SHORT' + tag, 'symbol': 'SYM' + tag, 'unit': 'UNIT' + tag, 'value': x}

        class Mine(rs.Results1288):
            results_by_section = secs
        op = rr.info_op()
        op['name'] = [None, 'cold%d' % k][k % 2] if cfg.get('many') else ctx.choice('name%d' % k, [None, 'cold%d' % k])
        op['test_parameters']['Wavelength'] = 'wave%d' % k
        op['camera_settings']['Gain'] = 'gain%d' % k
        _, te, sp, _ = C31.make(ctx, {'fixed': cfg.get('many')}, k, False, None)
        report.add(op, None, results=Mine({'temporal': te, 'spatial': sp}))
    report.latex()
    ctx.check('style file', os.path.isfile(os.path.join(outdir, 'emvadatasheet.sty')))
    with open(os.path.join(outdir, 'report.tex')) as f:
        tex = f.read()
    ctx.check('number of points', len(report.ops) == cfg['n'])
    at = [tex.find('\\label{%s}' % op['id']) for op in report.ops]
    ctx.check('points are in order', at == sorted(at), '%s' % at)
    for k, op in enumerate(report.ops):
        ctx.check('identifier', op['id'] == 'OP%d' % (k + 1), op['id'])
        ctx.check('point is in the sheet', '\\label{%s}' % op['id'] in tex and op['name'] in tex)
        ctx.check('settings are in the sheet', 'gain%d' % k in tex and 'wave%d' % k in tex)
        for n in op['plots']:
            ctx.check('plots are in the sheet', op['plots'][n] in tex, n)
    toks = list(TOKEN.finditer(tex))
    got = {}
    for i, m in enumerate(toks):
        kind, k, n = m.groups()
        if kind == 'UNIT':
            got.setdefault((k, n), []).append(tex[toks[i - 1].end():m.start()])
    for i, m in enumerate(toks):
        kind, k, n = m.groups()
        if kind == 'SYM' and (k, n) not in got:
            got.setdefault((k, n), []).append(tex[m.end():toks[i + 1].start() if i + 1 < len(toks) else len(tex)].split('\\\\')[0])
    for key, x in want.items():
        ctx.check('every result is in the sheet', key in got, '%s' % (key,))
        for t in got[key]:
            t = ([c.strip() for c in t.split('&') if c.strip()] or [''])[-1]
            if x is None or (not ctx.sym and x != x) or (ctx.sym and ctx.isnan(x)):
                ctx.check('missing results are marked', t == '-', '%s: %s' % (key[1], t))
                continue
            n = ctx.number(t)
            ctx.check('results are numbers', n is not None, '%s: %s' % (key[1], t))
            tol = ctx.const('0.501' if any(key[1] in WHOLE[s] for s in WHOLE) else '0.0501')
            d = n - ctx.v(x)
            ctx.check('every result in its own place', ctx.all([d <= tol, d >= -tol]), key[1])


def h_info(ctx, cfg, rr, saved):
    """the information given to a report is not modified, and is rendered"""
    outdir, other = ctx.tmpdir(), ctx.tmpdir()
    src = ctx.tmpdir()
    logo = None
    if ctx.flag('logo'):
        logo = os.path.join(src, 'logo.pdf')
        with open(logo, 'w') as f:
            f.write('logo')
    missing_kind = ctx.choice('vendor', ['text', 'None', 'nan'])
    vendor = 'ACME' if missing_kind == 'text' else missing(ctx, missing_kind)
    basic = rr.info_basic(vendor=vendor, model='Model 7')
    basic['resolution'] = ctx.choice('resolution', ['640x480', None])
    marketing = rr.info_marketing(logo=logo)
    su = rr.info_setup(**{'Light source': 'sphere'})
    before = copy.deepcopy(({k: v for k, v in basic.items() if k != 'vendor'}, marketing, su))
    for d in (outdir, other):
        report = rr.Report1288(d, setup=su, basic=basic, marketing=marketing)
        ctx.check('information is not modified', ({k: v for k, v in basic.items() if k != 'vendor'}, marketing, su) == before)
        ctx.check('information is not modified', basic['vendor'] is vendor)
        report.latex()
        with open(os.path.join(d, 'report.tex')) as f:
            tex = f.read()

        def row(name):
            m = re.search(r'\\textsl\{%s\} *\\hfill *(.*)' % re.escape(name), tex)
            return m.group(1).strip() if m else None
        ctx.check('vendor', row('Vendor') == ('ACME' if missing_kind == 'text' else '-'), '%r' % row('Vendor'))
        ctx.check('model', row('Model') == 'Model 7')
        ctx.check('resolution', row('Resolution').startswith('640x480' if basic['resolution'] else '-'))
        ctx.check('light source', row('Light source') == 'sphere')
        ctx.check('missing information of the setup', row('Standard version') == '-')
        sty = open(os.path.join(d, 'emvadatasheet.sty')).read()
        ctx.check('logo of the report', ('upload/logo.pdf' if logo else 'files/missinglogo.pdf') in sty)
        ctx.check('logo is in the directory of the report', os.path.isfile(os.path.join(d, 'upload', 'logo.pdf')) == bool(logo))
        ctx.check('missing quantum efficiency plot', 'files/missingplot.pdf' in tex)
