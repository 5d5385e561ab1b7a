"""C38: a report shows the information it is given, and contains every file it refers to."""
import copy
import os
import re
from . import C31, C32

MODULES = ['report.report', 'process.results', 'process.plotting', 'process.routines']
BOUNDS = ('every entry of the basic, setup and marketing information and of the settings and parameters of 1 to 3 operating points, as symbolic '
          'numbers or text, each of them missing (None, NaN) in turn, for CCD, CMOS and other sensors; information dictionaries with all or '
          'only some entries; logo, quantum efficiency plot and missing plot given or not, with equal and different file names, by absolute '
          'and relative path; with and without watermark and cover page; full and summary operating points; complete and partial information also after a report with other information')
ASSUME = ('jinja2 is run as it is; matplotlib saves what it is given',)
BUDGET = 200

BASIC = [('vendor', 'Vendor'), ('model', 'Model'), ('data_type', 'Data type'), ('sensor_diagonal', 'Diagonal'), ('lens_category', 'Lens category'),
         ('resolution', 'Resolution'), ('pixel_size', 'Pixel size'), ('maximum_readout_rate', 'Maximum readout rate'),
         ('dark_current_compensation', 'Dark current compensation'), ('interface_type', 'Interface type')]
SENSOR = {'CCD': [('readout_type', 'Readout type'), ('transfer_type', 'Transfer type')],
          'CMOS': [('shutter_type', 'Shutter type'), ('overlap_capabilities', 'Overlap capabilities')]}
SETUP = ['Light source', 'Light source non uniformity', 'Irradiation calibration accuracy', 'Irradiation measurement error', 'Standard version']
DETAILS = ['PlotSensitivity', 'PlotUyDark', 'PlotLinearity', 'PlotDeviationLinearity', 'PlotHorizontalSpectrogramPRNU', 'PlotHorizontalSpectrogramDSNU',
           'PlotVerticalSpectrogramPRNU', 'PlotVerticalSpectrogramDSNU', 'PlotLogarithmicHistogramDSNU', 'PlotLogarithmicHistogramPRNU',
           'PlotAccumulatedLogHistogramDSNU', 'PlotAccumulatedLogHistogramPRNU', 'PlotHorizontalProfile', 'PlotVerticalProfile']


def configs(tier):
    out = []
    for t in ('CCD', 'CMOS', 'other', None):
        out.append({'name': 'information of a %s sensor' % t, 'kind': 'info', 'sensor': t})
        out.append({'name': 'missing information of a %s sensor' % t, 'kind': 'info', 'sensor': t, 'missing': True})
    out.append({'name': 'some information', 'kind': 'some'})
    out.append({'name': 'files', 'kind': 'files'})
    out.append({'name': 'watermark and cover page', 'kind': 'marketing'})
    for n in (1, 2, 3):
        out.append({'name': 'settings of %d points' % n, 'kind': 'points', 'n': n})
    return out


def harness(ctx, cfg):
    rr = ctx.mod('report.report')
    saved = C32.setup(ctx, rr)
    if cfg['kind'] in ('some', 'marketing') or cfg['kind'] == 'info' and not cfg.get('missing'):
        # another report before, with as much information as possible
        basic = {k: 'earlier %d' % i for i, (k, _) in enumerate(BASIC + SENSOR['CCD'] + SENSOR['CMOS'])}
        rr.Report1288(ctx.tmpdir(), setup=rr.info_setup(**dict({k: 'earlier' for k in SETUP}, Temperature='warm')),
                      basic=rr.info_basic(sensor_type='CCD', **basic), marketing=rr.info_marketing(watermark='earlier')).latex()
    globals()['h_' + cfg['kind']](ctx, cfg, rr, saved)


def rows(tex, name):
    """the values that stand next to a name"""
    return [m.group(1).strip() for m in re.finditer(r'\\textsl\{\s*%s\s*\}\s*\\hfill[ \t]*(.*)' % re.escape(name), tex)]


def written(ctx, report, outdir):
    out = []
    report.latex()
    for n in ('report.tex', 'emvadatasheet.sty'):
        with open(os.path.join(outdir, n)) as f:
            out.append(f.read())
    return out


def same(ctx, label, got, x, detail=''):
    """the text got shows the value x"""
    if x is None or (not isinstance(x, str) and bool(ctx.truth(ctx.isnan(x)))):
        ctx.check(label + ' (missing)', got.split(' ')[0] == '-', '%s: %r' % (detail, got))
    elif isinstance(x, str):
        ctx.check(label, got == x or got.startswith(x + ' '), '%s: %r' % (detail, got))
    else:
        n = ctx.number(got.split(' ')[0])
        ctx.check(label + ' is a number', n is not None, '%s: %r' % (detail, got))
        ctx.eq(label, n, ctx.v(x))


def h_info(ctx, cfg, rr, saved):
    outdir = ctx.tmpdir()
    t = cfg['sensor']
    basic, su = {'sensor_type': t}, {}
    kwargs = ctx.flag('by keyword')
    if not kwargs:
        basic, su = rr.info_basic(**basic), rr.info_setup()
    texts = ctx.flag('texts')
    for i, (k, _) in enumerate(BASIC + SENSOR['CCD'] + SENSOR['CMOS']):
        basic[k] = 'text %d' % i if texts else ctx.real('b%d' % i, -10 ** 4, 10 ** 4)
    for i, k in enumerate(SETUP):
        su[k] = 'setup %d' % i if texts else ctx.real('s%d' % i, -10 ** 4, 10 ** 4)
    if cfg.get('missing'):
        d, k = ctx.choice('missing', [('b', k) for k, _ in BASIC + SENSOR.get(t, [])] + [('s', k) for k in SETUP])
        (basic if d == 'b' else su)[k] = C32.missing(ctx, ctx.choice('kind', ['None', 'nan', 'computed']))
    else:
        # further information of the setup
        su['Temperature'] = ctx.real('temperature', -10, 10)
    given = dict(su)
    if kwargs:
        basic, su = rr.info_basic(**basic), rr.info_setup(**su)
    tex, sty = written(ctx, rr.Report1288(outdir, setup=su, basic=basic), outdir)
    want = BASIC + SENSOR.get(t, [])
    for k, name in want:
        r = rows(tex, name)
        ctx.check('one place for each information', len(r) == 1, '%s: %r' % (name, r))
        same(ctx, 'basic information', r[0], basic[k], name)
    r = rows(tex, 'Sensor type')
    ctx.check('one place for each information', len(r) == 1, 'Sensor type: %r' % r)
    same(ctx, 'sensor type', r[0], t)
    for s in SENSOR:
        if s != t:
            for k, name in SENSOR[s]:
                ctx.check('information of other sensors is not shown', rows(tex, name) == [], name)
    ctx.check('all the setup information is kept', set(given) <= set(su))
    for k in given:
        r = rows(tex, k)
        ctx.check('one place for each information', len(r) == 1, '%s: %r' % (k, r))
        same(ctx, 'setup information', r[0], given[k], k)
    # every page states whose data sheet it is
    m = re.search(r'\\fancyhead\[C\]\{\\textbf\{(.*?)\\,(.*?)\}\}', sty)
    ctx.check('header of the pages', m is not None)
    same(ctx, 'vendor in the header', m.group(1).strip(), basic['vendor'])
    same(ctx, 'model in the header', m.group(2).strip(), basic['model'])


def h_some(ctx, cfg, rr, saved):
    """dictionaries with some of the entries, or none at all"""
    outdir = ctx.tmpdir()
    basic = ctx.choice('basic', [None, {}, {'model': 'M1'}, {'vendor': 'ACME', 'sensor_type': 'CCD'}])
    su = ctx.choice('setup', [None, {'Light source': 'sphere'}])
    marketing = ctx.choice('marketing', [None, {}, {'watermark': 'draft'}])
    kw = {'basic': basic, 'setup': su, 'marketing': marketing}
    before = copy.deepcopy(kw)
    report, exc = ctx.call(rr.Report1288, outdir, **kw)
    ctx.check('some information is enough', exc is None, '%r' % (exc,))
    tex, sty = written(ctx, report, outdir)
    ctx.check('information is not modified', kw == before)
    for k, name in BASIC + SENSOR.get((basic or {}).get('sensor_type'), []):
        r = rows(tex, name)
        ctx.check('one place for each information', len(r) == 1, '%s: %r' % (name, r))
        same(ctx, 'basic information', r[0], (basic or {}).get(k), name)
    ctx.check('setup information', rows(tex, 'Light source') == ['sphere' if su else '-'])
    ctx.check('watermark', ('text={draft}' in tex) == bool(marketing))
    files(ctx, tex, sty, outdir, saved)


def files(ctx, tex, sty, outdir, saved):
    """every file the report refers to is there"""
    refs = re.findall(r'\\includegraphics(?:\[[^\]]*\])?\{([^}]*)\}', tex + sty)
    ctx.check('there are figures', len(refs) >= 2)
    for r in refs:
        path = os.path.abspath(os.path.join(outdir, r))
        ctx.check('files of the report are in its directory', path.startswith(os.path.abspath(outdir) + os.sep), r)
        ctx.check('files of the report exist', path in saved or os.path.isfile(path), r)
    return refs


def h_files(ctx, cfg, rr, saved):
    outdir, src = ctx.tmpdir(), ctx.tmpdir()
    if ctx.flag('former report'):
        # a report that was written to the same directory before
        for key in ('logo', 'qe_plot'):
            with open(os.path.join(src, 'a.pdf'), 'w') as f:
                f.write('former ' + key)
        rr.Report1288(outdir, basic=rr.info_basic(qe_plot=f.name), marketing=rr.info_marketing(logo=f.name, missingplot=f.name)).latex()
    names = ctx.choice('names', [('logo.pdf', 'qe.pdf', 'none.pdf'), ('a.pdf', 'a.pdf', 'a.pdf'), ('logo.pdf', 'a.pdf', 'a.pdf'), ('a.pdf', 'a.pdf', 'missing.pdf'),
                                 ('missinglogo.pdf', 'missingplot.pdf', 'EMVA1288Logo.pdf'), ('my logo.v2.png', 'qe plot.PDF', 'none')])
    given = {}
    for key, name in zip(('logo', 'qe_plot', 'missingplot'), names):
        if ctx.flag(key):
            d = os.path.join(src, key)
            os.mkdir(d)
            p = os.path.join(d, name)
            with open(p, 'w') as f:
                f.write('content of ' + key)
            given[key] = os.path.relpath(p) if ctx.flag('relative') else p
    basic = rr.info_basic(qe_plot=given.get('qe_plot'))
    marketing = rr.info_marketing(logo=given.get('logo'), missingplot=given.get('missingplot'))
    tex, sty = written(ctx, rr.Report1288(outdir, basic=basic, marketing=marketing), outdir)
    files(ctx, tex, sty, outdir, saved)

    def content(ref):
        with open(os.path.join(outdir, ref), 'rb') as f:
            return f.read()

    def own(name):
        with open(os.path.join(os.path.dirname(C32_file(rr)), 'files', name), 'rb') as f:
            return f.read()
    refs = re.findall(r'\\includegraphics(?:\[[^\]]*\])?\{([^}]*)\}', sty)
    ctx.check('logos', len(refs) == 2, '%r' % refs)
    ctx.check('logo of the standard', content(refs[0]) == own('EMVA1288Logo.pdf'))
    ctx.check('logo', content(refs[1]) == (b'content of logo' if 'logo' in given else own('missinglogo.pdf')))
    refs = re.findall(r'\\includegraphics(?:\[[^\]]*\])?\{([^}]*)\}', tex)
    ctx.check('one plot of the quantum efficiency', len(refs) == 1)
    want = b'content of qe_plot' if 'qe_plot' in given else b'content of missingplot' if 'missingplot' in given else own('missingplot.pdf')
    ctx.check('quantum efficiency plot', content(refs[0]) == want)
    for key in given:
        with open(given[key]) as f:
            ctx.check('given files are not modified', f.read() == 'content of ' + key)


def C32_file(rr):
    import emva1288.report.report as real
    return getattr(rr, '__file__', None) or real.__file__


def h_marketing(ctx, cfg, rr, saved):
    outdir = ctx.tmpdir()
    mark = ctx.choice('watermark', [None, '', 'draft'])
    mcover = ctx.choice('cover page of the information', [None, 'general.tex'])
    kw = ctx.choice('cover page', [{}, {'cover_page': False}, {'cover_page': 'own.tex'}])
    report = rr.Report1288(outdir, marketing=rr.info_marketing(watermark=mark, cover_page=mcover), **kw)
    tex, sty = written(ctx, report, outdir)
    m = re.findall(r'text=\{(.*?)\}', tex)
    ctx.check('watermark', m == (['draft'] if mark else []), '%r' % m)
    m = re.findall(r'\\input\{(.*?)\}', tex)
    want = kw.get('cover_page') or mcover
    ctx.check('cover page', m == ([want] if want else []), '%r' % m)


def h_points(ctx, cfg, rr, saved):
    outdir = ctx.tmpdir()
    rs = ctx.mod('process.results')
    secs = {}
    for part in (C32.PARTS, C32.WHOLE):
        for sec in part:
            for n in part[sec]:
                secs.setdefault(sec, {})[n] = {'section': sec, 'short': n, 'symbol': n, 'unit': '', 'value': 1.5}

    class Mine(rs.Results1288):
        results_by_section = secs
    report = rr.Report1288(outdir)
    values, ops = [], []
    waves = []
    for k in range(cfg['n']):
        op = rr.info_op()
        op['name'] = 'point %d' % k
        op['summary_only'] = ctx.choice('summary%d' % k, [True, False, None] if cfg['n'] < 3 else [True, False])
        v, p = {}, {}
        given = ctx.choice('given%d' % k, ['all', 'no wavelength', 'none']) if cfg['n'] < 3 else ('none', 'all', 'no wavelength')[k]
        if given != 'none':
            v = {'Gain': ctx.real('gain%d' % k, -10 ** 4, 10 ** 4), 'Black level': 'level %d' % k}
            p = {'Illumination': 'light %d' % k, 'Steps': ctx.int('steps%d' % k, 1, 10 ** 4)}
        if given == 'all':
            p['Wavelength'] = ctx.real('wavelength%d' % k, 100, 1000)
        op['camera_settings'].update(v)
        op['test_parameters'].update(p)
        values.append(dict(v, **p))
        waves.append(p.get('Wavelength'))
        _, te, sp, _ = C31.make(ctx, {}, k, False, None)
        report.add(op, None, results=Mine({'temporal': te, 'spatial': sp}))
        ops.append(op)
        if cfg['n'] == 2:
            # the files can be written more than once
            report.latex()
    tex, sty = written(ctx, report, outdir)
    refs = files(ctx, tex, sty, outdir, saved)
    for name in ('Gain', 'Black level', 'Illumination', 'Steps', 'Wavelength'):
        have = [v[name] for v in values if name in v]
        # in the overview and on the sheet of each point
        r = rows(tex, name)
        ctx.check('settings of every point', len(r) == 2 * len(have), '%s: %r' % (name, r))
        for got, x in zip(r, have * 2):
            same(ctx, 'own settings', got, x, name)
    w = re.findall(r'\(@(.*?)(?: wavelength)?\)', tex)
    ctx.check('wavelength of every point', len(w) == 2 * cfg['n'], '%r' % w)
    for i, got in enumerate(w):
        same(ctx, 'own wavelength', got.strip(), waves[i // 2])
    for op in ops:
        d = op['plots']
        ctx.check('main plots', all(refs.count(d[n]) == 1 for n in ('PlotPTC', 'PlotSNR')))
        for n in DETAILS:
            ctx.check('detailed plots', refs.count(d[n]) == (0 if op['summary_only'] else 1), '%s of %s' % (n, op['id']))
