"""C33: the exported results contain every documented quantity with its own value."""
import os
import re
from . import C31

MODULES = ['process.routines', 'process.results']
BOUNDS = ('the results of data sets with symbolic gain, photon counts, dark signal and spatial variances (one or several exposure times, with '
          'and without pixel area, forced saturation index); classes of one to six documented properties, methods and static methods with '
          'symbolic numbers, arrays, texts, None or dictionaries as values and their tags in any order, before, after and between text, '
          'with colons in the texts, unknown tags, malformed lines and without section')
BUDGET = 200
# documented result quantities of the evaluation
NAMES = '''DR DR_dB DSNU1288 DSNU1288_DN DSNU1288_col DSNU1288_pixel DSNU1288_row K LE_max LE_min PRNU1288 PRNU1288_col PRNU1288_pixel
PRNU1288_row QE R SNR_max SNR_max_bit SNR_max_dB histogram_DSNU histogram_DSNU_accumulated histogram_PRNU histogram_PRNU_accumulated
index_linearity_max index_linearity_min index_sensitivity_max index_sensitivity_min index_start index_u_ysat inverse_K inverse_SNR_max
s_2_y s_2_y_cav s_2_y_cav_dark s_2_y_col s_2_y_col_dark s_2_y_dark s_2_y_measured s_2_y_measured_dark s_2_y_pixel s_2_y_pixel_dark
s_2_y_rav s_2_y_rav_dark s_2_y_row s_2_y_row_dark sigma_2_y_stack sigma_2_y_stack_dark sigma_d sigma_y_dark u_I_mean u_I_mean_DN
u_I_var u_I_var_DN u_e_min u_e_min_area u_e_sat u_e_sat_area u_p_min u_p_min_area u_p_sat u_p_sat_area'''.split()
# the ones the standard reports in another place
SECTION = {'sensitivity': 'R K inverse_K QE sigma_d sigma_y_dark u_p_min u_p_sat u_e_min u_e_sat SNR_max DR', 'linearity': 'LE_min LE_max',
           'spatial': 'DSNU1288 DSNU1288_row DSNU1288_col DSNU1288_pixel PRNU1288 PRNU1288_row PRNU1288_col PRNU1288_pixel',
           'dark_current': 'u_I_mean u_I_mean_DN u_I_var u_I_var_DN', 'defect_pixel': 'histogram_DSNU histogram_PRNU'}
DOCS = ['plain', 'order', 'between', 'first line', 'no section', 'colons', 'unknown', 'malformed', 'tabs', 'other directive', 'after blank']
VALUES = ['number', 'array', 'dict', 'None', 'zero', 'text', 'empty dict', 'subclass dict']


def configs(tier):
    out = [{'name': 'results, %s' % k, 'kind': 'real', 'case': k} for k in ('plain', 'exposures', 'area', 'forced', 'spatial')]
    out.append({'name': 'written results', 'kind': 'xml'})
    for d in DOCS:
        out.append({'name': 'documentation, %s' % d, 'kind': 'docs', 'doc': d})
    for n in (1, 2, 4, 6):
        out.append({'name': '%d quantities' % n, 'kind': 'many', 'n': n})
    out.append({'name': 'values', 'kind': 'values'})
    return out


def expected(cls):
    """documented quantities, read from the documentation independently"""
    out = {}
    for name, member in vars(cls).items():
        doc = getattr(member, '__doc__', None) or ''
        m = re.search(r'^[ \t]*\.\. emva1288::[^\n]*\n((?:[ \t]*\S[^\n]*(?:\n|\Z))*)', doc, re.M)
        if m:
            tags = dict((k.lower(), v.strip()) for k, v in re.findall(r'^\s*:(\w+):[ \t]*(\S[^\n]*)', m.group(1), re.M))
            tags.setdefault('section', 'other')
            out[name] = tags
    return out


def value_of(obj, name):
    x = getattr(obj, name)
    return x() if callable(x) else x


def same(ctx, label, got, want):
    if isinstance(want, dict):
        ctx.check(label + ' keys', isinstance(got, dict) and sorted(got) == sorted(want))
        for k in want:
            same(ctx, label, got[k], want[k])
    elif want is None or isinstance(want, str):
        ctx.check(label, got is None if want is None else got == want)
    elif hasattr(want, 'shape') and want.shape:
        ctx.check(label + ' shape', got.shape == want.shape)
        ctx.eq(label, ctx.flat(got), ctx.flat(want))
    elif ctx.isnan(want):
        ctx.check(label + ' missing', ctx.isnan(got))
    else:
        ctx.eq(label, got, ctx.v(want))


def entries(ctx, d, want, obj, values=None):
    ctx.check('one entry for each quantity', sorted(d) == sorted(want), '%s' % sorted(set(d) ^ set(want)))
    for name, tags in want.items():
        e = d[name]
        for t in tags:
            ctx.check('%s of the quantity' % t, e.get(t) == tags[t], '%s: %r, documented %r' % (name, e.get(t), tags[t]))
        ctx.check('nothing else', set(e) <= set(tags) | {'data', 'value'}, '%s: %s' % (name, sorted(e)))
        v = value_of(obj, name) if values is None else values[name]
        key, other = ('data', 'value') if isinstance(v, dict) else ('value', 'data')
        ctx.check('place of the value', key in e and other not in e, name)
        same(ctx, 'value', e[key], v)


def sections(ctx, s, d):
    """s groups the entries of d"""
    ctx.check('sections', sorted(s) == sorted(set(e['section'] for e in d.values())), '%s' % sorted(s))
    for sec in s:
        ctx.check('entries of the section', sorted(s[sec]) == sorted(n for n in d if d[n]['section'] == sec), sec)
        for n in s[sec]:
            e, f = s[sec][n], d[n]
            ctx.check('entries are unchanged', sorted(e) == sorted(f))
            for k in f:
                if k in ('data', 'value'):
                    same(ctx, 'value in the section', e[k], f[k])
                else:
                    ctx.check('entries are unchanged', e[k] == f[k])


def data_of(ctx, case):
    _, te, sp, _ = C31.make(ctx, {'exposures': case == 'exposures'}, 0, False, None)
    K = ctx.real('gain', '1/10', 10)
    if case != 'spatial':
        te['s2_ydark'] = te['s2_ydark'] * ctx.real('dark_noise', '1/2', 2)
        te['s2_y'] = te['s2_ydark'] + (te['s2_y'] - te['s2_ydark']) * 0 + ctx.array([1.0, 3.0, 6.0, 9.5, 10.0]) * K
        te['u_p'] = te['u_p'] * ctx.real('photons', 1, 10)
    if case == 'exposures':
        te['u_ydark'] = te['u_ydark'] + te['texp'] * ctx.real('dark_current', 0, '1/1000')
        te['u_y'] = te['u_y'] + te['u_ydark'] - 1.0
    if case == 'spatial':
        for k in ('avg_var', 'avg_var_cav', 'avg_var_rav', 'var_mean'):
            for q in ('', '_dark'):
                sp[k + q] = ctx.real(k + q, '1/10', 100)
        sp['avg_mean'] = ctx.real('avg_mean', 50, 100)
    return {'temporal': te, 'spatial': sp}


def h_real(ctx, cfg):
    rs = ctx.mod('process.results')
    data = data_of(ctx, cfg['case'])
    k = {}
    if cfg['case'] in ('area', 'exposures'):
        k['pixel_area'] = ctx.real('area', 1, 100)
    if cfg['case'] == 'forced':
        k['index_u_ysat'] = 3
    r = rs.Results1288(data, **k)
    want = expected(rs.Results1288)
    ctx.check('all quantities are documented', set(NAMES) <= set(want), '%s' % sorted(set(NAMES) - set(want)))
    d = r.results
    entries(ctx, d, want, rs.Results1288(data, **k))
    s = r.results_by_section
    sections(ctx, s, rs.Results1288(data, **k).results)
    for sec in SECTION:
        for n in SECTION[sec].split():
            ctx.check('section of the standard', sec in s and n in s[sec], '%s in %s' % (n, sec))


def h_xml(ctx, cfg):
    rs, ro = ctx.mod('process.results'), ctx.mod('process.routines')
    data = data_of(ctx, 'exposures')
    r = rs.Results1288(data, pixel_area=ctx.choice('area', [None, 10.0]))
    if ctx.flag('file'):
        f = os.path.join(ctx.tmpdir(), 'r.xml')
        r.xml(f)
        got = ro.xml_to_dict(f)
    else:
        got = ro.xml_to_dict(r.xml())
    d = rs.Results1288(data, pixel_area=r.pixel_area).results
    want = expected(rs.Results1288)
    for n in want:
        sec = want[n]['section'].lower()
        ctx.check('written quantity', sec in got and n.lower() in got[sec], n)
        e = got[sec][n.lower()]
        if 'data' in d[n]:
            for k in d[n]['data']:
                ctx.eq('written data', ctx.flat(e['data'][k.lower()]), ctx.flat(d[n]['data'][k]))
        else:
            v = d[n]['value']
            if v is None:
                ctx.check('written None', e['value'] is None)
            elif ctx.isnan(v):
                ctx.check('written NaN', ctx.isnan(e['value']))
            else:
                ctx.eq('written value', e['value'], ctx.v(v))


def doc(kind, name, tags):
    """documentation with the tags of a quantity"""
    lines = [':%s: %s' % t for t in tags.items()]
    if kind == 'order':
        lines = lines[::-1]
    if kind == 'no section':
        lines = [li for li in lines if 'Section' not in li]
    if kind == 'unknown':
        lines.insert(1, ':Colour: red')
    if kind == 'malformed':
        lines.insert(1, 'no tag at all')
        lines.append(':Empty:')
    if kind == 'tabs':
        lines = ['\t' + li for li in lines]
    block = '        .. emva1288::\n' + ''.join('            %s\n' % li for li in lines)
    head = '%s of the camera.\n\n' % name
    if kind == 'first line':
        return block
    if kind == 'between':
        return head + '        Section: wrong\n\n' + block + '\n        Returns\n        -------\n        :Section: wrong\n        :Unit: wrong\n'
    if kind == 'other directive':
        return head + '        .. note::\n            :Section: wrong\n            :Short: wrong\n\n' + block
    if kind == 'after blank':
        return head + block + '\n            :Unit: wrong\n'
    return head + block + '        '


def build(ctx, quantities):
    """an object with documented members; quantities: name -> (how, doc, value)"""
    class Obj(object):
        """Not a quantity.

        :Section: wrong
        """
        def __init__(self):
            """Init."""

        def undocumented(self):
            return 1

        def plain(self):
            """A method without tags."""
            return 2

    def member(how, d, v):
        if how == 'static':
            def f():
                return v
            f.__doc__ = d
            return staticmethod(f)

        def f(self):
            return v
        f.__doc__ = d
        return property(f) if how == 'property' else f
    for n, (how, d, v) in quantities.items():
        setattr(Obj, n, member(how, d, v))
    return Obj()


def value(ctx, kind, name):
    if kind == 'number':
        return ctx.real(name, -10 ** 6, 10 ** 6)
    if kind == 'array':
        return ctx.reals(name, 3, -1, 1)
    if kind == 'dict':
        return {'bins': ctx.reals(name, 2, 0, 10), 'values': ctx.reals(name + 'v', 2, 0, 10)}
    if kind == 'subclass dict':
        from collections import OrderedDict
        return OrderedDict([('x', ctx.reals(name, 2, 0, 10))])
    return {'None': None, 'zero': 0, 'text': 'yes', 'empty dict': {}}[kind]


def verify(ctx, quantities):
    ro = ctx.mod('process.routines')
    obj = build(ctx, quantities)
    want = expected(type(obj))
    ctx.check('oracle', sorted(want) == sorted(quantities))
    d = ro.obj_to_dict(obj)
    entries(ctx, d, want, obj, {n: q[2] for n, q in quantities.items()})
    sections(ctx, ro._sections_first(d), ro.obj_to_dict(obj))
    info = ro.cls_1288_info(type(obj))
    ctx.check('information of every quantity', {k: dict(v) for k, v in info.items()} == want, '%s' % dict(info))
    # a second object of the same kind, and again, give the same entries
    entries(ctx, ro.obj_to_dict(obj), want, obj, {n: q[2] for n, q in quantities.items()})


TAGS = {'Section': 'sensitivity', 'Short': 'A quantity', 'Symbol': '$q$', 'Unit': 'DN', 'LatexName': 'Q'}


def h_docs(ctx, cfg):
    how = ctx.choice('how', ['method', 'property', 'static'])
    tags = dict(TAGS)
    if cfg['doc'] == 'colons':
        tags['Short'] = 'ratio a:b'
        tags['Unit'] = '$1:2$'
    if ctx.flag('few'):
        tags = {'Section': tags['Section'], 'Short': tags['Short']}
    verify(ctx, {'q': (how, doc(cfg['doc'], 'q', tags), ctx.real('q', -10, 10)),
                 'p': ('method', doc('plain', 'p', {'Section': 'spatial', 'Short': 'p'}), ctx.real('p', -10, 10))})


def h_many(ctx, cfg):
    qs = {}
    for i in range(cfg['n']):
        name = 'zQ_b1aX'[i] + 'xyzabc'[i]
        sec = 'sensitivity' if i == 0 else ctx.choice('section%d' % i, ['sensitivity', 'spatial'] + (['a first', None] if i < 3 else []))
        tags = dict(TAGS, Section=sec, Short='quantity %d' % i, Unit='unit%d' % i)
        if sec is None:
            del tags['Section']
        qs[name.lstrip('1')] = (['property', 'method', 'static'][i % 3], doc(['plain', 'order', 'tabs'][i % 3], name, tags),
                                value(ctx, ['number', 'dict', 'array'][i % 3], 'v%d' % i))
    verify(ctx, qs)


def h_values(ctx, cfg):
    k = ctx.choice('value', VALUES)
    how = ctx.choice('how', ['method', 'property'])
    verify(ctx, {'q': (how, doc('plain', 'q', TAGS), value(ctx, k, 'v')), 'r': ('property', doc('plain', 'r', TAGS), ctx.real('r', 0, 1))})


def harness(ctx, cfg):
    globals()['h_' + cfg['kind']](ctx, cfg)
