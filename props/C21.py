"""C21: results written to XML read back with the same values."""
import os

MODULES = ['process.routines']
BOUNDS = ('results dictionaries of one to three sections with one to three entries each, values that are symbolic finite floats or integers '
          '(python or numpy) or None, data of one to two arrays of 0 to 4 symbolic elements (floats, integers), three arrays of 1001 to 2006 elements of which up to six are symbolic, as text and as file, '
          'with decimal commas; always after other results (in the same file); all texts that are no XML document of a list of twelve')


def configs(tier):
    out = []
    for how in ('text', 'file', 'str'):
        out.append({'name': 'long array, %s' % how, 'kind': 'long', 'how': how})
        for k in ('values', 'numpy values', 'array', 'integer array', 'mixed', 'none', 'names', 'two sections'):
            out.append({'name': '%s, %s' % (k, how), 'kind': k, 'how': how})
    out.append({'name': 'decimal comma', 'kind': 'comma', 'how': 'text'})
    out.append({'name': 'root name', 'kind': 'root', 'how': 'text'})
    out.append({'name': 'no document', 'kind': 'no', 'how': ''})
    return out


BAD = ['', 'no xml', '<results>', '<results><a></results>', 'results/a.xml', '<', '<a/><b/>', '/nowhere/at/all.xml', '&', '<a b></a>', '1.5',
       '<results>&nope;</results>']


def info(**k):
    return dict({'section': 's', 'unit': '$e^-$', 'short': 'a < b & c', 'symbol': None, 'latexname': ''}, **k)


def make(ctx, kind):
    # magnitudes from tiny to huge
    real = lambda n, dt=float: ctx.real(n, -10 ** 15, 10 ** 15, dt)
    small = lambda n: ctx.real(n, '-1/1000000', '1/1000000')
    if kind == 'values':
        return {'sensitivity': {'r': info(value=real('r')), 'k': info(value=small('k')), 'n': info(value=ctx.int('n', -10 ** 12, 10 ** 12))}}
    if kind == 'numpy values':
        return {'sensitivity': {'r': info(value=real('r', 'float64')), 'n': info(value=ctx.int('n', -10 ** 12, 10 ** 12, 'int64')),
                                'u': info(value=ctx.int('u', 0, 60000, 'uint16'))}}
    if kind == 'array':
        n = ctx.index('length', 5)
        return {'histogram': {'h': info(data={'bins': ctx.reals('b', (n,), -10 ** 9, 10 ** 9), 'values': ctx.reals('v', (n,), 0, 1)})}}
    if kind == 'long':
        # the histograms and profiles of real cameras have thousands of elements
        x, y = ctx.reals('x', (3,), -1000, 1000), ctx.reals('y', (3,), -1000, 1000)
        a, b = ctx.np.arange(2000) * 0.125, ctx.np.arange(1001)
        parts = [x[:1], a[:700], x[1:2], a[700:], x[2:]]
        return {'spectrogram': {'h': info(data={'xs': ctx.np.concatenate(parts), 'ys': ctx.np.concatenate([y, a, y]), 'bins': b})}}
    if kind == 'integer array':
        n = ctx.index('length', 4)
        return {'histogram': {'h': info(data={'Bins': ctx.ints('b', (n,), -10 ** 12, 10 ** 12), 'vaLues': ctx.ints('v', (4,), 0, 9, 'uint8')})}}
    if kind == 'mixed':
        return {'linearity': {'a': info(value=real('a')), 'c': info(data={'x': ctx.reals('x', (2,), -1000, 1000)}), 'b': info(value=None)},
                'dark': {'b': info(value=real('b')), 'a': info(data={'y': ctx.reals('y', (3,), -1000, 1000), 'x': ctx.ints('z', (1,), -9, 9)})}}
    if kind == 'none':
        return {'dark': {'a': info(value=None), 'b': info(value=real('b'))}}
    if kind == 'names':
        return {'non_whiteness': {'u_p_min': info(value=real('a')), 'u_p_min_area': info(value=real('b')), 'value_min': info(value=real('c'))}}
    if kind == 'two sections':
        return {'one': {'same': info(value=real('a'))}, 'two': {'same': info(value=real('b'))}, 'three': {'same': info(value=0)}}
    return {'s': {'e': info(value=real('v')), 'f': info(value=real('w')), 'd': info(data={'x': ctx.reals('x', (2,), -1000, 1000)})}}


def equal(ctx, got, want):
    ctx.check('sections', sorted(got) == sorted(want), '%s' % sorted(got))
    for s in want:
        ctx.check('entries', sorted(got[s]) == sorted(want[s]), '%s' % sorted(got[s]))
        for e in want[s]:
            g, w = got[s][e], want[s][e]
            if 'data' in w:
                ctx.check('data of an entry', isinstance(g.get('data'), dict) and 'value' not in g)
                ctx.check('array keys in lower case', sorted(g['data']) == sorted(k.lower() for k in w['data']), '%s' % sorted(g['data']))
                for k in w['data']:
                    a, b = ctx.vals(g['data'][k.lower()]), ctx.vals(w['data'][k])
                    ctx.check('length of an array', len(a) == len(b))
                    ctx.eq('array', a, b, rel=0, abs=0)
            else:
                ctx.check('value of an entry', 'value' in g and 'data' not in g)
                if w['value'] is None:
                    ctx.check('None', g['value'] is None, '%r' % (g['value'],))
                else:
                    ctx.check('a number', g['value'] is not None)
                    ctx.eq('value', g['value'], ctx.v(w['value']), rel=0, abs=0)


def harness(ctx, cfg):
    rt = ctx.mod('process.routines')
    kind, how = cfg['kind'], cfg['how']
    tmp = ctx.tmpdir()
    if kind == 'no':
        text = ctx.choice('text', BAD)
        way = ctx.index('way', 3)
        if way == 1:
            text = text.encode()
        elif way == 2:
            with open(os.path.join(tmp, 'x.xml'), 'w') as f:
                f.write(text)
            text = os.path.join(tmp, 'x.xml')
        r, exc = ctx.call(rt.xml_to_dict, text)
        ctx.check('no document does not raise', exc is None, '%r' % (exc,))
        ctx.check('no document gives None', r is None, '%r' % (r,))
        return
    # other results before, in the same file
    other = {s: {e: info(value=7.5 + i) for i, e in enumerate(('r', 'k', 'n', 'a', 'b', 'same', 'h'))} for s in ('sensitivity', 'dark', 's', 'one')}
    if how == 'file':
        rt.dict_to_xml(other, filename=os.path.join(tmp, 'res.xml'))
    equal(ctx, rt.xml_to_dict(os.path.join(tmp, 'res.xml') if how == 'file' else rt.dict_to_xml(other)), other)
    d = make(ctx, kind)
    k = {'root': 'other'} if kind == 'root' else {}
    if how == 'file':
        fn = os.path.join(tmp, 'res.xml')
        rt.dict_to_xml(d, filename=fn, **k)
        got = rt.xml_to_dict(fn)
    else:
        x = rt.dict_to_xml(d, **k)
        text = x.decode() if isinstance(x, bytes) else x
        ctx.check('root element', text.strip().startswith('<%s>' % k.get('root', 'results')), text[:40])
        if kind == 'comma':
            for e in ('e', 'f'):
                v = d['s'][e]['value']
                ctx.check('value in the text', '<value>%s</value>' % ctx.text(v) in text)
                text = text.replace('<value>%s<' % ctx.text(v), '<value>%s<' % ctx.text(v, True))
            x = text
        got = rt.xml_to_dict(text if how == 'str' else x)
    ctx.check('read back', isinstance(got, dict), '%r' % (got,))
    equal(ctx, got, d)
