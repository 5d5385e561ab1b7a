"""C22: comparing two result files reports OK exactly for agreeing entries."""
import os

MODULES = ['process.routines']
BOUNDS = ('two files of up to 3 sections and 3 entries; symbolic values of every sign and of magnitudes 10^-9 to 10^9 with all digits beyond '
          'the seventh free (0.01 units of the seventh digit off the rounding boundaries), zero, integers; arrays of 0 to 3 symbolic elements, integers also '
          'with differences that cancel, arrays of 40 to 5000 elements with one symbolic element, '
          'with equal and different keys and lengths; every combination of entries and sections missing in either file; as text and as '
          'files; both orders of the files; texts that are no documents')


def configs(tier):
    out = []
    for k in (-9, -3, -1, 0, 1, 4, 6, 7, 9):
        out.append({'name': 'values near 1e%d' % k, 'kind': 'values', 'k': [k, k]})
    for k, l in ((0, 1), (-1, 0), (5, 6)) + (((-9, -8), (8, 9), (2, 3)) if tier == 'thorough' else ()):
        out.append({'name': 'values of 1e%d and 1e%d' % (k, l), 'kind': 'values', 'k': [k, l]})
    out.append({'name': 'zero', 'kind': 'zero'})
    out.append({'name': 'integers', 'kind': 'ints'})
    for n in (1, 2, 3):
        out.append({'name': 'arrays of %d' % n, 'kind': 'arrays', 'n': n})
    for n in (2, 3):
        out.append({'name': 'integer arrays of %d' % n, 'kind': 'int arrays', 'n': n})
    out.append({'name': 'lengths', 'kind': 'lengths'})
    out.append({'name': 'array keys', 'kind': 'keys'})
    out.append({'name': 'value and array', 'kind': 'types'})
    out.append({'name': 'identical files', 'kind': 'same'})
    out.append({'name': 'missing entries', 'kind': 'missing'})
    out.append({'name': 'missing sections', 'kind': 'sections'})
    out.append({'name': 'verdicts of several entries', 'kind': 'several'})
    out.append({'name': 'long arrays', 'kind': 'long'})
    out.append({'name': 'no document', 'kind': 'no'})
    out.append({'name': 'no elements', 'kind': 'empty'})
    return out


def number(ctx, name, k, neg=False):
    """a number with seven given digits and arbitrary further ones, of magnitude 10^k"""
    m = ctx.int(name + '_digits', 10 ** 6 + 1, 10 ** 7 - 1)
    x = m + ctx.real(name + '_rest', '-49/100', '49/100')
    x = x * 10.0 ** (k - 6) if k >= 6 else x / 10.0 ** (6 - k)
    return -x if neg else x, m


def verdicts(text, sections):
    """{section: {entry: [verdicts]}} of a report"""
    out, cur = {}, None
    for line in text.splitlines():
        t = line.strip()
        if t in sections:
            cur = t
            out.setdefault(cur, {})
        elif t.endswith('OK') or t.endswith('FAIL'):
            name = t.split()[0]
            out.setdefault(cur, {}).setdefault(name, []).append('OK' if t.endswith('OK') else 'FAIL')
    return out


def entry(x):
    if isinstance(x, dict):
        return '<data>%s</data>' % ''.join('<%s>%s</%s>' % (k, ' '.join(v), k) for k, v in x.items())
    return '<value>%s</value>' % x


def document(d):
    return '<results>%s</results>' % ''.join(
        '<%s>%s</%s>' % (s, ''.join('<%s><unit>DN</unit>%s</%s>' % (e, entry(x), e) for e, x in d[s].items()), s) for s in d)


def harness(ctx, cfg):
    rt = ctx.mod('process.routines')
    kind = cfg['kind']
    tmp = ctx.tmpdir()
    T = ctx.text

    def compare(a, b):
        a, b = document(a), document(b)
        if kind in ('several', 'missing'):
            names = []
            for i, x in enumerate((a, b)):
                names.append(os.path.join(tmp, '%d.xml' % i))
                with open(names[-1], 'w') as f:
                    f.write(x)
            a, b = names
            out = os.path.join(tmp, 'report.txt')
            r = rt.compare_xml(a, b, filename=out)
            with open(out) as f:
                ctx.check('report in the file', f.read() == r)
            return r
        return rt.compare_xml(a, b)

    def expect(a, b, want):
        """want: {section: {entry: 'OK' / 'FAIL' / None}}; sections in one file only have no entry"""
        for x, y in ((a, b), (b, a)):
            r = compare(x, y)
            ctx.check('a report', isinstance(r, str) and r)
            got = verdicts(r, want)
            for s in want:
                ctx.check('section reported', s in got, '%s in %r' % (s, r))
                if not want[s]:
                    vs = [v for e in got[s].values() for v in e]
                    ctx.check('section in one file only fails', vs and set(vs) == {'FAIL'}, '%r' % (r,))
                    continue
                ctx.check('every entry has a verdict', set(got[s]) == set(want[s]), '%s' % sorted(got[s]))
                for e, w in want[s].items():
                    ctx.check('one verdict', len(got[s][e]) == 1)
                    if w:
                        ctx.check('verdict %s' % w, got[s][e] == [w], '%s of %s in %r' % (e, s, r))

    def verdict(pairs):
        """what the statement demands for pairs of (number, digits, other number, other digits, same decade)"""
        ok = True
        for x, dx, y, dy, same in pairs:
            X, Y = ctx.v(x), ctx.v(y)
            X, Y = ctx.max([X, -X]), ctx.max([Y, -Y])
            if same and ctx.truth(ctx.v(dx) == ctx.v(dy)):
                continue
            ok = False
            d = X - Y
            if ctx.truth(ctx.max([d, -d]) > ctx.max([X, Y]) * ctx.const('0.00000101')):
                return 'FAIL'
        return 'OK' if ok else None

    if kind == 'values':
        k, l = cfg['k']
        neg = ctx.index('signs', 3)
        x, m = number(ctx, 'x', k, neg == 2)
        y, n = number(ctx, 'y', l, neg >= 1)
        w = verdict([(x, m, y, n, k == l)]) if neg != 1 else 'FAIL'
        expect({'s': {'e': T(x)}}, {'s': {'e': T(y)}}, {'s': {'e': w}})
    elif kind == 'zero':
        x, m = number(ctx, 'x', ctx.choice('k', [-9, -7, -1, 0, 3]))
        if ctx.flag('both'):
            expect({'s': {'e': '0.0'}}, {'s': {'e': ctx.choice('zero', ['0', '0.0', '-0.0'])}}, {'s': {'e': 'OK'}})
        else:
            expect({'s': {'e': '0.0'}}, {'s': {'e': T(x)}}, {'s': {'e': 'FAIL'}})
    elif kind == 'ints':
        x, y = ctx.int('x', -999999, 999999), ctx.int('y', -999999, 999999)
        expect({'s': {'e': T(x)}}, {'s': {'e': T(y)}}, {'s': {'e': 'OK' if x == y else 'FAIL'}})
    elif kind == 'arrays':
        n = cfg['n']
        ks = [(0, 0), (3, 3), (-2, -2)][:n]
        xs = [number(ctx, 'x%d' % i, k[0], i == 1) for i, k in enumerate(ks)]
        ys = [number(ctx, 'y%d' % i, k[1], i == 1) for i, k in enumerate(ks)]
        w = verdict([(x, m, y, o, True) for (x, m), (y, o) in zip(xs, ys)])
        a = {'bins': [T(x) for x, _ in xs], 'values': ['1.0', '0']}
        b = {'bins': [T(y) for y, _ in ys], 'values': ['1.0', '0']}
        if ctx.flag('other array first'):
            a = dict(reversed(list(a.items())))
        expect({'s': {'e': a}}, {'s': {'e': b}}, {'s': {'e': w}})
    elif kind == 'int arrays':
        xs, ys = [[ctx.int('%s%d' % (a, i), 100, 999) for i in range(cfg['n'])] for a in 'xy']
        w = 'OK' if all(x == y for x, y in zip(xs, ys)) else 'FAIL'
        expect({'s': {'e': {'bins': [T(x) for x in xs]}}}, {'s': {'e': {'bins': [T(y) for y in ys]}}}, {'s': {'e': w}})
    elif kind == 'long':
        # many elements, one of which may differ
        n = ctx.choice('n', [40, 300, 1500, 5000])
        i = n - 1 - ctx.choice('back', [0, 1, n // 2])
        x, y = ctx.int('x', 100, 999), ctx.int('y', 100, 999)
        a, b = [str(j % 1000 + 1) for j in range(n)], [str(j % 1000 + 1) for j in range(n)]
        a[i], b[i] = T(x), T(y)
        expect({'s': {'e': {'bins': a}, 'f': '1'}}, {'s': {'e': {'bins': b}, 'f': '1'}}, {'s': {'e': 'OK' if x == y else 'FAIL', 'f': 'OK'}})
    elif kind == 'lengths':
        x, _ = number(ctx, 'x', 0)
        a, b = 1 + ctx.index('one', 3), 1 + ctx.index('other', 3)
        expect({'s': {'e': {'v': [T(x)] * a, 'w': ['1']}}}, {'s': {'e': {'v': [T(x)] * b, 'w': ['1']}}}, {'s': {'e': 'OK' if a == b else 'FAIL'}})
    elif kind == 'keys':
        x, _ = number(ctx, 'x', 0)
        names = ['a', 'b', 'c']
        ka = [q for q in names if ctx.flag('one ' + q)]
        kb = [q for q in names if ctx.flag('other ' + q)]
        if not ka or not kb:
            return
        expect({'s': {'e': {q: [T(x)] for q in ka}}}, {'s': {'e': {q: [T(x)] for q in kb[::-1]}}}, {'s': {'e': 'OK' if ka == kb else 'FAIL'}})
    elif kind == 'types':
        x, _ = number(ctx, 'x', 0)
        expect({'s': {'e': {'a': [T(x)]}, 'f': T(x)}}, {'s': {'e': T(x), 'f': T(x)}}, {'s': {'e': 'FAIL', 'f': 'OK'}})
    elif kind == 'same':
        v = [ctx.real('v', -10 ** 6, 10 ** 6)] + [ctx.real('v%d' % i, 1, 99) for i in (1, 2, 3)]
        d = {'s': {'e': T(v[0]), 'f': {'a': [T(v[1]), T(v[2])], 'b': [T(v[3])]}}, 't': {'e': T(v[3])}}
        expect(d, d, {'s': {'e': 'OK', 'f': 'OK'}, 't': {'e': 'OK'}})
    elif kind == 'missing':
        x, _ = number(ctx, 'x', 0)
        place = {e: ctx.choice(e, ['both', 'first', 'second']) for e in 'fgh'}
        a = {'s': {e: T(x) if e != 'g' else {'d': [T(x)]} for e in 'fgh' if place[e] != 'second'}}
        b = {'s': {e: T(x) if e != 'g' else {'d': [T(x)]} for e in 'hgf' if place[e] != 'first'}}
        a['s']['z'] = b['s']['z'] = '1'
        expect(a, b, {'s': dict({e: 'OK' if place[e] == 'both' else 'FAIL' for e in 'fgh'}, z='OK')})
    elif kind == 'sections':
        x, _ = number(ctx, 'x', 0)
        place = {e: ctx.choice(e, ['both', 'first', 'second']) for e in ('one', 'two', 'six')}
        a = {s: {'e': T(x)} for s in place if place[s] != 'second'}
        b = {s: {'e': T(x)} for s in reversed(list(place)) if place[s] != 'first'}
        if not a or not b:
            return
        expect(a, b, {s: {'e': 'OK'} if place[s] == 'both' else {} for s in place})
    elif kind == 'empty':
        x, _ = number(ctx, 'x', 0)
        n = ctx.index('elements', 2)
        expect({'s': {'e': {'a': [], 'b': ['1']}, 'f': T(x)}}, {'s': {'e': {'a': [T(x)] * n, 'b': ['1']}, 'f': T(x)}}, {'s': {'e': 'FAIL' if n else 'OK', 'f': 'OK'}})
    elif kind == 'no':
        x, _ = number(ctx, 'x', 0)
        good, bad = document({'s': {'e': T(x)}}), ctx.choice('text', ['', 'no xml', '<results><s></results>', '/nowhere.xml'])
        for a, b in ((good, bad), (bad, good), (bad, bad)):
            r, exc = ctx.call(rt.compare_xml, a, b)
            ctx.check('no document does not raise', exc is None, '%r' % (exc,))
            ctx.check('no verdicts without documents', r is None or r == '', '%r' % (r,))
    else:
        # a failing entry does not spoil the ones after it
        vals = {e: ctx.choice(e, ['1.5', '2.5']) for e in 'efg'}
        arr = ctx.choice('array', ['1.5', '2.5'])
        a = {'s': {'e': '1.5', 'f': {'a': ['1.5', '0'], 'b': ['3', '4']}, 'g': '1.5'}, 't': {'e': {'a': ['1.5', '1.5']}, 'f': '1.5'}}
        b = {'s': {'e': vals['e'], 'f': {'a': [vals['f'], '0'], 'b': ['3', '4']}, 'g': vals['g']}, 't': {'e': {'a': ['1.5', arr]}, 'f': '1.5'}}
        w = lambda v: 'OK' if v == '1.5' else 'FAIL'
        expect(a, b, {'s': {e: w(vals[e]) for e in 'efg'}, 't': {'e': w(arr), 'f': 'OK'}})
