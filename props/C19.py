"""C19: every image listed in a descriptor file is attributed to its own point."""
import itertools
import os

MODULES = ['process.parser']
BOUNDS = ('descriptors of 1 to 4 series of 2 to 4 images with arbitrary (also coinciding) symbolic exposure times, photon counts and '
          'formats, every order of the series, comment, blank or indented lines at every position, decimal commas, both kinds of path '
          'separators, absolute and relative descriptor names, with and without a given path; two files one after the other; a file of 1601 series of which one is symbolic')

BASES = {
    # bright or dark, number of images
    'minimal': [('b', 2)],
    'one point': [('b', 2), ('d', 2)],
    'temporal and spatial': [('b', 2), ('d', 2), ('b', 3), ('d', 4)],
    'several': [('b', 2), ('b', 2), ('d', 2)],
    'many bright': [('b', 3), ('b', 2), ('b', 3)],
    'dark only': [('d', 2), ('d', 3), ('d', 2)],
}
STYLES = ['plain', 'comma', 'comment', 'blank', 'indent', 'tabs', 'crlf', 'no newline', 'backslash', 'slash', 'format last',
          'format between', 'path', 'relative', 'trailing', 'dots']


def configs(tier):
    out = []
    for b in BASES:
        for s in STYLES:
            if len(BASES[b]) == 4 and s not in ('plain', 'comma', 'format between', 'backslash') and tier != 'thorough':
                continue
            out.append({'name': '%s, %s' % (b, s), 'base': b, 'style': s})
    # another file of the same directory read before or after
    for b in ('one point', 'several'):
        out.append({'name': '%s, two files' % b, 'base': b, 'style': 'plain', 'two': True})
    out.append({'name': 'large file', 'base': 'minimal', 'style': 'plain', 'more': 1600})
    return out


def series(ctx, base, sep='/', comma=False):
    """lines of every series, with its kind, exposure, photons and image names"""
    out = []
    for k, (c, n) in enumerate(base):
        t = ctx.real('t%d' % k, 1, 10 ** 6)
        p = ctx.real('p%d' % k, 1, 10 ** 6) if c == 'b' else 0.0
        names = ['s%d%s%s%d.tif' % (k % 2, sep, 'zbIa'[i], k) for i in range(n)]
        head = 'b %s %s' % (ctx.text(t, comma), ctx.text(p, comma)) if c == 'b' else 'd %s' % ctx.text(t, comma)
        out.append({'head': head, 'names': names, 't': t, 'p': p, 'kind': 'temporal' if n == 2 else 'spatial'})
    return out


def duplicates(ss):
    for i, j in itertools.combinations(range(len(ss)), 2):
        if ss[i]['kind'] == ss[j]['kind'] and ss[i]['t'] == ss[j]['t'] and ss[i]['p'] == ss[j]['p']:
            return True
    return False


def attributed(ctx, images, ss, base, more=()):
    """images: what the parser found; ss: the series of the file"""
    n = 0
    for kind in images:
        for t in images[kind]:
            n += len(images[kind][t])
    ctx.check('one entry for each series', n == len(ss) + len(more), '%d for %d' % (n, len(ss) + len(more)))
    ctx.check('kinds', set(images) >= set(s['kind'] for s in ss))
    for s in more:
        got = images[s['kind']].get(s['t'], {}).get(s['p'])
        ctx.check('images of a series of a large file', got is not None and
                  [os.path.normpath(x) for x in got] == [os.path.normpath(os.path.join(base, x)) for x in s['names']])
    for s in ss:
        found = []
        for t in images[s['kind']]:
            if more and isinstance(t, float) and t > 10 ** 6:
                continue
            if t == s['t']:
                for p in images[s['kind']][t]:
                    if p == s['p']:
                        found.append(images[s['kind']][t][p])
        ctx.check('series found once under its exposure and photons', len(found) == 1, '%d' % len(found))
        want = [os.path.normpath(os.path.join(base, *x.replace('\\', '/').split('/'))) for x in s['names']]
        got = [os.path.normpath(x) for x in found[0]]
        ctx.check('images of the series in order', got == want, '%s / %s' % (got, want))


def harness(ctx, cfg):
    ps = ctx.mod('process.parser')
    st = cfg['style']
    ss = series(ctx, BASES[cfg['base']], '\\' if st == 'backslash' else '/./' if st == 'dots' else '/', st == 'comma')
    if duplicates(ss):
        return
    orders = list(itertools.permutations(range(len(ss))))
    order = orders[ctx.index('order', len(orders))]
    bits, w, h = ctx.int('bits', 1, 32), ctx.int('width', 1, 10 ** 5), ctx.int('height', 1, 10 ** 5)
    fmt = 'n %s %s %s' % tuple(ctx.text(x) for x in (bits, w, h))
    # series of a file of realistic size, with other exposure times
    more = []
    for k in range(cfg.get('more', 0)):
        p = k % 3 * 10.0
        more.append({'head': 'b %d.5 %s' % (10 ** 6 + k, p) if p else 'd %d.5' % (10 ** 6 + k), 'names': ['m/%04d%s.tif' % (k, c) for c in 'bca'[:2 + k % 2]],
                     't': 10 ** 6 + k + 0.5, 'p': p, 'kind': 'spatial' if k % 2 else 'temporal'})
    groups = [['v 3.1'], [fmt]] + [[s['head']] + ['i ' + x for x in s['names']] for s in more] + [[ss[k]['head']] + ['i ' + x for x in ss[k]['names']] for k in order]
    if st == 'format last':
        groups = groups[2:] + groups[1::-1]
    elif st == 'format between':
        k = ctx.index('format', len(ss) + 1)
        groups = [groups[0]] + groups[2:2 + k] + [groups[1]] + groups[2 + k:]
    lines = [x for g in groups for x in g]
    if st in ('comment', 'blank'):
        k = ctx.index('line', len(lines) + 1)
        if st == 'comment':
            lines[k:k] = [ctx.choice('text', ['# b 1 2', '#', '   #i other.tif', '#n 1 2 3'])]
        else:
            lines[k:k] = [ctx.choice('text', ['', '   ', '\t'])] * 2
    elif st == 'indent':
        k = ctx.index('line', len(lines))
        lines[k] = '   ' + lines[k] + '  '
    elif st == 'tabs':
        lines = ['\t' + x.replace(' ', '\t \t') for x in lines]
    elif st == 'trailing':
        lines = ['', '# file'] + [x + ' \t' for x in lines] + ['', '']
    text = ('\r\n' if st == 'crlf' else '\n').join(lines) + ('' if st == 'no newline' else '\n')
    tmp = ctx.tmpdir()
    sub = os.path.join(tmp, 'in')
    os.mkdir(sub)
    fname = os.path.join(sub, 'EMVA1288_Data.txt')
    with open(fname, 'w', newline='') as f:
        f.write(text)
    base = sub
    other = None
    if cfg.get('two'):
        other = os.path.join(sub, 'other.txt')
        with open(other, 'w') as f:
            f.write('v 3.0\nn 8 4 4\nb 5 7\ni o1.tif\ni o2.tif\nd 6\ni o3.tif\ni o4.tif\ni o5.tif\n')
        if ctx.flag('other file first'):
            o, other = ps.ParseEmvaDescriptorFile(other), None
    if st == 'path':
        base = os.path.join(tmp, 'elsewhere')
        r = ps.ParseEmvaDescriptorFile(fname, path=base)
    elif st == 'relative':
        cwd = os.getcwd()
        try:
            os.chdir(tmp)
            r = ps.ParseEmvaDescriptorFile(os.path.join('in', 'EMVA1288_Data.txt'))
        finally:
            os.chdir(cwd)
        base = 'in'
    else:
        r = ps.ParseEmvaDescriptorFile(fname)
    if other:
        o = ps.ParseEmvaDescriptorFile(other)
    attributed(ctx, r.images, ss, base, more)
    if cfg.get('two'):
        attributed(ctx, o.images, [{'t': 5.0, 'p': 7.0, 'kind': 'temporal', 'names': ['o1.tif', 'o2.tif']},
                                   {'t': 6.0, 'p': 0.0, 'kind': 'spatial', 'names': ['o3.tif', 'o4.tif', 'o5.tif']}], sub)
        ctx.check('format and version of the other file', o.format == {'bits': 8, 'width': 4, 'height': 4} and o.version == '3.0')
    for k, x in (('bits', bits), ('width', w), ('height', h)):
        ctx.eq(k, r.format[k], ctx.v(x))
    ctx.check('version', r.version == '3.1', '%r' % (r.version,))
