"""C20: malformed or ambiguous descriptors are rejected instead of misread."""
from .C19 import series, duplicates

MODULES = ['process.parser']
BOUNDS = ('descriptors of 1 to 4 series of 2 to 4 images with symbolic exposure times and photon counts; every kind of malformed line at '
          'every position, every position of a short series, every pair of series that may coincide in exposure and photon count '
          '(rejected exactly when they do), several defects at once; files that are no text; always after a correct descriptor of the same name')
BASES = {'one': [('b', 2)], 'pair': [('b', 2), ('d', 2)], 'three': [('d', 3), ('b', 2), ('b', 4)]}
DUP = {'bright': [('b', 2), ('b', 2)], 'dark': [('d', 2), ('d', 2)], 'bright spatial': [('b', 3), ('b', 4)], 'dark spatial': [('d', 4), ('d', 3)],
       'three': [('b', 2), ('d', 2), ('b', 2)], 'four': [('b', 2), ('d', 3), ('d', 2), ('b', 2)], 'mixed': [('b', 2), ('b', 3), ('b', 2)]}
WORDS = {'one word': ['b', 'i', 'x', 'd', 'n', 'v', 'image.tif', ',', '3.0'],
         'image line': ['i a.tif b.tif', 'i my image.tif', 'i a.tif 3 4'],
         'bright line': ['b 7.5', 'b 7.5 2 3', 'b 7.5 2 3 4'],
         'dark line': ['d 7.5 0', 'd 7.5 0 1'],
         'format line': ['n 8 10', 'n 8', 'n 8 10 20 30'],
         'second format': ['n 8 10 20', 'n 12 1 1', 'n 8 640 480']}


def configs(tier):
    out = []
    for b in BASES:
        for k in list(WORDS) + ['short series', 'empty series', 'fields', 'encoding']:
            out.append({'name': '%s, %s' % (k, b), 'base': b, 'kind': k})
    for d in DUP:
        out.append({'name': 'coinciding series, %s' % d, 'base': d, 'kind': 'dup'})
    return out


def harness(ctx, cfg):
    ps = ctx.mod('process.parser')
    kind = cfg['kind']
    ss = series(ctx, (DUP if kind == 'dup' else BASES)[cfg['base']])
    groups = [['v 3.1'], ['n 8 640 480']] + [[s['head']] + ['i ' + x for x in s['names']] for s in ss]
    bad = True
    if kind == 'dup':
        # bright series may also have no photons at all
        for k, s in enumerate(ss):
            if s['head'].startswith('b') and ctx.flag('no photons %d' % k):
                s['p'] = 0.0
                groups[2 + k][0] = 'b %s 0' % ctx.text(s['t'])
        bad = duplicates(ss)
    elif duplicates(ss):
        return
    if kind in ('short series', 'empty series'):
        k = 2 + ctx.index('series', len(ss))
        groups[k] = groups[k][:2 if kind == 'short series' else 1]
        if kind == 'short series' and ctx.flag('comment in it'):
            groups[k].append('# i other.tif')
    lines = [x for g in groups for x in g]
    if kind == 'fields':
        # one field more or less in any line but the version
        k = 1 + ctx.index('line', len(lines) - 1)
        if ctx.flag('more'):
            lines[k] = lines[k] + ' 5'
        else:
            lines[k] = lines[k].rsplit(' ', 1)[0]
    elif kind in WORDS:
        k = ctx.index('position', len(lines) + 1)
        if kind in ('format line',) and ctx.flag('the only one'):
            lines[1] = ctx.choice('words', WORDS[kind])
        elif kind == 'image line':
            # where an image is expected
            k = ctx.choice('image position', [i for i in range(1, len(lines) + 1) if lines[i - 1][0] in 'ibd'])
            lines[k:k] = [ctx.choice('words', WORDS[kind])]
        elif kind in ('bright line', 'dark line'):
            lines[k:k] = [ctx.choice('words', WORDS[kind]), 'i x.tif', 'i y.tif']
        else:
            lines[k:k] = [ctx.choice('words', WORDS[kind])]
    tmp = ctx.tmpdir()
    # another descriptor of the same name before
    with open(tmp + '/d.txt', 'w') as f:
        f.write('v 3.1\nn 8 640 480\nb 12.5 40\ni a.tif\ni b.tif\nd 12.5\ni c.tif\ni d.tif\n')
    r, exc = ctx.call(ps.ParseEmvaDescriptorFile, tmp + '/d.txt')
    ctx.check('the earlier one accepted', exc is None, '%r' % (exc,))
    with open(tmp + '/d.txt', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    if kind == 'encoding':
        # a character that is no valid text
        k = ctx.index('line', len(lines))
        data = [x.encode() for x in lines]
        data[k] = ctx.choice('bytes', [data[k] + b'\xff', b'# \xe9', data[k][:1] + b'\x80' + data[k][1:]])
        with open(tmp + '/d.txt', 'wb') as f:
            f.write(b'\n'.join(data) + b'\n')
        r, exc = ctx.call(ps.ParseEmvaDescriptorFile, tmp + '/d.txt')
        ctx.check('rejected with a UnicodeDecodeError', isinstance(exc, UnicodeDecodeError), '%r' % (exc,))
        ctx.check('the file is named', tmp + '/d.txt' in str(exc), '%s' % (exc,))
        return
    r, exc = ctx.call(ps.ParseEmvaDescriptorFile, tmp + '/d.txt')
    if bad:
        ctx.check('rejected with a SyntaxError', isinstance(exc, SyntaxError), 'got %r for %s' % (exc, lines))
    else:
        ctx.check('accepted', exc is None, '%r' % (exc,))
