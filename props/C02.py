"""C02: the loader files every series under its own kind, exposure and photon count."""
import copy
import os
from .common import stack_stats, flat

EXACT64 = True
MODULES = ['process.routines', 'process.loader']
BOUNDS = ('descriptions with 1 to 3 exposure times, 1 to 3 bright points each, 1 to 4 images per entry of 1x2 to 2x2 pixels with '
          'independent symbolic pixels, with names repeated in other directories, files used more than once, relative and absolute names; every position of a missing dark series, missing bright series, missing file '
          'or deviating shape of an image, a series or a kind; relative names also after the same ones in another directory')
DESCS = {
    # kind -> {exposure: {photons: number of images}}
    'one': {'temporal': {1.0: {0.0: 2, 10.0: 2}}, 'spatial': {1.0: {0.0: 3, 10.0: 2}}},
    'order': {'temporal': {2.5: {30.0: 2, 0.0: 2, 10.0: 2}}, 'spatial': {2.5: {30.0: 3, 0.0: 4}}},
    'multi': {'temporal': {3.0: {0.0: 2, 5.0: 2}, 1.0: {0.0: 2, 2.0: 2}, 2.0: {4.0: 2, 0.0: 2}},
              'spatial': {3.0: {0.0: 2, 5.0: 3}}},
    # two bright points and more at every exposure time of both kinds
    'brights': {'temporal': {1.0: {0.0: 2, 2.0: 2, 4.0: 2}, 2.0: {0.0: 2, 3.0: 2, 5.0: 2}},
                'spatial': {1.0: {0.0: 2, 3.0: 2, 6.0: 2}, 2.0: {0.0: 2, 3.0: 2, 5.0: 2}}},
    'same': {'temporal': {1.0: {0.0: 2, 7.0: 2, 9.0: 2}, 2.0: {0.0: 2, 7.0: 2}}, 'spatial': {1.0: {0.0: 2, 7.0: 2}, 2.0: {0.0: 2, 7.0: 3}}},
}


def configs(tier):
    out = []
    for d in DESCS:
        for shape, dt in (((1, 2), 'uint8'), ((2, 1), 'uint16'), ((2, 2), 'uint8'), ((2, 3), 'uint16')):
            out.append({'name': 'ok %s %s %s' % (d, shape, dt), 'desc': d, 'shape': list(shape), 'dt': dt, 'bad': None})
        out.append({'name': 'shared files %s' % d, 'desc': d, 'shape': [1, 2], 'dt': 'uint8', 'bad': None, 'shared': True})
        out.append({'name': 'absolute names %s' % d, 'desc': d, 'shape': [1, 2], 'dt': 'uint8', 'bad': None, 'path': ''})
        for bad in ('dark', 'bright', 'shape', 'file', 'same size other shape', 'series', 'same size other shape series', 'kind'):
            out.append({'name': '%s %s' % (bad, d), 'desc': d, 'shape': [1, 2], 'dt': 'uint8', 'bad': bad})
    return out


def harness(ctx, cfg):
    m = ctx.mod('process.loader')
    desc = copy.deepcopy(DESCS[cfg['desc']])
    tmp = ctx.tmpdir()
    files, images, entries = {}, {}, []
    path = cfg.get('path', tmp)
    prefix = '' if path else tmp
    for kind in desc:
        images[kind] = {}
        for t in desc[kind]:
            images[kind][t] = {}
            for p in desc[kind][t]:
                names = []
                for k in range(desc[kind][t][p]):
                    # the same names in another directory for every entry, or the same files in every entry
                    names.append(os.path.join(prefix, 'd%d' % (0 if cfg.get('shared') else len(entries)), 'f%d.tif' % k))
                images[kind][t][p] = names
                entries.append((kind, t, p))
    bad = cfg['bad']
    missing = None
    badfiles = []
    if bad in ('dark', 'bright'):
        kt = ctx.choice('where', sorted({(k, t) for k, t, _ in entries}))
        kind, t = kt
        for p in list(images[kind][t]):
            if (p == 0.0) == (bad == 'dark'):
                del images[kind][t][p]
    elif bad:
        allf = [f for k in images for t in images[k] for p in images[k][t] for f in images[k][t][p]]
        i = ctx.index('file', len(allf))
        if bad == 'file':
            missing = allf[i]
        elif bad.endswith('series'):
            badfiles = [s for k in images for t in images[k] for s in images[k][t].values() if allf[i] in s][0]
        elif bad == 'kind':
            badfiles = [f for s in images[list(images)[i % 2]].values() for v in s.values() for f in v]
        else:
            badfiles = [allf[i]]
    k = 0
    for kind in images:
        for t in images[kind]:
            for p in images[kind][t]:
                for f in images[kind][t][p]:
                    sh = list(cfg['shape'])
                    if f in badfiles:
                        sh = [sh[1], sh[0]] if bad.startswith('same') else [sh[0] + 1, sh[1]]
                    if os.path.join(tmp, f) in files:
                        continue
                    files[os.path.join(tmp, f)] = ctx.ints('y%d' % k, sh, 0, 255 if cfg['dt'] == 'uint8' else 65535, cfg['dt'])
                    k += 1
    for f in files:
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if missing is None or f != os.path.join(tmp, missing):
            open(f, 'w').close()
    calls = []

    def fload(name, *a, **kw):
        calls.append((a, kw))
        return files[os.path.normpath(name)]
    before = copy.deepcopy(images)
    if path and not bad:
        # the same names in another directory before
        old = ctx.tmpdir()
        for f in files:
            f = os.path.join(old, os.path.relpath(f, tmp))
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, 'w').close()
        H, W = cfg['shape']
        m.LoadImageData(copy.deepcopy(images), path=old, fload=lambda f: (ctx.np.arange(H * W) % 7 + int(f[-5])).reshape(H, W).astype(cfg['dt']))
    res, exc = ctx.call(m.LoadImageData, images, path=path, fload=fload, fload_args=[5], fload_kwargs={'q': 7})
    ctx.check('description unchanged', images == before and
              all(list(images[k][t]) == list(before[k][t]) for k in images for t in images[k]))
    if bad:
        want = {'dark': ValueError, 'bright': ValueError, 'file': OSError}.get(bad, ValueError)
        ctx.check('rejected: %s' % bad, isinstance(exc, want), 'got %r' % (exc,))
        return
    if exc is not None:
        raise exc
    data = res.data
    ctx.check('loader arguments', all(c == ((5,), {'q': 7}) for c in calls))
    ctx.eq('height', data['height'], cfg['shape'][0])
    ctx.eq('width', data['width'], cfg['shape'][1])
    for kind in ('temporal', 'spatial'):
        ctx.check('exposures', set(data[kind].keys()) == set(images[kind].keys()))
        for t in images[kind]:
            ctx.check('photon counts', set(data[kind][t].keys()) == set(images[kind][t].keys()))
            for p in images[kind][t]:
                ims = [ctx.vals(files[os.path.join(tmp, f)]) for f in images[kind][t][p]]
                S, P, d = stack_stats(ctx, ims)
                e = data[kind][t][p]
                if kind == 'spatial':
                    ctx.eq('spatial L', e['L'], len(ims))
                    ctx.eq('spatial sum', e['sum'], S, rel=0, abs=0)
                    ctx.eq('spatial pvar', e['pvar'], P, rel=0, abs=0)
                else:
                    ctx.eq('temporal sum', e['sum'], ctx.sum(flat(S)), rel=0, abs=0)
                    ctx.eq('temporal pvar', e['pvar'], ctx.sum(flat(P)), rel=0, abs=0)
                    ctx.eq('temporal dmean', e['dmean'], d)
