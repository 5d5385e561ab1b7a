"""Oracles shared by harnesses: plain definitions, independent of the code under test."""


def stack_stats(ctx, imgs):
    """(sum image, pvar image, sum of mean differences) of nested lists of oracle numbers."""
    n = len(imgs)
    rows, cols = len(imgs[0]), len(imgs[0][0])
    S = [[ctx.sum(im[i][j] for im in imgs) for j in range(cols)] for i in range(rows)]
    Q = [[ctx.sum(im[i][j] * im[i][j] for im in imgs) for j in range(cols)] for i in range(rows)]
    P = [[(Q[i][j] * n - S[i][j] * S[i][j]) * n for j in range(cols)] for i in range(rows)]
    means = [ctx.mean(flat(im)) for im in imgs]
    d = 0
    for k in range(1, n):
        d = d + (means[k] - means[k - 1])
    return S, P, d


def flat(im):
    return [x for r in im for x in r]


def cfgs(*items):
    out = []
    for it in items:
        d = dict(it)
        d.setdefault('name', ' '.join('%s=%s' % (k, v) for k, v in d.items()))
        out.append(d)
    return out


def last_at_most(ctx, ys, lim):
    """Index of the last element <= lim in an increasing list, or None."""
    k = None
    for i, y in enumerate(ys):
        if ctx.truth(y <= lim):
            k = i
    return k


def first_at_least(ctx, ys, lim):
    for i, y in enumerate(ys):
        if ctx.truth(y >= lim):
            return i
    return None


def fit0(ctx, X, Y):
    """Least squares slope through the origin."""
    return ctx.div(ctx.sum(x * y for x, y in zip(X, Y)), ctx.sum(x * x for x in X))


def fit1(ctx, X, Y):
    """Least squares slope and offset."""
    n = len(X)
    sx, sy = ctx.sum(X), ctx.sum(Y)
    sxx = ctx.sum(x * x for x in X)
    sxy = ctx.sum(x * y for x, y in zip(X, Y))
    d = sxx * n - sx * sx
    a = ctx.div(sxy * n - sx * sy, d)
    b = ctx.div(sy * sxx - sx * sxy, d)
    return a, b


def spatial_stub(ctx, W=2, H=2):
    a = ctx.array([[0] * W for _ in range(H)], dtype='int64')
    d = {}
    for p in ('', '_dark'):
        d.update({'sum' + p: a, 'L' + p: 2, 'M' + p: H, 'N' + p: W, 'avg_var' + p: 1.0, 'avg_mean' + p: 10.0,
                  'var_mean' + p: 1.0, 'avg_var_cav' + p: 0.25, 'avg_var_rav' + p: 0.25})
    d['avg_mean'] = 20.0
    d['texp'] = 1.0
    d['u_p'] = 1.0
    return d


def earlier(ctx, rs, n, quantities, sat=None, spatial=None, area=None, texp=None):
    """Another results object, of concrete data of the same size, whose quantities are asked for before."""
    a = lambda f: ctx.array([float(f(i)) for i in range(n)])
    t = {'texp': a(texp or (lambda i: 3 + i)), 'u_p': a(lambda i: 50 * i + 40), 'u_y': a(lambda i: 90 * i + 20), 's2_y': a(lambda i: 9 * i + 5),
         'u_ydark': a(lambda i: 2 + i / 8), 's2_ydark': a(lambda i: 3 + i / 4)}
    r = rs.Results1288({'temporal': t, 'spatial': spatial or dict(spatial_stub(ctx), M=3, N=4, M_dark=3, N_dark=4)}, pixel_area=area, index_u_ysat=sat)
    for q in quantities:
        v, exc = ctx.call(getattr, r, q)
        if exc is None and callable(v):
            ctx.call(v)


# --------------------------------------------------------------- recording stand-ins for matplotlib
class Anything(object):
    """accepts every call"""

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self

    def __getitem__(self, i):
        return self

    def __iter__(self):
        return iter(())

    def __bool__(self):
        return True


class Line(Anything):
    def __init__(self, kind, x, y, label, kw):
        self.kind, self.x, self.y, self.label, self.kw = kind, x, y, label, kw


class Axes(Anything):
    def __init__(self, fig, pos):
        self.fig, self.pos, self.lines = fig, pos, []

    def _add(self, kind, x, y, kw):
        c = lambda v: v.copy() if hasattr(v, 'copy') else v
        li = Line(kind, c(x), c(y), kw.get('label'), kw)
        self.lines.append(li)
        self.fig.lines.append((self.pos, li))
        return li

    def plot(self, *args, **kw):
        out, a = [], list(args)
        while a:
            x = a.pop(0)
            if a and not isinstance(a[0], str):
                y = a.pop(0)
            else:
                x, y = None, x
            if a and isinstance(a[0], str):
                a.pop(0)
            out.append(self._add('plot', x, y, kw))
        return out

    def semilogy(self, *a, **k):
        return self.plot(*a, **k)

    def semilogx(self, *a, **k):
        return self.plot(*a, **k)

    def loglog(self, *a, **k):
        return self.plot(*a, **k)

    def scatter(self, x, y, *a, **k):
        return self.plot(x, y, **k)[0]

    def axvline(self, x=0, *a, **k):
        return self._add('axvline', x, None, k)

    def axhline(self, y=0, *a, **k):
        return self._add('axhline', None, y, k)


class Fig(Anything):
    def __init__(self):
        self.axes, self.lines = [], []

    def add_subplot(self, *pos, **k):
        p = tuple(pos) if len(pos) == 3 else tuple(divmod(pos[0] // 10, 10)) + (pos[0] % 10,) if pos else (1, 1, 1)
        a = Axes(self, p)
        self.axes.append(a)
        return a

    def subplots(self, r=1, c=1, **k):
        raise NotImplementedError


class Test(object):
    """carries measurement data like a result object"""
    id = 7
