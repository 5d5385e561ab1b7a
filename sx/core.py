"""Expression DAG, rational normal form and translation to z3.

Numbers are int / Fraction (exact) when constant, `Node` when symbolic.  Every node has a
closed interval [lo, hi] (None = unbounded).  The normal form of a node is a polynomial over
atoms divided by a product of polynomial factors; it is only used to simplify the terms that
are handed to z3 (and to decide terms that are constant).
"""
from fractions import Fraction
import math
import z3

RELNOISE = Fraction(1, 10 ** 12)


class Unsupported(BaseException):
    """The engine has no model for an operation (never raised by the code under test)."""


class PathEnd(BaseException):
    """Stop the current path (infeasible or assumed away)."""


def norm_num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def snap(f):
    """Exact rational for a concrete float: the simplest rational that is this float."""
    if f == int(f) and abs(f) < 2 ** 60:
        return int(f)
    a = abs(f)
    if 1e-6 < a < 1e6:
        r = Fraction(f).limit_denominator(10 ** 7)
        if float(r) == f:
            return norm_num(r)
    return norm_num(Fraction(repr(float(f))))


class Node:
    __slots__ = ('op', 'args', 'isint', 'lo', 'hi', 'id', '_nf', '_z', 'meta')

    def __repr__(self):
        return 'N%d' % self.id


class Space:
    """All nodes, atoms and definitional constraints of one path."""

    def __init__(self):
        self.table = {}
        self.n = 0
        self.nodes = []
        self.defs = []          # pending z3 definitional constraints
        self.factors = {}
        self.sign_oracle = None  # callable(node)-> '+', '-', or None, using the solver
        self.inputs = {}

    # --- construction
    def mk(self, op, args, isint, lo, hi, meta=None):
        key = (op,) + tuple(('n', a.id) if isinstance(a, Node) else
                            ('z', a.get_id()) if isinstance(a, z3.AstRef) else a
                            for a in args)
        got = self.table.get(key)
        if got is not None:
            return got
        nd = Node()
        nd.op = op
        nd.args = args
        nd.isint = isint
        nd.lo = lo
        nd.hi = hi
        nd.id = self.n
        nd._nf = None
        nd._z = None
        nd.meta = meta
        self.n += 1
        self.nodes.append(nd)
        self.table[key] = nd
        return nd

    def var(self, name, isint, lo=None, hi=None):
        nd = self.mk('var', (name,), isint, lo, hi)
        if nd._z is None:
            nd._z = z3.Int(name) if isint else z3.Real(name)
            if lo is not None:
                self.defs.append(nd._z >= zconst(lo, isint))
            if hi is not None:
                self.defs.append(nd._z <= zconst(hi, isint))
        return nd


SP = Space()


def reset():
    global SP
    SP = Space()
    return SP


def zconst(v, isint):
    if isint:
        return z3.IntVal(int(v))
    v = Fraction(v)
    return z3.RealVal('%d/%d' % (v.numerator, v.denominator)) if v.denominator != 1 \
        else z3.RealVal(str(v.numerator))


def isn(x):
    return isinstance(x, Node)


def rng(x):
    if isn(x):
        return x.lo, x.hi
    return x, x


def isint_(x):
    if isn(x):
        return x.isint
    return isinstance(x, int) or x.denominator == 1


# --------------------------------------------------------------- arithmetic
def _cap(v):
    # keep interval bounds cheap
    if isinstance(v, Fraction) and v.denominator > 10 ** 30:
        return v.limit_denominator(10 ** 30) if False else Fraction(math.floor(v * 10 ** 30), 10 ** 30)
    return v


def add(a, b):
    if not isn(a) and not isn(b):
        return norm_num(a + b)
    if not isn(a) and a == 0:
        return b
    if not isn(b) and b == 0:
        return a
    if isn(a) and isn(b) and a.id > b.id or not isn(a):
        a, b = b, a
    al, ah = rng(a)
    bl, bh = rng(b)
    lo = None if al is None or bl is None else al + bl
    hi = None if ah is None or bh is None else ah + bh
    return SP.mk('add', (a, b), isint_(a) and isint_(b), lo, hi)


def neg(a):
    return mul(-1, a)


def sub(a, b):
    if isn(a) and a is b:
        return 0
    return add(a, neg(b))


def _mulb(x, y):
    # product of extended bounds where None = inf (sign handled by caller)
    return None if x is None or y is None else x * y


def mul(a, b):
    if not isn(a) and not isn(b):
        return norm_num(a * b)
    for x, y in ((a, b), (b, a)):
        if not isn(x):
            if x == 0:
                return 0
            if x == 1:
                return y
            # constant * (constant * z)
            if isn(y) and y.op == 'mul' and not isn(y.args[0]):
                return mul(norm_num(x * y.args[0]), y.args[1])
    if isn(a) and isn(b):
        if a.id > b.id:
            a, b = b, a
    elif isn(a):
        a, b = b, a
    al, ah = rng(a)
    bl, bh = rng(b)
    if isn(a) and a is b:
        cands = [v * v for v in (al, ah) if v is not None]
        if al is not None and al >= 0:
            lo, hi = al * al, None if ah is None else ah * ah
        elif ah is not None and ah <= 0:
            lo, hi = ah * ah, None if al is None else al * al
        else:
            lo, hi = 0, max(cands) if len(cands) == 2 else None
    elif None not in (al, ah, bl, bh):
        c = (al * bl, al * bh, ah * bl, ah * bh)
        lo, hi = min(c), max(c)
    else:
        lo = hi = None
        ap = al is not None and al >= 0
        an = ah is not None and ah <= 0
        bp = bl is not None and bl >= 0
        bn = bh is not None and bh <= 0
        if ap and bp:
            lo, hi = al * bl, _mulb(ah, bh)
        elif an and bn:
            lo, hi = ah * bh, _mulb(al, bl)
        elif ap and bn:
            lo, hi = _mulb(ah, bl), al * bh
        elif an and bp:
            lo, hi = _mulb(al, bh), ah * bl
    return SP.mk('mul', (a, b), isint_(a) and isint_(b), _cap(lo), _cap(hi))


def div(a, b):
    """Exact division; the caller guarantees b != 0 on this path."""
    if not isn(b):
        return mul(Fraction(1) / Fraction(b) if b not in (1, -1) else b, a)
    if isn(a) and a is b:
        return 1
    if not isn(a) and a == 0:
        return 0
    bl, bh = rng(b)
    lo = hi = None
    al, ah = rng(a)
    if bl is not None and bl > 0 or bh is not None and bh < 0:
        # reciprocal interval
        if bl is not None and bl > 0:
            rl = Fraction(1) / bh if bh is not None else 0
            rh = Fraction(1) / bl
        else:
            rl = Fraction(1) / bh
            rh = Fraction(1) / bl if bl is not None else 0
        if al is not None and ah is not None:
            c = (al * rl, al * rh, ah * rl, ah * rh)
            lo, hi = min(c), max(c)
        elif al is not None and al >= 0:
            lo, hi = (0, None) if rl >= 0 else (None, 0)
        elif ah is not None and ah <= 0:
            lo, hi = (None, 0) if rl >= 0 else (0, None)
    return SP.mk('div', (a, b), False, _cap(lo), _cap(hi))


def powi(a, n):
    if n == 0:
        return 1
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def sum_(xs):
    xs = list(xs)
    if not xs:
        return 0
    while len(xs) > 1:
        xs = [add(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i]
              for i in range(0, len(xs), 2)]
    return xs[0]


def ite(c, a, b):
    """c is a python bool or z3 BoolRef."""
    if c is True:
        return a
    if c is False:
        return b
    if isn(a) and a is b or (not isn(a) and not isn(b) and a == b):
        return a
    al, ah = rng(a)
    bl, bh = rng(b)
    lo = None if al is None or bl is None else min(al, bl)
    hi = None if ah is None or bh is None else max(ah, bh)
    return SP.mk('ite', (c, a, b), isint_(a) and isint_(b), lo, hi)


def _isqrt_lo(v):
    v = Fraction(v)
    s = 10 ** 12
    return Fraction(math.isqrt((v * s * s).__floor__()), s)


def sqrt_rat(v):
    """Exact square root of a rational or None."""
    v = Fraction(v)
    p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if p * p == v.numerator and q * q == v.denominator:
        return norm_num(Fraction(p, q))
    return None


def sqrt(a):
    """a >= 0 on this path."""
    if not isn(a):
        r = sqrt_rat(a)
        if r is not None:
            return r
        lo = _isqrt_lo(a)
        return SP.mk('sqrt', (a,), False, lo, lo + Fraction(1, 10 ** 11))
    lo = _isqrt_lo(a.lo) if a.lo is not None and a.lo > 0 else 0
    hi = None if a.hi is None or a.hi < 0 else _isqrt_lo(a.hi) + Fraction(1, 10 ** 11)
    return SP.mk('sqrt', (a,), False, lo, hi)


def floor(a):
    if not isn(a):
        return math.floor(a)
    if a.isint:
        return a
    lo = None if a.lo is None else math.floor(a.lo)
    hi = None if a.hi is None else math.floor(a.hi)
    if lo is not None and lo == hi:
        return lo
    # floor(int + c) etc. is left to z3
    return SP.mk('floor', (a,), True, lo, hi)


def ln(a):
    """Natural logarithm, a > 0 on this path."""
    if not isn(a) and a == 1:
        return 0
    lo = hi = None
    l, h = rng(a)
    if l is not None and l > 0:
        lo = snap(math.log(l) - 1e-9) if l < 1e300 else None
    if h is not None and 0 < h:
        hi = snap(math.log(h) + 1e-9)
    return SP.mk('ln', (a,), False, lo, hi)


def log10(a):
    if not isn(a):
        v = Fraction(a)
        k = round(math.log10(v))
        if v == Fraction(10) ** k:
            return k
    lo = hi = None
    l, h = rng(a)
    if l is not None and l > 0:
        lo = snap(math.log10(l) - 1e-9)
    if h is not None and h > 0:
        hi = snap(math.log10(h) + 1e-9)
    return SP.mk('log10', (a,), False, lo, hi)


def powb(base, a):
    """base ** a for a positive rational constant base and symbolic a; base 'e' for exp."""
    l, h = rng(a)
    b = math.e if base == 'e' else float(base)
    lo, hi = 0, None
    try:
        if l is not None and h is not None:
            v = sorted((b ** float(l), b ** float(h)))
            if v[0] > 1e-250 and v[1] < 1e250:
                lo, hi = snap(v[0] * 0.999999), snap(v[1] * 1.000001)
    except OverflowError:
        pass
    return SP.mk('powb', (base, a), False, lo, hi)


def uf(name, *args):
    return SP.mk('uf', (name,) + args, False, None, None)


# --------------------------------------------------------------- normal form
# mono: tuple ((atom_id, exp), ...) sorted; poly: dict mono -> number
ONE = ()


class NF:
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num = num      # poly
        self.den = den      # dict factor_key -> exp


def _padd_into(d, m, c):
    o = d.get(m)
    if o is None:
        if c:
            d[m] = c
        return
    s = o + c
    if s == 0:
        del d[m]
        return
    if isinstance(s, Fraction):
        if s.denominator == 1:
            s = s.numerator
    if not isinstance(o, int) or not isinstance(c, int):
        if abs(s) < RELNOISE * max(abs(o), abs(c)):
            del d[m]
            return
    d[m] = s


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        _padd_into(r, m, c * k)
    return r


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        e2 = d.get(i, 0) + e
        if e2:
            d[i] = e2
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


MAXTERMS = 60000


def pmul(p, q):
    if len(p) * len(q) > 4000000:
        raise Unsupported('polynomial too large')
    r = {}
    red = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            _padd_into(r, m, norm_num(c1 * c2))
            if not red:
                for i, e in m:
                    if e >= 2 and SP.nodes[i].op in ('sqrt', 'sqrtp'):
                        red = True
                        break
    if len(r) > MAXTERMS:
        raise Unsupported('polynomial too large')
    if red:
        r = _reduce_sqrt(r)
    return r


def _reduce_sqrt(p):
    """Replace r**2 by its radicand for square-root atoms (their radicand is a polynomial)."""
    while True:
        hit = None
        for m in p:
            for i, e in m:
                if e >= 2 and SP.nodes[i].op in ('sqrtp',):
                    hit = (m, i, e)
                    break
            if hit:
                break
        if not hit:
            return p
        m, i, e = hit
        c = p.pop(m)
        rest = tuple((j, f) for j, f in m if j != i)
        if e % 2:
            rest = mono_mul(rest, ((i, 1),))
        q = {rest: c}
        rad = SP.nodes[i].meta
        for _ in range(e // 2):
            q2 = {}
            for m1, c1 in q.items():
                for m2, c2 in rad.items():
                    _padd_into(q2, mono_mul(m1, m2), norm_num(c1 * c2))
            q = q2
        for mm, cc in q.items():
            _padd_into(p, mm, cc)


def pkey(p):
    return tuple(sorted(p.items()))


def pscale(p, k):
    return {m: norm_num(c * k) for m, c in p.items()}


def content(p):
    """Positive rational content such that p/content has coprime integer coefficients."""
    g = 0
    l = 1
    for c in p.values():
        f = Fraction(c)
        g = math.gcd(g, f.numerator)
        l = l * f.denominator // math.gcd(l, f.denominator)
    return Fraction(g, l)


def lead(p):
    return min(p)


def factor_of(p):
    """(constant, key): p = constant * registered primitive factor with positive leading coeff."""
    if any(isinstance(c, Fraction) and c.denominator > 10 ** 12 for c in p.values()):
        k = Fraction(p[lead(p)])
        q = {m: norm_num(Fraction(c) / k) for m, c in p.items()}
    else:
        k = content(p)
        if p[lead(p)] < 0:
            k = -k
        q = {m: norm_num(Fraction(c) / k) for m, c in p.items()}
    key = pkey(q)
    # reuse a numerically equal factor (rounding noise of concrete floats)
    SP.factors.setdefault(key, q)
    return k, key


def nf_div_factor(num, den, p, e=1):
    """num/den divided by poly p**e (p nonzero)."""
    if len(p) == 1:
        (m, c), = p.items()
        k = Fraction(1) / (Fraction(c) ** e)
        num = pscale(num, k) if k != 1 else num
        den = dict(den)
        for i, x in m:
            key = ((((i, 1),), 1),)
            SP.factors.setdefault(key, {((i, 1),): 1})
            den[key] = den.get(key, 0) + x * e
        return cancel_mono(num, den)
    k, key = factor_of(p)
    if k != 1:
        num = pscale(num, Fraction(1) / (Fraction(k) ** e))
    den = dict(den)
    den[key] = den.get(key, 0) + e
    return cancel_poly(num, den)


def cancel_mono(num, den):
    """Cancel single-atom denominators against a common monomial factor of the numerator."""
    for key in list(den):
        if len(key) == 1 and len(key[0][0]) == 1 and key[0][0][0][1] == 1:
            i = key[0][0][0][0]
            e = den[key]
            mn = min((dict(m).get(i, 0) for m in num), default=e)
            k = min(mn, e)
            if k > 0:
                num = {tuple((j, f - k if j == i else f) for j, f in m if not (j == i and f == k)): c
                       for m, c in num.items()}
                if e == k:
                    del den[key]
                else:
                    den[key] = e - k
            elif SP.nodes[i].op == 'sqrtp' and e >= 2:
                # 1/r**2 = 1/radicand
                del den[key]
                if e % 2:
                    den[key] = 1
                num, den = nf_div_factor(num, den, SP.nodes[i].meta, e // 2)
    return num, den


def cancel_poly(num, den):
    """Exact division of the numerator by multi-term denominator factors when it divides."""
    for key in list(den):
        if len(key) == 1 or len(key) > 60:
            continue
        while den.get(key):
            q = pdivexact(num, SP.factors[key])
            if q is None:
                break
            num = q
            den[key] -= 1
            if not den[key]:
                del den[key]
    return num, den


def pdivexact(p, f):
    """p / f if f divides p exactly, else None (lexicographic division, cheap cases only)."""
    if len(p) < len(f) or len(p) > 3000:
        return None
    if any(isinstance(c, Fraction) and c.denominator > 10 ** 12 for c in f.values()):
        return None
    # quick filter: every atom of f must occur in p
    af = {i for m in f for i, _ in m}
    ap = {i for m in p for i, _ in m}
    if not af <= ap:
        return None
    # quick filter: evaluate modulo a random point
    order = sorted(ap)

    def keyf(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(i, 0) for i in order))
    lf = max(f, key=keyf)
    cf = f[lf]
    df = dict(lf)
    r = dict(p)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 2000:
            return None
        m = max(r, key=keyf)
        d = dict(m)
        for i, e in df.items():
            if d.get(i, 0) < e:
                return None
            d[i] -= e
        mq = tuple(sorted((i, e) for i, e in d.items() if e))
        c = norm_num(Fraction(r[m]) / Fraction(cf))
        q[mq] = c
        for m2, c2 in f.items():
            _padd_into(r, mono_mul(mq, m2), norm_num(-c * c2))
    return q


def nf_const(c):
    return NF({ONE: c} if c else {}, {})


def nf_atom(nd):
    return NF({((nd.id, 1),): 1}, {})


def fpoly(key):
    return SP.factors[key]


def _expand_to(num, den, lcm):
    for key, e in lcm.items():
        k = e - den.get(key, 0)
        if k:
            f = fpoly(key)
            for _ in range(k):
                num = pmul(num, f)
    return num


def nf_add(a, b, k=1):
    if a.den == b.den:
        num = padd(a.num, b.num, k)
        if a.den and num:
            n2, d2 = cancel_mono(num, dict(a.den))
            n2, d2 = cancel_poly(n2, d2)
            return NF(n2, d2)
        return NF(num, a.den if num else {})
    lcm = dict(a.den)
    for key, e in b.den.items():
        if lcm.get(key, 0) < e:
            lcm[key] = e
    num = padd(_expand_to(a.num, a.den, lcm), _expand_to(b.num, b.den, lcm), k)
    if not num:
        return NF({}, {})
    num, lcm = cancel_mono(num, lcm)
    num, lcm = cancel_poly(num, lcm)
    return NF(num, lcm)


def nf_mul(a, b):
    num = pmul(a.num, b.num)
    if not num:
        return NF({}, {})
    if not a.den and not b.den:
        return NF(num, {})
    # cancel before multiplying when a numerator equals a denominator factor
    den = dict(a.den)
    for key, e in b.den.items():
        den[key] = den.get(key, 0) + e
    num, den = cancel_mono(num, den)
    num, den = cancel_poly(num, den)
    return NF(num, den)


def nf_inv_into(a, b):
    """a / b."""
    if not a.num:
        return NF({}, {})
    num = a.num
    den = dict(a.den)
    for key, e in b.den.items():
        have = den.get(key, 0)
        k = min(have, e)
        if k:
            if have == k:
                del den[key]
            else:
                den[key] = have - k
        for _ in range(e - k):
            num = pmul(num, fpoly(key))
    num, den = nf_div_factor(num, den, b.num)
    return NF(num, den)


def nf(x):
    if not isn(x):
        return nf_const(x)
    if x._nf is not None:
        return x._nf
    op = x.op
    if op == 'var' or op == 'ite' or op == 'uf' or op == 'sqrtp':
        if op == 'ite':
            r = _nf_ite(x)
        else:
            r = nf_atom(x)
    elif op == 'add':
        # flatten to limit recursion
        acc = {}
        rest = []
        stack = [x]
        while stack:
            y = stack.pop()
            if isn(y) and y.op == 'add' and y._nf is None:
                stack.extend(y.args)
                continue
            n = nf(y)
            if n.den:
                rest.append(n)
            else:
                for m, c in n.num.items():
                    _padd_into(acc, m, c)
        r = NF(acc, {})
        for n in rest:
            r = nf_add(r, n)
    elif op == 'mul':
        r = nf_mul(nf(x.args[0]), nf(x.args[1]))
    elif op == 'div':
        b = nf(x.args[1])
        if not b.num:
            raise Unsupported('division by zero in normal form')
        r = nf_inv_into(nf(x.args[0]), b)
    elif op == 'sqrt':
        r = _nf_sqrt(x)
    elif op == 'floor':
        r = _nf_floor(x)
    elif op == 'ln':
        r = _nf_ln(nf(x.args[0]))
    elif op == 'log10':
        r = nf_inv_into(_nf_ln(nf(x.args[0])), _nf_lnconst(10))
    elif op == 'powb':
        r = _nf_powb(x)
    else:
        raise Unsupported('nf of ' + op)
    x._nf = r
    return r


def _canon_key(n):
    return (pkey(n.num), tuple(sorted(n.den.items())))


def _nf_ite(x):
    c, a, b = x.args
    na, nb = nf(a), nf(b)
    if _canon_key(na) == _canon_key(nb):
        return na
    key = ('ite', c.get_id(), _canon_key(na), _canon_key(nb))
    got = SP.table.get(key)
    if got is None:
        SP.table[key] = got = x
    return nf_atom(got)


def nf_is_const(n):
    if n.den:
        return None
    if not n.num:
        return 0
    if len(n.num) == 1 and ONE in n.num:
        return n.num[ONE]
    return None


def atom_rng(i):
    nd = SP.nodes[i]
    return nd.lo, nd.hi


def mono_range(m):
    lo, hi = 1, 1
    for i, e in m:
        l, h = atom_rng(i)
        if e % 2 == 0:
            if l is not None and l >= 0:
                l2, h2 = l ** e, None if h is None else h ** e
            elif h is not None and h <= 0:
                l2, h2 = h ** e, None if l is None else l ** e
            else:
                l2 = 0
                h2 = None if l is None or h is None else max(l ** e, h ** e)
        else:
            l2 = None if l is None else l ** e
            h2 = None if h is None else h ** e
        # multiply [lo,hi]*[l2,h2]
        if None not in (lo, hi, l2, h2):
            c = (lo * l2, lo * h2, hi * l2, hi * h2)
            lo, hi = min(c), max(c)
        elif lo is not None and lo >= 0 and l2 is not None and l2 >= 0:
            lo, hi = lo * l2, None
        else:
            return None, None
    return lo, hi


def poly_range(p):
    lo, hi = 0, 0
    for m, c in p.items():
        l, h = mono_range(m)
        if c < 0:
            l, h = h, l
        l = None if l is None else l * c
        h = None if h is None else h * c
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


def poly_sign(p, use_solver=True):
    """'+', '-', '0', '>=', '<=' or None."""
    if not p:
        return '0'
    lo, hi = poly_range(p)
    if lo is not None and lo > 0:
        return '+'
    if hi is not None and hi < 0:
        return '-'
    if use_solver and SP.sign_oracle is not None:
        s = SP.sign_oracle(p)
        if s:
            return s
    if lo is not None and lo >= 0:
        return '>='
    if hi is not None and hi <= 0:
        return '<='
    return None


def _sqfree(n):
    """n = s*s*t with t square-free (small n) -> (s, t)."""
    s, t = 1, n
    d = 2
    while d * d <= t and d < 2000:
        while t % (d * d) == 0:
            t //= d * d
            s *= d
        d += 1
    r = math.isqrt(t)
    if r * r == t:
        return s * r, 1
    return s, t


def _nf_sqrt(x):
    n = nf(x.args[0])
    if not n.num:
        return nf_const(0)
    # sqrt(p / prod f^e) = sqrt(p * prod f^(e%2)) / prod |f|^ceil(e/2)
    rad = n.num
    den = {}
    sign = 1
    for key, e in n.den.items():
        s = poly_sign(fpoly(key))
        if e % 2:
            rad = pmul(rad, fpoly(key))
        k = (e + 1) // 2
        if k % 2 and s not in ('+', '-', '>=', '<='):
            # unknown sign of an odd power: fall back to an opaque atom
            return nf_atom(_sqrt_opaque(x, n))
        if k % 2 and s in ('-', '<='):
            sign = -sign
        den[key] = k
    # rational content and even monomial powers
    big = any(isinstance(c, Fraction) and c.denominator > 10 ** 12 for c in rad.values())
    k = abs(Fraction(rad[lead(rad)])) if big else content(rad)
    rad = {m: norm_num(Fraction(c) / k) for m, c in rad.items()}
    outc = Fraction(1)
    num_s, num_t = _sqfree(k.numerator * k.denominator) if k.numerator * k.denominator < 10 ** 40 else (1, k.numerator * k.denominator)
    outc = Fraction(num_s, k.denominator)
    # common monomial squares
    outm = ()
    common = None
    for m in rad:
        d = dict(m)
        common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
    pull = {}
    for i, e in (common or {}).items():
        if e >= 2:
            s = poly_sign({((i, 1),): 1})
            h = e // 2
            if h % 2 == 0 or s in ('+', '>='):
                pull[i] = h
            elif s in ('-', '<='):
                pull[i] = h
                sign = -sign
    if pull:
        rad = {tuple((i, e - 2 * pull.get(i, 0)) for i, e in m if e - 2 * pull.get(i, 0)): c for m, c in rad.items()}
        outm = tuple(sorted(pull.items()))
    if num_t != 1:
        rad = pscale(rad, num_t)
    if len(rad) == 1 and ONE in rad:
        r = sqrt_rat(rad[ONE])
        if r is not None:
            num = {outm: norm_num(outc * r * sign)}
            return NF(*cancel_mono(num, den))
    sq = _perfect_square(rad)
    if sq is not None:
        s = poly_sign(sq)
        if s in ('+', '>=', '-', '<='):
            if s in ('-', '<='):
                sign = -sign
            num = pmul({outm: norm_num(outc * sign)}, sq)
            return NF(*cancel_poly(*cancel_mono(num, den)))
    at = _sqrtp(rad)
    num = {mono_mul(outm, ((at.id, 1),)): norm_num(outc * sign)}
    return NF(*cancel_mono(num, den))


def _perfect_square(p):
    """q with q*q == p for small polynomials, else None."""
    if len(p) > 40 or len(p) < 2:
        if len(p) == 1:
            (m, c), = p.items()
            r = sqrt_rat(c) if c > 0 else None
            if r is not None and all(e % 2 == 0 for _, e in m):
                return {tuple((i, e // 2) for i, e in m): r}
        return None
    # only rational coefficients
    order = sorted({i for m in p for i, _ in m})

    def keyf(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(i, 0) for i in order))
    lm = max(p, key=keyf)
    if any(e % 2 for _, e in lm) or p[lm] <= 0:
        return None
    r0 = sqrt_rat(p[lm])
    if r0 is None:
        return None
    q = {tuple((i, e // 2) for i, e in lm): r0}
    l0 = tuple((i, e // 2) for i, e in lm)
    rem = padd(p, {lm: p[lm]}, -1)
    for _ in range(30):
        if not rem:
            return q
        m = max(rem, key=keyf)
        d = dict(m)
        for i, e in l0:
            if d.get(i, 0) < e:
                return None
            d[i] -= e
        t = tuple(sorted((i, e) for i, e in d.items() if e))
        c = norm_num(Fraction(rem[m]) / (2 * Fraction(r0)))
        # (q+t)^2 = q^2 + 2qt + t^2
        for m1, c1 in q.items():
            _padd_into(rem, mono_mul(m1, t), norm_num(-2 * c1 * c))
        _padd_into(rem, mono_mul(t, t), norm_num(-c * c))
        if t in q:
            return None
        q[t] = c
    return None


def _sqrtp(rad):
    """Atom r >= 0 with r*r == rad (polynomial)."""
    key = ('sqrtp', pkey(rad))
    got = SP.table.get(key)
    if got is not None:
        return got
    lo, hi = poly_range(rad)
    l = _isqrt_lo(lo) if lo is not None and lo > 0 else 0
    h = None if hi is None or hi < 0 else _isqrt_lo(hi) + Fraction(1, 10 ** 11)
    nd = SP.mk('sqrtp', key, False, l, h, meta=rad)
    SP.table[key] = nd
    return nd


def _sqrt_opaque(x, n):
    key = ('sqrtq', _canon_key(n))
    got = SP.table.get(key)
    if got is None:
        got = SP.mk('uf', ('sqrtq', x), False, 0, x.hi)
        SP.table[key] = got
    return got


def _nf_floor(x):
    n = nf(x.args[0])
    c = nf_is_const(n)
    if c is not None:
        return nf_const(math.floor(c))
    # pull out the integer part: terms with integer coefficients over integer atoms
    if not n.den:
        ip, rest = {}, {}
        for m, cc in n.num.items():
            if Fraction(cc).denominator == 1 and all(SP.nodes[i].isint for i, _ in m):
                ip[m] = cc
            else:
                rest[m] = cc
        if not rest:
            return n
        if ip and not (set(rest) == {ONE} and False):
            if set(rest) == {ONE}:
                fl = math.floor(rest[ONE])
                return NF(padd(ip, {ONE: fl} if fl else {}), {})
            inner = _floor_atom(NF(rest, {}))
            return NF(padd(ip, {((inner.id, 1),): 1}), {})
    return nf_atom(_floor_atom(n))


def _floor_atom(n):
    key = ('floorn', _canon_key(n))
    got = SP.table.get(key)
    if got is None:
        lo = hi = None
        if not n.den:
            lo, hi = poly_range(n.num)
        lo = None if lo is None else math.floor(lo)
        hi = None if hi is None else math.floor(hi)
        got = SP.mk('floorn', key, True, lo, hi, meta=n)
        got._nf = nf_atom(got)
        SP.table[key] = got
    return got


def _nf_lnconst(c):
    """ln of a positive rational constant as a combination of ln(prime) atoms."""
    c = Fraction(c)
    if c.denominator > 10 ** 12 or c.numerator > 10 ** 12:
        return nf_const(snap(math.log(c)))
    out = {}
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        while v > 1:
            if d * d > v or d > 10 ** 5:
                d = v
            k = 0
            while v % d == 0:
                v //= d
                k += 1
            if k:
                a = SP.mk('uf', ('lnp', d), False, snap(math.log(d) - 1e-9), snap(math.log(d) + 1e-9))
                _padd_into(out, ((a.id, 1),), s * k)
            d += 1
    return NF(out, {})


def _nf_ln_poly(p):
    """ln of a polynomial known positive."""
    if len(p) == 1:
        (m, c), = p.items()
        r = {}
        extra = NF({}, {})
        cc = Fraction(c)
        for i, e in m:
            nd = SP.nodes[i]
            s = poly_sign({((i, 1),): 1})
            if nd.op == 'sqrtp':
                extra = nf_add(extra, nf_mul(nf_const(Fraction(e, 2)), _nf_ln_poly(nd.meta)))
            elif nd.op == 'powb':
                base, arg = nd.args[0], nd.meta
                l = nf_const(1) if base == 'e' else _nf_lnconst(base)
                extra = nf_add(extra, nf_mul(nf_const(e), nf_mul(arg, l)))
            elif s == '+':
                a = SP.mk('uf', ('ln', ((i, 1),)), False, None, None)
                _padd_into(r, ((a.id, 1),), e)
            else:
                a = SP.mk('uf', ('lnabs', ((i, 1),)), False, None, None)
                _padd_into(r, ((a.id, 1),), e)
        out = NF(r, {})
        out = nf_add(out, extra)
        return nf_add(out, _nf_lnconst(abs(cc)))
    k, key = factor_of(p)
    f = SP.factors[key]
    # monomial content
    common = None
    for m in f:
        d = dict(m)
        common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
    if common:
        cm = tuple(sorted(common.items()))
        f2 = {tuple((i, e - common.get(i, 0)) for i, e in m if e - common.get(i, 0)): c for m, c in f.items()}
        return nf_add(nf_add(_nf_ln_poly({cm: 1}), _nf_ln_poly(f2)), _nf_lnconst(abs(k)))
    a = SP.mk('uf', ('lnf', key), False, None, None)
    return nf_add(nf_atom(a), _nf_lnconst(abs(k)))


def _nf_ln(n):
    r = _nf_ln_poly(n.num)
    for key, e in n.den.items():
        r = nf_add(r, nf_mul(nf_const(-e), _nf_ln_poly(fpoly(key))))
    return r


def _nf_powb(x):
    base, a = x.args
    n = nf(a)
    num, den = n.num, n.den
    out = nf_const(1)
    only_mono = all(len(k) == 1 for k in den)
    if not only_mono:
        return nf_atom(_pow_atom(base, n))
    for m, c in num.items():
        # term c*m/den ; cancel monomial denominators term-wise
        t, d = cancel_mono({m: 1}, dict(den))
        tn = NF(t, d)
        k = nf_is_const(tn)
        c = Fraction(c)
        if k is not None:
            e = c * k
            if base == 'e':
                at = _pow_atom(base, nf_const(Fraction(1, e.denominator)))
                f = nf_atom(at)
                e = e.numerator
            else:
                ip = math.floor(e)
                fr = e - ip
                out = nf_mul(out, nf_const(norm_num(Fraction(base) ** ip)))
                if not fr:
                    continue
                f = nf_atom(_pow_atom(base, nf_const(Fraction(1, fr.denominator))))
                e = fr.numerator
        else:
            f = nf_atom(_pow_atom(base, NF(pscale(tn.num, Fraction(1, c.denominator)), tn.den)))
            e = c.numerator
        if abs(e) > 12:
            return nf_atom(_pow_atom(base, n))
        for _ in range(abs(e)):
            out = nf_mul(out, f) if e > 0 else nf_inv_into(out, f)
    return out


def _pow_atom(base, n):
    key = ('powb', base, _canon_key(n))
    got = SP.table.get(key)
    if got is None:
        lo, hi = 0, None
        if not n.den:
            l, h = poly_range(n.num)
            b = math.e if base == 'e' else float(base)
            try:
                if l is not None and h is not None:
                    v = sorted((b ** float(l), b ** float(h)))
                    if v[0] > 1e-250 and v[1] < 1e250:
                        lo, hi = snap(v[0] * 0.999999), snap(v[1] * 1.000001)
            except OverflowError:
                pass
        got = SP.mk('powb', key, False, lo, hi, meta=n)
        got.args = (base,)
        got._nf = nf_atom(got)
        SP.table[key] = got
    return got


# --------------------------------------------------------------- z3 terms
def zatom(i):
    nd = SP.nodes[i]
    if nd._z is not None:
        return nd._z
    op = nd.op
    if op == 'ite':
        c, a, b = nd.args
        za, ia = znum(a)
        zb, ib = znum(b)
        if ia != ib or ia != nd.isint:
            za = z3.ToReal(za) if ia else za
            zb = z3.ToReal(zb) if ib else zb
            nd.isint = False
        nd._z = z3.If(c, za, zb)
        return nd._z
    if op == 'sqrtp':
        v = z3.Real('sq!%d' % nd.id)
        nd._z = v
        t, isi = zpoly(nd.meta)
        if isi:
            t = z3.ToReal(t)
        SP.defs.append(v >= 0)
        SP.defs.append(v * v == t)
        return v
    if op == 'floorn':
        v = z3.Int('fl!%d' % nd.id)
        nd._z = v
        n = nd.meta
        le = NF(padd(n.num, _expand_to({((nd.id, 1),): 1}, {}, n.den), -1), n.den)
        lt = NF(padd(le.num, _expand_to({ONE: 1}, {}, n.den), -1), n.den)
        SP.defs.append(z3.Implies(True, zcmp0(le, '>=')))
        SP.defs.append(zcmp0(lt, '<'))
        return v
    if op in ('uf', 'powb'):
        v = z3.Real('uf!%d' % nd.id)
        nd._z = v
        if op == 'powb':
            SP.defs.append(v > 0)
        if nd.lo is not None:
            SP.defs.append(v >= zconst(nd.lo, False))
        if nd.hi is not None:
            SP.defs.append(v <= zconst(nd.hi, False))
        if op == 'uf' and nd.args[0] == 'sqrtq':
            arg = nd.args[1].args[0]
            n = nf(arg)
            r2 = NF(padd(n.num, _expand_to({((nd.id, 2),): 1}, {}, n.den), -1), n.den)
            SP.defs.append(v >= 0)
            SP.defs.append(zpoly(r2.num)[0] == 0)
        return v
    raise Unsupported('z3 atom ' + op)


def zpoly(p, intok=True):
    """(z3 term, is_int). Integer-sorted iff all atoms are ints and all coefficients integral."""
    atoms = {i for m in p for i, _ in m}
    zs = {i: zatom(i) for i in atoms}
    isint = intok and all(z3.is_int(z) for z in zs.values()) and \
        all(isinstance(c, int) or c.denominator == 1 for c in p.values())
    if not isint:
        zs = {i: z3.ToReal(z) if z3.is_int(z) else z for i, z in zs.items()}
    terms = []
    for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0])):
        fs = []
        for i, e in m:
            fs.extend([zs[i]] * e)
        if not fs:
            terms.append(zconst(c, isint))
            continue
        t = fs[0] if len(fs) == 1 else z3.Product(*fs)
        if c != 1:
            t = zconst(c, isint) * t
        terms.append(t)
    if not terms:
        return zconst(0, isint), isint
    return (terms[0] if len(terms) == 1 else z3.Sum(*terms)), isint


def znum(x):
    """z3 term of a number without denominators, otherwise via division."""
    if not isn(x):
        i = isinstance(x, int) or x.denominator == 1
        return zconst(x, i), i
    n = nf(x)
    t, i = zpoly(n.num)
    if n.den:
        if i:
            t = z3.ToReal(t)
        d = None
        for key, e in n.den.items():
            f, fi = zpoly(fpoly(key), intok=False)
            for _ in range(e):
                d = f if d is None else d * f
        # definitional quotient
        q = z3.Real('q!%d' % x.id)
        SP.defs.append(q * d == t)
        return q, False
    return t, i


OPS = {'<': lambda a: a < 0, '<=': lambda a: a <= 0, '>': lambda a: a > 0,
       '>=': lambda a: a >= 0, '==': lambda a: a == 0, '!=': lambda a: a != 0}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def zcmp0(n, op):
    """z3 formula for  n op 0  (n a normal form whose denominator is nonzero)."""
    num = n.num
    if op not in ('==', '!='):
        for key, e in n.den.items():
            if e % 2:
                s = poly_sign(fpoly(key))
                if s in ('+', '>='):
                    continue
                if s in ('-', '<='):
                    op = FLIP[op]
                    continue
                num = pmul(num, fpoly(key))
    # scale to integer coefficients
    l = 1
    g = 0
    for c in num.values():
        f = Fraction(c)
        l = l * f.denominator // math.gcd(l, f.denominator)
    if l.bit_length() < 3000:
        num = {m: norm_num(c * l) for m, c in num.items()}
        for c in num.values():
            g = math.gcd(g, int(c))
        if g > 1:
            num = {m: c // g for m, c in num.items()}
    t, _ = zpoly(num)
    return OPS[op](t)


def decide_sign(s, op):
    """Truth of (x op 0) given a sign string, or None."""
    tab = {'0': {'<': False, '<=': True, '>': False, '>=': True, '==': True, '!=': False},
           '+': {'<': False, '<=': False, '>': True, '>=': True, '==': False, '!=': True},
           '-': {'<': True, '<=': True, '>': False, '>=': False, '==': False, '!=': True},
           '>=': {'<': False, '>=': True}, '<=': {'>': False, '<=': True}}
    return tab.get(s, {}).get(op)


def cmp(a, op, b):
    """Python bool or z3 BoolRef for a op b."""
    if not isn(a) and not isn(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if isn(a) and a is b:
        return op in ('<=', '>=', '==')
    al, ah = rng(a)
    bl, bh = rng(b)
    s = None
    if ah is not None and bl is not None and ah < bl:
        s = '-'
    elif al is not None and bh is not None and al > bh:
        s = '+'
    elif ah is not None and bl is not None and ah <= bl:
        s = '<='
    elif al is not None and bh is not None and al >= bh:
        s = '>='
    if s:
        r = decide_sign(s, op)
        if r is not None:
            return r
    n = nf(sub(a, b))
    c = nf_is_const(n)
    if c is not None:
        return cmp(c, op, 0)
    s = nf_sign(n)
    if s:
        r = decide_sign(s, op)
        if r is not None:
            return r
    return zcmp0(n, op)


def nf_sign(n):
    s = poly_sign(n.num, use_solver=False)
    if s in (None, '0'):
        return s
    for key, e in n.den.items():
        if e % 2:
            f = poly_sign(fpoly(key))
            if f in ('+', '>='):      # nonzero on this path
                continue
            if f in ('-', '<='):
                s = {'+': '-', '-': '+', '>=': '<=', '<=': '>='}[s]
                continue
            return None
    return s


def is_zero(x):
    """Decided emptiness of the normal form (no solver)."""
    if not isn(x):
        return x == 0
    return not nf(x).num


def zraw(x, cache):
    """z3 term of a node translated operation by operation (no normal form), or None."""
    if not isn(x):
        return zconst(x, False)
    if x.id in cache:
        return cache[x.id]
    op, a = x.op, x.args
    if op == 'var':
        r = z3.ToReal(x._z) if x.isint else x._z
    elif op in ('add', 'mul', 'div'):
        u, v = zraw(a[0], cache), zraw(a[1], cache)
        r = None if u is None or v is None else u + v if op == 'add' else u * v if op == 'mul' else u / v
    elif op == 'ite':
        u, v = zraw(a[1], cache), zraw(a[2], cache)
        r = None if u is None or v is None else z3.If(a[0], u, v)
    else:
        r = None
    cache[x.id] = r
    return r


def evalnum(x, env, cache=None):
    """Evaluate a node with concrete inputs (floats / ints) for sanity checks."""
    if not isn(x):
        return x
    cache = {} if cache is None else cache
    if x.id in cache:
        return cache[x.id]
    op, a = x.op, x.args
    if op == 'var':
        r = env[a[0]]
    elif op == 'add':
        r = evalnum(a[0], env, cache) + evalnum(a[1], env, cache)
    elif op == 'mul':
        r = evalnum(a[0], env, cache) * evalnum(a[1], env, cache)
    elif op == 'div':
        r = evalnum(a[0], env, cache) / evalnum(a[1], env, cache)
    else:
        raise Unsupported('eval')
    cache[x.id] = r
    return r
