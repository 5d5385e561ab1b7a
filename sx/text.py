"""Symbolic numbers in text: opaque markers that the number parsers recognise."""
import re
from fractions import Fraction
from . import sym, core
from .sym import Sym, mk, lift, isconst, kind, nonfinite

_SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?\Z')


def _sig_round(s, digits):
    """Value rounded to `digits` significant digits."""
    e = s.e
    if not isconst(e):
        if sym.decide(core.cmp(e, '==', 0)):
            return mk(0, float)
        a = sym.s_abs(s)
        k = sym.floor_log10(a.e)
        return sym.s_round(mk(e, float), digits - 1 - k)
    return s


def apply_type(s, prec, typ):
    """The symbolic number whose decimal text python would print."""
    if nonfinite(s.e):
        return s
    if typ in ('d', 'i', 'u'):
        return sym.cast(s, int)
    if typ in ('f', 'F'):
        p = 6 if prec is None else prec
        r = sym.s_round(mk(sym.num(s.e), float), p)
        return r if p else mk(r.e, int)
    if typ in ('e', 'E'):
        return _sig_round(s, (6 if prec is None else prec) + 1)
    if typ in ('g', 'G') or (typ is None and prec is not None):
        return _sig_round(s, max(1, 6 if prec is None else prec))
    if typ == '%':
        return sym.s_round(sym.s_mul(s, mk(100, int)), 6 if prec is None else prec)
    return s


def fmt(s, spec):
    m = _SPEC.match(spec or '')
    if m is None:
        raise ValueError('Invalid format specifier')
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    if isconst(s.e):
        e = s.e
        if nonfinite(e) or kind(s.dt) == 'f':
            return format(float(e), spec)
        return format(int(e) if kind(s.dt) != 'b' else bool(e), spec)
    if typ == 's':
        raise ValueError("Unknown format code 's' for object of type 'float'")
    if typ == 'd' and kind(s.dt) == 'f':
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    t = str(apply_type(s, None if prec is None else int(prec), typ))
    return t.ljust(int(width)) if width and align == '<' else t


_PCT = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def has_sym(x):
    if isinstance(x, Sym):
        return not isconst(x.e) or True
    if isinstance(x, tuple):
        return any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(isinstance(y, Sym) for y in x.values())
    return False


def percent(t, args):
    """t % args with symbolic numbers (t is a str)."""
    if not has_sym(args):
        return t % args
    seq = args if isinstance(args, tuple) else (args,)
    pos = [0]

    def rep(m):
        key, flags, width, prec, typ = m.groups()
        if typ == '%':
            return '%'
        if key:
            v = args[key]
        else:
            if pos[0] >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[pos[0]]
            pos[0] += 1
        if not isinstance(v, Sym):
            return m.group(0).replace('(%s)' % key if key else '', '') % v
        if typ in 'rsa':
            return str(v) if typ == 's' else repr(v)
        if isconst(v.e):
            c = float(v.e) if (nonfinite(v.e) or kind(v.dt) == 'f') else int(v.e)
            return ('%' + (flags or '') + (width or '') + ('.' + prec if prec else '') + typ) % c
        return str(apply_type(v, None if prec is None else int(prec), typ))
    out = _PCT.sub(rep, t)
    if not isinstance(args, dict) and pos[0] < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    return out


def modop(a, b):
    """Replacement for the % operator."""
    if isinstance(a, str):
        return percent(a, b)
    return a % b


def to_float(x):
    if isinstance(x, Sym):
        if kind(x.dt) == 'b':
            return mk(sym.num(x.e), float)
        return mk(x.e, float)
    if isinstance(x, str):
        m = sym.MARKFULL.match(x)
        if m:
            return mk(sym.PATH.from_marker(int(m.group(1))).e, float)
        if sym.MARK.search(x):
            # a sign or decimals glued to a marker
            t = x.strip()
            if t.startswith('-') and sym.MARKFULL.match(t[1:]):
                return sym.s_neg(to_float(t[1:]))
            raise ValueError('could not convert string to float: %r' % x)
        v = float(x)
        t = x.strip()
        try:
            return mk(core.norm_num(Fraction(t)), float)
        except ValueError:
            return lift(v)
    if hasattr(x, '_ldt'):
        if x.size != 1:
            raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
        return to_float(x.view(sym.np.ndarray).reshape(-1)[0])
    if isinstance(x, (int, float, sym.np.floating, sym.np.integer)):
        return lift(float(x))
    return float(x)


def to_int(x, base=None):
    if base is not None:
        return int(x, base)
    if isinstance(x, Sym):
        if kind(x.dt) == 'f':
            e = x.e
            if not nonfinite(e) and core.isn(e) and e.op == 'log10':
                # int(log10(x)): truncation toward zero
                f = sym.floor_log10(e.args[0])
                if f >= 0 or sym.decide(core.cmp(e.args[0], '==', core.norm_num(Fraction(10) ** f))):
                    return f
                return f + 1
            r = sym.cast(x, int)
        else:
            r = mk(sym.num(x.e), int)
        return r.e if isconst(r.e) else r
    if isinstance(x, str):
        m = sym.MARKFULL.match(x)
        if m:
            s = sym.PATH.from_marker(int(m.group(1)))
            if kind(s.dt) == 'f' or '.' in x:
                raise ValueError('invalid literal for int() with base 10: %r' % x)
            return mk(s.e, int)
        return int(x)
    if hasattr(x, '_ldt'):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return to_int(x.view(sym.np.ndarray).reshape(-1)[0])
    return int(x)
