"""One symbolic path: decisions, path condition, solver queries."""
import time
from fractions import Fraction
import z3
from . import core, sym
from .core import PathEnd, Unsupported

QUICK_MS = 400
SLOW_MS = 6000


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0

    def as_dict(self):
        return {'queries': self.queries, 'sat': self.sat, 'unsat': self.unsat,
                'unknown': self.unknown, 'solver_s': round(self.time, 3)}

    def merge(self, d):
        self.queries += d['queries']
        self.sat += d['sat']
        self.unsat += d['unsat']
        self.unknown += d['unknown']
        self.time += d['solver_s']


class Path(object):
    def __init__(self, prefix, stats, slow_ms=SLOW_MS):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.stats = stats
        self.slow_ms = slow_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', QUICK_MS)
        self.cons = []
        self.model = None
        self.model_ok = False
        self.known = {}
        self.keep = []
        self.notes = {}
        self.marks = []
        self.markid = {}
        self.undecided_branches = 0
        self.newdefs = False

    # ---------------------------------------------------------- solver access
    def flush(self):
        d = core.SP.defs
        if d:
            core.SP.defs = []
            for c in d:
                self.solver.add(c)
                self.cons.append(c)
            if self.model_ok:
                self._recheck(d)

    def _true_in_model(self, c):
        try:
            return z3.is_true(self.model.eval(c, model_completion=True))
        except z3.Z3Exception:
            return False

    def _recheck(self, cs):
        for c in cs:
            if not self._true_in_model(c):
                self.model_ok = False
                return

    def assert_(self, c):
        self.flush()
        self.solver.add(c)
        self.cons.append(c)
        if self.model_ok and not self._true_in_model(c):
            self.model_ok = False

    def query(self, extra=None, slow=None, want_model=True):
        """'sat' / 'unsat' / 'unknown' and a model."""
        self.flush()
        slow = self.slow_ms if slow is None else slow
        t = time.time()
        s = self.solver
        self.stats.queries += 1
        m = None
        try:
            if extra is not None:
                s.push()
                s.add(extra)
            r = s.check()
            if r == z3.sat:
                m = s.model()
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            if extra is not None:
                s.pop()
        if r == z3.unknown and slow:
            r, m = self._slow(extra, slow)
        self.stats.time += time.time() - t
        k = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        setattr(self.stats, k, getattr(self.stats, k) + 1)
        return k, m

    def _slow(self, extra, ms):
        cons = self.cons + ([extra] if extra is not None else [])
        # keep the part of the path condition connected to the query
        if extra is not None:
            cons2 = relevant(self.cons, extra) + [extra]
        else:
            cons2 = cons
        for k, frac in (('nlsat', 0.35), ('default', 0.35), ('full', 0.3)):
            try:
                if k == 'nlsat':
                    s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
                    use = cons2
                elif k == 'default':
                    s = z3.SolverFor('QF_NRA') if not any_int(cons2) else z3.SimpleSolver()
                    use = cons2
                else:
                    s = z3.Solver()
                    use = cons
                s.set('timeout', max(200, int(ms * frac)))
                for c in use:
                    s.add(c)
                r = s.check()
                if r == z3.unsat:
                    return r, None
                if r == z3.sat:
                    if use is cons or len(use) == len(cons):
                        return r, s.model()
                    # complete the model on the full condition
                    m = s.model()
                    s2 = z3.Solver()
                    s2.set('timeout', max(200, int(ms * frac)))
                    for c in cons:
                        s2.add(c)
                    for d in m.decls():
                        if d.arity() == 0 and not d.name().startswith(('sq!', 'fl!', 'uf!', 'q!', 'k!')):
                            v = m[d]
                            if z3.is_rational_value(v) or z3.is_int_value(v):
                                s2.add(d() == v)
                    if s2.check() == z3.sat:
                        return z3.sat, s2.model()
                    # a counterexample without a full model is unknown
            except z3.Z3Exception:
                pass
        return z3.unknown, None

    def get_model(self):
        if not self.model_ok:
            r, m = self.query()
            if r == 'unsat':
                raise PathEnd('infeasible')
            if r == 'sat':
                self.model, self.model_ok = m, True
        return self.model if self.model_ok else None

    # ---------------------------------------------------------- decisions
    def decide(self, c):
        if isinstance(c, bool):
            return c
        neg = False
        while z3.is_not(c):
            c = c.arg(0)
            neg = not neg
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c) != neg
        k = self.known.get(c.get_id())
        if k is not None:
            return k != neg
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            if v in ('T', 'F'):
                self._take(c, v == 'T', forced=True)
                return (v == 'T') != neg
            self._take(c, v)
            return v != neg
        self.flush()
        mod = self.get_model()
        if mod is not None:
            side = self._true_in_model(c)
            r, _ = self.query(z3.Not(c) if side else c)
            if r == 'unsat':
                # forced: not a decision, but recorded so that the replay needs no query
                self.trace.append('T' if side else 'F')
                self.pos += 1
                self._take(c, side, forced=True)
                return side != neg
            if r == 'unknown':
                self.undecided_branches += 1
        else:
            r1, m1 = self.query(c)
            if r1 == 'sat':
                self.model, self.model_ok = m1, True
            side = r1 != 'unsat'
            r = 'unsat'
            if side:
                r, _ = self.query(z3.Not(c))
            if r == 'unsat':
                self.trace.append('T' if side else 'F')
                self.pos += 1
                self._take(c, side, forced=True)
                return side != neg
        self.alts.append(self.trace + [not side])
        self.trace.append(side)
        self.pos += 1
        self._take(c, side)
        return side != neg

    def decide_zero(self, c):
        """Is a denominator zero?  Undecidable ones are taken as not zero, and noted."""
        c0 = c
        while z3.is_not(c0):
            c0 = c0.arg(0)
        if z3.is_true(c0) or z3.is_false(c0) or c0.get_id() in self.known or self.pos < len(self.prefix):
            return self.decide(c)
        self.flush()
        k, m = self.query(c, slow=1500)
        if k == 'sat':
            return self.decide(c)
        if k == 'unknown':
            self.note('denominator of undecided sign taken as not zero')
        # never zero: recorded so that the replay needs no query
        self.trace.append('T' if c0 is not c else 'F')
        self.pos += 1
        self._take(c0, c0 is not c, forced=True)
        return False

    def _take(self, c, v, forced=False):
        self.known[c.get_id()] = v
        self.keep.append(c)
        if not forced:
            self.assert_(c if v else z3.Not(c))

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # replayed decisions store the answer
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            return v
        self.flush()
        if self.model_ok and self._true_in_model(c):
            r = 'sat'
        else:
            r, _ = self.query(c)
        v = r != 'unsat'
        self.trace.append(v)
        self.pos += 1
        return v

    def concretize(self, e):
        if not core.isn(e):
            return int(e)
        if not e.isint and e.op not in ('floor',):
            raise Unsupported('concretize a real')
        n = 0
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(v)
            else:
                if e.lo is not None and e.hi is not None and e.hi - e.lo <= 64:
                    v = int(e.lo) + n
                    if v > e.hi:
                        raise PathEnd('infeasible')
                else:
                    mod = self.get_model()
                    if mod is None:
                        raise Unsupported('concretize without a model')
                    self.flush()
                    z, _ = core.znum(e)
                    self.flush()
                    mod = self.get_model()
                    t = mod.eval(z, model_completion=True)
                    v = t.as_long() if z3.is_int_value(t) else int(Fraction(str(t)))
                self.trace.append(v)
                self.pos += 1
            c = core.cmp(e, '==', v)
            if self.decide(c):
                return v
            n += 1
            if n > 5000:
                raise Unsupported('concretize: too many values')

    def concrete_float(self, e):
        if not core.isn(e):
            return float(e)
        raise Unsupported('float() of a symbolic number outside the model')

    # ---------------------------------------------------------- notes and markers
    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def marker(self, s):
        k = len(self.marks)
        key = (id(s.e), str(s.dt)) if core.isn(s.e) else None
        if key is not None and key in self.markid:
            k = self.markid[key]
        else:
            self.marks.append(s)
            if key is not None:
                self.markid[key] = k
        return 'SX%dXS' % k

    def from_marker(self, k):
        return self.marks[k]


_VARS = {}


def vars_of(c):
    key = c.get_id()
    got = _VARS.get(key)
    if got is not None and got[0] is not None:
        return got[1]
    out = set()
    seen = set()
    st = [c]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            st.extend(x.children())
    _VARS[key] = (c, out)
    if len(_VARS) > 200000:
        _VARS.clear()
    return out


def relevant(cons, extra):
    want = set(vars_of(extra))
    rest = list(cons)
    out = []
    ch = True
    while ch:
        ch = False
        nxt = []
        for c in rest:
            v = vars_of(c)
            if v & want:
                out.append(c)
                if not v <= want:
                    want |= v
                    ch = True
            else:
                nxt.append(c)
        rest = nxt
    return out


def any_int(cons):
    seen = set()
    st = list(cons)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(x) and not z3.is_int_value(x):
            return True
        st.extend(x.children())
    return False


def model_value(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return core.norm_num(v.as_fraction())
    if z3.is_algebraic_value(v):
        return core.norm_num(v.approx(20).as_fraction())
    raise Unsupported('model value %s' % v)
