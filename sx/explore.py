"""Exploration of all paths of a harness, obligations, replay, and the process pool."""
import importlib
import json
import math
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction
import z3
from . import core, sym, load, state
from .core import PathEnd, Unsupported
from .ctx import SymCtx, ConCtx, Ambiguous, Fail
from .path import Path, Stats, model_value, vars_of

PATH_S = 100


class TooLong(BaseException):
    pass


def _alarm(*a):
    raise TooLong()


class Candidate(BaseException):
    """A confirmed violation; stops the path."""


def enc(v):
    if isinstance(v, Fraction):
        return '%d/%d' % (v.numerator, v.denominator)
    return v


def dec(v):
    if isinstance(v, str) and '/' in v:
        return Fraction(v)
    return v


class Result(object):
    def __init__(self):
        self.stats = Stats()
        self.d = {'paths': 0, 'infeasible': 0, 'obligations': 0, 'nf': 0, 'solver': 0, 'undecided': 0,
                  'branches': 0, 'unknown_branches': 0, 'validated': 0, 'ambiguous': 0, 'unsupported': 0,
                  'timeouts': 0, 'concolic': 0, 'nf_confirmed': 0, 'nf_unknown': 0, 'nf_refuted': 0, 'max_decisions': 0}
        self.violations = []
        self.unconfirmed = []
        self.unsup = {}
        self.undec = {}
        self.notes = {}
        self.funcs = set()
        self.samples = []
        self.frontier = []
        self.mismatch = []
        self.opc = 0


class Runner(object):
    def __init__(self, prop, cfg, pkg, tier, seed):
        self.prop = prop
        self.cfg = cfg
        self.pkg = pkg
        self.keeper = pkg.keeper
        self.tier = tier
        self.seed = seed
        self.res = Result()
        self.failed = set()
        self.confirm_s = 3.0 if tier == 'quick' else 20.0
        sym.EXACT64 = getattr(prop, 'EXACT64', False)
        self.slow_ms = getattr(prop, 'SLOW_MS', 6000 if tier == 'quick' else 30000)
        self.maxval = 12 if tier == 'quick' else 40

    # ------------------------------------------------------------ obligations
    def obligation(self, ctx, label, c, detail=''):
        r = self.res.d
        r['obligations'] += 1
        if c is True:
            r['nf'] += 1
            return
        if c is False:
            ctx.path.flush()
            m = ctx.path.get_model()
            if m is None:
                self.undecided(label, 'violating path of unknown feasibility')
            else:
                self.counterexample(ctx, label, m, detail, None)
            raise PathEnd('failed')
        k, m = ctx.path.query(z3.Not(c), slow=self.slow_ms)
        if k == 'unsat':
            r['solver'] += 1
            return
        if k == 'unknown':
            self.undecided(label, 'solver unknown')
            return
        if not self.counterexample(ctx, label, m, detail, z3.Not(c)):
            self.undecided(label, 'counterexample not reproduced')
        raise PathEnd('failed')

    def equal(self, ctx, label, a, b, rel, tol):
        r = self.res.d
        r['obligations'] += 1
        if a is b or (not core.isn(a) and not core.isn(b)):
            ok = a is b or a == b or abs(a - b) <= rel * max(abs(a), abs(b)) * Fraction(1, 1000) + Fraction(1, 10 ** 12)
            if ok:
                r['nf'] += 1
                return
            m = ctx.path.get_model()
            if m is None or not self.counterexample(ctx, label, m, 'got %s, expected %s' % (a, b), None):
                self.undecided(label, 'counterexample not reproduced')
            raise PathEnd('failed')
        d = core.sub(a, b)
        n = core.nf(d)
        if not n.num or noise(n, a, b):
            r['nf'] += 1
            if not n.num and len(self.pairs) < 400:
                self.pairs.append((a, b))
            return
        c = core.cmp(a, '==', b)
        if c is True:
            r['nf'] += 1
            return
        if c is False:
            m = ctx.path.get_model()
            if m is None or not self.counterexample(ctx, label, m, 'values always differ', None):
                self.undecided(label, 'counterexample not reproduced')
            raise PathEnd('failed')
        k, m = ctx.path.query(z3.Not(c), slow=self.slow_ms)
        if k == 'unsat':
            r['solver'] += 1
            return
        if k == 'sat' and self.counterexample(ctx, label, m, 'values differ', z3.Not(c)):
            raise PathEnd('failed')
        # look for a difference that is visible in floating point
        for marg in (Fraction(1), Fraction(1, 20), Fraction(1, 1000)):
            z = sym.zor(core.cmp(d, '>', marg), core.cmp(d, '<', -marg))
            if z is False:
                continue
            k2, m2 = (k, m) if z is True else ctx.path.query(z, slow=self.slow_ms // 2)
            if k2 == 'sat' and m2 is not None and self.counterexample(ctx, label, m2, 'values differ', z if z is not True else None):
                raise PathEnd('failed')
            if k2 == 'unsat' and marg == Fraction(1, 1000) and tol >= 1e-3:
                r['solver'] += 1
                return
        if k == 'sat' and self.generic(ctx, label, z3.Not(c)):
            raise PathEnd('failed')
        self.undecided(label, 'solver unknown' if k == 'unknown' else 'difference not reproduced concretely')

    def generic(self, ctx, label, extra):
        """The difference comes with rounding of a narrow type: ask the solver for models with generic large inputs."""
        if not any(n.startswith('rounding:') for n in ctx.path.notes):
            return False
        rnd = random.Random(len(label))
        ins = [(n, nd) for n, nd in ctx.inputs.items() if nd.lo is not None and nd.hi is not None]
        s = z3.Solver()
        s.set('timeout', 500)
        for c in ctx.path.cons:
            s.add(c)
        s.add(extra)
        end = time.time() + 6

        def value(nd):
            lo, hi = Fraction(nd.lo), Fraction(nd.hi)
            v = lo + (hi - lo) * Fraction(rnd.randint(0, 1000), 1000)
            return z3.IntVal(int(v)) if nd.isint else z3.RealVal('%d/%d' % (v.numerator, v.denominator))
        for k in range(4):
            s.push()
            for n, nd in ins:
                s.add(nd._z == value(nd))
            ok = s.check() == z3.sat
            m = s.model() if ok else None
            s.pop()
            if not ok:
                # one input after the other
                s.push()
                rnd.shuffle(ins)
                for n, nd in ins:
                    if time.time() > end:
                        break
                    s.push()
                    s.add(nd._z == value(nd))
                    if s.check() == z3.sat:
                        m = s.model()
                    else:
                        s.pop()
                while s.num_scopes():
                    s.pop()
            if m is not None and self.counterexample(ctx, label, m, 'values differ by rounding', None):
                return True
            if time.time() > end:
                break
        return False

    def undecided(self, label, why):
        self.res.d['undecided'] += 1
        k = '%s: %s' % (label_key(label), why)
        self.res.undec[k] = self.res.undec.get(k, 0) + 1

    def values(self, ctx, m):
        vals = {}
        for name, nd in ctx.inputs.items():
            vals[name] = model_value(m, nd._z)
        return vals

    def pin(self, ctx, m, extra):
        """A model with short decimal inputs (greedy), for a faithful replay."""
        p = ctx.path
        reals = [(n, nd) for n, nd in ctx.inputs.items() if not nd.isint]
        if not reals or len(reals) > 60:
            return None
        s = z3.Solver()
        s.set('timeout', 300)
        for c in p.cons:
            s.add(c)
        if extra is not None:
            s.add(extra)
        end = time.time() + 4
        cur = m
        for n, nd in reals:
            if time.time() > end:
                return None
            v = Fraction(model_value(cur, nd._z))
            done = False
            for q in (1, 4, 64, 4096):
                w = Fraction(round(v * q), q)
                s.push()
                s.add(nd._z == z3.RealVal(str(w)))
                if s.check() == z3.sat:
                    cur = s.model()
                    done = True
                    break
                s.pop()
            if not done:
                s.add(nd._z == z3.RealVal(str(v)))
                if s.check() != z3.sat:
                    return None
                cur = s.model()
        return cur

    def counterexample(self, ctx, label, m, detail, extra):
        key = label_key(label)
        if key in self.failed:
            return True
        tries = []
        try:
            tries.append(self.values(ctx, m))
        except Unsupported:
            pass
        try:
            pm = self.pin(ctx, m, extra)
            if pm is not None:
                tries.insert(0, self.values(ctx, pm))
        except (Unsupported, z3.Z3Exception):
            pass
        for vals in tries:
            out = run_concrete(self.prop, self.cfg, vals, protect=False)
            if out[0] == 'fail':
                self.failed.add(key)
                self.res.violations.append({
                    'label': label, 'key': key, 'concrete_label': out[1], 'detail': detail,
                    'observed': str(out[2])[:600], 'cfg': self.cfg, 'values': {k: enc(v) for k, v in vals.items()},
                    'protect': False})
                return True
        if tries:
            self.res.unconfirmed.append({'label': label, 'detail': str(detail)[:300], 'cfg': self.cfg.get('name'),
                                         'values': {k: enc(v) for k, v in tries[0].items()}, 'replay': [str(x)[:200] for x in out]})
        return False

    # ------------------------------------------------------------ one path
    def run_path(self, prefix, profile=False):
        res = self.res
        core.reset()
        self.keeper.fresh()
        self.pairs = []
        path = Path(prefix, res.stats, slow_ms=min(self.slow_ms, 4000))
        sym.set_path(path)
        ctx = SymCtx(self.cfg, path, self.pkg, self)
        status = 'ok'
        err = None
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, getattr(self.prop, 'PATH_S', PATH_S))
        if profile:
            sys.setprofile(self._prof)
        try:
            self.prop.harness(ctx, self.cfg)
        except PathEnd as e:
            status = 'end:' + str(e)
        except Unsupported as e:
            status, err = 'unsupported', e
            tb = traceback.extract_tb(e.__traceback__)
            inner = [f for f in tb if 'emva1288' in f.filename]
            at = ' at %s:%s' % (os.path.basename(inner[-1].filename), inner[-1].name) if inner else ''
            k = 'Unsupported: %s%s' % (str(e)[:120], at)
            res.unsup[k] = res.unsup.get(k, 0) + 1
        except TooLong:
            status = 'timeout'
        except Candidate:
            status = 'end:failed'
        except RecursionError as e:
            status, err = 'unsupported', e
            res.unsup['RecursionError'] = res.unsup.get('RecursionError', 0) + 1
        except Exception as e:
            status, err = 'exception', e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if profile:
                sys.setprofile(None)
            ctx.close()
        r = res.d
        for k, v in path.notes.items():
            res.notes[k] = res.notes.get(k, 0) + v
        r['branches'] += len(path.trace)
        r['unknown_branches'] += path.undecided_branches
        r['max_decisions'] = max(r['max_decisions'], len(path.trace))
        try:
            if status in ('end:infeasible', 'end:assume'):
                r['infeasible'] += 1
                return path.alts
            r['paths'] += 1
            if status == 'timeout':
                r['timeouts'] += 1
                self.undecided('path', 'time limit')
                return path.alts
            if status == 'exception':
                self.exception(ctx, err)
                return path.alts
            if status == 'unsupported':
                r['unsupported'] += 1
                self.concolic(ctx, path)
                return path.alts
            if status == 'ok':
                self.confirm(path)
                self.validate(ctx, path)
        except PathEnd:
            pass
        except TooLong:
            pass
        return path.alts

    def confirm(self, path):
        """Have z3 re-decide equalities the normal form closed, on unsimplified terms."""
        r = self.res.d
        if self.confirm_s <= 0 or not self.pairs:
            return
        t0 = time.time()
        cache = {}
        s = z3.Solver()
        s.set('timeout', 300)
        path.flush()
        for c in path.cons:
            s.add(c)
        for a, b in self.pairs:
            if time.time() - t0 > min(1.0, self.confirm_s):
                break
            za, zb = core.zraw(a, cache), core.zraw(b, cache)
            if za is None or zb is None:
                continue
            s.push()
            s.add(za != zb)
            k = s.check()
            self.res.stats.queries += 1
            if k == z3.unsat:
                r['nf_confirmed'] += 1
                self.res.stats.unsat += 1
            elif k == z3.sat:
                r['nf_refuted'] += 1
                self.undecided('normal form', 'z3 disagrees with the normal form')
            else:
                r['nf_unknown'] += 1
                self.res.stats.unknown += 1
            s.pop()
        d = time.time() - t0
        self.confirm_s -= d
        self.res.stats.time += d

    def _prof(self, frame, event, arg):
        if event == 'call':
            f = frame.f_code
            if f.co_filename.startswith(self.pkg.root):
                self.res.funcs.add('%s:%s' % (os.path.relpath(f.co_filename, self.pkg.root), f.co_qualname))

    def exception(self, ctx, err):
        r = self.res.d
        r['obligations'] += 1
        tb = traceback.extract_tb(err.__traceback__)
        at = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        label = 'uncaught %s' % type(err).__name__
        detail = '%s: %s (%s)' % (type(err).__name__, err, ' '.join(at))
        m = ctx.path.get_model()
        if m is None or not self.counterexample(ctx, label, m, detail, None):
            self.undecided(label, 'not reproduced: ' + detail[:200])

    def validate(self, ctx, path):
        """Replay the path's witness on the real code (engine against implementation)."""
        r = self.res.d
        n = r['paths']
        if n > self.maxval and (n & (n - 1)) and n % 50:
            return
        m = path.get_model()
        if m is None:
            return
        try:
            vals = self.values(ctx, m)
        except Unsupported:
            return
        vals = self.spread(ctx, path, vals)
        if len(self.res.samples) < 3:
            self.res.samples.append({'config': self.cfg.get('name'), 'inputs': {k: str(enc(v)) for k, v in list(vals.items())[:12]},
                                     'checks': ctx.nchecks})
        out = run_concrete(self.prop, self.cfg, dict(vals), protect=True)
        if out[0] == 'ok':
            r['validated'] += 1
        elif out[0] == 'fail':
            self.real_failure(vals, out, 'path witness')
        else:
            r['ambiguous'] += 1
            k = 'witness skipped: %s' % out[1]
            self.res.notes[k] = self.res.notes.get(k, 0) + 1

    def spread(self, ctx, path, vals):
        """Move real inputs to generic interior values when the path still accepts them."""
        reals = [(n, nd) for n, nd in ctx.inputs.items() if not nd.isint and nd.lo is not None and nd.hi is not None]
        if not reals or len(reals) > 40:
            return vals
        rnd = random.Random(self.res.d['paths'])
        s = z3.Solver()
        s.set('timeout', 200)
        for c in path.cons:
            s.add(c)
        out = dict(vals)
        end = time.time() + 1.2
        cur = None
        # first away from the boundary of every constraint
        inner = [x for c in path.cons if len(vars_of(c)) > 1 for x in interior(c)]
        if len(inner) <= 120:
            s.set('timeout', 400)
            s.push()
            for x in inner:
                s.add(x[1])
            if s.check() == z3.sat:
                cur = s.model()
            else:
                s.pop()
                s.set('timeout', 80)
                for x in inner:
                    if time.time() > end - 0.4:
                        break
                    for y in x:
                        s.push()
                        s.add(y)
                        if s.check() == z3.sat:
                            cur = s.model()
                            break
                        s.pop()
            s.set('timeout', 200)
            if cur is not None:
                try:
                    out.update(self.values(ctx, cur))
                except Unsupported:
                    pass
        for n, nd in reals:
            if time.time() > end:
                break
            lo, hi = Fraction(nd.lo), Fraction(nd.hi)
            for k in range(2):
                f = Fraction(rnd.randint(50, 950), 1000)
                v = Fraction(out[n]) if k else lo + (hi - lo) * f
                if k:
                    # nearby generic value
                    v = v + (hi - lo) * Fraction(rnd.randint(-999, 999), 100000)
                    if not lo <= v <= hi:
                        continue
                v = Fraction(round(v * 10 ** 6), 10 ** 6) if hi - lo > Fraction(1, 100) else v
                s.push()
                s.add(nd._z == z3.RealVal('%d/%d' % (v.numerator, v.denominator)))
                if s.check() == z3.sat:
                    cur = s.model()
                    break
                s.pop()
        if cur is None:
            return vals
        try:
            return self.values(ctx, cur)
        except Unsupported:
            return vals

    def real_failure(self, vals, out, how):
        """The real code fails a property on a solver-generated input the encoding accepted."""
        key = label_key(out[1])
        if key in self.failed:
            return
        # must survive without tie protection as well
        out2 = run_concrete(self.prop, self.cfg, dict(vals), protect=False)
        if out2[0] != 'fail':
            self.res.d['ambiguous'] += 1
            return
        self.failed.add(key)
        self.res.violations.append({
            'label': out[1], 'key': key, 'concrete_label': out[1], 'detail': how, 'observed': str(out[2])[:600],
            'cfg': self.cfg, 'values': {k: enc(v) for k, v in vals.items()}, 'protect': True})

    def concolic(self, ctx, path):
        """The encoding does not reach the end of this path: run its model on the real code."""
        r = self.res.d
        m = path.get_model()
        base = {}
        if m is not None:
            try:
                base = self.spread(ctx, path, self.values(ctx, m))
            except Unsupported:
                base = {}
        rnd = random.Random(hash((self.seed, r['unsupported'])))
        lim = 6 if r['concolic'] < 60 else 0
        for k in range(lim):
            vals = dict(base)
            rng = rnd
            if k >= 2:
                for n, nd in ctx.inputs.items():
                    if rnd.random() < 0.5:
                        vals.pop(n, None)
            out = run_concrete(self.prop, self.cfg, vals, protect=True, rng=rng)
            r['concolic'] += 1
            if out[0] == 'fail':
                self.real_failure(out[3], out, 'concrete run on a path outside the encoding')
                return


def noise(n, a, b):
    """Difference that is only rounding noise of concrete constants."""
    if not core.isn(a) or n.den:
        return False
    na = core.nf(a)
    if na.den:
        return False
    big = max([abs(c) for c in na.num.values()] + [0])
    return all(abs(c) < big * Fraction(1, 10 ** 11) for c in n.num.values())


def interior(c):
    """Strengthened versions of an inequality over the reals (two margins)."""
    neg = False
    while z3.is_not(c):
        c = c.arg(0)
        neg = not neg
    if z3.is_and(c) and not neg or z3.is_or(c) and neg:
        out = []
        for x in c.children():
            out += interior(z3.Not(x) if neg else x)
        return out
    if not (z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c)):
        return []
    a, b = c.arg(0), c.arg(1)
    if not (z3.is_real(a) and z3.is_real(b)):
        return []
    if (z3.is_le(c) or z3.is_lt(c)) == neg:
        a, b = b, a
    # now a <= b
    return [[a + m <= b for m in (z3.RealVal('1/20'), z3.RealVal('1/2000'))]]


def label_key(label):
    out = []
    depth = 0
    for ch in label:
        if ch == '[':
            depth += 1
        elif ch == ']':
            depth -= 1
        elif not depth:
            out.append(ch)
    return ''.join(out)


REAL = state.Keeper(lambda: [m for n, m in sys.modules.items() if n.split('.')[0] == load.PKG and m is not None])


def run_concrete(prop, cfg, vals, protect=True, rng=None):
    """('ok'|'fail'|'skip', label, detail, used values)."""
    from . import ctx as ctxmod
    import numpy as np
    import warnings
    path = sym.PATH
    vals = dict(vals)
    REAL.fresh()
    c = ConCtx(cfg, vals, rng=rng, protect=protect)
    import random as rmod
    st = rmod.getstate()
    nst = np.random.get_state()
    so = sys.stdout
    try:
        sys.stdout = open(os.devnull, 'w')
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            prop.harness(c, cfg)
        return ('ok', None, None, c.used)
    except Fail as e:
        return ('fail', e.label, e.detail, c.used)
    except Ambiguous as e:
        tb = [f for f in traceback.extract_tb(e.__traceback__) if 'ctx.py' not in f.filename]
        return ('skip', 'ambiguous at %s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno), None, c.used)
    except PathEnd as e:
        return ('skip', str(e), None, c.used)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        return ('fail', 'uncaught %s' % type(e).__name__, '%s: %s (%s)' % (type(e).__name__, e, ' '.join(at)), c.used)
    finally:
        sys.stdout.close()
        sys.stdout = so
        c.close()
        rmod.setstate(st)
        np.random.set_state(nst)
        sym.set_path(path)


# ---------------------------------------------------------------- worker pool
_G = {}


def work(task):
    """Explore from a list of prefixes for a slice of time."""
    idx, prefixes, slice_s, first = task
    prop, cfgs, pkg, tier, seed, deadline = (_G[k] for k in ('prop', 'cfgs', 'pkg', 'tier', 'seed', 'deadline'))
    run = Runner(prop, cfgs[idx], pkg, tier, seed)
    stack = list(prefixes)
    t0 = time.time()
    t1 = min(t0 + slice_s, deadline)
    err = None
    try:
        while stack and not _G['stop'].value and (time.time() < t1 or (first and run.res.d['paths'] + run.res.d['infeasible'] == 0)):
            p = stack.pop()
            alts = run.run_path(p, profile=first and run.res.d['paths'] < 3)
            stack.extend(alts)
            if len(run.res.violations) >= 3:
                break
    except Exception:
        err = traceback.format_exc()
    r = run.res
    return (idx, stack, r.d, r.stats.as_dict(), r.violations, r.unconfirmed, r.unsup, r.undec, r.notes,
            sorted(r.funcs), r.samples, time.time() - t0, err)


def explore(prop, cfgs, pkg, tier, seed, budget, nproc=8, isknown=lambda v: False):
    deadline = time.time() + budget
    stop = multiprocessing.get_context('fork').Value('i', 0)
    _G.update(prop=prop, cfgs=cfgs, pkg=pkg, tier=tier, seed=seed, deadline=deadline, stop=stop)
    total = Result()
    per = [{'name': c.get('name'), 'paths': 0, 'left': 0, 'time': 0.0, 'undecided': 0, 'obligations': 0, 'unsupported': 0}
           for c in cfgs]
    errors = []
    queue = [(i, [[]], 3.0, True) for i in range(len(cfgs))]
    if nproc == 1:
        while queue:
            t = queue.pop(0)
            _absorb(total, per, errors, work(t), queue, deadline, 1)
    else:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(min(nproc, 8), maxtasksperchild=60) as pool:
            pend = []
            while queue or pend:
                if not stop.value and any(not isknown(v) for v in total.violations):
                    # one reproduced violation settles the verdict
                    stop.value = 1
                    per[0]['left'] += sum(len(t[1]) for t in queue)
                    queue = []
                while queue and len(pend) < nproc + 2:
                    pend.append(pool.apply_async(work, (queue.pop(0),)))
                done = [p for p in pend if p.ready()]
                if not done:
                    if time.time() > deadline + 150:
                        errors.append('workers did not finish')
                        pool.terminate()
                        break
                    time.sleep(0.02)
                    continue
                for p in done:
                    pend.remove(p)
                    _absorb(total, per, errors, p.get(), queue, deadline, nproc - len(pend))
    return total, per, errors


def _absorb(total, per, errors, out, queue, deadline, idle):
    idx, stack, d, st, viol, unconf, unsup, undec, notes, funcs, samples, secs, err = out
    for k, v in d.items():
        if k == 'max_decisions':
            total.d[k] = max(total.d[k], v)
        else:
            total.d[k] += v
    total.stats.merge(st)
    total.violations.extend(viol)
    total.unconfirmed.extend(unconf)
    for a, b in ((total.unsup, unsup), (total.undec, undec), (total.notes, notes)):
        for k, v in b.items():
            a[k] = a.get(k, 0) + v
    total.funcs.update(funcs)
    total.samples.extend(samples)
    p = per[idx]
    p['paths'] += d['paths']
    p['time'] += secs
    p['undecided'] += d['undecided']
    p['obligations'] += d['obligations']
    p['unsupported'] += d['unsupported']
    if err:
        errors.append('%s: %s' % (p['name'], err))
    if viol:
        p['left'] += len(stack)
        return
    if stack:
        if time.time() < deadline and not _G['stop'].value:
            n = max(1, min(len(stack), 4 if len(queue) < 8 else 1))
            for k in range(n):
                part = stack[k::n]
                if part:
                    queue.append((idx, part, 6.0, False))
        else:
            p['left'] += len(stack)
