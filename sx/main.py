"""Command line: python -m sx.main C01 [--tier quick|thorough]; python -m sx.main --replay FILE."""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.execv(sys.executable, [sys.executable, '-m', 'sx.main'] + sys.argv[1:])
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
import argparse
import hashlib
import importlib
import json
import logging
import shutil
import subprocess
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('SX_SRC', '/repo/src')
EVID = os.environ.get('SX_EVID') or os.path.join(HERE, 'evidence')


def load_prop(pid):
    sys.path.insert(0, HERE)
    return importlib.import_module('props.' + pid)


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.isfile(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                f = dict(x.split('=', 1) for x in line.split(' :: ')[0].split()[1:] if '=' in x)
                f['text'] = line.split(' :: ', 1)[1] if ' :: ' in line else line
                out.append(f)
    return out


def replay(path):
    from . import explore
    with open(path) as f:
        r = json.load(f)
    prop = load_prop(r['property'])
    logging.disable(logging.CRITICAL)
    out = explore.run_concrete(prop, r['cfg'], {k: explore.dec(v) for k, v in r['values'].items()}, protect=False)
    print('property %s: %s' % (r['property'], r['label']))
    print('inputs: %s' % json.dumps(r['values']))
    if out[0] == 'fail':
        print('REPRODUCED on the real code: %s: %s' % (out[1], out[2]))
        return 1
    print('not reproduced (%s)' % out[0])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--procs', type=int, default=8)
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    os.environ.setdefault('MPLCONFIGDIR', '/opt/mplconfig' if os.path.isdir('/opt/mplconfig') else tempfile.gettempdir())
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    logging.disable(logging.CRITICAL)
    from . import explore, load
    prop = load_prop(a.prop)
    pid = a.prop
    cfgs = list(prop.configs(a.tier))
    if a.only:
        cfgs = [c for c in cfgs if a.only in c['name']]
    evpath = os.path.join(EVID, pid + '.json')
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    rpdir = os.path.join(EVID, 'replays', pid)
    shutil.rmtree(rpdir, ignore_errors=True)
    pkg = load.Package()
    loaderr = None
    for m in getattr(prop, 'MODULES', []):
        try:
            pkg.load('emva1288.' + m)
        except BaseException:
            loaderr = traceback.format_exc()
            break
    # the real package, loaded once before forking
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    violations = []
    broken = None
    try:
        for m in getattr(prop, 'MODULES', []):
            importlib.import_module('emva1288.' + m)
    except Exception as e:
        violations.append({'label': 'import', 'key': 'import', 'concrete_label': 'import', 'detail': 'the package does not import',
                           'observed': '%s: %s' % (type(e).__name__, e), 'cfg': {}, 'values': {}, 'protect': False})
    kn = known(pid)

    def isknown(v):
        return [f for f in kn if f.get('label') == v['key'].replace(' ', '_') and f.get('cfg', '*') in ('*', v['cfg'].get('name'))]
    budget = a.budget or (getattr(prop, 'BUDGET', 100) if a.tier == 'quick' else getattr(prop, 'BUDGET_T', 600))
    if not violations:
        total, per, errors = explore.explore(prop, cfgs, pkg, a.tier, seed, budget, a.procs, isknown)
        violations = total.violations
    else:
        total, per, errors = explore.Result(), [], []
    if loaderr:
        errors.append('symbolic load: ' + loaderr)
    fresh, knownhit = [], []
    seen = set()
    for v in violations:
        k = isknown(v)
        if k:
            knownhit.append((k[0], v))
        elif v['key'] not in seen:
            seen.add(v['key'])
            fresh.append(v)
    for f in {id(k): k for k, _ in knownhit}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['text']))
    out = []
    for i, v in enumerate(fresh):
        os.makedirs(rpdir, exist_ok=True)
        rp = os.path.join(rpdir, '%d.json' % i)
        with open(rp, 'w') as f:
            json.dump(dict(v, property=pid), f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  %s: %s' % (v['label'], v['detail']))
        print('  real code: %s: %s' % (v['concrete_label'], v['observed']))
        print('  inputs: %s' % json.dumps(v['values'], default=str)[:800])
        out.append({'property': pid, 'label': v['label'], 'replay': rp, 'observed': v['observed']})
    d = total.d
    left = sum(p['left'] for p in per)
    exhaustive = left == 0 and d['undecided'] == 0 and d['unsupported'] == 0 and d['timeouts'] == 0 and not errors
    srch = hashlib.sha256(json.dumps(pkg.hashes, sort_keys=True).encode()).hexdigest()[:16]
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
        'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'states': d['branches'] + d['paths'], 'transitions': d['branches'],
            'traces_validated_against_impl': d['validated'],
            'samples': total.samples[:12] or [{'note': 'no path completed'}],
            'exhaustive_within_bounds': bool(exhaustive),
            'technique': 'symbolic execution of the current /repo sources, z3 per branch and per assertion',
            'bounds': getattr(prop, 'BOUNDS', ''),
            'configurations': per,
            'functions_encoded': sorted(total.funcs),
            'source_hash': srch, 'sources': pkg.hashes,
            'paths': d['paths'], 'infeasible_paths': d['infeasible'], 'paths_left_unexplored': left,
            'obligations': d['obligations'],
            'obligations_discharged_by_normal_form': d['nf'], 'obligations_discharged_by_solver': d['solver'],
            'normal_form_obligations_redecided_by_z3': {'unsat': d['nf_confirmed'], 'unknown': d['nf_unknown'], 'refuted': d['nf_refuted']},
            'obligations_undecided': d['undecided'], 'undecided': total.undec,
            'solver_queries': total.stats.queries, 'solver_sat': total.stats.sat, 'solver_unsat': total.stats.unsat,
            'solver_unknown': total.stats.unknown, 'solver_s': round(total.stats.time, 2),
            'path_time_limits': d['timeouts'],
            'outside_encoding': total.unsup, 'concrete_fallback_runs': d['concolic'],
            'witnesses_too_close_to_a_tie': d['ambiguous'],
            'unreproduced_candidates': total.unconfirmed[:5],
            'modelling_notes': total.notes,
            'vacuity': 'every configuration has at least one feasible completed path'
                       if per and all(p['paths'] for p in per) else
                       'configurations without a completed path: %s' % [p['name'] for p in per if not p['paths']],
            'engine_errors': [e[-2000:] for e in errors[:5]],
            'known_findings_seen': len(knownhit),
        },
        'assumptions': list(getattr(prop, 'ASSUME', [])) + [
            'float64 arithmetic is modelled as exact real arithmetic; integers of fixed width wrap',
            'numpy/scipy functions are replaced by their documented semantics (sx/npshim.py); every explored witness above was replayed on real numpy'],
        'violations': out,
    }
    with open(evpath + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(evpath + '.tmp', evpath)
    print('%s %s: %d configs, %d paths (%d infeasible, %d left), %d obligations (%d nf [%d by z3 too], %d solver, %d undecided), '
          '%d queries %.1fs solver, %d validated, %d ambiguous, %d unsupported, %d fallback runs, %.1fs' % (
              pid, a.tier, len(cfgs), d['paths'], d['infeasible'], left, d['obligations'], d['nf'], d['nf_confirmed'], d['solver'], d['undecided'],
              total.stats.queries, total.stats.time, d['validated'], d['ambiguous'], d['unsupported'], d['concolic'],
              time.time() - t0))
    for k, v in sorted(total.unsup.items()):
        print('  outside encoding: %s (%d)' % (k, v))
    for k, v in sorted(total.undec.items()):
        print('  undecided: %s (%d)' % (k, v))
    for u in total.unconfirmed[:3 if not a.v else 10]:
        print('  unreproduced: %s' % json.dumps(u, default=str)[:700])
    for e in errors[:3 if a.v else 1]:
        print('  engine error (%d): %s' % (len(errors), e[-700:]))
    if a.v:
        print('   ', total.notes)
        for p in per:
            print('   ', p)
    sys.exit(1 if fresh else 0)


if __name__ == '__main__':
    main()
