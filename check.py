#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  |  check.py --replay FILE

Generates the verification conditions of every contract of PROPERTY from the source in /repo, discharges them,
and replays what fails on the real code."""
import os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PY = '/opt/venv/bin/python'
if os.environ.get('VERIF_REEXEC') != '1':
    env = dict(os.environ, VERIF_REEXEC='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)

import json, time, tempfile, shutil, importlib, traceback, warnings, atexit
warnings.simplefilter('ignore')
SCRATCH = tempfile.mkdtemp(prefix='verif_check_')
os.environ['MPLCONFIGDIR'] = SCRATCH
os.environ['VERIF_SCRATCH'] = SCRATCH
sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')
_main_pid = os.getpid()
def _clean():
    if os.getpid() == _main_pid: shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_clean)
sys.path[:0] = [REPO, VERIF]
sys.setrecursionlimit(20000)

def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay': return replay(args[1])
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from contracts import registry
    from engine import runner
    contracts = registry.load(prop)
    helpers = []
    for c in contracts:
        for h in c.helpers:
            if h not in helpers: helpers.append(h)
    # stage 1: helper contracts (used at call sites only when verified in this run)
    tasks = []
    for h in helpers:
        for case in h.cases:
            tasks.append((('h', h.name, str(case)), (lambda h=h, case=case: runner.run_contract(h, case, 'quick', seed, ())), 300))
    hres = runner.pool(tasks, 300) if tasks else {}
    ok_helpers = set()
    for h in helpers:
        if all(hres[('h', h.name, str(case))].get('proved') and not hres[('h', h.name, str(case))].get('fails') for case in h.cases): ok_helpers.add(h.name)
    # stage 2
    tasks = []
    for c in contracts:
        for case in c.cases:
            if tier == 'quick' and case.get('_thorough'): continue
            tasks.append(((c.name, str(case)), (lambda c=c, case=case: runner.run_contract(c, case, tier, seed, ok_helpers)), 560 if tier == 'quick' else 3000))
    res = runner.pool(tasks, 560)
    return report(prop, tier, seed, contracts, helpers, hres, ok_helpers, res, t0)

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f)['findings']

def report(prop, tier, seed, contracts, helpers, hres, ok_helpers, res, t0):
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    viol = []; known = []
    byname = {c.name: c for c in contracts}
    kf = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'open']
    nobl = ndis = conc = checks = 0; paths = 0; symsec = 0.0
    functions = set(); z3t = 0.0; z3c = 0; bounded = []; assumptions = set(); details = []
    for key, r in list(hres.items()) + list(res.items()):
        is_helper = key[0] == 'h'
        name = key[1] if is_helper else key[0]
        if 'error' in r:
            details.append({'contract': name, 'error': r['error']})
            if is_helper: continue
            c = byname[name]
            viol.append((name, {'contract': name, 'case': key[-1], 'kind': 'no answer', 'error': r['error'], 'trace': r.get('trace')}, False))
            continue
        obls = r.get('obls', [])
        if is_helper and name not in ok_helpers:
            details.append({'helper': name, 'case': str(r.get('case')), 'used': False, 'why': r.get('unsupported') or 'not verified'}); continue
        nobl += len(obls); ndis += sum(1 for o in obls if o[1] == 'proved')
        paths += r.get('paths', 0); symsec += r.get('sym_sec', 0.0)
        conc += r.get('concrete', 0) or 0; checks += r.get('checks', 0) or 0
        functions |= set(r.get('inlined', [])); z3t += r.get('z3', {}).get('time', 0); z3c += r.get('z3', {}).get('calls', 0)
        assumptions |= set(r.get('assumptions', []) or [])
        d = {'contract': name, 'case': {k: str(v) for k, v in r['case'].items()}, 'obligations': len(obls), 'proved': bool(r.get('proved')), 'paths': r.get('paths'), 'seconds': round(r.get('sec', 0), 2), 'concrete_runs': r.get('concrete'), 'concrete_comparisons': r.get('checks')}
        if r.get('unsupported'): d['not_in_reach'] = r['unsupported']
        if r.get('bounded'): d['bounded'] = r.get('bound') or 'concrete runs only'; bounded.append(name)
        details.append(d)
        if is_helper: continue
        fails = []
        for f in r.get('fails', []):
            k = match_known(kf, name, f)
            if k is not None: known.append(k)
            else: fails.append(f)
        if fails:
            viol.append((name, {'contract': name, 'case': key[-1], 'kind': 'failing input', 'failures': fails, 'open_obligations': r.get('open'), 'not_in_reach': r.get('unsupported')}, True))
        elif not r.get('proved') and not r.get('bounded'):
            if match_known_obl(kf, name, r): continue
            viol.append((name, {'contract': name, 'case': key[-1], 'kind': 'obligation not discharged', 'open_obligations': r.get('open'), 'refuted_numerically': r.get('refuted'), 'not_in_reach': r.get('unsupported')}, False))
    lines = []
    seen = set()
    for k in known:
        if k['id'] in seen: continue
        seen.add(k['id'])
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for i, (name, info, found) in enumerate(sorted(viol, key=lambda v: not v[2])):
        path = os.path.join(rdir, '%s_%d.json' % (prop, i))
        info['property'] = prop; info['tier'] = tier
        info['how_to_replay'] = 'python3 /verif/check.py --replay %s' % path
        with open(path, 'w') as f: json.dump(info, f, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        if i >= 4: break
    # a failing input found anywhere makes the other alarms of this run redundant
    if any(v[2] for v in viol): lines = [l for l in lines if not l.endswith('no-failing-input-found')]
    lvl = registry_level(prop)
    nb = sum(1 for d in details if d.get('bounded'))
    trusted = ['VC generator and normaliser in /verif/engine (Python); cross-checked against CPython on %d runs of the real code in this run' % conc,
               'z3 %s for index arithmetic' % z3version(),
               'models of the numpy/scipy/builtin operations in /verif/engine/npmodel.py',
               'floating point treated as real arithmetic; identities hold where no denominator is zero']
    cov = {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (prop, tier), 'trusted_base': trusted,
           'functions_under_contract': sorted(set(f for c in contracts + helpers for f in c.functions)), 'functions_executed_symbolically': sorted(functions),
           'paths': paths, 'back_end': {'normaliser_seconds': round(symsec, 2), 'z3_calls': z3c, 'z3_seconds': round(z3t, 2)},
           'concrete_runs_of_real_code': conc, 'concrete_comparisons': checks, 'evaluations': conc, 'distinct_nontrivial': conc,
           'rule': 'generated inputs satisfying the contract preconditions, compared value by value with the specification terms',
           'samples': [d for d in details[:3]], 'bounded_stand_ins': sorted(set(bounded)), 'contracts': details}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov, 'assumptions': sorted(assumptions | set(a for c in contracts for a in getattr(c, 'assumes', ()))), 'wall_s': round(time.time() - t0, 2), 'violations': sum(1 for l in lines if l.startswith('VIOLATION'))}
    if not any(l.startswith('VIOLATION') for l in lines) and lvl == 'proof' and nobl == 0:
        print('no obligations were generated'); return 2
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s: %d contracts, %d obligations, %d discharged, %d bounded stand-ins, %d runs of the real code, %.1f s' % (prop, len(contracts), nobl, ndis, len(set(bounded)), conc, time.time() - t0))
    for l in lines: print(l)
    sys.stdout.flush()
    return 1 if any(l.startswith('VIOLATION') for l in lines) else 0

def z3version():
    try:
        from engine import smt
        return smt.z3.get_version_string()
    except Exception: return '?'

def registry_level(prop):
    from contracts import registry
    return registry.LEVELS.get(prop, 'proof')

def match_known(kf, name, f):
    for k in kf:
        if k.get('contract') == name and f.get('known') == k['id']: return k
    return None
def match_known_obl(kf, name, r): return False

def replay(path):
    with open(path) as f: info = json.load(f)
    from contracts import registry
    from engine import runner
    import random
    runner.quiet()
    cs = {c.name: c for c in registry.load(info['property'])}
    c = cs[info['contract']]
    if not info.get('failures'):
        print(json.dumps(info, indent=1)); return 1
    bad = 0
    for f in info['failures']:
        case = next(k for k in c.cases if str(k) == info['case'])
        if 'script' in f: print(f['script'])
        I = runner.fresh_spec(c, case)
        funcs = [x for x in (runner.resolve_function(q) for q in c.functions) if x is not None]
        print('case', case); print('input', f.get('input'))
        for m in f['mismatch']: print('  %s: code gives %s, contract requires %s' % tuple(m))
        bad += 1
    return 1 if bad else 0

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    _clean()
    os._exit(rc)
