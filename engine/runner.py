"""Runs contracts (one process per contract case), collects obligations, replays failures on the real code."""
import ast, copy, io, json, math, os, pickle, random, select, signal, sys, time, traceback, warnings, contextlib, inspect
import numpy as np
from . import terms as T, smt
from .terms import ZERO, ONE, const, Unsupported, CTX, EvalError
from .values import *
from .interp import Interp, Outcome, RaiseEx, Infeasible, func_node
from . import prove as P

class Contract:
    name = ''; props = (); functions = (); requires = ''; ensures = ''
    cases = ({},)
    bounded = False              # no symbolic part: bounded stand-in
    modifies = ()                # owners whose objects may be written
    check_inputs = True          # concrete frame check: inputs unchanged
    nquick = 10; nthorough = 120
    rtol = 1e-6
    margin = 1e-7                # inputs with comparisons closer than this are rounding-sensitive and skipped
    undef_ok = False             # specification terms with 0/0 inside are meaningful (comparisons with nan are false)
    helpers = ()                 # helper contracts used at call sites (if they verify)
    timeout = 150
    def setup(self, it, case): return {}
    def run(self, it, I, case): raise NotImplementedError
    def spec(self, I, case): raise NotImplementedError
    def gen(self, rng, case, hints): raise NotImplementedError
    def real(self, nat, case): raise NotImplementedError
    def custom(self, case, tier, seed):
        """complete own procedure: returns result dict or None"""
        return None
    def known_deviation(self, nat, env, real, case, bads):
        """id of the recorded finding that explains the mismatch exactly, or None"""
        return None
    def casename(self, case): return ','.join('%s=%s' % (k, v) for k, v in case.items())

def quiet():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')

def harvest(funcs):
    """numeric constants in the source of the functions involved (hints for the search of failing inputs)"""
    ints = set(); floats = set(); strs = set()
    for f in funcs:
        try: node = func_node(f)
        except Exception: continue
        for x in ast.walk(node):
            if isinstance(x, ast.Constant):
                if isinstance(x.value, bool): continue
                if isinstance(x.value, int) and abs(x.value) < 10**6: ints.add(x.value)
                elif isinstance(x.value, float): floats.add(x.value)
                elif isinstance(x.value, str) and len(x.value) < 30: strs.add(x.value)
    return {'ints': sorted(ints), 'floats': sorted(floats), 'strs': sorted(strs)}

def resolve_function(q):
    import importlib
    parts = q.split('.')
    for i in range(len(parts), 0, -1):
        try: m = importlib.import_module('.'.join(parts[:i]))
        except ImportError: continue
        o = m
        try:
            for p in parts[i:]: o = inspect.getattr_static(o, p) if isinstance(o, type) else getattr(o, p)
        except AttributeError: return None
        if isinstance(o, (staticmethod, classmethod)): o = o.__func__
        if isinstance(o, property): o = o.fget
        if type(o).__name__ == 'memoized': o = o.func
        return o
    return None

def symbolic(c, case, helpers_ok=(), assume_helpers=()):
    """generate and discharge the obligations of one contract case"""
    S = P.Session()
    it = Interp()
    T.CTX.__init__()
    res = {'obls': [], 'unsupported': None}
    for h in c.helpers:
        if h.name in helpers_ok: h.install(it)
    t0 = time.time()
    def onalarm(sig, fr): raise Unsupported('time limit of the verifier reached')
    signal.signal(signal.SIGALRM, onalarm); signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, c.timeout); signal.setitimer(signal.ITIMER_REAL, 400)        # processor time, so that a busy machine changes nothing; wall clock as a last resort
    try:
        I = c.setup(it, case)
        def go():
            it.frame_violations = []
            try: kind, v = 'ok', c.run(it, I, case)
            except RaiseEx as r: kind, v = 'raise', r
            pc = it.expl[-1].pc
            spec = c.spec(I, case); n0 = len(S.obls)
            match_outcome(it, S, kind, v, spec, c, pc)
            if any(o.status != 'proved' for o in S.obls[n0:]) and smt.infeasible(CTX, it.expl[-1].conds):
                del S.obls[n0:]
                raise Infeasible()
            fv = [x for x in it.frame_violations if x[0] not in c.modifies]
            S.fact('frame: caller-owned objects unchanged', not fv, str(fv[:3]))
            S.paths += 1
            return Outcome(kind, None)
        heap0 = dict(it.heap); queue0 = list(it.loop_queue)
        def go2():
            it.heap = dict(heap0); it.frames = []; it.depth = 0; it.loop_queue = list(queue0)
            return go()
        it.explore(go2)
        if S.paths == 0: res['unsupported'] = 'no feasible path (vacuous)'
    except Unsupported as e: res['unsupported'] = str(e)
    except RecursionError: res['unsupported'] = 'recursion limit'
    except RaiseEx as e: res['unsupported'] = 'setup raised %s' % e
    except Exception as e:
        res['unsupported'] = 'engine error %s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    finally: signal.setitimer(signal.ITIMER_PROF, 0); signal.setitimer(signal.ITIMER_REAL, 0)
    res['paths'] = S.paths
    res['session'] = S
    res['sec'] = time.time() - t0
    res['inlined'] = sorted(it.inlined); res['contracts_used'] = sorted(it.used_contracts)
    res['assumptions'] = sorted(it.assumptions)
    res['loops'] = list(it.loopinfo)
    for name, ok, note in it.loop_obls: S.fact(name, ok, note)
    res['z3'] = dict(smt.STATS)
    return res

def match_outcome(it, S, kind, v, spec, c, pc):
    while isinstance(spec, P.Cases):
        for g, s in spec.alts[:-1]:
            if it.branch(g): spec = s; break
        else: spec = spec.alts[-1][1]
        pc = it.expl[-1].pc
    if kind == 'raise':
        if isinstance(spec, P.Raises):
            S.fact('raises %s' % v.etype.__name__, any(issubclass(v.etype, t) for t in spec.types), str(v))
        else: S.fact('no exception', False, str(v))
        S.obls[-1].pc = pc
    elif isinstance(spec, P.Raises):
        S.fact('raises %s' % '/'.join(t.__name__ for t in spec.types), False, 'returned normally'); S.obls[-1].pc = pc
    else:
        n = len(S.obls)
        P.match_sym(it, S, v, spec, 'result', pc)
        for o in S.obls[n:]: o.pc = pc

def fresh_spec(c, case):
    """specification terms for numeric evaluation (no program involved)"""
    T.CTX.__init__()
    it = Interp()
    I = c.setup(it, case)
    return I

def run_real(c, nat, case):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try: return c.real(nat, case)
        except Exception as e: return P.RaisedReal(e)

def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape: return False
        if a.dtype == object or b.dtype == object: return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))
    if type(a) is not type(b): return False
    if isinstance(a, dict): return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float): return a == b or (a != a and b != b)
    if hasattr(a, '__dict__') and type(a).__module__ not in ('builtins',) and not callable(a):
        if type(a).__name__ == 'module': return a is b
        return same({k: v for k, v in vars(a).items() if not k.startswith('__')}, {k: v for k, v in vars(b).items() if not k.startswith('__')})
    try: return bool(a == b)
    except Exception: return True

def compare(c, case, spec, env, real, fast):
    rep = P.Report(fast); rep.rtol = c.rtol
    try:
        while isinstance(spec, P.Cases):
            for gg, s in spec.alts[:-1]:
                if T.evalp(gg, env): spec = s; break
            else: spec = spec.alts[-1][1]
        if isinstance(spec, P.Raises):
            if isinstance(real, P.RaisedReal) and isinstance(real.e, spec.types): rep.ok('raise')
            else: rep.bad('result', real if isinstance(real, P.RaisedReal) else 'returned normally', repr(spec))
        else: P.match_conc(real, spec, env, 'result', rep)
    except EvalError as e: return rep, str(e)
    return rep, None

def concrete(c, case, n, seed, hints, I, budget, ties=False):
    """compare the real code with the specification on n generated inputs. returns (evaluated, list of failures, skipped)"""
    fails = []; done = 0; skipped = 0; checks = 0
    t0 = time.time()
    spec = c.spec(I, case)
    made = 0
    for i in range(4 * n):
        if made >= n or time.time() - t0 > budget and done > 3 or time.time() - t0 > 2 * budget: break
        rng = random.Random('%s/%s/%s/%s' % (seed, c.name, sorted(case.items()), i))
        np.random.seed(rng.randrange(2 ** 31))
        try: g = c.gen(rng, case, hints)
        except P.Mismatch: continue
        if g is None: continue
        env, nat = g; made += 1
        before = copy.deepcopy(nat) if c.check_inputs else None
        real = run_real(c, nat, case)
        fast = os.environ.get('VERIF_SLOW') != '1'
        while True:
            env.exact = not fast; env.memo = {}
            rep, err = compare(c, case, spec, env, real, fast)
            if fast and (rep.bads or err): fast = False; continue
            break
        if err:
            skipped += 1; continue
        if c.check_inputs and not same(before, nat): rep.bad('inputs', 'changed by the call', 'unchanged')
        if env.margin < c.margin and not (ties and env.margin == 0.0 and env.near >= c.margin) and not getattr(env, 'edge', False):
            skipped += 1; continue
        if rep.bads and env.undef and not c.undef_ok:
            skipped += 1; continue
        done += 1; checks += rep.n
        if rep.bads:
            fails.append({'known': c.known_deviation(nat, env, real, case, rep.bads), 'case': dict(case), 'index': i, 'seed': seed, 'mismatch': [(a, short(b), short(w)) for a, b, w in rep.bads[:6]], 'input': short(before if before is not None else nat, 3000), 'pickle': safe_pickle(before if before is not None else nat)})
            if len(fails) >= 2: break
    return done, fails, skipped, checks

def short(x, n=300):
    try:
        with np.printoptions(threshold=200, precision=17): s = repr(x) if not hasattr(x, '__dict__') else repr(vars(x))
    except Exception as e: s = '<%s>' % type(x).__name__
    return s if len(s) <= n else s[:n] + '...'
def safe_pickle(x): return None

def refute(c, case, S, I, hints, seed, n=40, budget=20):
    """numeric evaluation of open obligations"""
    out = {}
    t0 = time.time()
    opens = [o for o in S.obls if o.status == 'open']
    for i in range(n):
        if time.time() - t0 > budget or all(o.name in out for o in opens): break
        rng = random.Random('%s/%s/%s/%s' % (seed, c.name, sorted(case.items()), i))
        try: g = c.gen(rng, case, hints)
        except Exception: continue
        if g is None: continue
        env, nat = g
        for o in opens:
            if o.name in out: continue
            try:
                if o.pc is not ONE and not T.evalp(o.pc, env): continue
                import itertools
                rngs = []
                for nm, d in o.ix: rngs.append(range(int(T.evalp(d, env))))
                cnt = 0
                for pos in itertools.product(*rngs):
                    cnt += 1
                    if cnt > 60: break
                    for (nm, d), q in zip(o.ix, pos): env.vars[nm] = q
                    gn = T.evalp(o.gn, env); sn = T.evalp(o.sn, env)
                    if (gn >= .5) != (sn >= .5): out[o.name] = {'got_nan': bool(gn >= .5), 'want_nan': bool(sn >= .5), 'at': list(pos)}; break
                    if sn >= .5: continue
                    gv = float(T.evalp(o.gv, env)); sv = float(T.evalp(o.sv, env))
                    if not P.close_to(gv, sv): out[o.name] = {'got': gv, 'want': sv, 'at': list(pos)}; break
            except (EvalError, ZeroDivisionError, OverflowError): continue
    return out

def run_contract(c, case, tier, seed, helpers_ok):
    """everything for one contract case; returns a plain dict"""
    quiet()
    t0 = time.time()
    r = c.custom(case, tier, seed)
    if r is not None:
        r.setdefault('name', c.name); r.setdefault('case', dict(case)); r['sec'] = time.time() - t0
        return r
    out = {'name': c.name, 'case': dict(case), 'bounded': c.bounded, 'obls': [], 'open': [], 'fails': [], 'unsupported': None, 'z3': {}, 'inlined': [], 'paths': 0}
    funcs = [f for f in (resolve_function(q) for q in c.functions) if f is not None]
    hints = harvest(funcs)
    sess = None
    if not c.bounded:
        s = symbolic(c, case, helpers_ok)
        sess = s['session']
        out['unsupported'] = s['unsupported']
        out['paths'] = s['paths']; out['inlined'] = s['inlined']; out['z3'] = s['z3']; out['sym_sec'] = s['sec']
        out['contracts_used'] = s['contracts_used']; out['assumptions'] = s['assumptions']; out['loops'] = s['loops']
        hints2 = harvest([f for f in (resolve_function(q) for q in s['inlined']) if f is not None])
        for k in hints: hints[k] = sorted(set(hints[k]) | set(hints2[k]))
        out['obls'] = [(o.name, o.status, o.note) for o in sess.obls]
    proved = sess is not None and out['unsupported'] is None and sess.obls and all(o.status == 'proved' for o in sess.obls)
    out['proved'] = bool(proved)
    opens = [o for o in sess.obls if o.status != 'proved'] if sess is not None else []
    if opens:
        out['refuted'] = refute(c, case, sess, None, hints, seed)
        out['open'] = [{'obligation': o.name, 'status': o.status, 'note': o.note, 'path': T.pp(o.pc)[:300], 'got': (T.pp(o.gv)[:600] if o.gv is not None else None), 'want': (T.pp(o.sv)[:600] if o.sv is not None else None), 'got_nan': (T.pp(o.gn)[:300] if o.gn is not None else None), 'want_nan': (T.pp(o.sn)[:300] if o.sn is not None else None)} for o in opens[:6]]
    # concrete runs on the real code
    I = fresh_spec(c, case)
    n = c.nquick if tier == 'quick' else c.nthorough
    bud = 25 if tier == 'quick' else 200
    if c.bounded: n *= 4
    done, fails, skipped, checks = concrete(c, case, n, seed, {'ints': [], 'floats': [], 'strs': []}, I, bud)
    if not fails:
        d2, f2, s2, c2 = concrete(c, case, n, str(seed) + 'h', hints, I, bud)
        done += d2; fails += f2; skipped += s2; checks += c2
    if not fails and not c.bounded and not proved:
        for att in range(3):
            d2, f2, s2, c2 = concrete(c, case, 120, '%s/search%d' % (seed, att), hints, I, 30, ties=att > 0)
            done += d2; fails += f2; skipped += s2; checks += c2
            if fails: break
    out['concrete'] = done; out['skipped'] = skipped; out['checks'] = checks; out['fails'] = fails
    out['sec'] = time.time() - t0
    return out

# ------------------------------------------------------------------------------------------------ process pool
def pool(tasks, timeout, workers=8):
    """tasks: list of (key, callable). Each runs in a forked child. returns {key: result or {'error':..}}"""
    results = {}; running = {}; todo = list(tasks)
    while todo or running:
        while todo and len(running) < workers:
            key, f, to = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgrp()
                    try: res = f()
                    except BaseException as e:
                        res = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-1500:]}
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as fh: fh.write(data)
                finally: os._exit(0)
            os.close(w)
            running[r] = (key, pid, time.time() + (to or timeout), [])
        if not running: continue
        rl, _, _ = select.select(list(running), [], [], 0.5)
        for fd in rl:
            key, pid, dl, buf = running[fd]
            b = os.read(fd, 1 << 20)
            if b: buf.append(b); continue
            os.close(fd); del running[fd]
            os.waitpid(pid, 0)
            try: results[key] = pickle.loads(b''.join(buf))
            except Exception as e: results[key] = {'error': 'worker died'}
        now = time.time()
        for fd in list(running):
            key, pid, dl, buf = running[fd]
            if now > dl:
                try: os.killpg(pid, signal.SIGKILL)
                except Exception:
                    try: os.kill(pid, signal.SIGKILL)
                    except Exception: pass
                os.waitpid(pid, 0); os.close(fd); del running[fd]
                results[key] = {'error': 'timeout'}
    return results
