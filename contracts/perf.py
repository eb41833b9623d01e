"""C22: performance metrics."""
import numpy.linalg
from .common import *
from engine.npmodel import seq_functional, mk_extremum
from sureal import perf_metric as pm
PM = 'sureal.perf_metric.'
vN = var('N')
def PR(i): return mk_app('PR', [i])
def GA(i): return mk_app('GA', [i])
def GV(i, k): return mk_app('GV', [i, k])
def GL(i): return mk_app('GL', [i], 'i')
METRICS = {'RMSE': pm.RmsePerfMetric, 'PCC': pm.PccPerfMetric, 'SRCC': pm.SrccPerfMetric, 'KENDALL': pm.KendallPerfMetric}
def gt(form):
    if form == 'agg': return GA
    if form == 'raw': return lambda i: Sigma(GL(i), lambda k: GV(i, k)) * mk_pow(GL(i), -1)
    return lambda i: seq_functional(None, 'aggr', GL(i), lambda k: [(GV(i, k), ZERO)])
def ext(name, g):
    k = T.fresh('k'); CTX.varrange[k] = vN
    return mk_extremum(name, [(k, vN)], g(var(k)), ONE)
def bounds(g): return ext('max', g) + const(T.Fr(1, 10)), ext('min', g) - const(T.Fr(1, 10))
def logit(g):
    hi, lo = bounds(g)
    return lambda i: -mk_log(mk_pow((g(i) - lo) * mk_pow(hi - lo, -1), -1) - 1)
def mapped(g):
    """logistic mapping; coefficients A, B come from the (assumed) least-squares solver"""
    a, b = mk_app('LSQ', [ZERO]), mk_app('LSQ', [ONE])
    hi, lo = bounds(g)
    return lambda i: mk_pow(ONE + mk_exp(-(PR(i) - a) * mk_pow(b, -1)), -1) * (hi - lo) + lo
def aggregate(rows, extra, ns): return float(np.median([r[0] for r in rows])) + len(rows)
T.REDS['aggr'] = aggregate
class Metric(Contract):
    rtol = 1e-7
    def __init__(self, name, cases):
        self.name = name; self.cases = cases
        self.functions = (PM + METRICS[name].__name__ + '._evaluate', PM + 'AggrScorePerfMetric._preprocess', PM + 'PerfMetric.evaluate', PM + 'PerfMetric.__init__', PM + 'PerfMetric._assert_args')
        self.timeout = 100
    def setup(self, it, case):
        dims('N')
        num = lambda f: (lambda i: snum(f(i)))
        def lst(f, kind):
            if kind == 'array': return it.new_arr((vN,), lambda ix: (f(*ix), ZERO), owner='argument')
            return it.new_symlist(vN, num(f), owner='argument')
        if case['form'] == 'agg': g = lst(GA, case['kind'])
        else:
            CTX.forall('GL', 0, lambda i: [('ge1', GL(i))])
            g = it.new_symlist(vN, lambda i: it.new_symlist(GL(i), lambda k: snum(GV(i, k)), owner='argument'), owner='argument')
        if case.get('mismatch'):
            CTX.lower['D'] = 1
            p = it.new_symlist(vN + var('D') if case['mismatch'] > 0 else vN, num(PR), owner='argument')
            if case['mismatch'] < 0: g = it.new_symlist(vN + var('D'), num(GA), owner='argument')
        else: p = lst(PR, case['kind'])
        from engine import loops
        def lstsq(it_, args, kw):
            gg = gt(case['form']); z = logit(gg)
            ok = loops.matches(it_, args[0], ((vN, const(2)), 'f', None), lambda i, j: ite(mk_eq(j), ONE, z(i))) and loops.matches(it_, args[1], ((vN,), 'f', None), PR)
            it_.loop_obls.append(('least squares of predictions on the logit of the ground truth', ok, ''))
            return (it_.new_arr((const(2),), lambda ix: (mk_app('LSQ', ix), ZERO)), Opaque('residuals'), Opaque('rank'), Opaque('singular values'))
        it.contracts[np.linalg.lstsq] = lstsq
        return {'g': g, 'p': p}
    def opt(self, case, sym=False):
        o = {} if case['map'] is None else {'enable_mapping': case['map']}
        if case['form'] == 'method': o['aggr_method'] = Model(lambda it_, x: self.aggr(it_, x)) if sym else (lambda x: float(np.median(x)) + len(x))
        return o
    def aggr(self, it, x):
        A = it.np.as_arr(it, x)
        return snum(seq_functional(it, 'aggr', A[0][0], lambda k: [A[1]((k,))]))
    def run(self, it, I, case):
        m = it.call(METRICS[self.name], [I['g'], I['p']])
        return it.call(it.getattr(m, 'evaluate'), [], self.opt(case, True))
    def spec(self, I, case):
        if case.get('mismatch'): return Raises(AssertionError)
        g = gt(case['form'])
        PR = mapped(g) if case['map'] else globals()['PR']
        if self.name == 'RMSE': s = mk_sqrt(Sigma(vN, lambda i: (g(i) - PR(i)) ** 2) * mk_pow(vN, -1))
        else: s = seq_functional(None, {'PCC': 'pearson', 'SRCC': 'spearman', 'KENDALL': 'kendall'}[self.name], vN, lambda i: [(g(i), ZERO), (PR(i), ZERO)])
        return Map({'score': Num(s)})
    def gen(self, rng, case, hints):
        n = rng.randint(3, 9)
        p = [rng.choice([rng.uniform(0, 100), float(rng.randint(1, 5))]) for _ in range(n)]
        if case['form'] == 'agg':
            g = [rng.choice([rng.uniform(0, 100), float(rng.randint(1, 5))]) for _ in range(n)]
            apps = {'GA': lambda i: g[int(i)]}
        else:
            g = [[float(rng.randint(1, 5)) for _ in range(rng.randint(1, 4))] for _ in range(n)]
            apps = {'GV': lambda i, k: g[int(i)][int(k)], 'GL': lambda i: len(g[int(i)])}
        apps['PR'] = lambda i: p[int(i)]
        env = T.Env({'N': n, 'D': 1}, apps)
        if case.get('mismatch'):
            if case['mismatch'] > 0: p = p + [1.0] * rng.randint(1, 3)
            else: g = g + [1.0]
        if case['map']:
            G = np.array([np.mean(x) for x in g] if case['form'] == 'raw' else g)
            hi, lo = G.max() + .1, G.min() - .1
            z = -np.log(1 / ((G - lo) / (hi - lo)) - 1)
            c = np.linalg.lstsq(np.array([np.ones(n), z]).T, np.array(p), rcond=1)[0]
            if abs(c[1]) < 1e-3: return None
            apps['LSQ'] = lambda j: float(c[int(j)])
        if case['kind'] == 'array': g, p = np.array(g), np.array(p)
        return env, [g, p]
    def real(self, nat, case):
        from engine.prove import RaisedReal
        try: return METRICS[self.name](nat[0], nat[1]).evaluate(**self.opt(case))
        except AssertionError as e: return RaisedReal(e)
def cases(): return tuple({'form': f, 'kind': k, 'map': m} for f, k in (('agg', 'list'), ('agg', 'array'), ('raw', 'list'), ('method', 'list')) for m in (None, False)) + tuple({'form': f, 'kind': 'list', 'map': True} for f in ('agg', 'raw')) + tuple({'form': 'agg', 'kind': 'list', 'map': None, 'mismatch': d} for d in (1, -1))
CONTRACTS = {'C22': [Metric(n, cases()) for n in METRICS]}
