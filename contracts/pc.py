"""C20/C21: paired-comparison models (Bradley-Terry, Thurstone)."""
import sys
from fractions import Fraction as Fr
import scipy.linalg, scipy.optimize
from .p910 import *
from sureal import pc_subjective_model as pcm
from sureal.dataset_reader import PairedCompDatasetReader
PCM = 'sureal.pc_subjective_model.'
vM, vN = var('M'), var('N')

def AL(i, j): return Sigma(vN, lambda s: PH(i, j, s) * PX(i, j, s))      # number of times i was preferred to j
def NN(i, j): return AL(i, j) + AL(j, i)
class FakePc(PairedCompDatasetReader):
    """a paired-comparison reader with the given comparison array (the reader's own contract is C19)"""
    def __init__(self, a): self.a = a
    def _assert_args(self): pass
    opinion_score_3darray = property(lambda self: self.a.copy())
def pc_reader(it):
    arr = it.new_arr((vM, vM, vN), lambda ix: (PX(*ix), bool_not(PH(*ix))), 'f', owner='comparisons')
    return ORef(it.alloc(ObjCell(PairedCompDatasetReader, {}, owner='dataset reader', over={'opinion_score_3darray': lambda it_, o: it_.new_arr((vM, vM, vN), it_.heap[arr.cell].elem, 'f', owner='comparisons')})))
def gen_pc(rng, hints, lo=2, hi=5, connected=True):
    """every pair compared at least once each way (so that the estimates exist)"""
    M_, N_ = rng.randint(lo, hi), rng.randint(2, 6)
    a = np.full((M_, M_, N_), np.nan)
    for i in range(M_):
        for j in range(M_):
            if i == j: continue
            for s in range(N_):
                if np.isnan(a[i, j, s]) and rng.random() < .8:
                    x = rng.choice([0.0, 1.0, 1.0, 0.5]); a[i, j, s] = x; a[j, i, s] = 1 - x
    al = np.nansum(a, axis=2)
    if connected and not all(al[i, j] > 0 for i in range(M_) for j in range(M_) if i != j):
        for i in range(M_):
            for j in range(M_):
                if i != j and al[i, j] <= 0: a[i, j, 0] = .5; a[j, i, 0] = .5
    if rng.random() < .3: a = a * rng.choice([2, 3, .25, .5])          # weighted votes also count as numbers of wins
    return T.Env({'M': M_, 'N': N_}, env_array('PX', 'PH', a)), a
def with_lapl(A, B):
    return lambda i, j: A(i, j)

# ------------------------------------------------------------------------------------------------ Bradley-Terry, fixed point
def bt_stop(thr):
    def f(cur, new):
        d = float(np.linalg.norm(new['p'] - cur['p']))
        return d <= thr, abs(d - thr) / thr
    return f
def bt_loop():
    z = lambda *a: ZERO
    comps = {'p': ((vM,), 'f', lambda i: mk_pow(vM, -1)), 'u': ((vM,), 'f', None), 'itr': ((), 'i', z)}
    def step(g, n):
        u = lambda i: Sigma(vM, lambda j: AL(i, j)) * mk_pow(Sigma(vM, lambda j: NN(i, j) * mk_pow(g['p'](i) + g['p'](j), -1)), -1)
        return {'u': u, 'p': lambda i: n['u'](i) * mk_pow(Sigma(vM, n['u']), -1), 'itr': lambda: g['itr']() + 1}
    def stop(g, n): return mk_le(mk_sqrt(Sigma(vM, lambda i: (n['p'](i) - g['p'](i)) ** 2)) - EPS8)
    return LoopSpec('Bradley-Terry fixed point', comps, step, stop, tag='bt', nstop=bt_stop(1e-8), optional=('itr', 'u'))
def bordered(lb):
    def f(i, j):
        last = lambda x: mk_le(vM - x)
        return ite(last(i), bool_not(last(j)), ite(last(j), ONE, -lb(i, j)))
    return f
def lambda_bt(p, power):
    """Hessian of the log-likelihood; power 2 is the documented formula"""
    off = (lambda i, j: NN(i, j) * mk_pow(p(i) + p(j), -2)) if power == 2 else (lambda i, j: 2 * NN(i, j) * mk_pow(p(i) + p(j), -1))
    dia = lambda i: Sigma(vM, lambda j: -AL(i, j) * mk_pow(p(i), -2) + NN(i, j) * mk_pow(p(i) + p(j), -2))
    return lambda i, j: off(i, j) + mk_eq(i - j) * dia(i)
class BtMle(Contract):
    name = 'BradleyTerryMlePairedCompSubjectiveModel'
    functions = (PCM + 'BradleyTerryMlePairedCompSubjectiveModel._run_modeling', PCM + 'BradleyTerryMlePairedCompSubjectiveModel.resolve_model')
    cases = ({'kw': None}, {'kw': False}, {'kw': True})
    rtol = 1e-5; margin = 0
    def opt(self, case): return {} if case['kw'] is None else {'display': case['kw']}
    def setup(self, it, case):
        dims('M', 'N')
        it.loop_queue = [bt_loop]
        def pinv(it_, args, kw):
            from engine import loops
            p = bt_loop().final()['p']
            ok = any(loops.matches(it_, args[0], ((vM + 1, vM + 1), 'f', None), bordered(lambda_bt(p, k))) for k in (2, 1))
            it_.loop_obls.append(('bordered information matrix', ok, ''))
            return it_.new_arr((vM + 1, vM + 1), lambda ix: (mk_app('PINV', ix), ZERO))
        it.contracts[np.linalg.pinv] = pinv; it.contracts[scipy.linalg.pinv] = pinv
        return {'reader': pc_reader(it)}
    def run(self, it, I, case):
        m = it.call(pcm.BradleyTerryMlePairedCompSubjectiveModel, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], self.opt(case))
    def spec(self, I, case):
        p = bt_loop().final()['p']
        P = lambda i, j: mk_app('PINV', [i, j])
        ps = lambda i: mk_sqrt(P(i, i)); vs = lambda i: ps(i) * mk_pow(p(i), -1)
        return Map({'quality_scores': Arr((vM,), lambda i: mk_log(p(i))), 'quality_scores_std': Arr((vM,), vs), 'quality_scores_ci95': Lst([Arr((vM,), lambda i: C95 * vs(i)), Arr((vM,), lambda i: C95 * vs(i))]),
                    'quality_scores_p': Arr((vM,), p), 'quality_scores_p_std': Arr((vM,), ps), 'quality_scores_p_cov': Arr((vM, vM), P), 'quality_scores_v_cov': Arr((vM, vM), lambda i, j: P(i, j) * mk_pow(p(i) * p(j), -1))})
    def gen(self, rng, case, hints):
        env, a = gen_pc(rng, hints)
        try: F = bt_loop().iterate(env, 400)
        except T.EvalError: return None
        if not all(np.isfinite(x).all() for x in F.values()): return None
        env.F = F
        self.inv(env, a, F['p'])
        return env, [a]
    def inv(self, env, a, p):
        # the covariance is whatever the code reports; C20's second contract judges it
        real = pcm.BradleyTerryMlePairedCompSubjectiveModel(FakePc(a)).run_modeling(display=False)['quality_scores_p_cov']
        env.apps['PINV'] = lambda i, j: float(real[int(i), int(j)])
    def real(self, nat, case): return pcm.BradleyTerryMlePairedCompSubjectiveModel(FakePc(nat[0])).run_modeling(**self.opt(case))
def cov_bt(al, p, power):
    n = al + al.T; pp = p[:, None] + p[None, :]
    lb = (n / pp ** 2 if power == 2 else n / pp * 2) + np.diag(np.sum(-al / p[:, None] ** 2 + n / pp ** 2, axis=1))
    M_ = len(p)
    B = np.ones((M_ + 1, M_ + 1)); B[:M_, :M_] = -lb; B[M_, M_] = 0
    return np.linalg.pinv(B)[:-1, :-1]
class BtCov(BtMle):
    name = 'BradleyTerryMlePairedCompSubjectiveModel covariance'
    bounded = True
    cases = ({'kw': False},)
    def inv(self, env, a, p):
        c = cov_bt(np.nansum(a, axis=2), p, 2)
        env.apps['PINV'] = lambda i, j: float(c[int(i), int(j)])
    def spec(self, I, case): return Map({'quality_scores_p_cov': Arr((vM, vM), lambda i, j: mk_app('PINV', [i, j]))})
    def known_deviation(self, nat, env, real, case, bads):
        if isinstance(real, dict) and np.allclose(real['quality_scores_p_cov'], cov_bt(np.nansum(nat[0], axis=2), env.F['p'], 1), rtol=1e-4, atol=1e-9): return 'bt_mle_offdiagonal'

# ------------------------------------------------------------------------------------------------ Bradley-Terry, Newton-Raphson
def gind(i, j): return bool_not(mk_le(NN(i, j)))
def nr_loop():
    z = lambda *a: ZERO
    m1 = vM - 1
    wrap = ('wrap', lambda x, i, j: gind(i, j) * x)
    comps = {'gamma': ((vM,), 'f', z), 'rus': ((m1, vM), wrap, z), 'y': ((m1, vM), wrap, z), 'd2L': ((m1, m1), 'f', None), 'dL': ((m1,), 'f', None), 'pinv': ((m1, m1), 'f', None), 'change': ((vM,), 'f', None), 'itr': ((), 'i', z)}
    def step(g, n):
        ex = lambda i: mk_exp(g['gamma'](i))
        rus = lambda i, j: gind(i, j) * ex(i) * mk_pow(ex(i) + ex(j), -1)
        y = lambda i, j: NN(i, j) * rus(i, j) * (ONE - rus(i, j))
        return {'rus': rus, 'y': y, 'd2L': lambda i, j: ite(gind(i, j), y(i, j), -mk_eq(i - j) * Sigma(vM, lambda k: y(i, k))),
                'dL': lambda i: Sigma(vM, lambda j: AL(i, j)) - Sigma(vM, lambda j: NN(i, j) * rus(i, j)),
                'pinv': n['pinv'],
                'change': lambda i: ite(mk_le(i - vM + 2), Sigma(m1, lambda k: n['pinv'](i, k) * n['dL'](k)), ZERO),
                'gamma': lambda i: g['gamma'](i) - n['change'](i), 'itr': lambda: g['itr']() + 1}
    def stop(g, n): return mk_le(mk_sqrt(Sigma(vM, lambda i: n['change'](i) ** 2)) - EPS8)
    def nstop(cur, new):
        d = float(np.linalg.norm(new['change']))
        return d <= 1e-8, abs(d - 1e-8) / 1e-8
    return LoopSpec('Bradley-Terry Newton-Raphson', comps, step, stop, tag='nr', nstop=nstop, optional=('itr', 'rus', 'y', 'd2L', 'dL', 'pinv', 'change'), numeric={'pinv': lambda cur, new: np.linalg.pinv(new['d2L']), 'change': lambda cur, new: np.append(new['pinv'] @ new['dL'], 0.0)})
class BtNr(Contract):
    name = 'BradleyTerryNewtonRaphsonPairedCompSubjectiveModel'
    functions = (PCM + 'BradleyTerryNewtonRaphsonPairedCompSubjectiveModel._run_modeling',)
    cases = ({'kw': None}, {'kw': False}, {'kw': True})
    rtol = 1e-5; margin = 0
    def opt(self, case): return {} if case['kw'] is None else {'zscore_output': case['kw']}
    def setup(self, it, case):
        dims('M', 'N'); CTX.lower['M'] = 2
        it.loop_queue = [nr_loop]
        def pinv(it_, args, kw):
            from engine import loops
            sp = nr_loop(); N = sp.ghost('N_'); st = sp.step(sp.ghost('G_'), N)
            m1 = vM - 1
            ok = not kw and len(args) == 1 and loops.matches(it_, args[0], ((m1, m1), 'f', None), st['d2L'], None)
            it_.loop_obls.append(('Newton step uses the second derivatives', ok, ''))
            return it_.new_arr((m1, m1), lambda ix: (N['pinv'](*ix), ZERO))
        it.contracts[np.linalg.pinv] = pinv; it.contracts[scipy.linalg.pinv] = pinv
        return {'reader': pc_reader(it)}
    def run(self, it, I, case):
        m = it.call(pcm.BradleyTerryNewtonRaphsonPairedCompSubjectiveModel, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], self.opt(case))
    def spec(self, I, case):
        gm = nr_loop().final()['gamma']
        s = lambda i: ite(mk_eq(i - vM + 1), ZERO, gm(i))
        if case['kw']:
            mu = Sigma(vM, s) * mk_pow(vM, -1)
            sd = mk_sqrt(Sigma(vM, lambda i: (s(i) - mu) ** 2) * mk_pow(vM, -1))
            q = lambda i: (s(i) - mu) * mk_pow(sd, -1)
        else: q = s
        return Map({'quality_scores': Arr((vM,), q), 'quality_scores_std': Same(None)})
    def gen(self, rng, case, hints):
        env, a = gen_pc(rng, hints, hi=4)
        try: F = nr_loop().iterate(env, 25)
        except (T.EvalError, np.linalg.LinAlgError): return None
        if not all(np.isfinite(x).all() for x in F.values()): return None
        env.F = F
        return env, [a]
    def real(self, nat, case):
        import time
        sl, time.sleep = time.sleep, lambda *a: None
        try: return pcm.BradleyTerryNewtonRaphsonPairedCompSubjectiveModel(FakePc(nat[0])).run_modeling(**self.opt(case))
        finally: time.sleep = sl

# ------------------------------------------------------------------------------------------------ Thurstone
def Phi(x): return T.mk_fun('Phi', x)
def phi(x): return mk_exp(-x * x * const(Fr(1, 2))) * mk_pow(2 * T.mk_pi(), Fr(-1, 2))
def th_obj(v):
    eps = const(Fr(1, 10 ** 8)) * mk_pow(vM, -1)
    return -Sigma(vM, lambda i: Sigma(vM, lambda j: AL(i, j) * mk_log(Phi(v(i) - v(j)) + eps) + AL(j, i) * mk_log(Phi(v(j) - v(i)) + eps)))
def th_lambda(v):
    def h(i, j):
        x = v(i) - v(j)
        return NN(i, j) * (-x * Phi(x) * phi(x) - phi(x) ** 2) * mk_pow(Phi(x), -2)
    return lambda i, j: -h(i, j) + mk_eq(i - j) * Sigma(vM, lambda k: h(i, k))
def vopt(i): return mk_app('VOPT', [i])
class ThNllf(Contract):
    name = 'ThurstoneMlePairedCompSubjectiveModel.neg_log_likelihood_function'
    functions = (PCM + name,)
    rtol = 1e-9
    def setup(self, it, case):
        dims('M', 'N')
        return {'v': it.new_arr((vM,), lambda ix: (mk_app('V', ix), ZERO), owner='argument'), 'a': it.new_arr((vM, vM), lambda ix: (AL(*ix), ZERO), owner='argument')}
    def run(self, it, I, case): return it.call(pcm.ThurstoneMlePairedCompSubjectiveModel.neg_log_likelihood_function, [I['v'], I['a']])
    def spec(self, I, case): return Num(th_obj(lambda i: mk_app('V', [i])))
    def gen(self, rng, case, hints):
        env, a = gen_pc(rng, hints)
        v = np.array([rng.uniform(-2, 2) for _ in range(a.shape[0])])
        env.apps['V'] = lambda i: float(v[int(i)])
        return env, [v, np.nansum(a, axis=2)]
    def real(self, nat, case): return float(pcm.ThurstoneMlePairedCompSubjectiveModel.neg_log_likelihood_function(nat[0].copy(), nat[1].copy()))
class _Res: pass
class ThMle(Contract):
    name = 'ThurstoneMlePairedCompSubjectiveModel'
    functions = (PCM + 'ThurstoneMlePairedCompSubjectiveModel._run_modeling', PCM + 'ThurstoneMlePairedCompSubjectiveModel.resolve_model', PCM + 'ThurstoneMlePairedCompSubjectiveModel.neg_log_likelihood_function')
    cases = ({'z': None, 's': None}, {'z': False, 's': True}, {'z': True, 's': None}, {'z': True, 's': False}, {'z': None, 's': False})
    rtol = 2e-3; margin = 0
    def opt(self, case):
        o = {}
        if case['z'] is not None: o['zscore_output'] = case['z']
        if case['s'] is not None: o['use_simplified_lbda'] = case['s']
        return o
    def setup(self, it, case):
        dims('M', 'N')
        from engine import loops
        def minimize(it_, args, kw):
            args = list(args)
            fun = args[0] if args else kw['fun']; x0 = args[1] if len(args) > 1 else kw['x0']
            trial = it_.new_arr((vM,), lambda ix: (mk_app('V', ix), ZERO), owner='trial point')
            r = it_.num(it_.call(fun, [trial]))
            d = T.sub(r.val, th_obj(lambda i: mk_app('V', [i])))
            it_.loop_obls.append(('objective handed to the minimiser', T.is_zero(r.nan) and T.is_zero(d), ''))
            it_.loop_obls.append(('starting point zero', loops.matches(it_, x0, ((vM,), 'f', None), lambda i: ZERO), ''))
            it_.loop_obls.append(('no constraints', not ({'bounds', 'constraints', 'args'} & set(kw)) and len(args) <= 2, ''))
            return ORef(it_.alloc(ObjCell(_Res, {'success': True, 'x': it_.new_arr((vM,), lambda ix: (vopt(*ix), ZERO))})))
        def pinv(it_, args, kw):
            it_.loop_obls.append(('bordered curvature matrix', loops.matches(it_, args[0], ((vM + 1, vM + 1), 'f', None), bordered(th_lambda(vopt))), ''))
            return it_.new_arr((vM + 1, vM + 1), lambda ix: (mk_app('PINV', ix), ZERO))
        it.contracts[np.linalg.pinv] = pinv; it.contracts[scipy.linalg.pinv] = pinv; it.contracts[scipy.optimize.minimize] = minimize
        return {'reader': pc_reader(it)}
    def run(self, it, I, case):
        m = it.call(pcm.ThurstoneMlePairedCompSubjectiveModel, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], self.opt(case))
    def spec(self, I, case):
        q, sd = vopt, lambda i: mk_sqrt(mk_app('PINV', [i, i]))
        if case['z']:
            mu = Sigma(vM, vopt) * mk_pow(vM, -1)
            s = mk_sqrt(Sigma(vM, lambda i: (vopt(i) - mu) ** 2) * mk_pow(vM, -1))
            q = lambda i: (vopt(i) - mu) * mk_pow(s, -1)
            sd0 = sd; sd = lambda i: sd0(i) * mk_pow(s, -1)
        ci = lambda i: C95 * sd(i)
        return Map({'quality_scores': Arr((vM,), q), 'quality_scores_std': Arr((vM,), sd), 'quality_scores_ci95': Lst([Arr((vM,), ci), Arr((vM,), ci)])})
    def gen(self, rng, case, hints):
        from scipy.stats import norm
        env, a = gen_pc(rng, hints)
        al = np.nansum(a, axis=2); M_ = len(al)
        def f(v):
            x = v[:, None] - v[None, :]
            return -np.sum(al * np.log(norm.cdf(x) + 1e-8 / M_) + al.T * np.log(norm.cdf(-x) + 1e-8 / M_))
        r = scipy.optimize.minimize(f, np.zeros(M_), method='SLSQP', jac='2-point', options={'ftol': 1e-8, 'maxiter': 1000})
        if not r.success: return None
        v = r.x; x = v[:, None] - v[None, :]; P, ph = norm.cdf(x), norm.pdf(x)
        if np.std(v) < .05: return None
        h = (al + al.T) * (-x * P * ph - ph ** 2) / P ** 2
        B = np.ones((M_ + 1, M_ + 1)); B[:M_, :M_] = -(-h + np.diag(h.sum(axis=1))); B[M_, M_] = 0
        C = np.linalg.pinv(B)
        if np.any(np.diag(C)[:-1] <= 1e-6): return None
        env.apps['VOPT'] = lambda i: float(v[int(i)]); env.apps['PINV'] = lambda i, j: float(C[int(i), int(j)])
        return env, [a]
    def real(self, nat, case):
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()): return pcm.ThurstoneMlePairedCompSubjectiveModel(FakePc(nat[0])).run_modeling(**self.opt(case))
CONTRACTS = {'C20': [BtMle(), BtCov(), BtNr()], 'C21': [ThNllf(), ThMle()]}
