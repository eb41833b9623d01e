"""C09/C10: ITU-T P.910 Annex E (alternating projection solver)."""
from .post import *
from engine.loops import LoopSpec

nS2 = var('S2')
PX = lambda *a: mk_app('PX', a)
PH = lambda *a: mk_app('PH', a, 'b')
EPS8 = const(T.Fr(1, 10 ** 8))
C95 = const(T.Fr(195996, 100000))

def stub_preprocessing(it, known=('force_subjbias_zeromean',)):
    """preprocessing yields an arbitrary processed array (its own contracts: C04-C08)"""
    def pre(it_, args, kw):
        ret = {'opinion_score_3darray': it_.new_arr((vE, nS2, vR), lambda ix: (PX(*ix), bool_not(PH(*ix)))),
               'original_opinion_score_3darray': it_.new_arr((vE, vS, vR), lambda ix: (X(*ix), bool_not(H(*ix))))}
        return it_.new_dict(ret)
    it.contracts[sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing] = pre
    CTX.forall('PH', 0, lambda t: [('ge1', cnt2_e(t))])
    CTX.forall('PH', 1, lambda t: [('ge1', cnt2_s(t))])
def cnt2_e(e, vr=vR): return Sigma(nS2, lambda s: Sigma(vr, lambda r: PH(e, s, r)))
def cnt2_s(s, vr=vR): return Sigma(vE, lambda e: Sigma(vr, lambda r: PH(e, s, r)))
ROW = (nS2, vR); COL = (vE, vR)

def over_e(e, f, vr=vR): return mean_over((nS2, vr), lambda s, r: f(e, s, r), lambda s, r: PH(e, s, r))[0]
def over_s(s, f, vr=vR): return mean_over((vE, vr), lambda e, r: f(e, s, r), lambda e, r: PH(e, s, r))[0]
def pstd_s(s, f, vr=vR): return mk_sqrt(var_over((vE, vr), lambda e, r: f(e, s, r), lambda e, r: PH(e, s, r))[0])
def pstd_e(e, f, vr=vR): return mk_sqrt(var_over((nS2, vr), lambda s, r: f(e, s, r), lambda s, r: PH(e, s, r))[0])

def norm_stop(s, itr, thr, maxit, strict=True):
    def f(cur, new):
        d = float(np.linalg.norm(cur[s] - new[s]))
        stop = d < thr or (itr is not None and float(new[itr]) >= maxit)
        return stop, abs(d - thr) / thr * (200 if 1e-9 <= thr <= 1e-7 else 1)      # rounding moves d by about 1e-14
    return f
def p910_loop(vr=vR):
    ROW = (nS2, vr)
    s0 = lambda e: over_e(e, PX, vr)
    b0 = lambda s: over_s(s, lambda e, s_, r: PX(e, s_, r) - s0(e), vr)
    def step(g, n):
        res = lambda e, s, r: PX(e, s, r) - g['s'](e) - g['b'](s)
        v = lambda s: pstd_s(s, res, vr)
        vj = lambda e: pstd_e(e, res, vr)
        w = lambda s: mk_pow(n['v'](s) ** 2 + EPS8, -1)
        s1 = lambda e: sum_over(ROW, lambda s, r: PH(e, s, r) * w(s) * (PX(e, s, r) - g['b'](s))) * mk_pow(sum_over(ROW, lambda s, r: PH(e, s, r) * w(s)), -1)
        b1 = lambda s: over_s(s, lambda e, s_, r: PX(e, s_, r) - n['s'](e), vr)
        return {'v': v, 'vj': vj, 's': s1, 'b': b1, 'itr': lambda: g['itr']() + 1}
    def stop(g, n):
        d = mk_sqrt(Sigma(vE, lambda e: (g['s'](e) - n['s'](e)) ** 2))
        return bool_or(mk_lt(d - EPS8), mk_le(const(1000) - n['itr']()))
    return LoopSpec('alternating projection', {'s': ((vE,), 'f', s0), 'b': ((nS2,), 'f', b0), 'v': ((nS2,), 'nonneg', None), 'vj': ((vE,), 'nonneg', None), 'itr': ((), 'i', lambda: ZERO)}, step, stop, nstop=norm_stop('s', 'itr', 1e-8, 1000))

CLS = {'1': sm.SubjectMLEModelProjectionSolver, '2': P910AnnexEModel}
EST = ('quality_scores', 'observer_bias', 'observer_inconsistency', 'num_iter', 'raw_scores')
CHI = lambda q, n: T.mk_fun('chi2ppf', const(q), n)

class P910(Contract):
    name = 'SubjectMLEModelProjectionSolver._run_modeling'
    functions = (SM + 'SubjectMLEModelProjectionSolver._run_modeling', SM + 'SubjectMLEModelProjectionSolver._get_s_j_std', SM + 'SubjectMLEModelProjectionSolver._one_or_nan', SM + 'SubjectMLEModelProjectionSolver._get_reconstructions', SM + 'SubjectMLEModelProjectionSolver.loglikelihood_function', SM + 'SubjectMLEModelProjectionSolverAltSubjStdMixin._get_s_j_std', 'sureal.tools.misc.weighed_nanmean_2d')
    helpers = (STACK,)
    part = 'est'
    rtol = 1e-5
    cases = tuple({'cls': c, 'zm': z} for c in CLS for z in (None, True, False))
    opts = ({}, {}, {}, {'subject_rejection': True}, {'dscore_mode': True}, {'bias_offset': True})
    def setup(self, it, case):
        dims(E, S, R, 'S2')
        stub_preprocessing(it); every_video_voted()
        it.loop_queue = [p910_loop]
        return {'reader': reader_obj(it, score_array(it))}
    def kw(self, case): return {} if case['zm'] is None else {'force_subjbias_zeromean': case['zm']}
    def run(self, it, I, case):
        m = it.call(CLS[case['cls']], [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], self.kw(case))
    def spec(self, I, case):
        F = p910_loop().final()
        mb = ZERO if case['zm'] is False else Sigma(nS2, F['b']) * mk_pow(nS2, -1)
        q = lambda e: F['s'](e) + mb
        b = lambda s: F['b'](s) - mb
        v = F['v']
        est = {'quality_scores': Arr((vE,), q), 'observer_bias': Arr((nS2,), b), 'observer_inconsistency': Arr((nS2,), v), 'num_iter': Num(F['itr']()),
               'raw_scores': Arr((vE, nS2, vR), lambda e, s, r: (PX(e, s, r), bool_not(PH(e, s, r))))}
        if self.part == 'est': return Map(est)
        inv = lambda t: mk_pow(T.mk_relu(t), T.Fr(-1, 2))
        if case['cls'] == '1': qden = lambda e: sum_over(ROW, lambda s, r: PH(e, s, r) * mk_pow(v(s), -2))
        else: qden = lambda e: sum_over(ROW, lambda s, r: PH(e, s, r) * mk_pow(F['vj'](e), -2))
        qs = lambda e: inv(qden(e))
        bs = lambda s: inv(sum_over(COL, lambda e, r: PH(e, s, r) * mk_pow(v(s), -2)))
        res = lambda e, s, r: PX(e, s, r) - F['s'](e) - F['b'](s)
        vs = lambda s: inv(-sum_over(COL, lambda e, r: PH(e, s, r) * (mk_pow(v(s), -2) - 3 * res(e, s, r) ** 2 * mk_pow(v(s), -4))))
        n = cnt2_s
        lo = lambda s: (1 - mk_sqrt(n(s) * mk_pow(CHI(T.Fr(975, 1000), n(s)), -1))) * v(s)
        hi = lambda s: (mk_sqrt(n(s) * mk_pow(CHI(T.Fr(25, 1000), n(s)), -1)) - 1) * v(s)
        num = Sigma(vE, lambda e: cnt2_e(e)); num0 = cnt_all(H)
        dof = (vE + 2 * vS * vR) * mk_pow(num0, -1)
        ll = Sigma(vE, lambda e: sum_over(ROW, lambda s, r: PH(e, s, r) * loggauss(PX(e, s, r), q(e) + b(s), v(s)))) * mk_pow(num, -1)
        c = lambda n_, f: Lst([Arr((n_,), lambda i: C95 * f(i)), Arr((n_,), lambda i: C95 * f(i))])
        return Map({'quality_scores_std': Arr((vE,), qs), 'quality_scores_ci95': c(vE, qs), 'observer_bias_std': Arr((nS2,), bs), 'observer_bias_ci95': c(nS2, bs),
                    'observer_inconsistency_std': Arr((nS2,), vs), 'observer_inconsistency_ci95': Lst([Arr((nS2,), lo), Arr((nS2,), hi)]),
                    'observer_scores_mean': Arr((nS2,), lambda s: over_s(s, PX)), 'observer_scores_std': Arr((nS2,), lambda s: pstd_s(s, PX)),
                    'reconstructions': Arr((vE, nS2, vR), lambda e, s, r: q(e) + b(s)),
                    'dof': Num(dof), 'loglikelihood': Num(ll), 'aic': Num(2 * dof - 2 * ll), 'bic': Num(mk_log(num0) * dof - 2 * ll)})
    def gen(self, rng, case, hints):
        o = dict(rng.choice(self.opts))
        if o.get('subject_rejection'): env, nat = gen_reject(rng, o, hints)
        elif o.get('dscore_mode'): env, nat = gen_video(rng, o, hints)
        else:
            a = gen_scores(rng, hints, rng.randint(2, 5), rng.randint(2, 6), rng.choice([1, 1, 2, 3]), min_s=1, mode=rng.choice([0, 0, 4]))
            env, nat = base_env(a), [list_dataset(a), None]
        try: ret = sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(mkreader(nat), **o)
        except (AssertionError, ValueError): return None
        a = ret['opinion_score_3darray']
        if a.shape[1] == 0 or np.isnan(a).all(axis=(1, 2)).any() or np.isnan(a).all(axis=(0, 2)).any(): return None
        env.apps.update(env_array('PX', 'PH', a)); env.vars['S2'] = a.shape[1]
        try: F = p910_loop().iterate(env, 1000)
        except T.EvalError: return None
        if not all(np.isfinite(x).all() for x in F.values()) or (F['v'] < 1e-3).any() or (F['vj'] < 1e-3).any() or F['itr'] >= 999: return None
        env.F = F
        return env, nat + [o]
    def real(self, nat, case): return CLS[case['cls']](mkreader(nat)).run_modeling(**dict(nat[-1], **self.kw(case)))
class P910Out(P910):
    name = 'SubjectMLEModelProjectionSolver uncertainty and fit'
    part = 'out'
CONTRACTS = {'C09': [P910()], 'C10': [P910Out()]}
