"""C28: LIVE-style DMOS, least squares and the legacy maximum-likelihood model."""
from .mle import *
import scipy.linalg

class LiveDmos(Contract):
    name = 'LiveDmosModel._run_modeling'
    functions = (SM + 'LiveDmosModel._run_modeling',)
    helpers = (STACK,)
    OPT = ({}, {'bias_offset': False}, {'subject_rejection': True}, {'dscore_mode': True}, {'zscore_mode': True}, {'dscore_mode': False})
    cases = tuple({'n': i} for i in range(len(OPT)))
    def setup(self, it, case):
        dims(E, S, R, 'S2')
        stub_preprocessing(it)
        f = it.contracts[sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing]
        want = dict(self.OPT[case['n']], dscore_mode=True, zscore_mode=True)
        def pre(it_, args, kw):
            if any((kw.get(k) is True) != (want.get(k) is True) for k in STEPS): raise Unsupported('other preprocessing than promised')
            return f(it_, args, kw)
        it.contracts[sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing] = pre
        return {'reader': reader_obj(it, score_array(it)), 'opt': it.new_dict(dict(self.OPT[case['n']]), owner='options')}
    def run(self, it, I, case):
        m = it.call(sm.LiveDmosModel, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], dict(self.OPT[case['n']]))
    def spec(self, I, case):
        o = self.OPT[case['n']]
        if o.get('dscore_mode') or o.get('zscore_mode'): return Raises(AssertionError)
        return Map({'quality_scores': Arr((vE,), lambda e: (over_e(e, PX) + 3) * T.Fr(100, 6))})
    def gen(self, rng, case, hints):
        o = dict(self.OPT[case['n']]); o2 = dict(o, dscore_mode=True, zscore_mode=True)
        if o.get('dscore_mode') or o.get('zscore_mode'): o2.pop('subject_rejection', None)
        env, nat = gen_video(rng, dict(o2), hints)
        try: ret = sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(mkreader(nat), **o2)
        except (AssertionError, ValueError): return None
        a = ret['opinion_score_3darray']
        if a.shape[1] == 0 or np.isnan(a).all(axis=(1, 2)).any(): return None
        env.apps.update(env_array('PX', 'PH', a)); env.vars['S2'] = a.shape[1]
        return env, nat
    def real(self, nat, case): return sm.LiveDmosModel(mkreader(nat)).run_modeling(**self.OPT[case['n']])

NQ = lambda p: None
class LeastSquares(Contract):
    name = 'LeastSquaresModel._run_modeling'
    functions = (SM + 'LeastSquaresModel._run_modeling',)
    cases = ({'rep': False}, {'rep': True}, {'rep': False, 'rej': True}, {'rep': False, 'rej': False})
    def setup(self, it, case):
        dims(E, S, R, 'S2')
        stub_preprocessing(it)
        one = not case['rep']
        if case['rep']: CTX.lower[R] = 2
        def pre(it_, args, kw):
            if kw.get('bias_offset') is not True: raise Unsupported('other preprocessing than asked for')
            return it_.new_dict({'opinion_score_3darray': it_.new_arr((vE, vS, ONE if one else vR), lambda ix: (PX(*ix), ZERO)), 'original_opinion_score_3darray': it_.new_arr((vE, vS, ONE if one else vR), lambda ix: (PX(*ix), ZERO))})
        it.contracts[sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing] = pre
        # design matrix: one row per vote, last row ties the first quality
        def design(i, j):
            row = bool_or(mk_eq(T.mk_mod(i, vS) - j), mk_eq(vS + T.mk_div(i, vS) - j))     # observer column or video column
            return ite(mk_lt(i - vE * vS), row, mk_eq(j - vS))
        def pinv(it_, args, kw):
            A, = args
            from engine import loops
            ok = loops.matches(it_, A, ((vE * vS + 1, vE + vS), 'f', None), design)
            it_.loop_obls.append(('design matrix of the least-squares system', ok, ''))
            return it_.new_arr((vE + vS, vE * vS + 1), lambda ix: (mk_app('PINV', ix), ZERO))
        it.contracts[scipy.linalg.pinv] = pinv
        return {'reader': reader_obj(it, score_array(it))}
    def run(self, it, I, case):
        m = it.call(sm.LeastSquaresModel, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], dict(self.kw(case), bias_offset=True))
    def kw(self, case): return {'subject_rejection': case['rej']} if 'rej' in case else {}
    def spec(self, I, case):
        if case['rep'] or case.get('rej'): return Raises(AssertionError)
        P = lambda i, j: mk_app('PINV', [i, j])
        sol = lambda i: Sigma(vE, lambda e: Sigma(vS, lambda s: P(i, e * vS + s) * PX(e, s, ZERO))) + P(i, vE * vS) * Sigma(vS, lambda s: PX(ZERO, s, ZERO)) * mk_pow(vS, -1)
        return Map({'quality_scores': Arr((vE,), lambda e: sol(vS + e)), 'observer_bias': Arr((vS,), lambda s: sol(s))})
    def gen(self, rng, case, hints):
        E_, S_ = rng.randint(1, 6), rng.randint(1, 6)
        a = gen_scores(rng, hints, E_, S_, 1 if not case['rep'] else rng.randint(2, 3), p_missing=0, mode=rng.choice([0, 1, 4]))
        ds = list_dataset(a); o = {'bias_offset': True} if rng.random() < .3 and not case['rep'] and not case.get('rej') else {}
        env = base_env(a)
        if o: a = sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(RawDatasetReader(ds), **o)['opinion_score_3darray']
        env.apps.update(env_array('PX', 'PH', a))
        A = np.zeros((E_ * S_ + 1, E_ + S_))
        for e in range(E_):
            for s in range(S_): A[e * S_ + s, s] = 1; A[e * S_ + s, S_ + e] = 1
        A[-1, S_] = 1
        Pm = np.linalg.pinv(A)
        env.apps['PINV'] = lambda i, j: float(Pm[int(i), int(j)])
        return env, [ds, o]
    def real(self, nat, case): return sm.LeastSquaresModel(RawDatasetReader(nat[0])).run_modeling(**nat[1], **self.kw(case))

def legacy_loop(log, nthr=1e-8):
    mos = lambda e: over_e(e, PX, ONE)
    v0 = lambda s: pstd_s(s, lambda e, s_, r: PX(e, s_, r) - mos(e), ONE)
    z = lambda *a: ZERO
    comps = {'x': ((vE,), 'f', mos), 'b': ((nS2,), 'f', z), 'v': ((nS2,), 'f', v0), 'itr': ((), 'i', z)}
    if log: comps['lv'] = ((nS2,), 'f', lambda s: mk_log(v0(s)))
    se = lambda s, f: Sigma(vE, lambda e: PH(e, s, ZERO) * f(e))
    ss = lambda e, f: Sigma(nS2, lambda s: PH(e, s, ZERO) * f(s))
    def step(g, n):
        x = lambda e, s: PX(e, s, ZERO)
        out = {'b': lambda s: g['b'](s) * T90 + se(s, lambda e: x(e, s) - g['x'](e)) * mk_pow(se(s, lambda e: ONE), -1) * T10}
        a2 = lambda e, s: (x(e, s) - g['x'](e) - n['b'](s)) ** 2
        if log:
            iv = lambda s: mk_pow(g['v'](s), -2)
            out['lv'] = lambda s: g['lv'](s) - se(s, lambda e: a2(e, s) * iv(s) - 1) * mk_pow(se(s, lambda e: -2 * a2(e, s) * iv(s)), -1) * T10
            out['v'] = lambda s: mk_exp(n['lv'](s))
        else:
            v = g['v']
            out['v'] = lambda s: v(s) * T90 + se(s, lambda e: 2 * v(s) ** 3 - 4 * v(s) * a2(e, s)) * mk_pow(se(s, lambda e: v(s) ** 2 - 3 * a2(e, s)), -1) * T10
        iw = lambda s: mk_pow(n['v'](s), -2)
        out['x'] = lambda e: g['x'](e) * T90 + ss(e, lambda s: (x(e, s) - n['b'](s)) * iw(s)) * mk_pow(ss(e, iw), -1) * T10
        out['itr'] = lambda: g['itr']() + 1
        return out
    def stop(g, n):
        d = mk_sqrt(Sigma(vE, lambda e: (g['x'](e) - n['x'](e)) ** 2))
        return bool_or(mk_lt(d - EPS8), mk_le(const(5000) - n['itr']()))
    return LoopSpec('legacy belief propagation', comps, step, stop, tag='l', nstop=norm_stop('x', 'itr', nthr, 5000))
class LegacyMle(Contract):
    name = 'LegacyMaximumLikelihoodEstimationModel._run_modeling'
    functions = (SM + 'LegacyMaximumLikelihoodEstimationModel._run_modeling',)
    cases = ({'log': None, 'zm': None, 'rep': False}, {'log': False, 'zm': False, 'rep': False}, {'log': True, 'zm': True, 'rep': False}, {'log': None, 'zm': None, 'rep': True}, {'log': None, 'zm': None, 'rej': True, 'rep': False})
    rtol = 1e-5; margin = 0
    nquick = 5
    def setup(self, it, case):
        dims(E, S, R, 'S2')
        one = not case['rep']
        if case['rep']: CTX.lower[R] = 2
        CTX.forall('PH', 0, lambda t: [('ge1', cnt2_e(t, ONE))]); CTX.forall('PH', 1, lambda t: [('ge1', cnt2_s(t, ONE))])
        def pre(it_, args, kw):
            if kw.get('bias_offset') is not True or kw.get('dscore_mode') is True or kw.get('zscore_mode') is True: raise Unsupported('other preprocessing than asked for')
            return it_.new_dict({'opinion_score_3darray': it_.new_arr((vE, nS2, ONE if one else vR), lambda ix: (PX(*ix), bool_not(PH(*ix)))), 'original_opinion_score_3darray': it_.new_arr((vE, vS, ONE), lambda ix: (X(*ix), ZERO))})
        it.contracts[sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing] = pre
        it.loop_queue = [lambda: legacy_loop(bool(case['log']))]
        return {'reader': reader_obj(it, score_array(it))}
    def kw(self, case, sym=False):
        o = {'bias_offset': True} if sym else {}
        if case['log'] is not None: o['use_log'] = case['log']
        if case['zm'] is not None: o['force_subjbias_zeromean'] = case['zm']
        if case.get('rej'): o['subject_rejection'] = True
        return o
    def run(self, it, I, case):
        m = it.call(sm.LegacyMaximumLikelihoodEstimationModel, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], self.kw(case, True))
    def spec(self, I, case):
        if case['rep'] or case.get('rej'): return Raises(AssertionError)
        F = legacy_loop(bool(case['log'])).final()
        mb = ZERO if case['zm'] is False else Sigma(nS2, F['b']) * mk_pow(nS2, -1)
        return Map({'quality_scores': Arr((vE,), lambda e: F['x'](e) + mb), 'observer_bias': Arr((nS2,), lambda s: F['b'](s) - mb), 'observer_inconsistency': Arr((nS2,), F['v'])})
    def gen(self, rng, case, hints):
        if case['rep'] or case.get('rej'): E_ = rng.randint(4, 7); a = synth(rng, E_, rng.randint(3, 5), 2 if case['rep'] else 1, [0] * E_)
        else: a = calm(rng, rng.randint(18, 24), rng.randint(9, 12))
        o = dict(rng.choice([{}, {}, {'bias_offset': True}, {'zscore_mode': True}])) if not case['rep'] and not case.get('rej') else {}
        nat = [list_dataset(a), o]
        env = base_env(a)
        if o: a = sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(mkreader([nat[0], None]), **o)['opinion_score_3darray']
        env.apps.update(env_array('PX', 'PH', a)); env.vars['S2'] = a.shape[1]
        if not case['rep'] and not case.get('rej'):
            try: F = legacy_loop(bool(case['log'])).iterate(env, 1500)
            except T.EvalError: return None
            if not all(np.isfinite(x).all() for x in F.values()) or (abs(F['v']) < .03).any(): return None
        return env, nat
    def real(self, nat, case): return sm.LegacyMaximumLikelihoodEstimationModel(mkreader([nat[0], None])).run_modeling(**self.kw(case), **nat[1])
CONTRACTS = {'C28': [LiveDmos(), LeastSquares(), LegacyMle()]}
