"""C11/C12: maximum-likelihood model with observer bias/inconsistency and content ambiguity."""
from .p910 import *

MODES = {'DEFAULT': MLE, 'CONTENT_OBLIVIOUS': CO, 'SUBJECT_OBLIVIOUS': sm.MaximumLikelihoodEstimationModelSubjectOblivious}
DT = lambda: mk_app('DELTATHR', [ZERO])
T10 = T.Fr(1, 10); T90 = T.Fr(9, 10)
RW = (vS, vR); CL = (vE, vR)
invsqrt = lambda t: mk_pow(T.mk_relu(t), T.Fr(-1, 2))

EPS3 = T.Fr(1, 1000)
def mle_loop(mode, px, thr, tag='m', nthr=1e-8, numerical=False):
    def fd(f):
        """central differences of f (first derivative over one step of 1e-3, second over steps of 1e-3)"""
        return (f(EPS3 / 2) - f(-EPS3 / 2)) * (1 / EPS3), (f(EPS3) - 2 * f(T.Fr(0)) + f(-EPS3)) * (1 / EPS3 ** 2)
    mos = lambda e: mean_over(RW, lambda s, r: X(e, s, r), lambda s, r: H(e, s, r))[0]
    r0 = lambda e, s, r: px(e, s, r) - mos(e)
    so = mode == 'SUBJECT_OBLIVIOUS'; co = mode == 'CONTENT_OBLIVIOUS'
    z = lambda *a: ZERO
    inc = lambda c, e: mk_eq(CID(e) - c)
    v0 = lambda s: mk_sqrt(var_over(CL, lambda e, r: r0(e, s, r), lambda e, r: H(e, s, r))[0])
    a0 = lambda c: mk_sqrt(var_over((vE, vS, vR), r0, lambda e, s, r: inc(c, e) * H(e, s, r))[0])
    cst = ('const', z)
    comps = {'x': ((vE,), 'f', mos), 'b': ((vS,), cst if so else 'f', z), 'v': ((vS,), cst if so else 'nonneg', z if so else v0), 'a': ((vC,), cst if co else 'nonneg', z if co else a0),
             'xs': ((vE,), 'f', None), 'bs': ((vS,), cst if so else 'f', None), 'vs': ((vS,), cst if so else 'f', None), 'as': ((vC,), cst if co else 'f', None), 'itr': ((), 'i', z)}
    def step(g, n):
        ae = lambda e: g['a'](CID(e))
        w = lambda e, s: g['v'](s) ** 2 + ae(e) ** 2
        iw = lambda e, s: mk_pow(w(e, s), -1)
        sm_s = lambda s, f: sum_over(CL, lambda e, r: H(e, s, r) * f(e, s, r))
        sm_e = lambda e, f: sum_over(RW, lambda s, r: H(e, s, r) * f(e, s, r))
        out = {}
        den_b = lambda s: sm_s(s, lambda e, s_, r: iw(e, s_))
        out['b'] = z if so else (lambda s: g['b'](s) * T90 + sm_s(s, lambda e, s_, r: (px(e, s_, r) - g['x'](e)) * iw(e, s_)) * mk_pow(den_b(s), -1) * T10)
        out['bs'] = z if so else (lambda s: invsqrt(den_b(s)))
        res = lambda e, s, r: px(e, s, r) - g['x'](e) - n['b'](s)
        def vnum(e, s, r): v = g['v'](s); return -v * iw(e, s) + v * res(e, s, r) ** 2 * iw(e, s) ** 2
        def vden(e, s, r):
            v = g['v'](s); a = ae(e)
            return (v ** 2 - a ** 2) * iw(e, s) ** 2 + res(e, s, r) ** 2 * (a ** 4 - 3 * v ** 4 - 2 * v ** 2 * a ** 2) * iw(e, s) ** 4
        if numerical:
            fv = lambda s: fd(lambda h: sm_s(s, lambda e, s_, r: loggauss(px(e, s_, r), g['x'](e) + n['b'](s_), mk_sqrt((g['v'](s_) + h) ** 2 + ae(e) ** 2))))
            out['v'] = z if so else (lambda s: T.mk_relu(g['v'](s) - fv(s)[0] * mk_pow(fv(s)[1], -1) * T10))
            out['vs'] = z if so else (lambda s: invsqrt(-fv(s)[1]))
        else:
          out['v'] = z if so else (lambda s: T.mk_relu(g['v'](s) - sm_s(s, vnum) * mk_pow(sm_s(s, vden), -1) * T10))
          out['vs'] = z if so else (lambda s: invsqrt(-sm_s(s, vden)))
        w2 = lambda e, s: mk_pow(n['v'](s) ** 2 + ae(e) ** 2, -1)
        def anum(e, s, r): a = ae(e); return -a * w2(e, s) + a * res(e, s, r) ** 2 * w2(e, s) ** 2
        def aden(e, s, r):
            v = n['v'](s); a = ae(e)
            return -(v ** 2 - a ** 2) * w2(e, s) ** 2 + res(e, s, r) ** 2 * (v ** 4 - 3 * a ** 4 - 2 * v ** 2 * a ** 2) * w2(e, s) ** 4
        over_c = lambda c, f: Sigma(vE, lambda e: inc(c, e) * sm_e(e, f))
        if numerical:
            fa = lambda c: fd(lambda h: over_c(c, lambda e, s, r: loggauss(px(e, s, r), g['x'](e) + n['b'](s), mk_sqrt(n['v'](s) ** 2 + (ae(e) + h) ** 2))))
            out['a'] = z if co else (lambda c: T.mk_relu(g['a'](c) - fa(c)[0] * mk_pow(fa(c)[1], -1) * T10))
            out['as'] = z if co else (lambda c: invsqrt(-fa(c)[1]))
        else:
          out['a'] = z if co else (lambda c: T.mk_relu(g['a'](c) - over_c(c, anum) * mk_pow(over_c(c, aden), -1) * T10))
          out['as'] = z if co else (lambda c: invsqrt(-over_c(c, aden)))
        w3 = lambda e, s: mk_pow(n['v'](s) ** 2 + n['a'](CID(e)) ** 2, -1)
        den_x = lambda e: sm_e(e, lambda e_, s, r: w3(e_, s))
        out['x'] = lambda e: g['x'](e) * T90 + sm_e(e, lambda e_, s, r: (px(e_, s, r) - n['b'](s)) * w3(e_, s)) * mk_pow(den_x(e), -1) * T10
        out['xs'] = lambda e: invsqrt(den_x(e))
        out['itr'] = lambda: g['itr']() + 1
        return out
    def stop(g, n):
        d = mk_sqrt(Sigma(vE, lambda e: (g['x'](e) - n['x'](e)) ** 2))
        return bool_or(mk_lt(d - thr), mk_le(const(10000) - n['itr']()))
    return LoopSpec('belief propagation', comps, step, stop, tag=tag, nstop=norm_stop('x', 'itr', nthr, 10000))

def cnt_c(c): return Sigma(vE, lambda e: mk_eq(CID(e) - c) * cnt_e(e))
def calm(rng, E_, S_, R_=1):
    """votes with comparable observers, so that no inconsistency estimate degenerates to zero"""
    q = [rng.uniform(1, 5) for _ in range(E_)]; b = [rng.gauss(0, .4) for _ in range(S_)]; v = [rng.uniform(.6, .8) for _ in range(S_)]
    pm = rng.choice([0, .03, .06])
    return np.array([[[q[e] + b[s] + rng.gauss(0, v[s]) if rng.random() >= pm else float('nan') for r in range(R_)] for s in range(S_)] for e in range(E_)])
def synth(rng, E_, S_, R_, cids):
    q = [rng.uniform(1, 5) for _ in range(E_)]; b = [rng.gauss(0, .4) for _ in range(S_)]; v = [rng.uniform(.5, 1) for _ in range(S_)]; am = [rng.uniform(.3, .8) for _ in range(max(cids) + 1)]
    pm = rng.choice([0, 0, .15]); rd = rng.random() < .4
    while True:
        a = np.array([[[q[e] + b[s] + rng.gauss(0, v[s]) + rng.gauss(0, am[cids[e]]) if rng.random() >= pm else float('nan') for r in range(R_)] for s in range(S_)] for e in range(E_)])
        h = ~np.isnan(a)
        if h.sum(axis=(1, 2)).min() >= 3 and h.sum(axis=(0, 2)).min() >= 3: break
    return np.round(a) if rd else a
class Mle(Contract):
    name = 'MaximumLikelihoodEstimationModel._run_modeling'
    functions = (SM + 'MaximumLikelihoodEstimationModel._run_modeling', SM + 'MaximumLikelihoodEstimationModel._get_reconstructions', SM + 'MaximumLikelihoodEstimationModel._get_dof', SM + 'MaximumLikelihoodEstimationModel.loglikelihood_fcn', 'sureal.tools.stats.vectorized_gaussian')
    helpers = (STACK,)
    part = 'est'
    rtol = 1e-5
    timeout = 400
    cases = tuple({'mode': m, 'grad': g, 'zm': z, 'thr': t} for m in MODES for g, z, t in (('simplified', None, False), ('original', False, True), ('numerical', True, True)))
    opts = ({}, {}, {}, {'zscore_mode': True}, {'bias_offset': True})
    nquick = 4; nthorough = 60
    margin = 0
    def setup(self, it, case):
        dims(E, S, R, C)
        CTX.apprange['CID'] = lambda args: vC
        every_video_voted(); every_observer_voted()
        CTX.forall_range(vC, lambda c: [('ge1', cnt_c(c))])      # every content has a vote
        def pre(it_, args, kw):
            p = PX if any(kw.get(k) is True for k in ('dscore_mode', 'zscore_mode', 'bias_offset')) else X
            return it_.new_dict({'opinion_score_3darray': it_.new_arr((vE, vS, vR), lambda ix: (p(*ix), bool_not(H(*ix)))),
                   'original_opinion_score_3darray': it_.new_arr((vE, vS, vR), lambda ix: (X(*ix), bool_not(H(*ix))))})
        it.contracts[sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing] = pre
        it.loop_queue = [lambda: self.loop(case)]
        return {'reader': reader_obj(it, score_array(it), content_id_of_dis_videos=lambda it_, o: it_.new_symlist(vE, lambda e: SNum(CID(e), ZERO, 'i')),
                max_content_id_of_ref_videos=lambda it_, o: SNum(vC - 1, ZERO, 'i'))}
    def loop(self, case): return mle_loop(case['mode'], PX, DT() if case['thr'] else EPS8, numerical=case['grad'] == 'numerical')
    def kw(self, case, thr, sym=True):
        o = {'bias_offset': True} if sym else {}
        if case['grad'] != 'simplified': o['gradient_method'] = case['grad']
        if case['zm'] is not None: o['force_subjbias_zeromean'] = case['zm']
        if case['thr'] or (not sym and thr != 1e-8): o['delta_thr'] = thr
        return o
    def run(self, it, I, case):
        m = it.call(MODES[case['mode']], [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], self.kw(case, SNum(DT(), ZERO, 'f')))
    def spec(self, I, case):
        so = case['mode'] == 'SUBJECT_OBLIVIOUS'; co = case['mode'] == 'CONTENT_OBLIVIOUS'
        L = self.loop(case); L.flags()
        F = L.final()
        mb = ZERO if case['zm'] is False or so else Sigma(vS, F['b']) * mk_pow(vS, -1)
        q = lambda e: F['x'](e) + mb
        b = lambda s: F['b'](s) - mb
        v = F['v']; a = F['a']
        raw = Arr((vE, vS, vR), lambda e, s, r: (PX(e, s, r), bool_not(H(e, s, r))))
        m = {'quality_scores': Arr((vE,), q), 'num_iter': Num(F['itr']()), 'raw_scores': raw}
        if not so: m.update({'observer_bias': Arr((vS,), b), 'observer_inconsistency': Arr((vS,), v)})
        if not co: m['content_ambiguity'] = Arr((vC,), a)
        if self.part == 'est': return Map(m)
        ci = lambda n_, f: Lst([Arr((n_,), lambda i: C95 * f(i)), Arr((n_,), lambda i: C95 * f(i))])
        n = cnt_s
        lo = lambda s: (1 - mk_sqrt(n(s) * mk_pow(CHI(T.Fr(975, 1000), n(s)), -1))) * v(s)
        hi = lambda s: (mk_sqrt(n(s) * mk_pow(CHI(T.Fr(25, 1000), n(s)), -1)) - 1) * v(s)
        num = cnt_all(H)
        dof = (vE + (ZERO if so else 2 * vS * vR) + (ZERO if co else vC)) * mk_pow(num, -1)
        ll = Sigma(vE, lambda e: sum_over(RW, lambda s, r: H(e, s, r) * loggauss(PX(e, s, r), q(e) + b(s), mk_sqrt(v(s) ** 2 + a(CID(e)) ** 2)))) * mk_pow(num, -1)
        o = {'quality_scores_std': Arr((vE,), F['xs']), 'quality_scores_ci95': ci(vE, F['xs']), 'reconstructions': Arr((vE, vS, vR), lambda e, s, r: q(e) + b(s)),
             'dof': Num(dof), 'loglikelihood': Num(ll), 'aic': Num(2 * dof - 2 * ll), 'bic': Num(mk_log(num) * dof - 2 * ll)}
        ab = ['observers']
        if not so: o.update({'observer_bias_std': Arr((vS,), F['bs']), 'observer_bias_ci95': ci(vS, F['bs']), 'observer_inconsistency_std': Arr((vS,), F['vs']), 'observer_inconsistency_ci95': Lst([Arr((vS,), lo), Arr((vS,), hi)])})
        else: ab += ['observer_bias', 'observer_inconsistency', 'observer_bias_std', 'observer_inconsistency_std', 'observer_bias_ci95', 'observer_inconsistency_ci95']
        if not co: o.update({'content_ambiguity_std': Arr((vC,), F['as']), 'content_ambiguity_ci95': ci(vC, F['as'])})
        else: ab += ['content_ambiguity', 'content_ambiguity_std', 'content_ambiguity_ci95']
        return Map(dict(m, **o), absent=tuple(ab))
    def gen(self, rng, case, hints):
        o = dict(rng.choice(self.opts))
        C_ = rng.randint(1, 3); E_ = C_ + rng.randint(2, 5)
        cids = list(range(C_)) + [rng.randrange(C_) for _ in range(E_ - C_)]
        rng.shuffle(cids)
        a = synth(rng, E_, rng.randint(4, 7), rng.choice([1, 1, 2]), cids)
        env, nat = base_env(a, **{C: C_}), [list_dataset(a, cids), None]
        env.apps['CID'] = lambda i: cids[int(i)]
        a2 = sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(mkreader(nat), **o)['opinion_score_3darray']
        if a2.shape != a.shape or (np.isnan(a2) != np.isnan(a)).any(): return None
        env.apps.update(env_array('PX', 'PH', a2))
        thr = rng.choice([3e-2, 1e-2, 3e-3]) if case['thr'] or rng.random() < 0.7 else 1e-8
        env.apps['DELTATHR'] = lambda i: thr
        try: F = mle_loop(case['mode'], PX, DT() if case['thr'] else EPS8, nthr=thr, numerical=case['grad'] == 'numerical').iterate(env, 600)
        except T.EvalError: return None
        if not all(np.isfinite(x).all() for x in F.values()): return None
        w = F['v'][None, :] ** 2 + F['a'][:, None] ** 2
        if w.min() < 1e-3: return None
        for nm in ('v', 'a'):
            if ((F[nm] > 0) & (F[nm] < 1e-3)).any() or (F[nm + 's'] > 100).any(): return None
        env.F = F
        return env, nat + [o, thr]
    def real(self, nat, case):
        return MODES[case['mode']](mkreader(nat)).run_modeling(**dict(self.kw(case, nat[3], False), **nat[2]))
class MleOut(Mle):
    name = 'MaximumLikelihoodEstimationModel uncertainty and fit'
    part = 'out'
class LogLik(Contract):
    """log-likelihood of the votes per observer (axis 0) or per video (axis 1) under the three noise models"""
    name = 'MaximumLikelihoodEstimationModel.loglikelihood_fcn'
    functions = (SM + 'MaximumLikelihoodEstimationModel.loglikelihood_fcn',)
    helpers = (STACK,)
    cases = tuple({'pdf': p, 'axis': a} for p in ('gaussian', 'uniform') for a in (0, 1))
    nquick = 8
    A = {n: (lambda i, n=n: mk_app('ll_' + n, [i])) for n in 'xbva'}
    def setup(self, it, case):
        dims(E, S, R, C)
        CTX.apprange['CID'] = lambda args: vC
        CTX.appnonneg.add('ll_v'); CTX.appnonneg.add('ll_a')
        def conv(f, same_shapes):
            def g(it_, args, kw):
                if len(args) != 5 or kw: raise Unsupported('convolution called in another way')
                from engine.npmodel import as_arr, broadcast
                cs = [as_arr(it_, x) for x in args]
                if same_shapes and any(tuple(c[0]) != tuple(cs[0][0]) for c in cs): raise Unsupported('shapes differ %s' % [c[0] for c in cs])
                sh, ixs = broadcast(it_, [c[0] for c in cs])
                def el(ix):
                    vs = [c[1](jx(ix)) for c, jx in zip(cs, ixs)]; nan = ZERO
                    for v in vs: nan = bool_or(nan, v[1])
                    return f(*[v[0] for v in vs]), nan
                return it_.new_arr(tuple(sh), el)
            return g
        it.contracts[sm.vectorized_convolution_of_two_uniforms] = conv(lambda *a: mk_app('CVU', list(a)), False)
        it.contracts[sm.vectorized_convolution_of_two_logistics] = conv(lambda *a: mk_app('CVL', list(a)), True)
        vec = lambda n, d: it.new_arr((d,), lambda ix: (self.A[n](*ix), ZERO), 'f', owner='parameters')
        rr = ONE if case['pdf'] == 'logistic' else vR
        return {'a': [it.new_arr((vE, vS, rr), lambda ix: (PX(*ix), bool_not(PH(*ix))), 'f', owner='votes'), vec('x', vE), vec('b', vS), vec('v', vS), vec('a', vC),
                      it.new_symlist(vE, lambda e: SNum(CID(e), ZERO, 'i')), case['axis'], case['pdf']]}
    def run(self, it, I, case): return it.call(MLE.loglikelihood_fcn, I['a'])
    def spec(self, I, case):
        g = self.A; ae = lambda e: g['a'](CID(e)); rr = ONE if case['pdf'] == 'logistic' else vR
        k = mk_pow(T.mk_pi(), -1) * mk_sqrt(const(3))
        def d(e, s, r):
            if case['pdf'] == 'gaussian': return loggauss(PX(e, s, r), g['x'](e) + g['b'](s), mk_sqrt(g['v'](s) ** 2 + ae(e) ** 2))
            if case['pdf'] == 'uniform': return mk_log(mk_app('CVU', [PX(e, s, r), g['b'](s), g['v'](s) * mk_sqrt(const(12)), g['x'](e), ae(e) * mk_sqrt(const(12))]))
            return mk_log(mk_app('CVL', [PX(e, s, r), g['b'](s), g['v'](s) * k, g['x'](e), ae(e) * k]))
        if case['axis'] == 0: return Arr((vS,), lambda s: sum_over((vE, rr), lambda e, r: PH(e, s, r) * d(e, s, r)))
        return Arr((vE,), lambda e: sum_over((vS, rr), lambda s, r: PH(e, s, r) * d(e, s, r)))
    def gen(self, rng, case, hints):
        lg = case['pdf'] == 'logistic'
        E_, S_, R_ = rng.randint(1, 4), rng.randint(1, 4), 1 if lg else rng.randint(1, 3)
        Cn = rng.randint(1, 3); cid = [rng.randrange(Cn) for _ in range(E_)]
        x = np.array([rng.uniform(1, 5) for _ in range(E_)]); b = np.array([rng.uniform(-.5, .5) for _ in range(S_)])
        v = np.array([rng.uniform(.5, 1) for _ in range(S_)]); a = np.array([rng.uniform(.3, .9) for _ in range(Cn)])
        n = lambda e, s: rng.uniform(-.85, .85) * (v[s] + a[cid[e]])
        o = np.array([[[x[e] + b[s] + n(e, s) if rng.random() > .2 else float('nan') for r in range(R_)] for s in range(S_)] for e in range(E_)])
        env = T.Env({E: E_, S: S_, R: R_, C: Cn}, env_array('PX', 'PH', o))
        for nm, q in zip('xbva', (x, b, v, a)): env.apps['ll_' + nm] = lambda i, q=q: float(q[int(i)])
        env.apps['CID'] = lambda e: cid[int(e)]
        f = np.where(np.isnan(o), (x[:, None] + b[None, :])[:, :, None], o); env.apps['PX'] = lambda e, s, r: float(f[int(e), int(s), int(r)])
        env.apps['CVU'] = lambda *p: uniform_conv(*[float(z) for z in p])
        env.apps['CVL'] = lambda *p: logistic_conv(*[float(z) for z in p])
        return env, [o, x, b, v, a, cid]
    def real(self, nat, case): return MLE.loglikelihood_fcn(*nat, case['axis'], case['pdf'])
class LogLikLogistic(LogLik):
    name = 'MaximumLikelihoodEstimationModel.loglikelihood_fcn, logistic'
    cases = tuple({'pdf': 'logistic', 'axis': a} for a in (0, 1))
    rtol = 1e-2           # the density itself is computed on a grid (C26)
def uniform_conv(x, m1, s1, m2, s2):
    z = x - m1 - m2
    lo, hi = max(-s1 / 2, z - s2 / 2), min(s1 / 2, z + s2 / 2)
    return max(0.0, hi - lo) / (s1 * s2)
def logistic_conv(x, m1, s1, m2, s2):
    from scipy import integrate
    f = lambda y, m, s: 1 / (4 * s * np.cosh((y - m) / (2 * s)) ** 2)
    if x != x: return float('nan')
    w = 40 * max(s1, s2)
    return integrate.quad(lambda t: f(t, m1, s1) * f(x - t, m2, s2), m1 - w, m1 + w, points=[m1, x - m2] if abs(x - m2 - m1) < w else None, limit=200)[0]
CONTRACTS = {'C11': [LogLik(), LogLikLogistic(), Mle()], 'C12': [MleOut()]}
