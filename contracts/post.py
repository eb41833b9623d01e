"""C13 (final normalisation / transform) and C14 (named models)."""
from .mos import *
import sureal
from sureal import BT500Model, P913124Model, P910AnnexEModel

Q = lambda e: mk_app('Q', [e])
P0, P1, P2 = (mk_app('POLY', [const(k)]) for k in range(3))

class Post(Contract):
    """scores -> normalised -> polynomial; everything else untouched"""
    name = 'SubjectiveModel._postprocess_model_result'
    functions = (SM + 'SubjectiveModel._postprocess_model_result',)
    modifies = ('model result',)
    check_inputs = False
    cases = tuple({'norm': n, 'poly': p} for n in (None, False, True) for p in (None, '', '0', '1', '2', '01', '02', '12', '012'))
    def setup(self, it, case):
        dims(E)
        oth = it.new_symlist(vE, lambda e: SNum(mk_app('OTH', [e]), ZERO, 'f'), owner='other result')
        q = it.new_symlist(vE, lambda e: SNum(Q(e), ZERO, 'f'), owner='score list')
        d = it.new_dict({'quality_scores': q, 'quality_scores_std': oth, 'zz': 'other'}, owner='model result')
        return {'d': d, 'oth': oth}
    def kw(self, case, f):
        kw = {}
        if case['norm'] is not None: kw['normalize_final'] = case['norm']
        if case['poly'] is not None: kw['transform_final'] = f({'p' + k: k for k in case['poly']})
        return kw
    def run(self, it, I, case):
        mk = lambda d: it.new_dict({k: SNum((P0, P1, P2)[int(v)], ZERO, 'f') for k, v in d.items()}, owner='options')
        it.call(sm.SubjectiveModel._postprocess_model_result, [I['d']], self.kw(case, mk))
        return I['d']
    def spec(self, I, case):
        q = Q
        if case['norm']:
            m = Sigma(vE, Q) * mk_pow(vE, -1)
            sd = mk_sqrt(Sigma(vE, lambda e: (Q(e) - m) ** 2) * mk_pow(vE, -1))
            q = lambda e: (Q(e) - m) * mk_pow(sd, -1)
        f = q
        if case['poly'] is not None:
            f = lambda e: sum((c * q(e) ** int(k) for k, c in zip('012', (P0, P1, P2)) if k in case['poly']), ZERO)
        return Map({'quality_scores': Arr((vE,), f), 'quality_scores_std': Same(I['oth']), 'zz': 'other'}, exact=True)
    def gen(self, rng, case, hints):
        n = rng.randint(1 if not case['norm'] else 2, 6)
        q = [rng.choice([rng.uniform(-3, 5), float(rng.randint(1, 5))]) for _ in range(n)]
        if case['norm'] and len(set(q)) == 1: q[0] += 1
        p = [rng.choice([0, 1, -2, 0.5, 3.25]) for _ in range(3)]
        env = T.Env({E: n}, {'Q': lambda e: q[int(e)], 'POLY': lambda k: p[int(k)], 'OTH': lambda e: 0.25})
        return env, [q, p, rng.random() < .5]
    def real(self, nat, case):
        q, p, arr = nat
        oth = [1.0] * len(q)
        d = {'quality_scores': np.array(q) if arr else list(q), 'quality_scores_std': oth, 'zz': 'other'}
        opts = self.kw(case, lambda t: {k: p[int(v)] for k, v in t.items()})
        import copy
        o2 = copy.deepcopy(opts)
        sm.SubjectiveModel._postprocess_model_result(d, **opts)
        if d.get('quality_scores_std') is not oth or oth != [1.0] * len(q) or opts != o2: raise RuntimeError('something else than the scores was changed')
        return d
CONTRACTS = {'C13': [Post()]}

# ------------------------------------------------------------------------------------------------------------ C14
D, Z, B = {'dscore_mode': True}, {'zscore_mode': True}, {'bias_offset': True}
RK, RP, RS = {'subject_rejection': True}, {'subject_rejection': True, 'subject_rejection_type': 'pearson'}, {'subject_rejection': True, 'subject_rejection_type': 'spearman'}
TABLE = {   # type name -> class, steps, kind
 'MOS': (sm.MosModel, {}, 'mos'), 'DMOS': (sm.DmosModel, D, 'mos'), 'SR_MOS': (sm.SubjrejMosModel, RK, 'mos'),
 'SR_MOS_PCC': (sm.SubjrejMosModelPearson, RP, 'mos'), 'SR_MOS_SRCC': (sm.SubjrejMosModelSpearman, RS, 'mos'), 'ZS_MOS': (sm.ZscoringMosModel, Z, 'mos'),
 'ZS_SR_MOS': (sm.ZscoringSubjrejMosModel, dict(Z, **RK), 'mos'), 'SR_DMOS': (sm.SubjrejDmosModel, dict(D, **RK), 'mos'), 'ZS_SR_DMOS': (sm.ZscoringSubjrejDmosModel, dict(D, **dict(Z, **RK)), 'mos'),
 'PERSUBJECT': (sm.PerSubjectModel, {}, 'per'),
 'BR_MOS': (sm.BiasremvMosModel, B, 'br'), 'BR_SR_MOS': (sm.BiasremvSubjrejMosModel, dict(B, **RK), 'br'),
 'BR_SR_MOS_PCC': (sm.BiasremvSubjrejMosModelPearson, dict(B, **RP), 'br'), 'BR_SR_MOS_SRCC': (sm.BiasremvSubjrejMosModelSpearman, dict(B, **RS), 'br'),
 'BT500': (BT500Model, RK, 'mos'), 'P913': (P913124Model, dict(B, **RK), 'br'),
}
MLE = sm.MaximumLikelihoodEstimationModel; CO = sm.MaximumLikelihoodEstimationModelContentOblivious
TABLE2 = {  # solver models: class, steps, class whose solver runs
 'MLE': (MLE, {}, 'DEFAULT'), 'MLE_CO': (CO, {}, 'CONTENT_OBLIVIOUS'), 'MLE_SO': (sm.MaximumLikelihoodEstimationModelSubjectOblivious, {}, 'SUBJECT_OBLIVIOUS'),
 'DMOS_MLE': (sm.MaximumLikelihoodEstimationDmosModel, D, 'DEFAULT'), 'DMOS_MLE_CO': (sm.MaximumLikelihoodEstimationDmosModelContentOblivious, D, 'CONTENT_OBLIVIOUS'),
 'Subject_MLE_Projection': (sm.SubjectMLEModelProjectionSolver, {}, None), 'Subject_MLE_Projection2': (sm.SubjectMLEModelProjectionSolver2, {}, None), 'P910': (P910AnnexEModel, {}, None),
 'MLE_CO_AP': (sm.MaximumLikelihoodEstimationModelContentObliviousAlternativeProjection, {}, None), 'MLE_CO_AP2': (sm.MaximumLikelihoodEstimationModelContentObliviousAlternativeProjection2, {}, None),
}
OTHERS = {'LIVE_DMOS': sm.LiveDmosModel, 'LS': sm.LeastSquaresModel, 'MLE_legacy': sm.LegacyMaximumLikelihoodEstimationModel}
STEPS = ('dscore_mode', 'zscore_mode', 'bias_offset', 'subject_rejection', 'subject_rejection_type')
def extras(steps, kind):
    """options the caller may add: (options, expected steps or 'refused')"""
    out = [({}, steps)]
    for s in ('dscore_mode', 'zscore_mode', 'bias_offset', 'subject_rejection'):
        if steps.get(s): out.append(({s: True}, 'refused'))
        elif s == 'zscore_mode' and steps.get('bias_offset') or s == 'bias_offset' and steps.get('zscore_mode'): pass
        else: out.append(({s: True}, dict(steps, **{s: True})))
    for s in ('dscore_mode', 'zscore_mode', 'bias_offset', 'subject_rejection'):
        if not steps.get(s): out.append(({s: False}, steps))
    if 'subject_rejection' in steps and 'subject_rejection_type' not in steps: out.append(({'subject_rejection_type': 'pearson'}, dict(steps, subject_rejection_type='pearson')))
    return out
def sig(kw):
    r = kw.get('subject_rejection') is True
    return '%d%d%d%s' % (kw.get('dscore_mode') is True, kw.get('zscore_mode') is True, kw.get('bias_offset') is True, (kw.get('subject_rejection_type') or 'kurtosis') if r else '')

CORR = CorrRej()
class Named(Contract):
    """named MOS models = statistics of exactly the promised preprocessing; other options pass through; repeated steps are refused"""
    name = 'named MOS models'
    functions = tuple(sorted(set(SM + c.__name__ + '.run_modeling' for c, _, _ in TABLE.values() if c.__module__.endswith('subjective_model')))) + (SM + 'SubjectiveModel.run_modeling', SM + 'MosModel._run_modeling', SM + 'BiasremvMosModel._run_modeling', SM + 'BiasremvMosModel._get_dof', SM + 'PerSubjectModel._run_modeling')
    helpers = (STACK,)
    nquick = 3
    cases = tuple({'type': t, 'n': i} for t, (c, st, k) in TABLE.items() for i in range(len(extras(st, k)))) + tuple({'type': t, 'n': 0, 'post': True} for t in TABLE if TABLE[t][2] != 'per')
    def info(self, case):
        c, st, k = TABLE[case['type']]
        o, e = extras(st, k)[case['n']]
        return c, k, o, e
    def names(self, steps): g = sig(steps); return 'PX' + g, 'PH' + g, g
    def setup(self, it, case):
        dims(E, S, R, 'S2')
        c, k, o, e = self.info(case)
        for g in ('%d%d%d%s' % (a, b, d, r) for a in (0, 1) for b in (0, 1) for d in (0, 1) for r in ('', 'kurtosis', 'pearson', 'spearman')):
            CTX.forall('PH' + g, 0, lambda t, g=g: [('ge1', self.count(g, t))])
        every_video_voted()
        def pre(it_, args, kw):
            g = sig({a: it_.native(b) if not isinstance(b, bool) else b for a, b in kw.items() if a in STEPS})
            for a in kw:
                if a not in STEPS + ('normalize_final', 'transform_final'): raise Unsupported('option ' + a)
            n = self.nS(g)
            x, h = 'PX' + g, 'PH' + g
            ret = {'opinion_score_3darray': it_.new_arr((vE, n, vR), lambda ix: (mk_app(x, ix), bool_not(mk_app(h, ix, 'b')))),
                   'original_opinion_score_3darray': it_.new_arr((vE, vS, vR), lambda ix: (X(*ix), bool_not(H(*ix))))}
            if g[2] == '1': ret['bias_offset_estimate'] = it_.new_arr((vS,), lambda ix: (mk_app('PB' + g, ix), ZERO))
            if len(g) > 3:
                ret['observer_rejected'] = it_.new_symlist(vS, lambda s: SNum(mk_app('PR' + g, [s], 'b'), ZERO, 'b'))
                ret['observer_rejected_1st_stats'] = it_.new_symlist(vS, lambda s: SNum(mk_app('P1' + g, [s]), ZERO, 'f'))
                ret['observer_rejected_2nd_stats'] = it_.new_symlist(vS, lambda s: SNum(mk_app('P2' + g, [s]), ZERO, 'f'))
            return it_.new_dict(ret)
        it.contracts[sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing] = pre
        return {'reader': reader_obj(it, score_array(it))}
    def nS(self, g): return var('S2') if len(g) > 3 else vS
    def count(self, g, e): return Sigma(self.nS(g), lambda s: Sigma(vR, lambda r: mk_app('PH' + g, [e, s, r], 'b')))
    def opts(self, it, case, o):
        o = dict(o)
        if case.get('post'): o.update(normalize_final=True, transform_final={'p1': 3, 'p0': 2} if it is None else it.new_dict({'p1': 3, 'p0': 2}, owner='options'))
        return o
    def run(self, it, I, case):
        c, k, o, e = self.info(case)
        m = it.call(c, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], self.opts(it, case, o))
    def spec(self, I, case):
        c, k, o, e = self.info(case)
        if e == 'refused': return Raises(AssertionError)
        x, h, g = self.names(e)
        xx = lambda *a: mk_app(x, a); hh = lambda *a: mk_app(h, a, 'b')
        n = self.nS(g)
        if k == 'per': return Map({'quality_scores': Arr((vE, n, vR), lambda e_, s, r: (xx(e_, s, r), bool_not(hh(e_, s, r))))})
        m = mos_stats(xx, hh, n, extra_dof=vS * vR if k == 'br' else ZERO)
        if case['n'] or case.get('post'): m = pick(m, *SCORES)
        if case.get('post'):
            q = lambda e_: m0.at((e_,))[0]
            m0 = m['quality_scores']
            mu = Sigma(vE, q) * mk_pow(vE, -1); sd = mk_sqrt(Sigma(vE, lambda e_: (q(e_) - mu) ** 2) * mk_pow(vE, -1))
            m['quality_scores'] = Arr((vE,), lambda e_: 3 * (q(e_) - mu) * mk_pow(sd, -1) + 2)
        ab = ()
        if len(g) > 3:
            m['observer_rejected'] = SeqOf(vS, lambda s: Num(mk_app('PR' + g, [s], 'b')))
            m['observer_rejected_1st_stats'] = Arr((vS,), lambda s: mk_app('P1' + g, [s]))
            m['observer_rejected_2nd_stats'] = Arr((vS,), lambda s: mk_app('P2' + g, [s]))
        else: ab = ('observer_rejected',)
        if k == 'br': m['observer_bias'] = Arr((vS,), lambda s: mk_app('PB' + g, [s]))
        return Map(m, absent=ab + (() if k == 'br' else ('observer_bias',)))
    def gen(self, rng, case, hints):
        c, k, o, e = self.info(case)
        st = o if e == 'refused' else e
        env, nat = CORR.gen(rng, {'t': 'pearson'}, hints) if st.get('subject_rejection_type') and not st.get('dscore_mode') else (gen_reject if 'subject_rejection' in st and not st.get('dscore_mode') else gen_video)(rng, st, hints)
        if nat[1] is None and st.get('dscore_mode') is None: nat[0].ref_score = 5.0
        if e == 'refused': return env, nat
        from engine.runner import quiet
        quiet()
        try: ret = sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(mkreader(nat), **e)
        except (AssertionError, ValueError): return None
        a = ret['opinion_score_3darray']
        if a.shape[1] == 0 or not np.isfinite(a[~np.isnan(a)]).all(): return None
        if np.isnan(a).all(axis=(1, 2)).any(): return None
        x, h, g = self.names(e)
        env.apps.update(env_array(x, h, a))
        env.vars['S2'] = a.shape[1]
        for key, nm in (('observer_rejected', 'PR'), ('observer_rejected_1st_stats', 'P1'), ('observer_rejected_2nd_stats', 'P2'), ('bias_offset_estimate', 'PB')):
            if key in ret: env.apps[nm + g] = lambda i, v=ret[key]: float(v[int(i)])
        return env, nat
    def real(self, nat, case):
        c, k, o, e = self.info(case)
        oo = self.opts(None, case, o)
        import copy
        before = copy.deepcopy(oo)
        r = c(mkreader(nat)).run_modeling(**oo)
        if oo != before: raise RuntimeError('options of the caller changed')
        return r
CONTRACTS['C14'] = [Named()]

SOLVERS = {'DEFAULT': MLE, 'CONTENT_OBLIVIOUS': MLE, 'SUBJECT_OBLIVIOUS': MLE, None: sm.SubjectMLEModelProjectionSolver}
class NamedSolver(Contract):
    """named solver models run their solver with exactly the promised steps and all other options of the caller"""
    name = 'named solver models'
    functions = tuple(sorted(set(SM + c.__name__ + '.run_modeling' for c, _, _ in TABLE2.values() if 'run_modeling' in vars(c)))) + (SM + 'SubjectiveModel.run_modeling',)
    nquick = 2
    cases = tuple({'type': t, 'n': i} for t, (c, st, k) in TABLE2.items() for i in range(len(extras(st, k)))) + tuple({'type': t, 'n': 0, 'post': True} for t in TABLE2)
    def info(self, case):
        c, st, mode = TABLE2[case['type']]
        o, e = extras(st, None)[case['n']]
        return c, mode, o, e
    def opts(self, it, case, o):
        o = dict(o, force_subjbias_zeromean=False)
        if case.get('post'): o.update(normalize_final=True, transform_final={'p1': 3, 'p0': 2} if it is None else it.new_dict({'p1': 3, 'p0': 2}, owner='options'))
        return o
    def app(self, kw, mode): return 'QS%s_%s_%s' % (sig(kw), kw.get('force_subjbias_zeromean'), mode)
    def setup(self, it, case):
        dims(E, S, R)
        c, mode, o, e = self.info(case)
        def solver(it_, args, kw):
            nm = self.app({a: b for a, b in kw.items()}, getattr(args[0], 'mode', None))
            return it_.new_dict({'quality_scores': it_.new_symlist(vE, lambda k: SNum(mk_app(nm, [k]), ZERO, 'f')), 'observer_bias': it_.new_symlist(vS, lambda k: SNum(mk_app('B' + nm, [k]), ZERO, 'f'))})
        for cl in (MLE, sm.SubjectMLEModelProjectionSolver): it.contracts[cl._run_modeling.__func__] = solver
        return {'reader': reader_obj(it, score_array(it))}
    def run(self, it, I, case):
        c, mode, o, e = self.info(case)
        m = it.call(c, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], self.opts(it, case, o))
    def spec(self, I, case):
        c, mode, o, e = self.info(case)
        if e == 'refused': return Raises(AssertionError)
        nm = self.app(dict(e, force_subjbias_zeromean=False), mode)
        q = lambda k: mk_app(nm, [k])
        f = q
        if case.get('post'):
            mu = Sigma(vE, q) * mk_pow(vE, -1); sd = mk_sqrt(Sigma(vE, lambda e_: (q(e_) - mu) ** 2) * mk_pow(vE, -1))
            f = lambda e_: 3 * (q(e_) - mu) * mk_pow(sd, -1) + 2
        return Map({'quality_scores': Arr((vE,), f), 'observer_bias': Arr((vS,), lambda k: mk_app('B' + nm, [k]))}, absent=('observers',))
    def gen(self, rng, case, hints):
        c, mode, o, e = self.info(case)
        a = gen_scores(rng, hints, 3, 3, 1, p_missing=0)
        env = base_env(a)
        if e != 'refused':
            nm = self.app(dict(e, force_subjbias_zeromean=False), mode)
            env.apps[nm] = lambda k: self.val(nm, k); env.apps['B' + nm] = lambda k: self.val('B' + nm, k)
        return env, [list_dataset(a)]
    @staticmethod
    def val(nm, k): return (sum(ord(ch) * (i + 3) for i, ch in enumerate(nm)) % 97) / 7.0 + int(k) ** 2
    def real(self, nat, case):
        c, mode, o, e = self.info(case)
        oo = self.opts(None, case, o)
        import copy
        before = copy.deepcopy(oo)
        me = self
        def stub(cls, dataset_reader, **kw):
            nm = me.app(kw, getattr(cls, 'mode', None))
            return {'quality_scores': [me.val(nm, k) for k in range(3)], 'observer_bias': [me.val('B' + nm, k) for k in range(3)]}
        cl = SOLVERS[mode]
        old = vars(cl)['_run_modeling']
        cl._run_modeling = classmethod(stub)
        try: r = c(RawDatasetReader(nat[0])).run_modeling(**oo)
        finally: cl._run_modeling = old
        if oo != before: raise RuntimeError('options of the caller changed')
        return r

class Observers(Contract):
    """the result of a model lists the observers as the reader does (dictionary-style datasets), and nothing otherwise"""
    name = 'SubjectiveModel.run_modeling observers'
    functions = (SM + 'SubjectiveModel.run_modeling',)
    cases = ({'model': 'MosModel', 'named': True}, {'model': 'MosModel', 'named': False}, {'model': 'SubjectMLEModelProjectionSolver2', 'named': True}, {'model': 'ZscoringMosModel', 'named': True})
    nquick = 5
    def setup(self, it, case):
        dims(E, S, R)
        c = getattr(sm, case['model'])
        solve = lambda it_, args, kw: it_.new_dict({'quality_scores': it_.new_symlist(vE, lambda k: SNum(mk_app('QS', [k]), ZERO, 'f'))})
        for cl in c.__mro__:
            if '_run_modeling' in vars(cl): it.contracts[vars(cl)['_run_modeling'].__func__] = solve
        obs = it.new_symlist(vS, lambda k: SNum(mk_app('OBS', [k]), ZERO, 'f'))
        over = {'_get_list_observers': lambda it_, o: Model(lambda it2, *a: obs)} if case['named'] else {}
        return {'reader': reader_obj(it, score_array(it), **over)}
    def run(self, it, I, case):
        m = it.call(getattr(sm, case['model']), [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], {})
    def spec(self, I, case):
        if not case['named']: return Map({'quality_scores': AnyVal()}, absent=('observers',))
        return Map({'quality_scores': AnyVal(), 'observers': Arr((vS,), lambda k: mk_app('OBS', [k]))})
    def gen(self, rng, case, hints):
        S_ = rng.randint(2, 5); E_ = rng.randint(2, 5)
        names = rng.sample([7, 3, 21, 100, 4, 15, 36], S_)
        a = gen_scores(rng, hints, E_, S_, 1, p_missing=0)
        ds = list_dataset(a)
        if case['named']:
            for e, v in enumerate(ds.dis_videos):
                o = list(range(S_)); rng.shuffle(o)
                v['os'] = {names[k]: float(a[e, k, 0]) for k in o}
        env = base_env(a); env.vars[S] = S_
        sn = sorted(names); env.apps['OBS'] = lambda k: float(sn[int(k)])
        return env, [ds]
    def real(self, nat, case): return getattr(sm, case['model'])(RawDatasetReader(nat[0])).run_modeling()
class Lookup(Contract):
    """each type name finds exactly its class"""
    name = 'find_subclass'
    functions = ('sureal.core.mixin.TypeVersionEnabled.find_subclass', 'sureal.core.mixin.TypeVersionEnabled.get_subclasses_recursively')
    def custom(self, case, tier, seed):
        obls = []; fails = []
        want = {t: v[0] for t, v in list(TABLE.items()) + list(TABLE2.items())}; want.update(OTHERS)
        for t, c in sorted(want.items()):
            try: got = sm.SubjectiveModel.find_subclass(t)
            except Exception as ex: got = ex
            ok = got is c
            obls.append(('type %s finds %s' % (t, c.__name__), 'proved' if ok else 'failed', ''))
            if not ok: fails.append({'case': {}, 'mismatch': [('find_subclass(%r)' % t, repr(got), c.__name__)], 'input': t})
        try:
            sm.SubjectiveModel.find_subclass('no such model'); ok = False
        except AssertionError: ok = True
        except Exception: ok = False
        obls.append(('unknown type refused', 'proved' if ok else 'failed', ''))
        if not ok: fails.append({'case': {}, 'mismatch': [('find_subclass(unknown)', 'returned', 'AssertionError')], 'input': 'no such model'})
        return {'obls': obls, 'fails': fails, 'proved': not fails, 'bounded': False, 'concrete': len(obls), 'checks': len(obls), 'paths': 1, 'open': []}
CONTRACTS['C14'] += [NamedSolver(), Lookup(), Observers()]

def named(*types):
    c = Named()
    c.name = 'model classes end to end over the preprocessing contract'
    c.cases = tuple({'type': t, 'n': 0} for t in types)
    c.nquick = 10
    return c
for _p, _t in {'C02': ('MOS',), 'C03': ('MOS', 'BR_MOS', 'SR_MOS', 'ZS_MOS', 'P913', 'BR_SR_MOS_PCC'), 'C04': ('DMOS', 'SR_DMOS', 'ZS_SR_DMOS'), 'C05': ('ZS_MOS', 'ZS_SR_MOS'), 'C06': ('BR_MOS', 'BR_SR_MOS'),
               'C07': ('SR_MOS', 'BT500', 'P913'), 'C08': ('SR_MOS_PCC', 'SR_MOS_SRCC', 'BR_SR_MOS_PCC', 'BR_SR_MOS_SRCC')}.items():
    CONTRACTS.setdefault(_p, []).append(named(*_t))
