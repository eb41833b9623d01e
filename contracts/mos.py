"""C03-C07: statistics and preprocessing of the MOS family."""
from .c02 import *
PI = T.mk_pi()

def loggauss(x, m, sd): return -(mk_log(2 * PI)) * T.Fr(1, 2) - mk_log(sd) - (x - m) ** 2 * mk_pow(sd, -2) * T.Fr(1, 2)

def mos_stats(x, h, nS=vS, extra_dof=ZERO, h0=H):
    """specified outputs of the MOS family for votes x (present where h) of nS observers; h0: votes originally present"""
    ns = (nS, vR)
    mo = lambda e: mean_over(ns, lambda s, r: x(e, s, r), lambda s, r: h(e, s, r))
    def std(e):
        v, m, n = var_over(ns, lambda s, r: x(e, s, r), lambda s, r: h(e, s, r), 1)
        return mk_sqrt(v), n, mk_le(n - 1)
    mos = lambda e: mo(e)[0]
    nan_e = lambda e: mk_le(mo(e)[1])
    def se(e):
        s, n, nan = std(e); return s * mk_pow(n, T.Fr(-1, 2)), nan
    ci = lambda e: (const(T.Fr(195996, 100000)) * se(e)[0], se(e)[1])
    num = Sigma(vE, lambda e: Sigma(nS, lambda s: Sigma(vR, lambda r: h(e, s, r))))
    num0 = cnt_all(h0)
    ll = Sigma(vE, lambda e: Sigma(nS, lambda s: Sigma(vR, lambda r: h(e, s, r) * bool_not(std(e)[2]) * loggauss(x(e, s, r), mos(e), std(e)[0]))))
    ll = ll * mk_pow(num, -1)
    dof = (2 * vE + extra_dof) * mk_pow(num0, -1)
    return {'quality_scores': Arr((vE,), lambda e: (mos(e), nan_e(e))),
            'quality_scores_std': Arr((vE,), se),
            'quality_scores_ci95': Lst([Arr((vE,), ci), Arr((vE,), ci)]),
            'quality_ambiguity': Arr((vE,), lambda e: (std(e)[0], std(e)[2])),
            'raw_scores': Arr((vE, nS, vR), lambda e, s, r: (x(e, s, r), bool_not(h(e, s, r)))),
            'reconstructions': Arr((vE, nS, vR), lambda e, s, r: (mos(e), nan_e(e))),
            'dof': Num(dof), 'loglikelihood': Num(ll), 'aic': Num(2 * dof - 2 * ll), 'bic': Num(mk_log(num0) * dof - 2 * ll)}

SCORES = ('quality_scores', 'quality_scores_std', 'quality_scores_ci95', 'quality_ambiguity', 'raw_scores')
FIT = ('dof', 'loglikelihood', 'aic', 'bic', 'reconstructions')
def pick(m, *ks): return {k: m[k] for k in ks}

class Fit(Contract):
    """dof, log-likelihood, AIC, BIC per vote and reconstructions of the MOS model"""
    name = 'MosModel.run_modeling fit statistics'
    functions = (SM + 'MosModel._get_mos_and_stats', SM + 'MosModel._get_dof', SM + 'MosModel._get_reconstructions', SM + 'MosModel._run_modeling', 'sureal.tools.stats.vectorized_gaussian')
    helpers = (STACK,)
    mincount = 1
    model = sm.MosModel
    def setup(self, it, case):
        dims(E, S, R); every_video_voted()
        return {'reader': reader_obj(it, score_array(it))}
    def run(self, it, I, case):
        m = it.call(self.model, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], {})
    def spec(self, I, case): return Map(pick(mos_stats(X, H), *FIT))
    def gen(self, rng, case, hints):
        a = gen_scores(rng, hints, pick_dim(rng, hints), pick_dim(rng, hints), pick_dim(rng, hints, 1, 3), min_s=0)
        return base_env(a), [list_dataset(a)]
    def real(self, nat, case): return self.model(RawDatasetReader(nat[0])).run_modeling()

CONTRACTS = {'C03': [Fit()]}

# ------------------------------------------------------------------------------------------------- preprocessing
def CID(e): return mk_app('CID', [e], 'i')
def ISREF(e): return mk_app('ISREF', [e], 'b')
REFS = T.mk_app('REFSCORE', [ZERO])

def video_reader(it, arr, with_ref=True):
    """abstract reader whose videos have contents CID(e); ISREF(e): the video is its content's reference presentation"""
    fam = it.alloc(FamCell(vE, {'content_id': lambda e: SNum(CID(e), ZERO, 'i')}, owner='dataset', rest='dv'))
    vids = it.new_symlist(vE, lambda e: Rec(fam, e), owner='dataset')
    N = T.var('NALL'); CTX.lower['NALL'] = 1
    fam2 = it.alloc(FamCell(N, {'content_id': lambda e: SNum(mk_app('CIDALL', [e], 'i'), ZERO, 'i')}, owner='dataset', rest='dv2'))
    allv = it.new_symlist(N, lambda e: Rec(fam2, e), owner='dataset')
    r = reader_obj(it, arr, dis_videos=lambda it_, o: vids,
        content_id_of_dis_videos=lambda it_, o: it_.new_symlist(vE, lambda e: SNum(CID(e), ZERO, 'i')),
        disvideo_is_refvideo=lambda it_, o: it_.new_symlist(vE, lambda e: SNum(ISREF(e), ZERO, 'b')),
        num_dis_videos=lambda it_, o: SNum(vE, ZERO, 'i'),
        ref_score=lambda it_, o: SNum(REFS, ZERO, 'f') if with_ref else None)
    ds = it.heap[it.heap[r.cell].attrs['dataset'].cell]
    ds.attrs['dis_videos'] = allv
    if with_ref: ds.attrs['ref_score'] = SNum(REFS, ZERO, 'f')
    return r

def nrefs(e): return Sigma(vE, lambda k: ISREF(k) * mk_eq(CID(k) - CID(e)))
def ref_index(e):
    """the (unique) reference presentation of the content of e"""
    return T.mk_sel(vE, lambda k: ISREF(k) * mk_eq(CID(k) - CID(e)), ZERO)
def dscored(x, h=H):
    mos = lambda k: mean_over((vS, vR), lambda s, r: x(k, s, r), lambda s, r: h(k, s, r))[0]
    return lambda e, s, r: x(e, s, r) + REFS - mos(ref_index(e))
def zscored(x, h=H):
    def f(e, s, r):
        v, m, n = var_over((vE, vR), lambda k, q: x(k, s, q), lambda k, q: h(k, s, q), 1)
        return (x(e, s, r) - m) * mk_pow(v, T.Fr(-1, 2))
    return f
def z_nan(s, h=H): return mk_le(cnt_s(s, h) - 1)
def bias_of(x, h=H):
    mos = lambda k: mean_over((vS, vR), lambda s, r: x(k, s, r), lambda s, r: h(k, s, r))[0]
    return lambda s: mean_over((vE, vR), lambda k, q: x(k, s, q) - mos(k), lambda k, q: h(k, s, q))[0]
def unbiased(x, h=H):
    b = bias_of(x, h)
    return lambda e, s, r: x(e, s, r) - b(s)

PRE = SM + 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing'
class Pre(Contract):
    functions = (PRE, SM + 'SubjectiveModel._get_ref_mos', 'sureal.tools.misc.indices')
    helpers = (STACK,)
    cond = True
    def setup(self, it, case):
        dims(E, S, R); every_video_voted(); every_observer_voted()
        return {'reader': video_reader(it, score_array(it), not case.get('noref'))}
    def run(self, it, I, case):
        kw = {k: v for k, v in case.items() if k in ('dscore_mode', 'zscore_mode', 'bias_offset')}
        return it.call(sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing, [I['reader']], kw)
    def spec(self, I, case):
        x = X; nan = lambda s: ZERO
        out = {}
        if case.get('noref'): return Raises(AssertionError, AttributeError, TypeError)
        if case.get('dscore_mode'): x = dscored(x)
        if case.get('zscore_mode'): x = zscored(x); nan = z_nan
        if case.get('bias_offset'):
            b = bias_of(x); out['bias_offset_estimate'] = Arr((vS,), b); x = unbiased(x)
        m = Map(dict(out, opinion_score_3darray=Arr((vE, vS, vR), lambda e, s, r: (x(e, s, r), T.bool_or(bool_not(H(e, s, r)), nan(s)))),
                     original_opinion_score_3darray=Arr((vE, vS, vR), lambda e, s, r: (X(e, s, r), bool_not(H(e, s, r))))),
                absent=('observer_rejected',))
        if case.get('dscore_mode'):
            bad = Sigma(vE, lambda e: bool_not(mk_eq(nrefs(e) - 1)))
            return Cases([(mk_le(bad), m), (ONE, Raises(AssertionError))])
        return m
    def gen(self, rng, case, hints):
        return gen_video(rng, case, hints)
    def real(self, nat, case):
        kw = {k: v for k, v in case.items() if k in ('dscore_mode', 'zscore_mode', 'bias_offset')}
        return sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(mkreader(nat), **kw)

def mkreader(nat):
    if nat[1] is None: return RawDatasetReader(nat[0])
    from sureal.dataset_reader import SelectDisVideoRawDatasetReader
    return SelectDisVideoRawDatasetReader(nat[0], input_dict={'selected_dis_videos': list(nat[1])})

def gen_video(rng, case, hints, min_s=2, R_=None):
    E_ = pick_dim(rng, hints, 1, 6); S_ = pick_dim(rng, hints, 1, 5); R_ = R_ or pick_dim(rng, hints, 1, 3)
    if case.get('zscore_mode') and E_ * R_ < 2: E_ = 3
    a = gen_scores(rng, hints, E_, S_, R_, min_s=(2 if case.get('zscore_mode') else 1))
    ds = case.get('dscore_mode')
    nc = rng.randint(1, max(1, E_ // 2))
    cids = [rng.randrange(nc) for _ in range(E_)]
    if E_ >= nc:
        p = list(range(E_)); rng.shuffle(p)
        for c in range(nc): cids[p[c]] = c
    ref_of = {}
    for c in range(nc):
        es = [e for e in range(E_) if cids[e] == c]
        if es and (rng.random() < 0.93): ref_of[c] = rng.choice(es)
    rs = rng.choice([5.0, 1.0, 100.0, 0.0, 3])
    d = list_dataset(a, cids, ref_score=None if case.get('noref') else rs, ref_of=ref_of)
    isref = lambda e: 1 if ref_of.get(cids[e]) == e else 0
    if rng.random() < 0.05 and E_ > 1 and ds:      # two reference presentations of one content
        c = cids[0]
        if c in ref_of:
            for v in d.dis_videos:
                if v['content_id'] == c: v['path'] = 'ref%d' % c
            base = isref
            isref = lambda e: 1 if cids[e] == c else base(e)
    sel = None; keep = list(range(E_))
    if rng.random() < 0.25 and E_ > 2 and not case.get('noref'):
        keep = sorted(rng.sample(range(E_), rng.randint(2, E_)))
        sub = a[keep]
        h = ~np.isnan(sub)
        ms = 2 if case.get('zscore_mode') else 1
        if (h.sum(axis=(0, 2)) >= ms).all(): sel = tuple(keep); a = sub
        else: keep = list(range(E_))
    env = base_env(a)
    if R_ > 1 and np.isnan(a).any() and False: pass
    env.apps.update({'CID': lambda e: cids[keep[int(e)]], 'ISREF': lambda e: isref(keep[int(e)]), 'REFSCORE': lambda z: rs})
    return env, [d, sel]

class Dscore(Pre):
    """vote + reference score - MOS of the unique reference presentation of the same content; otherwise refused"""
    name = 'preprocessing: differential scoring'
    cases = ({'dscore_mode': True}, {'dscore_mode': True, 'noref': True}, {'dscore_mode': True, 'zscore_mode': True}, {'dscore_mode': True, 'bias_offset': True})
class Zscore(Pre):
    """(vote - mean)/sample std per observer"""
    name = 'preprocessing: z-scoring'
    cases = ({'zscore_mode': True},)
class Bias(Pre):
    """P.913 bias removal"""
    name = 'preprocessing: bias removal'
    cases = ({'bias_offset': True},)
CONTRACTS.update({'C04': [Dscore()], 'C05': [Zscore()], 'C06': [Bias()]})

# ------------------------------------------------------------------------------------------------- BT.500 screening
def bt500(x, h=H):
    """(P, Q, rejected?) of the BT.500 rule for votes x present where h"""
    def mom(e, p):
        m, n = mean_over((vS, vR), lambda s, r: x(e, s, r), lambda s, r: h(e, s, r))
        return sum_over((vS, vR), lambda s, r: h(e, s, r) * (x(e, s, r) - m) ** p) * mk_pow(n, -1)
    def mu(e): return mean_over((vS, vR), lambda s, r: x(e, s, r), lambda s, r: h(e, s, r))[0]
    def k(e):
        m2 = mom(e, 2)
        kurt = mom(e, 4) * mk_pow(m2, -2)
        normal = mk_le(2 - kurt) * mk_le(kurt - 4)
        return ite(normal, const(2), mk_sqrt(const(20)))
    def P(s): return sum_over((vE, vR), lambda e, r: h(e, s, r) * mk_le(mu(e) + k(e) * mk_sqrt(mom(e, 2)) - x(e, s, r)))
    def Q(s): return sum_over((vE, vR), lambda e, r: h(e, s, r) * mk_le(x(e, s, r) - mu(e) + k(e) * mk_sqrt(mom(e, 2))))
    return P, Q

class Kurt(Contract):
    """rejection rule on given counts"""
    name = 'preprocessing: BT.500 rejection'
    functions = (PRE,)
    helpers = (STACK,)
    cases = ({},)
    undef_ok = True
    def setup(self, it, case):
        dims(E, S, R); every_video_voted()
        return {'reader': video_reader(it, score_array(it))}
    def run(self, it, I, case):
        return it.call(sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing, [I['reader']], {'subject_rejection': True})
    def spec(self, I, case):
        return kurt_spec(X)
    def gen(self, rng, case, hints): return gen_reject(rng, case, hints)
    def real(self, nat, case):
        return sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(mkreader(nat), subject_rejection=True)

def kurt_rule(x):
    P, Q = bt500(x)
    f1 = lambda s: (P(s) + Q(s)) * mk_pow(vE * vR, -1)
    f2 = lambda s: T.mk_abs((P(s) - Q(s)) * mk_pow(P(s) + Q(s), -1))
    rej = lambda s: mk_lt(T.Fr(1, 20) - f1(s)) * mk_lt(f2(s) - T.Fr(3, 10))
    return f1, f2, rej
def kurt_spec(x):
    f1, f2, rej = kurt_rule(x)
    n = Sigma(vS, rej)
    rejall = mk_eq(n - vS)
    both = lambda nS, acc, fl: Map({'observer_rejected': SeqOf(vS, lambda s: BoolV(fl(s))), 'observer_rejected_1st_stats': Arr((vS,), f1), 'observer_rejected_2nd_stats': Arr((vS,), f2),
              'opinion_score_3darray': Arr((vE, nS, vR), lambda e, s, r: (x(e, acc(s), r), bool_not(H(e, acc(s), r)))),
              'original_opinion_score_3darray': Arr((vE, vS, vR), lambda e, s, r: (X(e, s, r), bool_not(H(e, s, r))))})
    return Cases([(rejall, both(vS, lambda s: s, lambda s: ZERO)), (ONE, both(vS - n, lambda i: T.mk_sel(vS, lambda k: bool_not(rej(k)), i), rej))])

def BoolV(p): return Num(p)

def gen_reject(rng, case, hints):
    """votes with outliers so that the rule actually fires"""
    S_ = rng.choice([4, 5, 6, 7, 8, 10]); E_ = rng.choice([1, 2, 3, 4, 6, 8]); R_ = rng.choice([1, 1, 2])
    q = [rng.uniform(1, 5) for _ in range(E_)]
    a = np.zeros((E_, S_, R_))
    sty = rng.randrange(4)
    wild = set(rng.sample(range(S_), rng.choice([0, 1, 1, 2, S_])))
    for e in range(E_):
        for s in range(S_):
            for r in range(R_):
                v = q[e] + rng.gauss(0, 0.3)
                if s in wild: v = q[e] + rng.choice([-1, 1]) * rng.choice([4, 8, 20]) * (1 if sty else (1 if s % 2 else -1))
                if sty == 2: v = float(round(v))
                if sty == 3 and rng.random() < 0.2: v = float('nan')
                a[e, s, r] = v
    if sty == 1 and rng.random() < 0.3: a[:] = np.round(a * 0 + 3)
    if rng.random() < 0.4:      # single far outliers in many votes: the sqrt(20) rule
        R_ = rng.choice([1, 2, 2, 3]); S_ = rng.randint(22 // R_ + 1, 27 // R_ + 2); E_ = rng.choice([1, 2, 3])
        a = np.array([[[3 + rng.choice([-.5, -.25, .25, .5]) for r in range(R_)] for s in range(S_)] for e in range(E_)])
        for e in range(E_):
            if rng.random() < .8: a[e, rng.randrange(S_), rng.randrange(R_)] += rng.choice([-60., 60.])
            if rng.random() < .3: a[e, rng.randrange(S_), rng.randrange(R_)] = float('nan')
    for e in range(E_):
        if np.isnan(a[e]).all(): a[e, 0, 0] = 3.0
    for s in range(S_):
        if np.isnan(a[:, s]).all(): a[0, s, 0] = 3.0
    return base_env(a), [list_dataset(a), None]
# votes at distances d1 < d2 < ... from the mean, in symmetric pairs; 2**k votes, so every statistic is exact in floating point
EDGES = ([('kurtosis 2',) + x for x in ((64, (1, 2, 3), (15, 10, 1)), (64, (2, 4), (20, 1)), (64, (2, 3, 6), (7, 16, 1)))]
         + [('kurtosis 4',) + x for x in ((16, (1, 2), (2, 1)), (16, (2, 4), (2, 1)), (32, (1, 2), (4, 2)))]
         + [('two sigma',) + x for x in ((16, (1, 2), (4, 1)), (16, (3, 6), (4, 1)), (32, (2, 4), (8, 2)))])
def edge_votes(rng, n, ds, cs):
    v = [d * sg for d, c in zip(ds, cs) for sg in (1, -1) for _ in range(c)]
    v += [0] * (n - len(v)); rng.shuffle(v)
    return v
def gen_reject_edge(rng):
    """votes for which a comparison of the rule is an exact tie"""
    sty = rng.randrange(5)
    if sty < 3:
        n = rng.choice([16, 16, 16, 32, 64]); R_ = rng.choice([1, 1, 2])
        pats = [x for x in EDGES if x[1] == n]
        a = np.array([[10 * (e + 1) + np.array(edge_votes(rng, *rng.choice(pats)[1:])) for r in range(1)] for e in range(rng.choice([1, 1, 2]))], dtype=float)
        a = a.reshape(len(a), n // R_, R_)
    else:
        E_ = rng.choice([40, 20]) if sty == 3 else rng.choice([20, 25])
        k = E_ // 20                       # votes outside the band that make exactly 5 per cent
        up, dn = ((k + 1) // 2, k // 2) if sty == 3 else (13, 7)
        if rng.random() < .5: up, dn = dn, up
        ev = rng.sample(range(E_), up + dn); s0 = rng.randrange(16); a = np.zeros((E_, 16, 1))
        for e in range(E_):
            v = [1, -1] * 8; rng.shuffle(v)
            if e in ev:
                v = edge_votes(rng, 16, (2, 5), (5, 1)); w = 5 if ev.index(e) < up else -5
                i = v.index(w); v[i], v[s0] = v[s0], v[i]
            a[e, :, 0] = 10 + np.array(v)
    env = base_env(a); env.edge = True
    return env, [list_dataset(a), None]
class KurtEdge(Kurt):
    name = 'preprocessing: BT.500 rejection at the limits'
    bounded = True
    nquick = 15; nthorough = 40
    def gen(self, rng, case, hints): return gen_reject_edge(rng)
CONTRACTS.update({'C07': [Kurt(), KurtEdge()]})

def filtered_red(name, n, vals, g):
    """functional of the sequence of tuples vals(k) over k<n with g(k)"""
    w = T.fresh('k'); CTX.varrange[w] = lift(n)
    gg = g(var(w))
    return T.mk_red(name, [(w, lift(n))], tuple(T.mul(gg, v) for v in vals(var(w))) + (gg,))

class CorrRej(Contract):
    """rejected iff correlation with the MOS is at or below min(0.7, mean - std of all correlations)"""
    functions = (PRE,)
    helpers = (STACK,)
    name = 'preprocessing: correlation screening'
    cases = ({'t': 'pearson'}, {'t': 'spearman'})
    def setup(self, it, case):
        dims(E, S, R); every_video_voted()
        # the same precondition counted per observer
        CTX.forall('H', 0, lambda e: [('ge1', Sigma(vS, lambda s: bool_not(mk_eq(Sigma(vR, lambda r: H(e, s, r))))))])
        return {'reader': video_reader(it, score_array(it))}
    def run(self, it, I, case):
        return it.call(sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing, [I['reader']], {'subject_rejection': True, 'subject_rejection_type': case['t']})
    def spec(self, I, case):
        n = lambda e, s: Sigma(vR, lambda r: H(e, s, r))
        y = lambda e, s: Sigma(vR, lambda r: X(e, s, r) * H(e, s, r)) * mk_pow(n(e, s), -1)
        g = lambda e, s: bool_not(mk_eq(n(e, s)))
        mos = lambda e: Sigma(vS, lambda s: g(e, s) * y(e, s)) * mk_pow(Sigma(vS, lambda s: g(e, s)), -1)
        rr = lambda s: filtered_red(case['t'], vE, lambda e: (y(e, s), mos(e)), lambda e: g(e, s))
        mean = Sigma(vS, rr) * mk_pow(vS, -1)
        sd = mk_sqrt(Sigma(vS, lambda s: (rr(s) - mean) ** 2) * mk_pow(vS, -1))
        thr = ite(mk_lt(T.Fr(7, 10) - mean + sd), const(T.Fr(7, 10)), mean - sd)
        rej = lambda s: mk_le(rr(s) - thr)
        acc = lambda s: bool_not(rej(s))
        return Map({'observer_rejected': SeqOf(vS, lambda s: Num(rej(s))), 'observer_rejected_1st_stats': Arr((vS,), rr), 'observer_rejected_2nd_stats': Arr((vS,), lambda s: ZERO),
              'opinion_score_3darray': Arr((vE, Sigma(vS, acc), vR), lambda e, i, r: (X(e, T.mk_sel(vS, acc, i), r), bool_not(H(e, T.mk_sel(vS, acc, i), r)))),
              'original_opinion_score_3darray': Arr((vE, vS, vR), lambda e, s, r: (X(e, s, r), bool_not(H(e, s, r))))})
    def gen(self, rng, case, hints):
        S_ = rng.choice([2, 3, 4, 5, 8]); E_ = rng.choice([3, 4, 5, 7]); R_ = rng.choice([1, 1, 2, 3])
        q = [rng.uniform(1, 5) for _ in range(E_)]
        noise = [rng.choice([0.05, 0.3, 1, 3]) for _ in range(S_)] if rng.random() < .7 else [0.05] * S_
        neg = rng.randrange(S_) if rng.random() < 0.3 else None
        a = np.array([[[q[e] * (-1 if s == neg else 1) + rng.gauss(0, noise[s]) for r in range(R_)] for s in range(S_)] for e in range(E_)])
        if rng.random() < 0.3:
            for e in range(E_):
                for s in range(S_):
                    if rng.random() < 0.2 and e > 2: a[e, s] = float('nan')
                    elif R_ > 1 and rng.random() < .3: a[e, s, rng.randrange(R_)] = float('nan')
        for e in range(E_):
            if np.isnan(a[e]).all(): a[e, 0, 0] = q[e]
        return base_env(a), [list_dataset(a), None]
    def real(self, nat, case):
        return sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(mkreader(nat), subject_rejection=True, subject_rejection_type=case['t'])
CONTRACTS.update({'C08': [CorrRej()]})
