"""Deductive contracts of the simulated readers (C24, C25): any dataset size, any parameters, any random draws."""
import itertools
from .readers import *
from engine.prove import AnyOf

def arr1(it, n, name, nan=False):
    return it.new_arr((n,), lambda ix: (app(name, *ix, kind='f'), ZERO), 'f', owner='input_dict')
def draw(law, n, *ix): return mk_app(law, [const(n)] + list(ix), 'f')
def meta(): return {'ref_videos': refs_spec(), 'dataset_name': 'ds', 'yuv_fmt': 'yuv420p', 'ref_score': Num(mk_app('REFSCORE', [ZERO]))}

# ------------------------------------------------------------------------------------------------- C25
class Synthetic(Contract):
    """votes of the synthetic readers: quality + observer bias + content bias + scaled independent draws"""
    name = 'SyntheticRawDatasetReader'
    functions = tuple(DRM + f for f in ('SyntheticRawDatasetReader.opinion_score_3darray', 'SyntheticLogisticRawDatasetReader.opinion_score_3darray', 'SyntheticRawDatasetReader.num_observers', 'DatasetReader.num_dis_videos', 'DatasetReader.content_id_of_dis_videos', 'MockedRawDatasetReader.to_dataset'))
    cases = tuple({'law': l, 'phi': f, 'seed': s, 'what': w} for l, f, s, w in (('DN', 0, 0, 'matrix'), ('DN', 1, 1, 'matrix'), ('DL', 0, 0, 'matrix'), ('DN', 1, 1, 'dataset'), ('DL', 0, 0, 'dataset')))
    def cls(self, case): return dr.SyntheticRawDatasetReader if case['law'] == 'DN' else dr.SyntheticLogisticRawDatasetReader
    def setup(self, it, case):
        dims(E, S, C); CTX.apprange['CID'] = lambda args: vC
        ds = dataset_obj(it, video_family(it, {'os': lambda e: Opaque('votes')}), ref_family(it))
        d = {'quality_scores': arr1(it, vE, 'Q'), 'observer_bias': arr1(it, vS, 'B'), 'observer_inconsistency': arr1(it, vS, 'SG'), 'content_bias': arr1(it, vC, 'MU'), 'content_ambiguity': arr1(it, vC, 'DE')}
        if case['phi']: d['quality_ambiguity'] = arr1(it, vE, 'PHI')
        if case['seed']: d['seed'] = 5
        return {'reader': reader_of(it, self.cls(case), ds, input_dict=it.new_dict(d, owner='input_dict'))}
    def run(self, it, I, case): return it.getattr(I['reader'], 'opinion_score_3darray') if case['what'] == 'matrix' else it.call(it.getattr(I['reader'], 'to_dataset'), [])
    def spec(self, I, case):
        std = ONE if case['law'] == 'DN' else mk_sqrt(const(3)) * mk_pow(T.mk_pi(), -1)
        def alt(o):
            def z(e, s):
                c = app('CID', e); f = lambda n, i: app(n, i, kind='f'); d = lambda j: draw(case['law'], o[j], e, s) * std
                r = f('Q', e) + f('B', s) + f('MU', c) + f('SG', s) * d(0) + f('DE', c) * d(1)
                return r + f('PHI', e) * d(2) if case['phi'] else r
            if case['what'] == 'matrix': return Arr((vE, vS, ONE), lambda e, s, r: z(e, s))
            return Obj(dict(meta(), dis_videos=SeqOf(vE, lambda e: vid(e, os=SeqOf(vS, lambda s: Arr((ONE,), lambda r: z(e, s)))))))
        return AnyOf([alt(o) for o in itertools.permutations(range(3 if case['phi'] else 2))])
    def gen(self, rng, case, hints):
        d = gen_coded(rng, hints); ne, nc, ns = len(d.dis_videos), len(d.ref_videos), pick_dim(rng, hints, 1, 6)
        u = lambda n, a, b: np.array([rng.uniform(a, b) for _ in range(n)])
        p = {'quality_scores': u(ne, 1, 5), 'observer_bias': u(ns, -2, 2), 'observer_inconsistency': u(ns, 0, 2), 'content_bias': u(nc, -2, 2), 'content_ambiguity': u(nc, 0, 2)}
        if case['phi']: p['quality_ambiguity'] = u(ne, 0, 2)
        sd = rng.randrange(1000)
        if case['seed']: p['seed'] = sd
        g = np.random.RandomState(sd); t = [(g.normal if case['law'] == 'DN' else g.logistic)(0, 1, [ne, ns]) for _ in range(3)]
        at = lambda k: (lambda i: float(p[k][int(i)]))
        return coded_env(d, {'S': ns}, dict({'Q': at('quality_scores'), 'B': at('observer_bias'), 'SG': at('observer_inconsistency'), 'MU': at('content_bias'), 'DE': at('content_ambiguity'), 'PHI': at('quality_ambiguity')}, **{case['law']: lambda n, e, s: float(t[int(n)][int(e), int(s)])})), [d, p, sd]
    def real(self, nat, case):
        d, p, sd = nat
        r = self.cls(case)(d, input_dict=p); np.random.seed(sd)
        return r.opinion_score_3darray if case['what'] == 'matrix' else r.to_dataset()
CONTRACTS = {'C25': [Synthetic()]}

# ------------------------------------------------------------------------------------------------- C24
def M(e, s, r): return app('M', e, s, r, kind='f')
def MN(e, s, r): return app('MN', e, s, r, kind='b')
BASE = (DRM + 'RawDatasetReader.opinion_score_3darray',)
def base_matrix(it):
    """the baseline matrix, through its contract (C01): a new E x S x R array"""
    dims(E, S, R, C)
    it.contracts[dr.RawDatasetReader.opinion_score_3darray.fget] = lambda it_, a, k: it_.new_arr((vE, vS, vR), lambda ix: (M(*ix), MN(*ix)), 'f')
    it.contracts[dr.RawDatasetReader.num_observers.fget] = lambda it_, a, k: SNum(vS, ZERO, 'i')
def votes(case, cell, n=vS):
    if case.get('what') != 'dataset': return Arr((vE, n, vR), cell)
    return Obj(dict(meta(), dis_videos=SeqOf(vE, lambda e: vid(e, os=SeqOf(n, lambda s: Arr((vR,), lambda r: cell(e, s, r)))))))
def gen_matrix(rng, hints):
    d = gen_coded(rng, hints); ne, ns, nr = len(d.dis_videos), pick_dim(rng, hints, 1, 5), rng.randint(1, 3)
    m = np.array([[[NAN if rng.random() < .2 else rng.choice([1., 2., 3., 4., 5., 3.5]) for _ in range(nr)] for _ in range(ns)] for _ in range(ne)])
    if np.isnan(m).all(): m[0, 0, 0] = 3.
    ap = {'M': lambda e, s, r: 0.0 if np.isnan(m[int(e), int(s), int(r)]) else float(m[int(e), int(s), int(r)]), 'MN': lambda e, s, r: int(np.isnan(m[int(e), int(s), int(r)]))}
    for v, row in zip(d.dis_videos, m): v['os'] = [list(x) for x in row]
    return d, m, ap
class SimContract(Contract):
    """reader whose baseline dataset holds the matrix M; real(): the actual reader on an actual dataset"""
    cls = None
    def reader(self, it, d, fam=None):
        ds = dataset_obj(it, fam if fam is not None else video_family(it, {'os': lambda e: Opaque('votes')}), ref_family(it))
        return reader_of(it, self.cls, ds, input_dict=it.new_dict(d, owner='input_dict'))
    def run(self, it, I, case): return it.getattr(I['reader'], 'opinion_score_3darray') if case.get('what') != 'dataset' else it.call(it.getattr(I['reader'], 'to_dataset'), [])
    def real(self, nat, case):
        d, p, sd = nat
        r = self.cls(d, input_dict=p); np.random.seed(sd)
        return r.opinion_score_3darray if case.get('what') != 'dataset' else r.to_dataset()
def unit(n): CTX.apprange[n] = lambda *a: ONE; CTX.appnonneg.add(n); CTX.unit.add(n)
def PP(): return app('PP', ZERO, kind='f')
class Missing(SimContract):
    name = 'MissingDataRawDatasetReader'; cls = dr.MissingDataRawDatasetReader
    functions = (DRM + name + '.opinion_score_3darray', DRM + 'MockedRawDatasetReader.to_dataset')
    cases = ({'p': 'any'}, {'p': 0}, {'p': 1}, {'p': 'any', 'what': 'dataset'})
    def setup(self, it, case):
        base_matrix(it); unit('PP')
        return {'reader': self.reader(it, {'missing_probability': SNum(PP(), ZERO, 'f') if case['p'] == 'any' else case['p'], 'seed': 3})}
    def spec(self, I, case):
        def cell(e, s, r):
            u = draw('DU', 0, e, s, r)
            return M(e, s, r), bool_or(MN(e, s, r), mk_le(u - (PP() if case['p'] == 'any' else const(case['p']))))
        return votes(case, cell)
    def gen(self, rng, case, hints):
        d, m, ap = gen_matrix(rng, hints); sd = rng.randrange(1000); p = rng.random() if case['p'] == 'any' else case['p']
        u = np.random.RandomState(sd).uniform(size=m.shape)
        ap.update(DU=lambda n, e, s, r: float(u[int(e), int(s), int(r)]), PP=lambda i: p)
        return coded_env(d, {'S': m.shape[1], 'R': m.shape[2]}, ap), [d, {'missing_probability': p, 'seed': sd}, sd]
CONTRACTS['C24'] = [Missing()]
class SelectSubject(SimContract):
    name = 'SelectSubjectRawDatasetReader'; cls = dr.SelectSubjectRawDatasetReader
    functions = (DRM + name + '.opinion_score_3darray', DRM + name + '.num_observers', DRM + 'MockedRawDatasetReader.to_dataset')
    cases = ({'what': 'matrix'}, {'what': 'dataset'}, {'what': 'count'})
    def setup(self, it, case):
        base_matrix(it); CTX.apprange['SUB'] = lambda *a: vS; CTX.lower['N'] = 0
        return {'reader': self.reader(it, {'selected_subjects': it.new_symlist(var('N'), lambda i: SNum(app('SUB', i), ZERO, 'i'), owner='input_dict')})}
    def run(self, it, I, case): return SimContract.run(self, it, I, case) if case['what'] != 'count' else it.getattr(I['reader'], 'num_observers')
    def spec(self, I, case):
        if case['what'] == 'count': return Num(var('N'))
        return votes(case, lambda e, i, r: (M(e, app('SUB', i), r), MN(e, app('SUB', i), r)), n=var('N'))
    def gen(self, rng, case, hints):
        d, m, ap = gen_matrix(rng, hints); sub = [rng.randrange(m.shape[1]) for _ in range(rng.randint(1, m.shape[1] + 1))]
        ap['SUB'] = lambda i: sub[int(i)]
        return coded_env(d, {'S': m.shape[1], 'R': m.shape[2], 'N': len(sub)}, ap), [d, {'selected_subjects': sub}, 0]
    def real(self, nat, case): return SimContract.real(self, nat, case) if case['what'] != 'count' else self.cls(nat[0], input_dict=nat[1]).num_observers
CONTRACTS['C24'].append(SelectSubject())
class SelectDisVideo(SimContract):
    """videos selected by asset id (asset ids distinct, every selected id present): in the order given"""
    name = 'SelectDisVideoRawDatasetReader.dis_videos'; cls = dr.SelectDisVideoRawDatasetReader
    functions = (DRM + name, DRM + 'DatasetReader.num_dis_videos', DRM + 'DatasetReader.content_id_of_dis_videos')
    def setup(self, it, case):
        base_matrix(it); CTX.lower['N'] = 0; CTX.injective['AID'] = (vE, 'HASA', 'WHO'); CTX.apprange['WHO'] = lambda *a: vE
        CTX.appdefs['HASA'] = lambda x: ONE if T._one_app(x, 'SV') is not None else T.apoly(T.atom('app', ('HASA', x), 'b'))        # precondition: every selected id is present
        fam = video_family(it, {'os': lambda e: SNum(app('OS', e), ZERO, 'i')})
        return {'reader': self.reader(it, {'selected_dis_videos': it.new_symlist(var('N'), lambda i: SNum(app('SV', i), ZERO, 'i'), owner='input_dict')}, fam)}
    def run(self, it, I, case): return tuple(it.getattr(I['reader'], a) for a in ('dis_videos', 'num_dis_videos', 'content_id_of_dis_videos'))
    def spec(self, I, case):
        n = var('N'); w = lambda i: app('WHO', app('SV', i))
        return Lst([SeqOf(n, lambda i: vid(w(i), os=Num(app('OS', w(i))))), Num(n), SeqOf(n, lambda i: Num(app('CID', w(i))))])
    def gen(self, rng, case, hints):
        d = gen_coded(rng, hints, os=lambda e: rng.randint(1, 9)); ids = list(range(len(d.dis_videos))); rng.shuffle(ids)
        for v, a in zip(d.dis_videos, ids): v['asset_id'] = a
        sv = [rng.choice(ids) for _ in range(rng.randint(0, 6))]
        return coded_env(d, {'N': len(sv)}, {'SV': lambda i: sv[int(i)], 'WHO': lambda a: ids.index(int(a)), 'OS': lambda e: d.dis_videos[int(e)]['os']}), [d, {'selected_dis_videos': sv}, 0]
    def real(self, nat, case):
        r = self.cls.__new__(self.cls); r.dataset = nat[0]; r.input_dict = nat[1]
        return [r.dis_videos, r.num_dis_videos, r.content_id_of_dis_videos]
CONTRACTS['C24'].append(SelectDisVideo())
def ext(op):
    """extreme value of all votes present"""
    v = tuple(var(n) for n in 'esr')
    return T.mk_red(op, [('e', vE), ('s', vS), ('r', vR)], [M(*v) * bool_not(MN(*v)), bool_not(MN(*v))], ())
class CorruptSubject(SimContract):
    """votes of the distinct selected observers SUB(0..N-1) are replaced; nobody else's change"""
    name = 'CorruptSubjectRawDatasetReader'; cls = dr.CorruptSubjectRawDatasetReader
    functions = tuple(DRM + 'CorruptSubjectRawDatasetReader.' + f for f in ('opinion_score_3darray', '_get_corrupt_probability', '_get_selected_subjects', '_get_corrupt_behavior'))
    cases = tuple({'behavior': b, 'p': p} for b in ('flip', 'min', 'mid', 'max', 'constant', 'shuffle', None) for p in ('none', 'given'))
    def setup(self, it, case):
        base_matrix(it); unit('PP'); CTX.lower['N'] = 0; CTX.injective['SUB'] = (var('N'), 'ISSEL', 'POS'); CTX.apprange['SUB'] = lambda *a: vS; CTX.apprange['POS'] = lambda *a: var('N')
        CTX.forall_range(vE, lambda e: [('ge1', self.present())])
        d = {'selected_subjects': it.new_symlist(var('N'), lambda i: SNum(app('SUB', i), ZERO, 'i'), owner='input_dict')}
        if case['behavior']: d['corrupt_behavior'] = case['behavior']
        if case['p'] == 'given': d['corrupt_probability'] = SNum(PP(), ZERO, 'f')
        return {'reader': self.reader(it, d)}
    def present(self): return Sigma(vE, lambda e: Sigma(vS, lambda s: Sigma(vR, lambda r: bool_not(MN(e, s, r)))))
    def spec(self, I, case):
        b = case['behavior']; given = case['p'] == 'given'
        none = mk_le(self.present())
        def cell(e, s, r):
            k = app('POS', s); sel = app('ISSEL', s, kind='b'); two = given and b in ('constant', 'shuffle', None)
            call = lambda j: k * (2 if two else 1) + j
            first = 1 if b == 'constant' and given else 0
            hit = lambda v: mk_lt(mk_app('DU', [call(first), v], 'f') - PP()) if given else ONE
            if b in ('shuffle', None):
                if given: src = T.mk_sel(vE, hit, mk_app('PI', [call(1), T.mk_cnt(vE, hit), T.mk_rank(vE, hit, e)], 'i'))
                else: src = mk_app('PI', [call(0), vE, e], 'i')
                new = M(src, s, r), MN(src, s, r)
            else:
                lo, hi = ext('min'), ext('max')
                v = {'flip': hi + lo - M(e, s, r), 'min': lo, 'mid': (lo + hi) * T.Fr(1, 2), 'max': hi, 'constant': lo + (hi - lo) * mk_app('DU', [call(0)], 'f')}[b]
                new = v, (bool_or(none, MN(e, s, r)) if b == 'flip' else none)
            g = sel * hit(e)
            return ite(g, new[0], M(e, s, r)), ite(g, new[1], MN(e, s, r))
        return Arr((vE, vS, vR), cell)
    def gen(self, rng, case, hints):
        d, m, ap = gen_matrix(rng, hints); ne, ns, nr = m.shape; sub = rng.sample(range(ns), rng.randint(0, ns)); sd = rng.randrange(1000)
        b, given = case['behavior'], case['p'] == 'given'; p = rng.choice([0.2, .5, .8, .99]); g = np.random.RandomState(sd); dr_ = []; pi = {}
        for _ in sub:
            if b == 'constant': dr_.append([g.uniform()])
            if given: dr_.append(g.uniform(size=ne))
            if b in ('shuffle', None):
                pi[len(dr_)] = g.permutation(int((dr_[-1] < p).sum()) if given else ne); dr_.append(None)
        ap.update(SUB=lambda i: sub[int(i)], ISSEL=lambda s: int(int(s) in sub), POS=lambda s: sub.index(int(s)) if int(s) in sub else 0, PP=lambda i: p)
        ap['DU'] = lambda n, v=0: float(dr_[int(n)][int(v)]) if 0 <= int(n) < len(dr_) and dr_[int(n)] is not None else 0.0
        ap['PI'] = lambda n, mm, j: int(pi[int(n)][int(j)]) if int(n) in pi and 0 <= int(j) < len(pi[int(n)]) else 0
        q = {'selected_subjects': sub}
        if b: q['corrupt_behavior'] = b
        if given: q['corrupt_probability'] = p
        return coded_env(d, {'S': ns, 'R': nr, 'N': len(sub)}, ap), [d, q, sd]
CONTRACTS['C24'].append(CorruptSubject())
class CorruptData(SimContract):
    """each vote is unchanged (draw above the probability) or replaced by 1 + (reference score - 1) * draw, a value within [1, reference score]"""
    name = 'CorruptDataRawDatasetReader'; cls = dr.CorruptDataRawDatasetReader
    functions = (DRM + 'CorruptDataRawDatasetReader.opinion_score_3darray',)
    cases = ({'p': 'any'}, {'p': 0}, {'p': 1})
    def setup(self, it, case):
        base_matrix(it); unit('PP')
        return {'reader': self.reader(it, {'corrupt_probability': SNum(PP(), ZERO, 'f') if case['p'] == 'any' else case['p']})}
    def spec(self, I, case):
        p = PP() if case['p'] == 'any' else const(case['p']); ref = mk_app('REFSCORE', [ZERO])
        hit = lambda e, s, r: mk_le(draw('DU', 0, e, s, r) - p)
        def cell(e, s, r):
            nth = T.mk_rank(vE * vS * vR, lambda t: hit(*unflat(t)), (e * vS + s) * vR + r)
            g = hit(e, s, r)
            return ite(g, ONE + (ref - 1) * draw('DU', 1, nth), M(e, s, r)), ite(g, ZERO, MN(e, s, r))
        def unflat(t):
            q = T.mk_div(t, vR); e = T.mk_div(q, vS)
            return e, q - e * vS, t - q * vR
        return Arr((vE, vS, vR), cell)
    def gen(self, rng, case, hints):
        d, m, ap = gen_matrix(rng, hints); sd = rng.randrange(1000); p = rng.random() if case['p'] == 'any' else case['p']
        g = np.random.RandomState(sd); u = g.uniform(size=m.shape); w = g.uniform(size=m.size)
        ap.update(DU=lambda n, *ix: float(u[tuple(map(int, ix))] if int(n) == 0 else w[int(ix[0])]), PP=lambda i: p)
        return coded_env(d, {'S': m.shape[1], 'R': m.shape[2]}, ap), [d, {'corrupt_probability': p}, sd]
CONTRACTS['C24'].append(CorruptData())
