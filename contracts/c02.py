from .common import *
import sureal.subjective_model as sm
from sureal.dataset_reader import RawDatasetReader

SM = 'sureal.subjective_model.'

class Stack(Contract):
    """stacking repetitions: o[r*E+e, s] = x[e,s,r] (axis 0), o[e, r*S+s] = x[e,s,r] (axis 1)"""
    name = 'SubjectiveModel._stack_repetitions_along_axis'
    functions = (SM + 'SubjectiveModel._stack_repetitions_along_axis',)
    cases = ({'axis': 0}, {'axis': 1})
    def setup(self, it, case):
        dims(E, S, R)
        return {'x': score_array(it)}
    def run(self, it, I, case): return it.call(sm.SubjectiveModel._stack_repetitions_along_axis, [I['x']], {'axis': case['axis']})
    @staticmethod
    def out(case, d, rd):
        e, s, r = d
        if case['axis'] == 0:
            return Arr((r * e, s), lambda i, j: rd((i - T.mk_div(i, e) * e, j, T.mk_div(i, e))))
        return Arr((e, r * s), lambda i, j: rd((i, j - T.mk_div(j, s) * s, T.mk_div(j, s))))
    def spec(self, I, case):
        return self.out(case, (vE, vS, vR), lambda ix: (X(*ix), bool_not(H(*ix))))
    def gen(self, rng, case, hints):
        a = gen_scores(rng, hints, pick_dim(rng, hints), pick_dim(rng, hints), pick_dim(rng, hints, 1, 3), min_e=0, min_s=0)
        return base_env(a), [a]
    def real(self, nat, case): return sm.SubjectiveModel._stack_repetitions_along_axis(nat[0], axis=case['axis'])
    @classmethod
    def install(cls, it):
        f = sm.SubjectiveModel._stack_repetitions_along_axis
        def h(it_, args, kw):
            a = args[0]; axis = kw['axis'] if 'axis' in kw else args[1]
            if not isinstance(a, ArrRef) or len(a.shape) != 3 or axis not in (0, 1): return it_.call_function(f, args, kw)
            rd = it_.reader(a)
            o = cls.out({'axis': axis}, a.shape, rd)
            return it_.new_arr(o.shape, lambda ix: o.at(ix), 'f')
        it.contracts[f] = h
STACK = Stack()

def reader_obj(it, arr, **over):
    """abstract dataset reader: only what its own contract (C01) guarantees is known"""
    ds = ORef(it.alloc(ObjCell(None, {}, owner='dataset')))
    def notdict(it_, o):
        def f(it2, *a): raise RaiseEx(AssertionError, 'list-style dataset')
        return Model(f)
    ov = {'opinion_score_3darray': lambda it_, o: it_.new_arr(arr.shape, it_.heap[arr.cell].elem, 'f', owner='opinion scores'), '_get_list_observers': notdict}
    ov.update(over)
    return ORef(it.alloc(ObjCell(RawDatasetReader, {'dataset': ds}, owner='dataset reader', over=ov)))

def xmean_e(e, h=H, x=X): return mean_over((vS, vR), lambda s, r: x(e, s, r), lambda s, r: h(e, s, r))

class Mos(Contract):
    """MOS: mean, sample std, standard error, CI and reconstructions per video over the present votes only"""
    name = 'MosModel.run_modeling scores'
    functions = (SM + 'MosModel._run_modeling', SM + 'MosModel._get_mos_and_stats', SM + 'SubjectiveModel.run_modeling', SM + 'MosModel._get_reconstructions', SM + 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing')
    helpers = (STACK,)
    def setup(self, it, case):
        dims(E, S, R)
        every_video_voted()
        a = score_array(it)
        return {'reader': reader_obj(it, a)}
    def run(self, it, I, case):
        m = it.call(sm.MosModel, [I['reader']])
        return it.call(it.getattr(m, 'run_modeling'), [], dict(case.get('kw', {})))
    def spec(self, I, case):
        def std(e):
            v, m, n = var_over((vS, vR), lambda s, r: X(e, s, r), lambda s, r: H(e, s, r), 1)
            return mk_sqrt(v), n, mk_le(n - 1)
        mos = lambda e: xmean_e(e)[0]
        sd = lambda e: (std(e)[0], std(e)[2])
        def se(e):
            s, n, nan = std(e); return s * mk_pow(n, T.Fr(-1, 2)), nan
        z = T.Fr(195996, 100000)
        ci = lambda e: (const(z) * se(e)[0], se(e)[1])
        return Map({'quality_scores': Arr((vE,), mos),
                    'quality_scores_std': Arr((vE,), se),
                    'quality_scores_ci95': Lst([Arr((vE,), ci), Arr((vE,), ci)]),
                    'quality_ambiguity': Arr((vE,), sd),
                    'raw_scores': Arr((vE, vS, vR), lambda e, s, r: (X(e, s, r), bool_not(H(e, s, r)))),
                    'reconstructions': Arr((vE, vS, vR), lambda e, s, r: mos(e))}, absent=('observer_rejected',))
    def gen(self, rng, case, hints):
        a = gen_scores(rng, hints, pick_dim(rng, hints), pick_dim(rng, hints), pick_dim(rng, hints, 1, 3), min_s=0)
        return base_env(a), [list_dataset(a)]
    def real(self, nat, case):
        return sm.MosModel(RawDatasetReader(nat[0])).run_modeling(**case.get('kw', {}))

CONTRACTS = {'C02': [Mos()]}
