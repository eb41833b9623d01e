"""Deductive contracts of the dataset layer (C01, C15, C16, C24, C25, C29): datasets of any number of videos, observers and repetitions."""
from .dsgen import *
import sureal.dataset_reader as dr, sureal.subjective_model as sm
from sureal.tools import misc
DRM = 'sureal.dataset_reader.'
NV, vNV = 'E', vE

def code(name, kind='i'): return lambda e: SNum(mk_app(name, [e], kind), ZERO, kind)
def app(name, *ix, kind='i'): return mk_app(name, list(ix), kind)
class DSObj: pass
def video_family(it, extra=None, owner='dataset'):
    """distorted videos: content, asset id, path, one further field with an arbitrary value, and the votes"""
    f = {'content_id': code('CID'), 'asset_id': code('AID'), 'path': code('PATH'), 'note': code('NOTE')}
    f.update(extra or {})
    return it.alloc(FamCell(vE, f, owner=owner))
def ref_family(it, owner='dataset'):
    return it.alloc(FamCell(vC, {'content_id': code('RCID'), 'path': code('RPATH'), 'name': code('RNAME')}, owner=owner))
def dataset_obj(it, fam, ref, **more):
    a = {'dataset_name': 'ds', 'yuv_fmt': 'yuv420p', 'ref_score': SNum(mk_app('REFSCORE', [ZERO]), ZERO, 'f'), '__builtins__': 'hidden'}
    a.update(more)
    a['ref_videos'] = it.new_symlist(vC, lambda c: Rec(ref, c), owner='dataset')
    a['dis_videos'] = it.new_symlist(vE, lambda e: Rec(fam, e), owner='dataset')
    return ORef(it.alloc(ObjCell(DSObj, a, owner='dataset')))
def reader_of(it, cls, ds, **attrs): return ORef(it.alloc(ObjCell(cls, dict(attrs, dataset=ds), owner='reader')))

def vid(e, **fields):
    """a video derived from video e: all fields of the source except the votes, plus the given ones"""
    return Map(dict({'content_id': Num(app('CID', e)), 'asset_id': Num(app('AID', e)), 'path': Num(app('PATH', e)), 'note': Num(app('NOTE', e))}, **fields), exact=True)
def refs_spec(): return SeqOf(vC, lambda c: Map({'content_id': Num(app('RCID', c)), 'path': Num(app('RPATH', c)), 'name': Num(app('RNAME', c))}, exact=True))

# concrete counterparts: integer-coded fields
def gen_coded(rng, hints, nv=None, os=None):
    nv = nv or pick_dim(rng, hints, 1, 6); nc = rng.randint(1, 4)
    d = DS(); d.dataset_name = 'ds'; d.yuv_fmt = 'yuv420p'; d.ref_score = rng.choice([5.0, 100.0])
    pool = list(range(0, 8)) + [i for i in hints.get('ints', []) if -50 < i < 5000]
    d.ref_videos = [{'content_id': c, 'path': rng.choice(pool), 'name': rng.choice(pool)} for c in range(nc)]
    rng.shuffle(d.ref_videos)
    aids = rng.sample(sorted(set(pool + list(range(nv + 8)))), nv) if rng.random() < .7 else [rng.choice(pool) for _ in range(nv)]
    d.dis_videos = [{'content_id': rng.randrange(nc), 'asset_id': aids[e], 'path': rng.choice(pool), 'note': rng.choice(pool), 'os': os(e) if os else [rng.randint(1, 5)] * 2} for e in range(nv)]
    return d
def coded_env(d, vars=None, apps=None):
    a = {'REFSCORE': lambda i: d.ref_score}
    for k, n in (('CID', 'content_id'), ('AID', 'asset_id'), ('PATH', 'path'), ('NOTE', 'note')): a[k] = lambda e, n=n: d.dis_videos[int(e)][n]
    for k, n in (('RCID', 'content_id'), ('RPATH', 'path'), ('RNAME', 'name')): a[k] = lambda e, n=n: d.ref_videos[int(e)][n]
    a.update(apps or {})
    return T.Env(dict({'E': len(d.dis_videos), 'C': len(d.ref_videos)}, **(vars or {})), a)

# ------------------------------------------------------------------------------------------------- C15
class Aggregate(Contract):
    """to_aggregated_dataset: any number of videos, scores and standard errors given as arrays; content/asset filters as lists of any length"""
    name = 'RawDatasetReader.to_aggregated_dataset'
    functions = (DRM + name, DRM + 'RawDatasetReader._prepare_new_dataset')
    cases = tuple({'std': s, 'filter': f, 'opt': o} for s in ('given', 'none') for f in ('', 'c', 'a', 'ca') for o in ('', 'width') if o == '' or f == '')
    def setup(self, it, case):
        dims(E, C); CTX.lower['NF'] = 0; CTX.lower['NG'] = 0
        fam = video_family(it, {'os': lambda e: Opaque('votes')}); ref = ref_family(it)
        ds = dataset_obj(it, fam, ref, **({'quality_width': 640} if case['opt'] else {}))
        I = {'reader': reader_of(it, dr.RawDatasetReader, ds)}
        I['q'] = it.new_arr((vE,), lambda ix: (app('Q', *ix, kind='f'), app('QN', *ix, kind='b')), 'f', owner='scores')
        I['sd'] = it.new_arr((vE,), lambda ix: (app('SD', *ix, kind='f'), app('SDN', *ix, kind='b')), 'f', owner='scores')
        I['fc'] = it.new_symlist(var('NF'), lambda i: SNum(app('FC', i), ZERO, 'i'), owner='filter')
        I['fa'] = it.new_symlist(var('NG'), lambda i: SNum(app('FA', i), ZERO, 'i'), owner='filter')
        return I
    def kw(self, I, case):
        kw = {'scores_std': I['sd'] if case['std'] == 'given' else None}
        if 'c' in case['filter']: kw['aggregate_content_ids'] = I['fc']
        if 'a' in case['filter']: kw['aggregate_asset_ids'] = I['fa']
        if case['opt']: kw['quality_width'] = 960; kw['quality_height'] = None; kw['resampling_type'] = 'lanczos'
        return kw
    def run(self, it, I, case): return it.call(it.getattr(I['reader'], 'to_aggregated_dataset'), [I['q']], self.kw(I, case))
    def spec(self, I, case):
        def v(e):
            f = {'groundtruth': Num(app('Q', e, kind='f'), app('QN', e, kind='b'))}
            if case['std'] == 'given': f['groundtruth_std'] = Num(app('SD', e, kind='f'), app('SDN', e, kind='b'))
            return vid(e, **f)
        member = lambda n, nm, x: bool_not(mk_le(Sigma(var(n), lambda i: mk_eq(app(nm, i) - x))))
        keep = lambda e: (member('NF', 'FC', app('CID', e)) if 'c' in case['filter'] else ONE) * (member('NG', 'FA', app('AID', e)) if 'a' in case['filter'] else ONE)
        vids = SeqOf(vE, v) if not case['filter'] else SeqOf(T.mk_cnt(vE, keep), lambda i: v(T.mk_sel(vE, keep, i)))
        at = {'dis_videos': vids, 'ref_videos': refs_spec(), 'dataset_name': 'ds', 'yuv_fmt': 'yuv420p', 'ref_score': Num(mk_app('REFSCORE', [ZERO]))}
        if case['opt']: at['quality_width'] = 960; at['resampling_type'] = 'lanczos'
        return Obj(at, exact=True)
    def gen(self, rng, case, hints):
        d = gen_coded(rng, hints); n = len(d.dis_videos)
        if case['opt']: d.quality_width = 640
        q = np.array([rng.uniform(1, 5) for _ in range(n)]); sd = np.array([rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0, 1)]) for _ in range(n)])
        if rng.random() < .3: q[rng.randrange(n)] = NAN; sd[rng.randrange(n)] = NAN
        fc = [rng.choice([v['content_id'] for v in d.dis_videos] + [9]) for _ in range(rng.randint(0, 3))]
        fa = [rng.choice([v['asset_id'] for v in d.dis_videos] + [99]) for _ in range(rng.randint(0, 4))]
        arr = lambda a: (lambda i: 0.0 if a[int(i)] != a[int(i)] else float(a[int(i)])); nn = lambda a: (lambda i: int(a[int(i)] != a[int(i)]))
        env = coded_env(d, {'NF': len(fc), 'NG': len(fa)}, {'Q': arr(q), 'QN': nn(q), 'SD': arr(sd), 'SDN': nn(sd), 'FC': lambda i: fc[int(i)], 'FA': lambda i: fa[int(i)]})
        return env, [d, q, sd, fc, fa]
    def real(self, nat, case):
        d, q, sd, fc, fa = nat
        return dr.RawDatasetReader(d).to_aggregated_dataset(q, **self.kw({'sd': sd, 'fc': fc, 'fa': fa}, case))
CONTRACTS = {'C15': [Aggregate()]}

# ------------------------------------------------------------------------------------------------- C29
def member(n, nm, x): return bool_not(mk_le(Sigma(n, lambda i: mk_eq(app(nm, i) - x))))
class Filter(Contract):
    """_import_dataset_and_filter: any dataset, filters of any length; the importer is used through its contract (returns a new dataset object holding the file's content)"""
    name = 'SubjectiveModel._import_dataset_and_filter'
    functions = ('sureal.subjective_model.' + name,)
    cases = tuple({'filter': f} for f in ('', 'c', 'a', 'ca'))
    def setup(self, it, case):
        dims(E, C); CTX.lower['NF'] = 0; CTX.lower['NG'] = 0
        I = {}
        I['fam'] = fam = video_family(it, {'os': lambda e: SNum(app('OS', e), ZERO, 'i')}, owner='video'); ref = ref_family(it, owner='video')
        ds = dataset_obj(it, fam, ref); it.heap[ds.cell].owner = None
        for k in ('dis_videos', 'ref_videos'): it.heap[it.heap[ds.cell].attrs[k].cell].owner = None
        it.contracts[misc.import_python_file] = lambda it_, a, k: ds
        I['fc'] = it.new_symlist(var('NF'), lambda i: SNum(app('FC', i), ZERO, 'i'), owner='filter') if 'c' in case['filter'] else None
        I['fa'] = it.new_symlist(var('NG'), lambda i: SNum(app('FA', i), ZERO, 'i'), owner='filter') if 'a' in case['filter'] else None
        return I
    def run(self, it, I, case): return it.call(it.getattr(sm.MosModel, '_import_dataset_and_filter'), ['/some/file.py', I['fc'], I['fa']])
    def spec(self, I, case):
        keep = lambda e: (member(var('NF'), 'FC', app('CID', e)) if 'c' in case['filter'] else ONE) * (member(var('NG'), 'FA', app('AID', e)) if 'a' in case['filter'] else ONE)
        v = lambda e: vid(e, os=Num(app('OS', e)))
        return Obj({'dis_videos': SeqOf(T.mk_cnt(vE, keep), lambda i: v(T.mk_sel(vE, keep, i))) if case['filter'] else SeqOf(vE, v), 'ref_videos': refs_spec(), 'dataset_name': 'ds', 'yuv_fmt': 'yuv420p', 'ref_score': Num(mk_app('REFSCORE', [ZERO]))})
    def gen(self, rng, case, hints):
        d = gen_coded(rng, hints, os=lambda e: rng.randint(1, 9))
        fc = [rng.choice([v['content_id'] for v in d.dis_videos] + [9]) for _ in range(rng.randint(0, 3))]
        fa = [rng.choice([v['asset_id'] for v in d.dis_videos] + [99]) for _ in range(rng.randint(0, 4))]
        return coded_env(d, {'NF': len(fc), 'NG': len(fa)}, {'OS': lambda e: d.dis_videos[int(e)]['os'], 'FC': lambda i: fc[int(i)], 'FA': lambda i: fa[int(i)]}), [d, fc, fa]
    def real(self, nat, case):
        d, fc, fa = nat; t = scratch()
        try:
            f = os.path.join(t, 'ds.py')
            with open(f, 'w') as fh: fh.write('\n'.join('%s = %r' % kv for kv in vars(d).items()))
            return sm.MosModel._import_dataset_and_filter(f, fc if 'c' in case['filter'] else None, fa if 'a' in case['filter'] else None)
        finally: shutil.rmtree(t, ignore_errors=True)
CONTRACTS['C29'] = [Filter()]
class Validate(Contract):
    """construction of a reader: accepted exactly when content numbers are not negative, every video's content has a reference and list votes have equal length"""
    name = 'RawDatasetReader.__init__'
    functions = (DRM + 'DatasetReader.__init__', DRM + 'DatasetReader._assert_dataset', DRM + 'RawDatasetReader._assert_dataset')
    cases = ({'os': 'list'}, {'os': 'dict'}, {'os': 'none'})
    def setup(self, it, case):
        dims(E, C)
        CTX.lower_app = getattr(CTX, 'lower_app', {})
        ex = {}
        if case['os'] == 'list': ex['os'] = lambda e: it.new_symlist(app('LEN', e), lambda s: SNum(app('V', e, s, kind='f'), ZERO, 'f'), owner='dataset')
        if case['os'] == 'dict': ex['os'] = lambda e: it.new_dict({'anna': SNum(app('V', e, kind='f'), ZERO, 'f')}, owner='dataset')
        fam = video_family(it, ex); ref = ref_family(it)
        return {'ds': dataset_obj(it, fam, ref)}
    def run(self, it, I, case): return it.call(dr.RawDatasetReader, [I['ds']])
    def spec(self, I, case):
        bad = bool_not(mk_le(Sigma(vC, lambda c: mk_lt(app('RCID', c))) + Sigma(vE, lambda e: bool_not(member(vC, 'RCID', app('CID', e))))))
        if case['os'] == 'list': bad = bool_or(bad, bool_not(mk_le(Sigma(vE, lambda e: bool_not(mk_eq(app('LEN', e) - app('LEN', ZERO)))))))
        if case['os'] == 'none': return Raises(AssertionError)
        return Cases([(bad, Raises(AssertionError)), (ONE, Obj({'dataset': Same(I['ds']) if I else AnyVal()}))])
    def gen(self, rng, case, hints):
        n = rng.choice([0, 1, 2, 5])
        os_ = lambda e: [3] * (n if rng.random() < .9 else rng.randint(0, 6)) if case['os'] == 'list' else {'anna': 3}
        d = gen_coded(rng, hints, os=os_)
        k = rng.random()
        if k < .25: rng.choice(d.dis_videos)['content_id'] = rng.choice([-1, 9, len(d.ref_videos)])
        elif k < .4: rng.choice(d.ref_videos)['content_id'] = rng.choice([-1, -2, 7])
        if case['os'] == 'none': 
            for v in d.dis_videos: del v['os']
        return coded_env(d, {}, {'LEN': lambda e: len(d.dis_videos[int(e)]['os'])}), [d]
    def real(self, nat, case): return dr.RawDatasetReader(nat[0])
CONTRACTS['C29'].append(Validate())

# ------------------------------------------------------------------------------------------------- C01
def vote(it, e, s, kind):
    """the entry of observer s at video e: a number, or a list of LEN(e,s) numbers (any number may be missing, i.e. NaN)"""
    num = lambda r: SNum(app('V', e, s, r, kind='f'), app('VN', e, s, r, kind='b'), 'f')
    lst = lambda: it.new_symlist(app('LEN', e, s), num, owner='dataset')
    if kind == 'num': return num(ZERO)
    if kind == 'reps': return lst()
    return Union_([(app('ISL', e, s, kind='b'), list, lst), (bool_not(app('ISL', e, s, kind='b')), float, num(ZERO))])
def is_list(kind, e, s): return {'num': ZERO, 'reps': ONE}.get(kind, app('ISL', e, s, kind='b'))
class MatrixL(Contract):
    """the matrix of a list-style dataset: any number of videos, observers and repetitions"""
    name = 'RawDatasetReader.opinion_score_3darray'
    functions = (DRM + name, DRM + 'RawDatasetReader._get_num_observers', DRM + 'RawDatasetReader._get_max_repetitions')
    cases = ({'votes': 'num'}, {'votes': 'reps'}, {'votes': 'mixed'})
    def setup(self, it, case):
        dims(E, S); CTX.appnonneg.add('LEN')
        fam = video_family(it, {'os': lambda e: it.new_symlist(vS, lambda s: vote(it, e, s, case['votes']), owner='dataset')})
        return {'reader': reader_of(it, dr.RawDatasetReader, dataset_obj(it, fam, ref_family(it)))}
    def run(self, it, I, case): return it.getattr(I['reader'], 'opinion_score_3darray')
    def spec(self, I, case):
        k = case['votes']
        R = ONE if k == 'num' else T.mk_max(ONE, T.mk_red('max', [('e', vE), ('s', vS)], [app('LEN', var('e'), var('s')) * is_list(k, var('e'), var('s')), is_list(k, var('e'), var('s'))], () if k == 'reps' else ('lo',), sort='i'))
        def cell(e, s, r):
            g = is_list(k, e, s) * mk_lt(r - app('LEN', e, s)) + (ONE - is_list(k, e, s)) * mk_eq(r)
            return g * app('V', e, s, r, kind='f'), bool_or(ONE - g, app('VN', e, s, r, kind='b'))
        return Arr((vE, vS, R), cell)
    def gen(self, rng, case, hints):
        ne = pick_dim(rng, hints, 1, 5); ns = pick_dim(rng, hints, 1, 5); k = case['votes']; val = lambda: NAN if rng.random() < .15 else rng.choice([1, 2, 3, 4, 5, 3.5])
        isl = [[k == 'reps' or (k == 'mixed' and rng.random() < .5) for s in range(ns)] for e in range(ne)]
        os_ = lambda e: [[val() for _ in range(rng.choice([0, 1, 1, 2, 3]))] if isl[e][s] else val() for s in range(ns)]
        d = gen_coded(rng, hints, nv=ne, os=os_); o = lambda e, s: d.dis_videos[int(e)]['os'][int(s)]
        def at(e, s, r):
            x = o(e, s); x = x if isinstance(x, list) else [x]
            return x[int(r)] if 0 <= int(r) < len(x) else 0.0
        return coded_env(d, {'S': ns}, {'LEN': lambda e, s: len(o(e, s)) if isl[int(e)][int(s)] else 0, 'ISL': lambda e, s: int(isl[int(e)][int(s)]), 'V': lambda e, s, r: 0.0 if at(e, s, r) != at(e, s, r) else float(at(e, s, r)), 'VN': lambda e, s, r: int(at(e, s, r) != at(e, s, r))}), [d]
    def real(self, nat, case): return dr.RawDatasetReader(nat[0]).opinion_score_3darray
CONTRACTS['C01'] = [MatrixL()]

from engine.names import NameDict, universe, name as obs_name
def Pr(e, u): return app('P', e, u, kind='b')
vU = var('S')
def votes_by_name(it, kind):
    """dictionary-style votes of video e: observers NAME(0) < NAME(1) < ..., each of whom voted at least once somewhere; any insertion order"""
    universe(vU, pres=Pr)
    CTX.forall('P', 1, lambda u: [('ge1', Sigma(vE, lambda e: Pr(e, u)))])
    return lambda e: NameDict([e], vU, Pr, lambda e, u: vote(it, e, u, kind), 'K')
class MatrixD(Contract):
    """the matrix of a dictionary-style dataset: any number of videos, observers (any subset voting on a video) and repetitions"""
    name = 'RawDatasetReader.opinion_score_3darray (by name)'
    functions = MatrixL.functions + (DRM + 'RawDatasetReader._get_list_observers', 'sureal.tools.misc.get_unique_sorted_list')
    cases = ({'votes': 'num'}, {'votes': 'reps'}, {'votes': 'mixed'})
    def setup(self, it, case):
        dims(E, S); CTX.appnonneg.add('LEN')
        fam = video_family(it, {'os': votes_by_name(it, case['votes'])})
        return {'reader': reader_of(it, dr.RawDatasetReader, dataset_obj(it, fam, ref_family(it)))}
    def run(self, it, I, case): return (it.getattr(I['reader'], 'opinion_score_3darray'), it.call(it.getattr(I['reader'], '_get_list_observers'), []))
    def spec(self, I, case):
        k = case['votes']
        gl = lambda e, s: Pr(e, s) * is_list(k, e, s)
        R = ONE if k == 'num' else T.mk_max(ONE, T.mk_red('max', [('e', vE), ('s', vS)], [app('LEN', var('e'), var('s')) * gl(var('e'), var('s')), gl(var('e'), var('s'))], ('lo',), sort='i'))
        def cell(e, s, r):
            g = Pr(e, s) * (is_list(k, e, s) * mk_lt(r - app('LEN', e, s)) + (ONE - is_list(k, e, s)) * mk_eq(r))
            return g * app('V', e, s, r, kind='f'), bool_or(ONE - g, app('VN', e, s, r, kind='b'))
        return Lst([Arr((vE, vS, R), cell), SeqOf(vS, lambda u: Num(app('NAME', u)))])
    def gen(self, rng, case, hints):
        env, (d,) = MatrixL.gen(self, rng, case, hints)
        ns = len(d.dis_videos[0]['os']); names = sorted(rng.sample([str(i) for i in range(30)], ns)); ne = len(d.dis_videos)
        P = [[rng.random() < .6 for _ in range(ns)] for _ in range(ne)]
        for u in range(ns):
            if not any(P[e][u] for e in range(ne)): P[rng.randrange(ne)][u] = True
        for e, v in enumerate(d.dis_videos):
            its = [(names[u], v['os'][u]) for u in range(ns) if P[e][u]]; rng.shuffle(its); v['os'] = dict(its)
        full = [[x for x in v['os'].values()] for v in d.dis_videos]
        o = lambda e, s: d.dis_videos[int(e)]['os'].get(names[int(s)])
        def at(e, s, r):
            x = o(e, s); x = x if isinstance(x, list) else [x]
            return x[int(r)] if 0 <= int(r) < len(x) and x[int(r)] is not None else 0.0
        env = coded_env(d, {'S': ns}, {'LEN': lambda e, s: len(o(e, s)) if isinstance(o(e, s), list) else 0, 'ISL': lambda e, s: int(isinstance(o(e, s), list)), 'P': lambda e, u: int(P[int(e)][int(u)]), 'NAME': lambda u: int(names[int(u)]), 'V': lambda e, s, r: 0.0 if at(e, s, r) != at(e, s, r) else float(at(e, s, r)), 'VN': lambda e, s, r: int(at(e, s, r) != at(e, s, r))})
        return env, [d]
    def real(self, nat, case):
        r = dr.RawDatasetReader(nat[0])
        return [r.opinion_score_3darray, [int(x) for x in r._get_list_observers()]]
CONTRACTS['C01'].append(MatrixD())

# ------------------------------------------------------------------------------------------------- C16
class PerSubject(Contract):
    """to_persubject_dataset: one entry per given score, video by video; by-name datasets drop the missing ones"""
    name = 'RawDatasetReader.to_persubject_dataset'
    functions = (DRM + name, DRM + 'RawDatasetReader._prepare_new_dataset')
    cases = ({'style': 'list'}, {'style': 'dict'})
    def setup(self, it, case):
        dims(E, S, C)
        if case['style'] == 'list': os_ = lambda e: it.new_symlist(app('LEN', e), lambda s: SNum(app('V', e, s, kind='f'), ZERO, 'f'), owner='dataset')
        else: os_ = votes_by_name(it, 'num')
        CTX.appnonneg.add('LEN')
        fam = video_family(it, {'os': os_})
        I = {'reader': reader_of(it, dr.RawDatasetReader, dataset_obj(it, fam, ref_family(it)))}
        I['q'] = it.new_arr((vE, vS), lambda ix: (app('Q', *ix, kind='f'), app('QN', *ix, kind='b')), 'f', owner='scores')
        return I
    def run(self, it, I, case): return it.call(it.getattr(I['reader'], 'to_persubject_dataset'), [I['q']])
    def spec(self, I, case):
        q = lambda e, s: vid(e, groundtruth=Num(app('Q', e, s, kind='f'), app('QN', e, s, kind='b')))
        if case['style'] == 'list':
            n = lambda e: vS; vids = Blocks(vE, n, q); ok = mk_le(Sigma(vE, lambda e: bool_not(mk_eq(app('LEN', e) - vS))))
        else:
            g = lambda e: (lambda s: bool_not(app('QN', e, s, kind='b')))
            n = lambda e: T.mk_cnt(vS, g(e)); vids = Blocks(vE, n, lambda e, j: q(e, T.mk_sel(vS, g(e), j)))
            ok = mk_le(Sigma(vE, lambda e: bool_not(mk_eq(n(e) - Sigma(vS, lambda u: Pr(e, u))))))
        at = {'dis_videos': vids, 'ref_videos': refs_spec(), 'dataset_name': 'ds', 'yuv_fmt': 'yuv420p', 'ref_score': Num(mk_app('REFSCORE', [ZERO]))}
        return Cases([(bool_not(ok), Raises(AssertionError)), (ONE, Obj(at, exact=True))])
    def gen(self, rng, case, hints):
        ns = pick_dim(rng, hints, 1, 5); names = ['o%d' % i for i in range(ns)]
        d = gen_coded(rng, hints); ne = len(d.dis_videos); q = np.array([[rng.choice([NAN, rng.uniform(1, 5), rng.uniform(1, 5)]) for _ in range(ns)] for _ in range(ne)])
        bad = rng.random() < .2; P = ~np.isnan(q)
        for e, v in enumerate(d.dis_videos):
            if case['style'] == 'list': v['os'] = [3] * (ns if not bad or rng.random() < .5 else rng.randint(0, ns + 1))
            else:
                if bad and rng.random() < .5: P[e] = [rng.random() < .5 for _ in range(ns)]
                elif rng.random() < .3: P[e] = rng.sample(list(P[e]), ns)
                v['os'] = {names[u]: 3 for u in rng.sample(range(ns), ns) if P[e][u]}
        return coded_env(d, {'S': ns}, {'LEN': lambda e: len(d.dis_videos[int(e)]['os']), 'P': lambda e, u: int(P[int(e)][int(u)]), 'Q': lambda e, s: 0.0 if q[int(e), int(s)] != q[int(e), int(s)] else float(q[int(e), int(s)]), 'QN': lambda e, s: int(q[int(e), int(s)] != q[int(e), int(s)])}), [d, q]
    def real(self, nat, case): return dr.RawDatasetReader.to_persubject_dataset(reader_for(nat[0]), nat[1])
def reader_for(d):
    """a reader object around the dataset, without the constructor's validation (its contract is separate)"""
    r = dr.RawDatasetReader.__new__(dr.RawDatasetReader); r.dataset = d; return r
CONTRACTS['C16'] = [PerSubject()]

# ------------------------------------------------------------------------------------------------- C17
class DictStyle(Contract):
    """to_dictionary_style_dataset: list votes get names dataset name + '_subject' + position; by-name datasets are returned as they are"""
    name = 'RawDatasetReader.to_dictionary_style_dataset'
    functions = (DRM + name, DRM + 'RawDatasetReader._prepare_new_dataset')
    cases = ({'style': 'list'}, {'style': 'dict'})
    def setup(self, it, case):
        dims(E, S, C); CTX.appnonneg.add('LEN')
        if case['style'] == 'list': os_ = lambda e: it.new_symlist(app('LEN', e), lambda s: SNum(app('V', e, s, kind='f'), app('VN', e, s, kind='b'), 'f'), owner='dataset')
        else: os_ = votes_by_name(it, 'num')
        ds = dataset_obj(it, video_family(it, {'os': os_}), ref_family(it))
        return {'ds': ds, 'reader': reader_of(it, dr.RawDatasetReader, ds)}
    def run(self, it, I, case): return it.call(it.getattr(I['reader'], 'to_dictionary_style_dataset'), [])
    def spec(self, I, case):
        if case['style'] == 'dict': return Same(I['ds']) if I else True
        v = lambda e: vid(e, os=DictOf(app('LEN', e), lambda s: TStr('ds_subject', s), lambda s: Num(app('V', e, s, kind='f'), app('VN', e, s, kind='b'))))
        return Obj({'dis_videos': SeqOf(vE, v), 'ref_videos': refs_spec(), 'dataset_name': 'ds', 'yuv_fmt': 'yuv420p', 'ref_score': Num(mk_app('REFSCORE', [ZERO]))}, exact=True)
    def gen(self, rng, case, hints):
        val = lambda: NAN if rng.random() < .15 else rng.choice([1, 2, 3, 4.5])
        d = gen_coded(rng, hints, os=lambda e: [val() for _ in range(rng.randint(0, 12))])
        o = lambda e, s: d.dis_videos[int(e)]['os'][int(s)]
        env = coded_env(d, {}, {'LEN': lambda e: len(d.dis_videos[int(e)]['os']), 'V': lambda e, s: 0.0 if o(e, s) != o(e, s) else float(o(e, s)), 'VN': lambda e, s: int(o(e, s) != o(e, s))})
        if case['style'] == 'dict':
            for v in d.dis_videos: v['os'] = {'n%d' % i: x for i, x in enumerate(v['os'])}
        return env, [d]
    def real(self, nat, case):
        r = dr.RawDatasetReader.to_dictionary_style_dataset(reader_for(nat[0]))
        return r if case['style'] == 'list' else r is nat[0]
CONTRACTS['C17'] = [DictStyle()]
