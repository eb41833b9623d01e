"""C31: running several models on a dataset file, and the report of the results."""
import io, json, sys, contextlib, warnings
from .dsgen import *
import scipy.stats
import sureal.dataset_reader as dr, sureal.subjective_model as sm, sureal.pc_subjective_model as pcm
from sureal import routine
from engine.npmodel import seq_functional
from sureal.tools import misc
RT = 'sureal.routine.'
CONTRACTS = {'C31': []}

# ------------------------------------------------------------------------------------------------- interval coverage (proved)
vN = var('N')
class CiPerc(Contract):
    name = 'get_ci_percentage'; functions = (RT + name,)
    cases = ({'kind': 'list'}, {'kind': 'array'})
    F = ('XT', 'YE', 'YL', 'YU')
    def setup(self, it, case):
        dims('N')
        a = lambda n: (lambda i: mk_app(n, [i]))
        def seq(n):
            if case['kind'] == 'array': return it.new_arr((vN,), lambda ix: (mk_app(n, list(ix)), ZERO), owner='argument')
            return it.new_symlist(vN, lambda i: snum(mk_app(n, [i])), owner='argument')
        return {'truth': it.new_dict({'q': seq('XT'), 'other': Opaque('other')}, owner='argument'), 'res': it.new_dict({'q': seq('YE'), 'e': it.new_list([seq('YL'), seq('YU')]), 'other': Opaque('other')}, owner='argument')}
    def run(self, it, I, case): return it.call(routine.get_ci_percentage, [I['truth'], I['res'], 'q', 'e'])
    def spec(self, I, case):
        x, y, l, u = (lambda i: mk_app('XT', [i])), (lambda i: mk_app('YE', [i])), (lambda i: mk_app('YL', [i])), (lambda i: mk_app('YU', [i]))
        return Num(const(100) * Sigma(vN, lambda i: mk_le(y(i) - l(i) - x(i)) * mk_le(x(i) - y(i) - u(i))) * mk_pow(vN, -1))
    def gen(self, rng, case, hints):
        n = pick_dim(rng, hints, 1, 8)
        v = {k: [rng.choice([rng.uniform(1, 5), float(rng.randint(1, 5))]) for _ in range(n)] for k in self.F}
        for i in range(n):
            if rng.random() < .3: v['XT'][i] = v['YE'][i] + rng.choice([-.5, .5, 0, .25, -2]); v['YL'][i] = rng.choice([.5, 1.0, 0.0]); v['YU'][i] = rng.choice([.5, 1.0, 0.0])
        env = T.Env({'N': n}, {k: (lambda i, k=k: v[k][int(i)]) for k in self.F}); env.edge = True
        w = {k: np.array(x) if case['kind'] == 'array' else x for k, x in v.items()}
        return env, [{'q': w['XT'], 'other': 1}, {'q': w['YE'], 'e': [w['YL'], w['YU']], 'other': 2}]
    def real(self, nat, case): return routine.get_ci_percentage(nat[0], nat[1], 'q', 'e')
CONTRACTS['C31'].append(CiPerc())

# ------------------------------------------------------------------------------------------------- run_subjective_models (proved)
from .readers import video_family, ref_family, dataset_obj, coded_env, gen_coded, app
class StubReader:
    def __init__(self, dataset, input_dict): self.dataset = dataset; self.info = input_dict; self.dis_videos = dataset.dis_videos
class StubModel1:
    TYPE = 'M1'
    def __init__(self, dataset_reader): self.dataset_reader = dataset_reader
    def run_modeling(self, **kwargs): return StubModel1.hook(self, kwargs)
class StubModel2:
    TYPE = 'M2'
    def __init__(self, dataset_reader): self.dataset_reader = dataset_reader
    def run_modeling(self, **kwargs): return StubModel2.hook(self, kwargs)
def UX(m, *ix): return mk_app('UX%d' % m, list(ix))
def UH(m, *ix): return mk_app('UH%d' % m, list(ix), 'b')
def RX(m, *ix): return mk_app('RX%d' % m, list(ix))
def RH(m, *ix): return mk_app('RH%d' % m, list(ix), 'b')
class RunModels(Contract):
    name = 'run_subjective_models'; functions = (RT + name,)
    cases = ({'file': 'py', 'stats': True, 'ax': False}, {'file': 'json', 'stats': False, 'ax': True})
    def both(self, *ix): return UH(1, *ix) * RH(1, *ix)
    def setup(self, it, case):
        dims(E, S, R, C)
        if case['stats']: CTX.assume(bool_not(mk_le(cnt_all(self.both))))        # at least one vote that has a reconstruction
        fam = video_family(it); ref = ref_family(it); ds = dataset_obj(it, fam, ref)
        for nm in ('import_python_file', 'import_json_file'):
            def f(it_, a, k, nm=nm):
                it_.loop_obls.append(('the file given is imported by its type', a[0] == '/x/data.' + case['file'] and nm == {'py': 'import_python_file', 'json': 'import_json_file'}[case['file']], ''))
                return ds
            it.contracts[getattr(misc, nm)] = f
        it.contracts[misc.cmap_factory] = lambda it_, a, k: Opaque('colour map')
        I = {'ds': ds, 'info': it.new_dict({'k': 3}, owner='argument')}
        def rinit(it_, a, k):
            names = ('dataset', 'input_dict'); v = dict(zip(names, a[1:])); v.update(k)
            it_.loop_obls.append(('the reader gets the dataset and the reader options', v == {'dataset': ds, 'input_dict': I['info']}, repr(v)))
            it_.heap[a[0].cell] = ObjCell(StubReader, {'dataset': ds, 'dis_videos': it_.heap[ds.cell].attrs['dis_videos']}); I['reader'] = a[0]
        it.contracts[StubReader.__init__] = rinit
        for m, cls in ((1, StubModel1), (2, StubModel2)):
            def minit(it_, a, k, cls=cls):
                v = list(a[1:]) + list(k.values())
                it_.loop_obls.append(('each model gets the reader', v == [I['reader']], ''))
                it_.heap[a[0].cell] = ObjCell(cls, {'dataset_reader': I['reader']})
            it.contracts[cls.__init__] = minit
            def rm(it_, a, k, m=m):
                it_.loop_obls.append(('options are passed on to each model', dict(k) == {'dataset_reader_class': StubReader, 'dataset_reader_info_dict': I['info'], 'opt': 7}, repr(sorted(k))))
                d = {'quality_scores': it_.new_symlist(vE, lambda e: snum(mk_app('QS%d' % m, [e])))}
                if case['stats']:
                    d['raw_scores'] = it_.new_arr((vE, vS, vR), lambda ix: (UX(m, *ix), bool_not(UH(m, *ix))))
                    if m == 1: d['reconstructions'] = it_.new_arr((vE, vS, vR), lambda ix: (RX(m, *ix), bool_not(RH(m, *ix))))
                return it_.new_dict(d)
            it.contracts[cls.run_modeling] = rm
        return I
    def kw(self, it, case, I):
        k = {'dataset_reader_class': StubReader, 'dataset_reader_info_dict': I['info'], 'opt': 7}
        if case['ax']: k['ax_dict'] = it.new_dict({}) if it else {}
        return k
    def run(self, it, I, case): return it.call(routine.run_subjective_models, ['/x/data.' + case['file'], it.new_list([StubModel2, StubModel1])], self.kw(it, case, I))
    def spec(self, I, case):
        def res(m):
            d = {'quality_scores': SeqOf(vE, lambda e: Num(mk_app('QS%d' % m, [e]))), 'dis_video_names': SeqOf(vE, lambda e: Num(app('PATH', e)))}
            if case['stats']:
                d['raw_scores'] = Arr((vE, vS, vR), lambda *ix: (UX(m, *ix), bool_not(UH(m, *ix))))
                if m == 1:
                    d['reconstructions'] = Arr((vE, vS, vR), lambda *ix: (RX(m, *ix), bool_not(RH(m, *ix))))
                    h = lambda *ix: UH(m, *ix) * RH(m, *ix); n = cnt_all(h)
                    x = [sum_over((vE, vS, vR), lambda *ix: h(*ix) * (UX(m, *ix) - RX(m, *ix)) ** 2) * mk_pow(n, -1)]
                    at = lambda i: (T.mk_div(T.mk_div(i, vR), vS), T.mk_div(i, vR) - T.mk_div(T.mk_div(i, vR), vS) * vS, i - T.mk_div(i, vR) * vR)
                    pick = lambda i: at(T.mk_sel(vE * vS * vR, lambda k: h(*at(k)), i))
                    cor = lambda f: seq_functional(None, f, n, lambda i: [(UX(m, *pick(i)), ZERO), (RX(m, *pick(i)), ZERO)])
                    d['reconstruction_stats'] = Map({'rmse': Num(mk_sqrt(x[0])), 'cc': Num(cor('pearson')), 'srocc': Num(cor('spearman'))}, exact=True)
            return Map(d, exact=True)
        return Lst([Fn(lambda it, S, got, name, pc: match_sym(it, S, got, Same(I['ds']), name, pc), lambda real, env, rep, name: rep.ok(name)), Lst([Obj({}), Obj({})]), Lst([res(2), res(1)])])
    def gen(self, rng, case, hints):
        d = gen_coded(rng, hints, os=lambda e: 1); d.width = 3
        e, s_, r = len(d.dis_videos), pick_dim(rng, hints, 1, 4), rng.randint(1, 3)
        U = {m: gen_scores(rng, hints, e, s_, r) for m in (1, 2)}; P = gen_scores(rng, hints, e, s_, r)
        if not (~np.isnan(U[1]) & ~np.isnan(P)).any(): return None
        k = ~np.isnan(U[1]) & ~np.isnan(P)
        if case['stats'] and (k.sum() < 2 or min(len(set(U[1][k])), len(set(P[k]))) < 2): return None
        Q = {m: [rng.uniform(1, 5) for _ in range(e)] for m in (1, 2)}
        apps = {}
        for m in (1, 2): apps.update(env_array('UX%d' % m, 'UH%d' % m, U[m])); apps['QS%d' % m] = lambda i, m=m: Q[m][int(i)]
        apps.update(env_array('RX1', 'RH1', P))
        return coded_env(d, {'S': s_, 'R': r}, apps), [d, U, P, Q]
    def real(self, nat, case):
        d, U, P, Q = nat; t = scratch(); seen = []
        def res(m):
            def f(self_, kw):
                seen.append((m, kw, self_.dataset_reader))
                o = {'quality_scores': list(Q[m])}
                if case['stats']:
                    o['raw_scores'] = U[m].copy()
                    if m == 1: o['reconstructions'] = P.copy()
                return o
            return f
        StubModel1.hook = res(1); StubModel2.hook = res(2)
        info = {'k': 3}
        try:
            f = os.path.join(t, 'data.' + case['file'])
            with open(f, 'w') as fh:
                if case['file'] == 'py': fh.write('\n'.join('%s = %r' % kv for kv in vars(d).items()))
                else: json.dump(vars(d), fh)
            out = routine.run_subjective_models(f, [StubModel2, StubModel1], **self.kw(None, case, {'info': info}))
        finally: shutil.rmtree(t, ignore_errors=True)
        want = {'dataset_reader_class': StubReader, 'dataset_reader_info_dict': info, 'opt': 7}
        if [m for m, k, r in seen] != [2, 1] and [m for m, k, r in seen] != [1, 2]: return 'models run: %r' % [m for m, k, r in seen]
        if any(k != want or r.info != info or not eqv(r.dis_videos, d.dis_videos) for m, k, r in seen): return 'options of the models'
        if [type(x) for x in out[1]] != [StubModel2, StubModel1]: return 'models returned'
        return [None, [Nothing(), Nothing()], out[2]] if all(eqv(v, getattr(out[0], k)) for k, v in vars(d).items()) else 'dataset'
class Nothing: pass
CONTRACTS['C31'].append(RunModels())

# ------------------------------------------------------------------------------------------------- report (bounded)
PARTS = (('dis_videos', 'quality_scores', (('quality_score', 'quality_scores', 0), ('quality_score_std', 'quality_scores_std', 0), ('quality_score_ci95', 'quality_scores_ci95', 1))),
         ('observers', 'observer_bias', (('observer_bias', 'observer_bias', 0), ('observer_bias_std', 'observer_bias_std', 0), ('observer_bias_ci95', 'observer_bias_ci95', 1),
                                         ('observer_inconsistency', 'observer_inconsistency', 0), ('observer_inconsistency_std', 'observer_inconsistency_std', 0), ('observer_inconsistency_ci95', 'observer_inconsistency_ci95', 1),
                                         ('observer_scores_mean', 'observer_scores_mean', 0), ('observer_scores_std', 'observer_scores_std', 0))),
         ('contents', 'content_ambiguity', (('content_ambiguity', 'content_ambiguity', 0), ('content_ambiguity_std', 'content_ambiguity_std', 0), ('content_ambiguity_ci95', 'content_ambiguity_ci95', 1))))
def report_of(ds, types, results):
    """oracle: what the report has to say"""
    names = {'dis_videos': ('dis_video_name', None), 'observers': ('observer', None), 'contents': ('content', None)}
    out = {}
    for part, main, fields in PARTS:
        rs = [(t, r) for t, r in zip(types, results) if main in r]
        if not rs: continue
        n = len(rs[0][1][main])
        if part == 'dis_videos': label = rs[0][1]['dis_video_names']
        elif part == 'observers': label = rs[0][1].get('observers') or ['observer%d' % i for i in range(n)]
        else: label = [c for _, c in sorted((v['content_id'], v['content_name']) for v in ds.ref_videos)]
        out[part] = [{names[part][0]: label[i], 'models': {t: {k: ((r[f][0][i], r[f][1][i]) if ci else r[f][i]) for k, f, ci in fields if r.get(f) is not None} for t, r in rs}} for i in range(n)]
    st = {t: {k: r[k] for k in ('aic', 'bic') if k in r} for t, r in zip(types, results)}
    st = {t: v for t, v in st.items() if v}
    if st: out['stats'] = {'models': st}
    return out
def plain(x):
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray)): return [plain(v) for v in x]
    return x.item() if isinstance(x, np.generic) else x
class TypeOnly:
    def __init__(self, t): self.TYPE = t
class ReportB(Bounded):
    name = 'format_output_of_run_subjective_models'; functions = (RT + name,)
    cases = ({},); want = 'one entry per video, observer and content with its own name and, per model, its own results'
    nquick = 120
    def inputs(self, rng, case, hints):
        ds = gen_ds(rng, hints); nv, nc, no = len(ds.dis_videos), len(ds.ref_videos), rng.randint(1, 12)
        types = rng.sample(['MOS', 'P910', 'SR_MOS', 'MLE', 'X', 'quality_score'], rng.randint(1, 3))
        named = rng.random() < .5; obs = rnames(rng, hints, no); no = len(obs) if named else no
        size = {'dis_videos': nv, 'observers': no, 'contents': nc}; rs = []
        num = lambda: rng.choice([rng.uniform(0, 5), float(rng.randint(1, 5)), 0.0, rng.uniform(-1, 1)])
        for t in types:
            r = {'dis_video_names': [v['path'] for v in ds.dis_videos]}
            for part, main, fields in PARTS:
                if part != 'dis_videos' and rng.random() < .4: continue
                for k, f, ci in fields:
                    if f != main and rng.random() < .4: continue
                    if f == 'quality_scores_std' and rng.random() < .2: r[f] = None; continue         # a model without standard errors
                    v = [num() for _ in range(size[part])]
                    w = [num() for _ in range(size[part])]
                    r[f] = ([v, w] if rng.random() < .7 else (np.array(v), np.array(w))) if ci else (np.array(v) if rng.random() < .3 else v)
            if named and 'observer_bias' in r: r['observers'] = list(obs)
            for k in ('aic', 'bic'):
                if rng.random() < .6: r[k] = num()
            rs.append(r)
        return ds, types, rs
    def real(self, nat, case):
        ds, types, rs = nat; b = snap(ds); want = plain(report_of(ds, types, rs)); r0 = copy.deepcopy(rs)
        out = routine.format_output_of_run_subjective_models(ds, [TypeOnly(t) for t in types], rs)
        if not eqv(plain(out), want): return 'report %r instead of %r' % (plain(out), want)
        if any(not eqv(r[k], q[k]) for r, q in zip(rs, r0) for k in q): return 'results changed'
        return 'ok' if unchanged(ds, b) else 'dataset changed'
class CliB(Bounded):
    """python -m sureal and the older command on dataset files: the output says what the models, run one by one on the imported file, say"""
    name = 'command line (datasets)'; functions = ('sureal.__main__.main', 'sureal.cmd_deprecated.main', RT + 'run_subjective_models', RT + 'format_output_of_run_subjective_models', 'sureal.tools.misc.import_json_file')
    cases = ({'cmd': 'print'}, {'cmd': 'dir'}, {'cmd': 'pairs'}, {'cmd': 'old'})
    nquick = 6; nthorough = 40
    MODELS = {'MOS': sm.MosModel, 'P910': None, 'SR_MOS': None, 'BR_SR_MOS': None, 'BT500': None, 'P913': None, 'ZS_MOS': None}
    def inputs(self, rng, case, hints):
        ds = gen_ds(rng, hints, style=rng.choice(['list', 'dict']), missing=False, nv=rng.randint(3, 6), nobs=rng.randint(4, 7), reps=False, mode='float', asset='seq')
        for k in list(vars(ds)):
            if k in ('extra_info', 'subjects', 'license'): delattr(ds, k)
        if case['cmd'] == 'pairs':
            n = len(ds.dis_videos); obs = rnames(rng, hints, rng.randint(2, 4))
            for v in ds.dis_videos: v['os'] = {}
            for i in range(n):
                for j in range(i):
                    for o in obs: ds.dis_videos[i]['os'][o, ds.dis_videos[j]['asset_id']] = rng.choice([0, 0.5, 1])
            return ds, rng.sample(['THURSTONE_MLE', 'BT_NR', 'BT_MLE'], rng.randint(1, 2)), 'py'
        ms = rng.sample(sorted(self.MODELS), rng.randint(1, 3)) if case['cmd'] != 'old' else [rng.choice(['MOS', 'MLE_CO_AP', 'SR_MOS'])]
        return ds, ms, rng.choice(['py', 'json'])
    def real(self, nat, case):
        import sureal.__main__ as mm, sureal.cmd_deprecated as cd
        ds, ms, ext = nat; t = scratch(); old = sys.argv, os.environ.get('MPLBACKEND')
        import matplotlib; matplotlib.use('Agg')
        buf = io.StringIO()
        try:
            f = os.path.join(t, 'data.' + ext); o = os.path.join(t, 'out')
            with open(f, 'w') as fh:
                if ext == 'py': fh.write('\n'.join('%s = %r' % kv for kv in vars(ds).items()))
                else: json.dump(vars(ds), fh)
            with warnings.catch_warnings(), contextlib.redirect_stdout(buf):
                warnings.simplefilter('ignore')
                if case['cmd'] == 'old':
                    sys.argv = ['sureal', ms[0], f, '--output-dir', o, '--print']; rc = cd.main()
                else:
                    sys.argv = ['sureal', '--dataset', f, '--models'] + ms + (['--output-dir', o] if case['cmd'] != 'print' else []); rc = mm.main()
            if rc != 0: return 'exit code %r' % rc
            cls = [sm.SubjectiveModel.find_subclass(m) for m in ms]
            rd = dr.PairedCompDatasetReader if case['cmd'] == 'pairs' else dr.RawDatasetReader
            rs = [c(rd(copy.deepcopy(ds))).run_modeling(**(dict(normalize_final=False, gradient_method='simplified') if case['cmd'] == 'old' else {})) for c in cls]
            if case['cmd'] == 'old':
                got = json.load(open(os.path.join(o, 'sureal.json')))
                bad = [k for k, v in rs[0].items() if isinstance(v, list) and not eqv(got.get(k), json.loads(json.dumps(plain(v))))]
                if bad: return '%s of the result file' % bad
                if got['dis_video_names'] != [v['path'] for v in ds.dis_videos]: return 'video names'
                return 'ok'
            for r in rs: r['dis_video_names'] = [v['path'] for v in ds.dis_videos]
            want = json.loads(json.dumps(plain(report_of(ds, [c.TYPE for c in cls], rs))))
            got = json.load(open(os.path.join(o, 'output.json'))) if case['cmd'] != 'print' else json.loads(buf.getvalue()[('\n' + buf.getvalue()).index('\n{'):])
            return 'ok' if eqv(got, want) else 'output %r instead of %r' % (got, want)
        finally:
            sys.argv = old[0]; shutil.rmtree(t, ignore_errors=True)
            import matplotlib.pyplot as plt; plt.close('all')
CONTRACTS['C31'] += [ReportB(), CliB()]
