"""C01, C15-C19, C23-C25, C29: bounded stand-ins on the dataset layer."""
from .dsgen import *
import sureal.dataset_reader as dr, sureal.subjective_model as sm
from sureal.tools import misc
DRM = 'sureal.dataset_reader.'

class MatrixB(Bounded):
    name = 'RawDatasetReader.opinion_score_3darray (datasets)'
    functions = tuple(DRM + 'RawDatasetReader.' + f for f in ('opinion_score_3darray', '_get_num_observers', '_get_list_observers', '_get_max_repetitions', '_assert_dataset'))
    cases = ({'style': 'list'}, {'style': 'tuple'}, {'style': 'dict'})
    want = 'the votes of the dataset, missing elsewhere'
    def inputs(self, rng, case, hints): return gen_ds(rng, hints, style=case['style'], nanvotes=True, emptylist=True)
    def real(self, ds, case):
        b = snap(ds); r = dr.RawDatasetReader(ds)
        m = r.opinion_score_3darray; w = matrix_of(ds.dis_videos)
        if not eqv(m, w): return 'matrix %r instead of %r' % (m.tolist(), w.tolist())
        if r.num_observers != w.shape[1] or r.num_dis_videos != w.shape[0] or r.max_repetitions != w.shape[2]: return 'sizes'
        if case['style'] == 'dict' and r._get_list_observers() != sorted({o for v in ds.dis_videos for o in v['os']}): return 'observers'
        if not eqv(r.opinion_score_3darray, w): return 'second reading differs'
        return 'ok' if unchanged(ds, b) else 'dataset changed'

# ------------------------------------------------------------------------------------------------- C15
def check_fields(new, old, kw, what):
    """dataset fields of a derived dataset: those of the source, overridden by the options given"""
    n, o = public(new), dict(old)
    for k in ('quality_width', 'quality_height', 'resampling_type'):
        if kw.get(k) is not None: o[k] = kw[k]
    for k in ('ref_videos', 'dis_videos'): n.pop(k, None); o.pop(k, None)
    if not eqv(n, o): return '%s: dataset fields %r instead of %r' % (what, n, o)
    return None
def options(rng):
    kw = {}
    for k, vs in (('quality_width', [960, None]), ('quality_height', [540, None]), ('resampling_type', ['bicubic', None])):
        if rng.random() < .4: kw[k] = rng.choice(vs)
    return kw
class AggregateB(Bounded):
    name = 'RawDatasetReader.to_aggregated_dataset (datasets)'
    functions = (DRM + 'RawDatasetReader.to_aggregated_dataset', DRM + 'RawDatasetReader._prepare_new_dataset', DRM + 'RawDatasetReader.to_aggregated_dataset_file')
    cases = ({'via': 'reader'}, {'via': 'file'})
    def inputs(self, rng, case, hints):
        ds = gen_ds(rng, hints); n = len(ds.dis_videos); kw = options(rng)
        kind = rng.choice(['list', 'array', 'rows', 'vec'])
        sc = [round(rng.uniform(1, 5), 4) for _ in range(n)]
        std = rng.choice([None, [round(rng.random(), 4) for _ in range(n)], 'absent'])
        cid = [v['content_id'] for v in ds.dis_videos]; aid = [v['asset_id'] for v in ds.dis_videos]
        if rng.random() < .5: kw['aggregate_content_ids'] = rng.choice([None, [], [rng.choice(cid)], rng.sample(cid, rng.randint(0, n)) + [99]])
        if rng.random() < .5: kw['aggregate_asset_ids'] = rng.choice([None, [], [rng.choice(aid)], rng.sample(aid, rng.randint(0, n)) + [-4]])
        return ds, kw, kind, sc, std
    def real(self, nat, case):
        ds, kw, kind, sc, std = nat; b = snap(ds)
        arg = {'list': sc, 'array': np.array(sc), 'rows': np.array(sc).reshape(-1, 1), 'vec': np.array([[x, x + 1] for x in sc])}[kind]
        k2 = dict(kw)
        if std != 'absent': k2['scores_std'] = std if std is None or kind == 'list' else np.array(std)
        r = dr.RawDatasetReader(ds)
        if case['via'] == 'file':
            if kind == 'vec': arg = np.array(sc); kind = 'array'
            d = scratch()
            try:
                f = os.path.join(d, 'out.py'); r.to_aggregated_dataset_file(f, arg, **k2); new = misc.import_python_file(f)
            finally: shutil.rmtree(d, ignore_errors=True)
        else: new = r.to_aggregated_dataset(arg, **k2)
        want = []
        for e, v in enumerate(b['dis_videos']):
            v = copy.deepcopy(v); v.pop('os')
            v['groundtruth'] = [sc[e], sc[e] + 1] if kind == 'vec' else sc[e]
            if std not in (None, 'absent'): v['groundtruth_std'] = std[e]
            if kw.get('aggregate_content_ids') is not None and v['content_id'] not in kw['aggregate_content_ids']: continue
            if kw.get('aggregate_asset_ids') is not None and v['asset_id'] not in kw['aggregate_asset_ids']: continue
            want.append(v)
        if not eqv(list(new.dis_videos), want): return 'videos %r instead of %r' % (new.dis_videos, want)
        if not eqv(list(new.ref_videos), b['ref_videos']): return 'references %r' % (new.ref_videos,)
        return check_fields(new, b, kw, 'aggregated') or ('ok' if unchanged(ds, b) else 'source dataset changed')
class AggregateModelB(Bounded):
    """the same through the models: scores and standard errors of the model result"""
    name = 'SubjectiveModel.to_aggregated_dataset (datasets)'
    functions = ('sureal.subjective_model.SubjectiveModel.to_aggregated_dataset', 'sureal.subjective_model.SubjectiveModel.to_aggregated_dataset_file', 'sureal.subjective_model.SubjectiveModel._assert_modeled')
    cases = ({'model': 'MosModel', 'via': 'object'}, {'model': 'MosModel', 'via': 'file'}, {'model': 'BiasremvMosModel', 'via': 'object'}, {'model': 'MaximumLikelihoodEstimationModelContentOblivious', 'via': 'object'})
    nquick = 6
    def inputs(self, rng, case, hints): return gen_ds(rng, hints, style=rng.choice(['list', 'dict']), missing=False, nv=rng.randint(2, 5), nobs=rng.randint(3, 5), mode='float'), options(rng)
    def real(self, nat, case):
        ds, kw = nat; b = snap(ds)
        m = getattr(sm, case['model'])(dr.RawDatasetReader(ds))
        try: m.to_aggregated_dataset(); return 'aggregated before modelling'
        except AssertionError: pass
        with np.errstate(all='ignore'): res = m.run_modeling()
        if case['via'] == 'file':
            d = scratch()
            try: f = os.path.join(d, 'out.py'); m.to_aggregated_dataset_file(f, **kw); new = misc.import_python_file(f)
            finally: shutil.rmtree(d, ignore_errors=True)
        else: new = m.to_aggregated_dataset(**kw)
        want = []
        for e, v in enumerate(b['dis_videos']):
            v = copy.deepcopy(v); v.pop('os'); v['groundtruth'] = float(res['quality_scores'][e]); v['groundtruth_std'] = float(res['quality_scores_std'][e]); want.append(v)
        if not eqv(list(new.dis_videos), want): return 'videos %r instead of %r' % (new.dis_videos, want)
        if not eqv(list(new.ref_videos), b['ref_videos']): return 'references'
        return check_fields(new, b, kw, 'aggregated') or ('ok' if unchanged(ds, b) else 'source dataset changed')
CONTRACTS = {'C01': [MatrixB()], 'C15': [AggregateB(), AggregateModelB()]}

# ------------------------------------------------------------------------------------------------- C16
class PerSubjectB(Bounded):
    name = 'RawDatasetReader.to_persubject_dataset (datasets)'
    functions = (DRM + 'RawDatasetReader.to_persubject_dataset', DRM + 'RawDatasetReader._prepare_new_dataset', 'sureal.subjective_model.PerSubjectModel._run_modeling')
    cases = ({'style': 'list', 'via': 'reader'}, {'style': 'tuple', 'via': 'reader'}, {'style': 'dict', 'via': 'reader'}, {'style': 'list', 'via': 'model'}, {'style': 'dict', 'via': 'model'}, {'style': 'dict', 'via': 'file'})
    def inputs(self, rng, case, hints): return gen_ds(rng, hints, style=case['style'], reps=False), options(rng), rng.choice([0.0, 0.5, -2.25]), rng.random() < .3
    def real(self, nat, case):
        ds, kw, shift, zeros = nat; b = snap(ds); r = dr.RawDatasetReader(ds)
        m = matrix_of(b['dis_videos'])[:, :, 0]
        if case['via'] == 'reader':
            m = m * 0 if zeros else m + shift
            new = r.to_persubject_dataset(m.copy() if not zeros else [list(x) for x in m], **kw)
        else:
            mod = sm.PerSubjectModel(r); mod.run_modeling()
            if case['via'] == 'model': new = mod.to_aggregated_dataset(**kw)
            else:
                d = scratch()
                try: f = os.path.join(d, 'out.py'); mod.to_aggregated_dataset_file(f, **kw); new = misc.import_python_file(f)
                finally: shutil.rmtree(d, ignore_errors=True)
        want = []
        for e, v in enumerate(b['dis_videos']):
            for s in range(m.shape[1]):
                if m[e, s] != m[e, s]: continue
                w = copy.deepcopy(v); w.pop('os'); w['groundtruth'] = float(m[e, s]); want.append(w)
        if not eqv(list(new.dis_videos), want): return 'videos %r instead of %r' % (new.dis_videos, want)
        if not eqv(list(new.ref_videos), b['ref_videos']): return 'references'
        return check_fields(new, b, kw, 'per-subject') or ('ok' if unchanged(ds, b) else 'source dataset changed')
CONTRACTS['C16'] = [PerSubjectB()]

# ------------------------------------------------------------------------------------------------- C17
def dict_votes(ds, videos):
    """oracle: dictionary-style votes"""
    if isinstance(videos[0]['os'], dict): return [dict(v['os']) for v in videos]
    return [{'%s_subject%d' % (ds.dataset_name, i): x for i, x in enumerate(v['os'])} for v in videos]
class DictStyleB(Bounded):
    name = 'RawDatasetReader.to_dictionary_style_dataset (datasets)'
    functions = (DRM + 'RawDatasetReader.to_dictionary_style_dataset',)
    cases = ({'style': 'list', 'via': 'object'}, {'style': 'tuple', 'via': 'object'}, {'style': 'dict', 'via': 'object'}, {'style': 'list', 'via': 'file'})
    def inputs(self, rng, case, hints): return gen_ds(rng, hints, style=case['style'], nobs=rng.choice([1, 3, 5, 12]))
    def real(self, ds, case):
        b = snap(ds); r = dr.RawDatasetReader(ds)
        if case['via'] == 'file':
            d = scratch()
            try: f = os.path.join(d, 'out.py'); r.to_dictionary_style_dataset_file(f); new = misc.import_python_file(f)
            finally: shutil.rmtree(d, ignore_errors=True)
        else: new = r.to_dictionary_style_dataset()
        ov = dict_votes(ds, b['dis_videos'])
        want = [dict(copy.deepcopy(v), os=o) for v, o in zip(b['dis_videos'], ov)]
        if not eqv(list(new.dis_videos), want): return 'videos %r instead of %r' % (new.dis_videos, want)
        if not eqv(list(new.ref_videos), b['ref_videos']): return 'references'
        return check_fields(new, b, {}, 'dictionary style') or ('ok' if unchanged(ds, b) else 'source dataset changed')
class OverlapB(Bounded):
    name = 'RawDatasetReader.to_combined_overlap_dataset (datasets)'
    functions = (DRM + 'RawDatasetReader.to_combined_overlap_dataset', DRM + 'RawDatasetReader.to_dictionary_style_dataset')
    cases = tuple({'styles': a + '+' + c} for a in ('list', 'dict') for c in ('list', 'dict', 'tuple')) + ({'styles': 'dict+dict', 'via': 'file'},)
    def inputs(self, rng, case, hints):
        a, c = case['styles'].split('+')
        d1 = gen_ds(rng, hints, style=a); d2 = gen_ds(rng, hints, style=c)
        n1, n2 = len(d1.dis_videos), len(d2.dis_videos)
        if rng.random() < .5: d2.dataset_name = d1.dataset_name           # generic observer names coincide
        paths = ['p%d' % i for i in range(n1)]; rng.shuffle(paths)
        for v, p in zip(d1.dis_videos, paths): v['path'] = p
        p2 = rng.sample(paths + ['q%d' % i for i in range(n2)], n2)
        for v, p in zip(d2.dis_videos, p2): v['path'] = p
        if a == c == 'dict' and rng.random() < .7:                          # shared observers
            names = sorted({o for v in d1.dis_videos for o in v['os']})
            for v in d2.dis_videos:
                v['os'] = {(rng.choice(names) if rng.random() < .6 else o): x for o, x in v['os'].items()}
        return d1, d2
    def real(self, nat, case):
        d1, d2 = nat; b1, b2 = snap(d1), snap(d2)
        r1, r2 = dr.RawDatasetReader(d1), dr.RawDatasetReader(d2)
        if case.get('via') == 'file':
            d = scratch()
            try: f = os.path.join(d, 'out.py'); r1.to_combined_overlap_dataset_file(f, r2); new = misc.import_python_file(f)
            finally: shutil.rmtree(d, ignore_errors=True)
        else: new = r1.to_combined_overlap_dataset(r2)
        o1, o2 = dict_votes(d1, b1['dis_videos']), dict_votes(d2, b2['dis_videos'])
        where = {v['path']: i for i, v in enumerate(b2['dis_videos'])}
        cids, want = [], []
        for e, v in enumerate(b1['dis_videos']):
            if v['path'] not in where: continue
            if v['content_id'] not in cids: cids.append(v['content_id'])
            os_ = dict(o1[e])
            for o, x in o2[where[v['path']]].items(): os_[o] = votes_of(os_[o]) + votes_of(x) if o in os_ else x
            want.append(dict(copy.deepcopy(v), content_id=cids.index(v['content_id']), os=os_))
        refs = [dict([r for r in b1['ref_videos'] if r['content_id'] == c][0], content_id=i) for i, c in enumerate(cids)]
        if not eqv(list(new.dis_videos), want): return 'videos %r instead of %r' % (new.dis_videos, want)
        if not eqv(list(new.ref_videos), refs): return 'references %r instead of %r' % (new.ref_videos, refs)
        if not unchanged(d1, b1): return 'first dataset changed'
        if not unchanged(d2, b2): return 'second dataset changed'
        return check_fields(new, b1, {}, 'merged') or 'ok'
CONTRACTS['C17'] = [DictStyleB(), OverlapB()]

# ------------------------------------------------------------------------------------------------- C18
class PairsB(Bounded):
    name = 'RawDatasetReader.to_pc_dataset (datasets)'
    functions = (DRM + 'RawDatasetReader.to_pc_dataset', DRM + 'RawDatasetReader._prepare_new_dataset')
    cases = tuple({'style': s, 'type': t} for s in ('list', 'dict') for t in ('within_subject_within_content', 'within_subject', None)) + ({'style': 'dict', 'type': 'within_subject', 'via': 'file'},)
    def inputs(self, rng, case, hints):
        ds = gen_ds(rng, hints, style=rng.choice(['list', 'tuple']) if case['style'] == 'list' else 'dict', reps=False, mode=rng.choice(['int', 'int', 'odd', 'float']))
        kw = options(rng)
        if case['type']: kw['pc_type'] = case['type']
        tb = rng.choice(['even_split', 'coin_toss', None, 'absent'])
        if tb != 'absent': kw['tiebreak_method'] = tb
        sp = rng.choice(['none'] * 4 + ['one', 'zero', 'half', 'toss', 'seed'])
        if sp == 'one': kw['sampling_rate'] = rng.choice([1, 1.0])
        if sp == 'zero': kw['sampling_rate'] = 0.0
        if sp == 'half': kw['sampling_rate'] = 0.5
        if sp == 'toss': kw['cointoss_rate'] = rng.choice([1.0, 0.5])
        if sp == 'seed': kw['sampling_seed'] = 5; kw['cointoss_rate'] = 0.0
        return ds, kw
    def real(self, nat, case):
        ds, kw = nat; b = snap(ds); r = dr.RawDatasetReader(ds)
        if case.get('via') == 'file':
            d = scratch()
            try: f = os.path.join(d, 'out.py'); r.to_pc_dataset_file(f, **kw); new = misc.import_python_file(f)
            finally: shutil.rmtree(d, ignore_errors=True)
        else: new = r.to_pc_dataset(**kw)
        vs = b['dis_videos']
        votes = [dict(v['os']) if isinstance(v['os'], dict) else {str(i): x for i, x in enumerate(v['os'])} for v in vs]
        even = kw.get('tiebreak_method') in (None, 'even_split')
        rate, toss = kw.get('sampling_rate'), kw.get('cointoss_rate')
        got = [dict(v['os']) for v in new.dis_videos]
        if len(got) != len(vs): return 'number of videos'
        for v, w in zip(new.dis_videos, vs):
            if not eqv({k: x for k, x in v.items() if k != 'os'}, {k: x for k, x in w.items() if k != 'os'}): return 'fields of a video %r' % v
        for i in range(len(vs)):
            for j in range(i):
                for o in sorted(set(votes[i]) & set(votes[j])):
                    if kw.get('pc_type') != 'within_subject' and vs[i]['content_id'] != vs[j]['content_id']: continue
                    ki, kj = (o, vs[j]['asset_id']), (o, vs[i]['asset_id'])
                    g = (got[i].pop(ki, None), got[j].pop(kj, None))
                    a, c = votes[i][o], votes[j][o]
                    either = [(1, None), (None, 1)]
                    ok = [(1, None)] if a > c else [(None, 1)] if a < c else [(0.5, 0.5)] if even else either
                    if toss == 1.0: ok = either
                    elif toss: ok = ok + either
                    if rate == 0: ok = [(None, None)]
                    elif rate == 0.5: ok = ok + [(None, None)]
                    if g not in ok: return 'observer %r, videos %d (%r) and %d (%r): recorded %r' % (o, i, a, j, c, g)
        if any(got): return 'further entries %r' % got
        if not eqv(list(new.ref_videos), b['ref_videos']): return 'references'
        return check_fields(new, b, kw, 'pairs') or ('ok' if unchanged(ds, b) else 'source dataset changed')
CONTRACTS['C18'] = [PairsB()]

# ------------------------------------------------------------------------------------------------- C19
class PcMatrixB(Bounded):
    name = 'PairedCompDatasetReader.opinion_score_3darray (datasets)'
    functions = (DRM + 'PairedCompDatasetReader.opinion_score_3darray', DRM + 'PairedCompDatasetReader._get_list_observers', DRM + 'PairedCompDatasetReader._assert_dataset')
    cases = ({'votes': 'valid'}, {'votes': 'bad'}, {'votes': 'badasset'})
    def inputs(self, rng, case, hints):
        ds = gen_ds(rng, hints, style='dict', asset=rng.choice(['seq', 'perm']), nv=rng.randint(2, 7))
        n = len(ds.dis_videos); names = rnames(rng, hints, rng.randint(1, 5)); p = rng.choice([.3, .7, 1])
        pos = {v['asset_id']: i for i, v in enumerate(ds.dis_videos)}
        for v in ds.dis_videos: v['os'] = {}
        for i in range(n):
            for j in range(i):
                for o in names:
                    if rng.random() > p: continue
                    x = rng.choice([0, 0.5, 1, 1.0, 0.0]); w = rng.choice(['i', 'j', 'both'])
                    if w != 'j': ds.dis_videos[i]['os'][o, ds.dis_videos[j]['asset_id']] = x
                    if w != 'i': ds.dis_videos[j]['os'][o, ds.dis_videos[i]['asset_id']] = 1 - x
        if not any(v['os'] for v in ds.dis_videos): ds.dis_videos[0]['os'][names[0], ds.dis_videos[1]['asset_id']] = 1
        if case['votes'] == 'bad':
            v = rng.choice([v for v in ds.dis_videos if v['os']]); v['os'][rng.choice(sorted(v['os']))] = rng.choice([2, -1, 0.25, 0.75, 5, 1.5])
        if case['votes'] == 'badasset': rng.choice(ds.dis_videos)['asset_id'] = rng.choice([-1, n, n + 3])
        return ds
    def real(self, ds, case):
        b = snap(ds)
        if case['votes'] != 'valid':
            try: dr.PairedCompDatasetReader(ds).opinion_score_3darray
            except AssertionError: return 'ok'
            return 'not refused'
        r = dr.PairedCompDatasetReader(ds); m = r.opinion_score_3darray
        vs = b['dis_videos']; n = len(vs); pos = {v['asset_id']: i for i, v in enumerate(vs)}
        obs = sorted({o for v in vs for o, _ in v['os']})
        w = np.full((n, n, len(obs)), NAN)
        for i, v in enumerate(vs):
            for (o, a), x in v['os'].items():
                w[i, pos[a], obs.index(o)] = x; w[pos[a], i, obs.index(o)] = 1 - x
        if not eqv(m, w): return 'matrix %r instead of %r' % (m.tolist(), w.tolist())
        if r._get_list_observers() != obs or r.num_observers != len(obs): return 'observers'
        return 'ok' if unchanged(ds, b) else 'dataset changed'
CONTRACTS['C19'] = [PcMatrixB()]

# ------------------------------------------------------------------------------------------------- C23
def rvalue(rng, hints, depth=0):
    k = rng.random()
    if depth < 3 and k < .15: return [rvalue(rng, hints, depth + 1) for _ in range(rng.randint(0, 4))]
    if depth < 3 and k < .25: return tuple(rvalue(rng, hints, depth + 1) for _ in range(rng.randint(0, 3)))
    if depth < 3 and k < .4: return {rng.choice(['a', 'b', 'x' * rng.randint(1, 50), (1, 'k'), 3, 'é', None]): rvalue(rng, hints, depth + 1) for _ in range(rng.randint(0, 4))}
    return rng.choice([0, 1, -5, 3.25, 1e-17, 1e22, 0.1 + 0.2, True, False, None, '', 'text', "q'uote", 'dq"uote', 'back\\slash', 'new\nline', 'tab\t', 'ünï', 'long ' * 60, '#', '%s {}', 12345678901234567890, -0.0, 5e-324, 1.7976931348623157e308] + [s for s in hints.get('strs', [])] + [x for x in hints.get('ints', [])])
FIELDN = ['foo', 'Bar', 'x_1', '_private', 'subjects', 'license', 'ref_score', 'zz', 'os', 'content_ids', 'name', 'key', 'dataset']
class RoundTripB(Bounded):
    """histories of write and import, in one directory or several, file names possibly reused"""
    name = 'write_out_dataset / import_python_file (datasets)'
    functions = (DRM + 'DatasetReader.write_out_dataset', 'sureal.tools.misc.import_python_file')
    nquick = 30
    def inputs(self, rng, case, hints):
        seq = []
        for _ in range(rng.randint(1, 4)):
            ds = gen_ds(rng, hints, asset='gap', emptylist=True)
            for f in rng.sample(FIELDN, rng.randint(0, 6)): setattr(ds, f, rvalue(rng, hints))
            for v in ds.dis_videos + ds.ref_videos:
                if rng.random() < .4: v[rng.choice(['note', 'x', 'fps', 7, 'groundtruth'])] = rvalue(rng, hints)
            if rng.random() < .1: ds.dis_videos = []
            if rng.random() < .1: ds.ref_videos = []
            if rng.random() < .3: ds.ref_videos = [dict(v, os={('n', k): 1 for k in range(30)}) for v in ds.ref_videos]
            items = list(vars(ds).items()); rng.shuffle(items); ds.__dict__.clear(); ds.__dict__.update(items)
            setattr(ds, '__hidden__', object())
            seq.append((ds, rng.choice(['a', 'b']), rng.choice(['ds', 'ds2', 'my.set'])))
        return seq
    def real(self, seq, case):
        d = scratch(); got = []
        try:
            for k, (ds, sub, fn) in enumerate(seq):
                b = snap(ds)
                os.makedirs(os.path.join(d, sub), exist_ok=True); f = os.path.join(d, sub, fn + '.py')
                dr.DatasetReader.write_out_dataset(ds, f)
                if not unchanged(ds, b): return 'dataset %d changed by writing' % k
                got.append((k, misc.import_python_file(f), b))
                for j, g, w in got:
                    if not eqv(public(g), w): return 'after step %d, dataset %d reads %r instead of %r' % (k, j, public(g), w)
            return 'ok'
        finally: shutil.rmtree(d, ignore_errors=True)
CONTRACTS['C23'] = [RoundTripB()]

# ------------------------------------------------------------------------------------------------- C29
class FilterB(Bounded):
    """models built one after the other from files of the same name; every one keeps its own selection"""
    name = 'SubjectiveModel.from_dataset_file (datasets)'
    functions = ('sureal.subjective_model.SubjectiveModel._import_dataset_and_filter', 'sureal.subjective_model.SubjectiveModel.from_dataset_file', 'sureal.tools.misc.import_python_file')
    def inputs(self, rng, case, hints):
        ds = gen_ds(rng, hints); n = len(ds.dis_videos)
        cid = [v['content_id'] for v in ds.dis_videos]; aid = [v['asset_id'] for v in ds.dis_videos]
        steps = []
        for _ in range(rng.randint(1, 3)):
            fc = rng.choice([None, [rng.choice(cid)], rng.sample(cid, rng.randint(1, n)) + [77], 'range'])
            fa = rng.choice([None, [rng.choice(aid)], rng.sample(aid, rng.randint(1, n)) + [777], 'range'])
            if fc == 'range': fc = list(range(rng.choice(cid) + 1))
            if fa == 'range': fa = list(range(rng.choice(aid) + 1))
            if rng.random() < .1: fc = []
            steps.append((fc, fa))
        return ds, steps
    def real(self, nat, case):
        ds, steps = nat; d = scratch(); done = []
        try:
            f = os.path.join(d, 'ds.py'); dr.DatasetReader.write_out_dataset(ds, f)
            for fc, fa in steps:
                want = [v for v in ds.dis_videos if (fc is None or v['content_id'] in fc) and (fa is None or v['asset_id'] in fa)]
                if not want or (isinstance(want[0]['os'], dict) and not any(v['os'] for v in want)):
                    g = sm.MosModel._import_dataset_and_filter(f, fc, fa).dis_videos
                    if not eqv(list(g), want): return 'filtered %r instead of %r' % (g, want)
                    continue
                kw = {}
                if fc is not None: kw['content_ids'] = fc
                if fa is not None: kw['asset_ids'] = fa
                m = sm.MosModel.from_dataset_file(f, **kw)
                if type(m) is not sm.MosModel: return 'class %r' % type(m)
                done.append((m, want))
                for m, want in done:
                    g = m.dataset_reader.dataset
                    if not eqv(list(m.dataset_reader.dis_videos), want): return 'filters %r %r: %r instead of %r' % (fc, fa, m.dataset_reader.dis_videos, want)
                    if not eqv(g.ref_videos, ds.ref_videos): return 'references'
                    if not eqv(m.dataset_reader.opinion_score_3darray, matrix_of(want)): return 'matrix'
            return 'ok'
        finally: shutil.rmtree(d, ignore_errors=True)
class RefuseB(Bounded):
    name = 'RawDatasetReader._assert_dataset (datasets)'
    functions = (DRM + 'RawDatasetReader._assert_dataset', DRM + 'DatasetReader._assert_dataset')
    cases = ({'defect': 'content'}, {'defect': 'length'}, {'defect': 'no votes'}, {'defect': 'none'})
    nquick = 30
    def inputs(self, rng, case, hints):
        k = case['defect']
        ds = gen_ds(rng, hints, style=rng.choice(['list', 'tuple']) if k == 'length' else None, nv=rng.randint(2, 7))
        v = rng.choice(ds.dis_videos[1:] if rng.random() < .8 else ds.dis_videos)
        if k == 'content':
            known = {r['content_id'] for r in ds.ref_videos}
            if len(known) > 2 and rng.random() < .5:          # a hole in the numbering: content without reference
                c = rng.choice(sorted(known)[:-1]); ds.ref_videos = [r for r in ds.ref_videos if r['content_id'] != c]; v['content_id'] = c
            else: v['content_id'] = rng.choice([max(known) + 1, max(known) + 5, -1])
        if k == 'length': v['os'] = type(v['os'])(list(v['os']) + [3]) if rng.random() < .5 or len(v['os']) < 2 else v['os'][:-1]
        if k == 'no votes': del v['os']
        return ds
    def real(self, ds, case):
        b = snap(ds)
        try: dr.RawDatasetReader(ds)
        except AssertionError: return 'ok' if case['defect'] != 'none' else 'valid dataset refused'
        if not unchanged(ds, b): return 'dataset changed'
        return 'ok' if case['defect'] == 'none' else 'not refused'
CONTRACTS['C29'] = [FilterB(), RefuseB()]

# ------------------------------------------------------------------------------------------------- C24
def rows_changed(m, w, s):
    return [e for e in range(m.shape[0]) if not eqv(m[e, s], w[e, s])]
class SelectB(Bounded):
    name = 'SelectSubject / SelectDisVideo readers (datasets)'
    functions = (DRM + 'SelectSubjectRawDatasetReader.opinion_score_3darray', DRM + 'SelectDisVideoRawDatasetReader.dis_videos', DRM + 'MockedRawDatasetReader.to_dataset')
    cases = ({'what': 'subjects'}, {'what': 'videos'})
    def inputs(self, rng, case, hints):
        ds = gen_ds(rng, hints, asset=rng.choice(['seq', 'perm']))
        w = matrix_of(ds.dis_videos); S_, E_ = w.shape[1], w.shape[0]
        sub = rng.sample(range(S_), rng.randint(1, S_)); vid = rng.sample(range(E_), rng.randint(1, E_))
        return ds, sub, vid, rng.choice([S_, S_ + 2, -1 - S_]), rng.choice([E_, E_ + 3])
    def real(self, nat, case):
        ds, sub, vid, bs, bv = nat; b = snap(ds); w = matrix_of(b['dis_videos'])
        if case['what'] == 'subjects':
            r = dr.SelectSubjectRawDatasetReader(ds, input_dict={'selected_subjects': list(sub)})
            want = w[:, sub, :]
            if not eqv(r.opinion_score_3darray, want) or r.num_observers != len(sub): return 'matrix %r instead of %r' % (r.opinion_score_3darray.tolist(), want.tolist())
            new = r.to_dataset()
            if not eqv(np.array([[list(x) for x in v['os']] for v in new.dis_videos]), want): return 'dataset votes'
            if not eqv([{k: x for k, x in v.items() if k != 'os'} for v in new.dis_videos], [{k: x for k, x in v.items() if k != 'os'} for v in b['dis_videos']]): return 'dataset videos'
        else:
            r = dr.SelectDisVideoRawDatasetReader(ds, input_dict={'selected_dis_videos': list(vid)})
            by = {v['asset_id']: v for v in b['dis_videos']}; vs = [by[i] for i in vid]
            if not eqv(list(r.dis_videos), vs): return 'videos %r instead of %r' % (r.dis_videos, vs)
            if isinstance(vs[0]['os'], dict) and not any(v['os'] for v in vs): return 'ok'
            if not eqv(r.opinion_score_3darray, matrix_of(vs)): return 'matrix'
            if r.num_dis_videos != len(vid) or r.content_id_of_dis_videos != [v['content_id'] for v in vs]: return 'sizes'
        return 'ok' if unchanged(ds, b) else 'dataset changed'
class MissingB(Bounded):
    name = 'MissingDataRawDatasetReader (datasets)'
    functions = (DRM + 'MissingDataRawDatasetReader.opinion_score_3darray', DRM + 'MockedRawDatasetReader.to_dataset')
    cases = ({'p': 0.0}, {'p': 0.3}, {'p': 1.0})
    def inputs(self, rng, case, hints): return gen_ds(rng, hints, nobs=rng.randint(4, 9), nv=rng.randint(4, 9)), rng.choice([None, 3, 'absent'])
    def real(self, nat, case):
        ds, seed = nat; b = snap(ds); w = matrix_of(b['dis_videos'])
        r = dr.MissingDataRawDatasetReader(ds, input_dict=dict({'missing_probability': case['p']}, **({} if seed == 'absent' else {'seed': seed})))
        m = r.opinion_score_3darray
        if m.shape != w.shape: return 'shape'
        bad = ~np.isnan(m) & ~(m == w)
        if bad.any(): return 'votes changed at %r' % np.argwhere(bad).tolist()
        n, k = int((~np.isnan(w)).sum()), int((~np.isnan(m)).sum())
        if case['p'] == 0 and k != n: return 'votes missing at probability 0'
        if case['p'] == 1 and k: return 'votes left at probability 1'
        if case['p'] == .3 and n >= 12 and k == 0: return 'no vote left'
        if seed not in (None, 'absent'):
            new = r.to_dataset()
            if not eqv(np.array([[list(x) for x in v['os']] for v in new.dis_videos]), m): return 'dataset votes'
        return 'ok' if unchanged(ds, b) else 'dataset changed'
class CorruptSubjectB(Bounded):
    name = 'CorruptSubjectRawDatasetReader (datasets)'
    functions = tuple(DRM + 'CorruptSubjectRawDatasetReader.' + f for f in ('opinion_score_3darray', '_get_corrupt_probability', '_get_selected_subjects', '_get_corrupt_behavior', '_assert_selected_subjects'))
    cases = tuple({'behavior': k} for k in ('shuffle', 'flip', 'min', 'mid', 'max', 'constant', None))
    def inputs(self, rng, case, hints):
        ds = gen_ds(rng, hints); w = matrix_of(ds.dis_videos); S_ = w.shape[1]
        return ds, rng.sample(range(S_), rng.randint(0, S_)), rng.choice(['absent', None, 0.0, .5, 1.0])
    def real(self, nat, case):
        ds, sub, p = nat; b = snap(ds); w = matrix_of(b['dis_videos']); k = case['behavior']
        if np.isnan(w).all(): return 'ok'
        d = {'selected_subjects': list(sub)}
        if k: d['corrupt_behavior'] = k
        if p != 'absent': d['corrupt_probability'] = p
        if p == 'absent': p = None
        r = dr.CorruptSubjectRawDatasetReader(ds, input_dict=d); m = r.opinion_score_3darray
        if m.shape != w.shape: return 'shape'
        lo, hi = np.nanmin(w), np.nanmax(w)
        for s in range(w.shape[1]):
            if s not in sub:
                if not eqv(m[:, s], w[:, s]): return 'votes of observer %d changed' % s
                continue
            ch = set(rows_changed(m, w, s))
            if p == 0.0 and ch: return 'changed at probability 0'
            if k in (None, 'shuffle'):
                key = lambda row: [(x != x, 0 if x != x else x) for x in row]
                if sorted(map(key, m[:, s].tolist())) != sorted(map(key, w[:, s].tolist())): return 'shuffled votes of observer %d are not a permutation' % s
                continue
            rows = [e for e in range(w.shape[0]) if p is None or p == 1.0 or e in ch]
            if k == 'constant':
                vals = {float(x) for e in rows for x in m[e, s]}
                if p == .5 and rows: pass
                if len(vals) > 1: return 'observer %d has values %r' % (s, vals)
                if vals and not (lo - 1e-9 <= min(vals) <= hi + 1e-9): return 'value %r outside the range' % vals
                continue
            for e in rows:
                t = {'flip': hi + lo - w[e, s], 'min': np.full(w.shape[2], lo), 'mid': np.full(w.shape[2], (lo + hi) / 2), 'max': np.full(w.shape[2], hi)}[k]
                if not (np.isnan(t) == np.isnan(m[e, s])).all() or not np.allclose(np.nan_to_num(t), np.nan_to_num(m[e, s]), rtol=1e-12): return 'observer %d, video %d: %r instead of %r' % (s, e, m[e, s].tolist(), t.tolist())
        return 'ok' if unchanged(ds, b) else 'dataset changed'
class CorruptDataB(Bounded):
    name = 'CorruptDataRawDatasetReader (datasets)'
    functions = (DRM + 'CorruptDataRawDatasetReader.opinion_score_3darray',)
    cases = ({'p': 0.0}, {'p': 0.4}, {'p': 1.0})
    def inputs(self, rng, case, hints):
        ds = gen_ds(rng, hints, missing=False); ds.ref_score = rng.choice([5.0, 5, 100, 2])
        return ds
    def real(self, ds, case):
        b = snap(ds); w = matrix_of(b['dis_videos'])
        m = dr.CorruptDataRawDatasetReader(ds, input_dict={'corrupt_probability': case['p']}).opinion_score_3darray
        if m.shape != w.shape: return 'shape'
        same_ = (m == w) | (np.isnan(m) & np.isnan(w)); rng_ = (m >= 1) & (m <= ds.ref_score)
        if not (same_ | rng_).all(): return 'value out of range'
        if case['p'] == 0 and not same_.all(): return 'changed at probability 0'
        if case['p'] == 1 and not rng_.all(): return 'not replaced at probability 1'
        return 'ok' if unchanged(ds, b) else 'dataset changed'
CONTRACTS['C24'] = [SelectB(), MissingB(), CorruptSubjectB(), CorruptDataB()]

# ------------------------------------------------------------------------------------------------- C25
class SyntheticB(Bounded):
    """systematic part exact; random part: linear in each scale for fixed draws, standardised residuals of a large table with mean 0 and deviation 1 (margins of seven standard errors), independent between cells and sources"""
    name = 'Synthetic readers (datasets)'
    functions = (DRM + 'SyntheticRawDatasetReader.opinion_score_3darray', DRM + 'SyntheticLogisticRawDatasetReader.opinion_score_3darray', DRM + 'MockedRawDatasetReader.to_dataset')
    cases = ({'law': 'normal'}, {'law': 'logistic'})
    nquick = 5; nthorough = 40
    def inputs(self, rng, case, hints):
        nv, nc, S_ = rng.randint(1, 6), rng.randint(1, 3), rng.randint(1, 6)
        return self.ds(rng, nv, nc), S_, rng.randrange(2 ** 31), self.ds(rng, 60, 3)
    def ds(self, rng, nv, nc):
        d = DS(); d.dataset_name = 'd'; d.ref_videos = [{'content_id': c, 'path': 'r%d' % c} for c in range(nc)]
        d.dis_videos = [{'content_id': rng.randrange(nc), 'asset_id': e, 'path': 'p%d' % e, 'os': [1, 2]} for e in range(nv)]
        return d
    def real(self, nat, case):
        ds, S_, seed, big = nat
        cls = dr.SyntheticRawDatasetReader if case['law'] == 'normal' else dr.SyntheticLogisticRawDatasetReader
        g = np.random.RandomState(seed)
        def params(d, S_):
            E_, C_ = len(d.dis_videos), len(d.ref_videos)
            return {'quality_scores': g.uniform(1, 5, E_), 'observer_bias': g.normal(0, 1, S_), 'observer_inconsistency': g.uniform(.5, 2, S_), 'content_bias': g.normal(0, 1, C_), 'content_ambiguity': g.uniform(.5, 2, C_), 'quality_ambiguity': g.uniform(.5, 2, E_)}
        SC = ['observer_inconsistency', 'content_ambiguity'] + (['quality_ambiguity'] if case['law'] == 'normal' else [])
        def z(d, p, scales, sd, phi=True):
            q = {k: np.array(v) for k, v in p.items()}
            for k in ('observer_inconsistency', 'content_ambiguity', 'quality_ambiguity'): q[k] = q[k] * scales.get(k, 0.0)
            if case['law'] == 'logistic' or not phi: q.pop('quality_ambiguity')
            if case['law'] == 'normal' and sd is not None: q['seed'] = sd
            elif sd is not None: np.random.seed(sd)
            b = snap(d); r = cls(d, input_dict=q); m = r.opinion_score_3darray
            if not unchanged(d, b): raise ValueError('dataset changed')
            return m, r
        p = params(ds, S_); cid = np.array([v['content_id'] for v in ds.dis_videos])
        sysm = (p['quality_scores'][:, None] + p['observer_bias'][None, :] + p['content_bias'][cid][:, None])[:, :, None]
        m, r = z(ds, p, {}, 3)
        if m.shape != sysm.shape or not np.allclose(m, sysm, rtol=1e-9, atol=1e-9): return 'systematic part %r instead of %r' % (m.tolist(), sysm.tolist())
        sds = {'observer_inconsistency': lambda p, c: p['observer_inconsistency'][None, :], 'content_ambiguity': lambda p, c: p['content_ambiguity'][c][:, None], 'quality_ambiguity': lambda p, c: p['quality_ambiguity'][:, None]}
        full = z(ds, p, {k: 1.0 for k in SC}, 11)[0] - sysm
        part = sum(z(ds, p, {k: 1.0}, 11)[0] - sysm for k in SC)
        if not np.allclose(full, part, rtol=1e-7, atol=1e-9): return 'the random parts do not add up'
        for k in SC:
            if not np.allclose(z(ds, p, {k: 2.5}, 11)[0] - sysm, 2.5 * (z(ds, p, {k: 1.0}, 11)[0] - sysm), rtol=1e-7, atol=1e-9): return 'not proportional to %s' % k
        if case['law'] == 'normal':
            new = r.to_dataset()
            if not eqv(np.array([[list(x) for x in v['os']] for v in new.dis_videos]), m): return 'dataset votes'
            if not np.array_equal(z(ds, p, {k: 1.0 for k in SC}, 11)[0] - sysm, full): return 'seed does not reproduce'
            if not np.allclose(z(ds, p, {k: 1.0 for k in SC[:2]}, 11, phi=False)[0] - sysm, sum(z(ds, p, {k: 1.0}, 11)[0] - sysm for k in SC[:2])): return 'without video ambiguity'
        p = params(big, 50); cb = np.array([v['content_id'] for v in big.dis_videos])
        sysb = (p['quality_scores'][:, None] + p['observer_bias'][None, :] + p['content_bias'][cb][:, None])
        res = {}
        for k in SC:
            x = (z(big, p, {k: 1.0}, seed)[0][:, :, 0] - sysb) / sds[k](p, cb); n = x.size; res[k] = x
            if abs(x.mean()) > 7 / math.sqrt(n): return '%s: mean of the standardised draws %g' % (k, x.mean())
            if abs((x ** 2).mean() - 1) > 7 * math.sqrt((2 if case['law'] == 'normal' else 3.2) / n): return '%s: variance of the standardised draws %g' % (k, (x ** 2).mean())
            if abs(x.mean(axis=0)).max() > 7 / math.sqrt(x.shape[0]) or abs(x.mean(axis=1)).max() > 7 / math.sqrt(x.shape[1]): return '%s: draws shared between cells' % k
            t = (abs(x) > 2).mean(); want = .0455 if case['law'] == 'normal' else 2 / (1 + math.exp(2 * math.pi / math.sqrt(3)))
            if abs(t - want) > 7 * math.sqrt(want / n): return '%s: not %s' % (k, case['law'])
            kurt = (x ** 4).mean()
            if case['law'] == 'normal' and not 2.1 < kurt < 4.5 or case['law'] == 'logistic' and not 2.8 < kurt < 12: return '%s: fourth moment %g' % (k, kurt)
        for i, a in enumerate(SC):
            for c in SC[:i]:
                if abs((res[a] * res[c]).mean()) > 7 / math.sqrt(n): return 'draws of %s and %s are dependent' % (a, c)
        return 'ok'
CONTRACTS['C25'] = [SyntheticB()]
