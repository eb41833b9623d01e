"""C19: the matrix of a paired-comparison dataset, any number of videos, observers and recorded comparisons."""
from .readers import *
from engine.names import PairDict, pairs
vU = vS
def A(n, *ix): return app(n, *ix, kind='b')
def W(lo, hi, u):
    """what observer u said about the pair lo < hi of videos: 1, 1/2 or 0 (the same whichever of the two videos records it)"""
    return A('WIN', lo, hi, u) + bool_not(A('WIN', lo, hi, u)) * A('TIE', lo, hi, u) * const(T.Fr(1, 2))
def V(e, j, u): return ite(mk_lt(e - j), W(e, j, u), ONE - W(j, e, u))
def P(e, j, u): return A('REC', e, j, u) * bool_not(mk_eq(e - j))
class PcMatrix(Contract):
    """any comparison may be recorded at either video or (consistently) at both, in any order; asset ids are any distinct numbers"""
    name = 'PairedCompDatasetReader.opinion_score_3darray'
    functions = (DRM + name, DRM + 'PairedCompDatasetReader._get_list_observers', DRM + 'RawDatasetReader._get_num_observers', 'sureal.tools.misc.get_unique_sorted_list')
    cases = ({'votes': 'valid'},)
    def setup(self, it, case):
        dims(E, S); CTX.lower['E'] = 2
        CTX.injective['AID'] = (vE, 'HASA', 'WHO'); CTX.apprange['WHO'] = lambda *a: vE
        pairs(vE, vU, P)
        CTX.forall('REC', 2, lambda u: [('ge1', Sigma(vE, lambda e: Sigma(vE, lambda j: P(e, j, u))))])
        fam = video_family(it, {'os': lambda e: PairDict([e], P, lambda e, j, u: SNum(V(e, j, u), ZERO, 'f'))})
        return {'reader': reader_of(it, dr.PairedCompDatasetReader, dataset_obj(it, fam, ref_family(it)))}
    def run(self, it, I, case):
        f = dr.PairedCompDatasetReader.__dict__['opinion_score_3darray'].fget
        return (it.call(getattr(f, 'func', f), [I['reader']]), it.call(it.getattr(I['reader'], '_get_list_observers'), []))
    def spec(self, I, case):
        def cell(x, y, u):
            g = bool_or(P(x, y, u), P(y, x, u))
            return g * V(x, y, u), bool_not(g)
        return Lst([Arr((vE, vE, vU), cell), SeqOf(vU, lambda u: Num(app('NAME', u)))])
    def gen(self, rng, case, hints):
        d = gen_coded(rng, hints, nv=rng.randint(2, 6)); n = len(d.dis_videos)
        aids = list(range(n)); rng.shuffle(aids)
        ns = rng.randint(1, 4); names = sorted(rng.sample([str(i) for i in range(30)], ns))
        rec = {}; win = {}; tie = {}
        for v, a in zip(d.dis_videos, aids): v['asset_id'] = a; v['os'] = {}
        for u in range(ns):
            for i in range(n):
                for j in range(i + 1, n):
                    win[i, j, u] = rng.random() < .4; tie[i, j, u] = rng.random() < .5
                    for a, b in ((i, j), (j, i)): rec[a, b, u] = rng.random() < .35
            if not any(rec[k] for k in rec if k[2] == u): rec[0, 1, u] = True
        its = [k for k in rec if rec[k]]; rng.shuffle(its)
        for a, b, u in its:
            lo, hi = min(a, b), max(a, b); w = 1 if win[lo, hi, u] else .5 if tie[lo, hi, u] else 0
            d.dis_videos[a]['os'][names[u], aids[b]] = w if a < b else 1 - w
        g = lambda t: (lambda *ix: int(bool(t.get(tuple(int(i) for i in ix), False))))
        return coded_env(d, {'S': ns}, {'REC': g(rec), 'WIN': g(win), 'TIE': g(tie), 'NAME': lambda u: int(names[int(u)])}), [d]
    def real(self, nat, case):
        r = dr.PairedCompDatasetReader(nat[0])
        return [r.opinion_score_3darray, [int(x) for x in r._get_list_observers()]]
class PcVotes(PcMatrix):
    """any recorded numbers: a vote other than 0, 1/2 and 1 is refused"""
    name = 'PairedCompDatasetReader.opinion_score_3darray'
    cases = ({'votes': 'any'},)
    def setup(self, it, case):
        I = PcMatrix.setup(self, it, case)
        fam = video_family(it, {'os': lambda e: PairDict([e], P, lambda e, j, u: SNum(app('VAL', e, j, u, kind='f'), ZERO, 'f'))})
        return {'reader': reader_of(it, dr.PairedCompDatasetReader, dataset_obj(it, fam, ref_family(it)))}
    def spec(self, I, case):
        ok = lambda v: bool_or(bool_or(mk_eq(v), mk_eq(v - const(T.Fr(1, 2)))), mk_eq(v - ONE))
        bad = Sigma(vE, lambda e: mk_le(ONE - Sigma(vE, lambda j: Sigma(vU, lambda u: P(e, j, u) * bool_not(ok(app('VAL', e, j, u, kind='f')))))))
        return Cases([(mk_le(ONE - bad), Raises(AssertionError)), (ONE, AnyVal())])
    def gen(self, rng, case, hints):
        env, (d,) = PcMatrix.gen(self, rng, case, hints)
        vals = {}
        for i, v in enumerate(d.dis_videos):
            for k in v['os']:
                if rng.random() < .04: v['os'][k] = rng.choice([0.25, 2, -1, 0.75, 5])
                vals[i, k] = v['os'][k]
        aid = [v['asset_id'] for v in d.dis_videos]
        names = sorted({k[0] for v in d.dis_videos for k in v['os']})
        env.apps['VAL'] = lambda e, j, u: T.Fr(vals.get((int(e), (names[int(u)], aid[int(j)])), 0))
        return env, [d]
CONTRACTS = {'C19': [PcMatrix(), PcVotes()]}
