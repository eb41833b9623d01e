"""Random datasets for bounded checks, and an independent description (oracle) of what they contain."""
import copy, math, os, random, shutil, tempfile
import numpy as np
from .common import *
NAN = float('nan')

class Bounded(Contract):
    """bounded stand-in: the real code runs on generated inputs against an oracle written from the property; real() returns 'ok' or what is wrong"""
    bounded = True; check_inputs = False; nquick = 20; nthorough = 250
    want = 'the stated result'
    def setup(self, it, case): return {}
    def spec(self, I, case):
        def conc(real, env, rep, name):
            if isinstance(real, str) and real == 'ok': rep.ok(name)
            else: rep.bad(name, real, self.want)
        return Fn(None, conc)
    def inputs(self, rng, case, hints): raise NotImplementedError
    def gen(self, rng, case, hints): return T.Env({}, {}), self.inputs(rng, case, hints)

class DS: pass
def eqv(a, b):
    """equality of plain values: same type family, nan equals nan, order of dictionaries irrelevant"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray): return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and all(eqv(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, np.generic): a = a.item()
    if isinstance(b, np.generic): b = b.item()
    if isinstance(a, dict): return isinstance(b, dict) and len(a) == len(b) and all(k in b and eqv(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a: return b != b
    if isinstance(a, bool) != isinstance(b, bool): return False
    try: return bool(a == b)
    except Exception: return a is b
def public(ds): return {k: v for k, v in vars(ds).items() if not k.startswith('__')}
def snap(ds): return copy.deepcopy(public(ds))
def unchanged(ds, before): return eqv(public(ds), before)

NAMES = ['anna', 'Bob', 'carl', 'Dora', 'zoë', 'x y', '10', '9', 'b', 'B', "o'k", 'z_1', 'aa', 'a']
def rnames(rng, hints, n):
    pool = list(dict.fromkeys(NAMES + [s for s in hints.get('strs', []) if s and s.isprintable()][:6]))
    rng.shuffle(pool)
    return pool[:n]
def vote(rng, hints, mode):
    if mode == 'int': return rng.randint(1, 5)
    if mode == 'float': return round(rng.uniform(1, 100), 3)
    fl = [x for x in hints.get('ints', []) + hints.get('floats', []) if abs(x) < 1e5]
    return rng.choice(fl) if fl and rng.random() < .5 else rng.choice([0, -1, 0.5, 3, 5, 100, 1.25])
def gen_ds(rng, hints, style=None, reps=None, missing=True, nv=None, nobs=None, asset=None, refs=None, nanvotes=False, mode=None, fields=True, emptylist=False, need_all=False):
    """style list/tuple/dict; reps None (random), False (one vote each), True (vote lists)"""
    style = style or rng.choice(['list', 'dict', 'tuple'])
    nv = nv or pick_dim(rng, hints, 1, 7, 12); nc = rng.randint(1, min(nv, 4)); nobs = nobs or pick_dim(rng, hints, 1, 6, 12)
    mode = mode or rng.choice(['int', 'int', 'float', 'odd'])
    reps = rng.random() < .4 if reps is None else reps
    d = DS()
    d.dataset_name = rng.choice(['ds', 'NFLX', "q'd", 'x y']); d.yuv_fmt = 'yuv420p'; d.width = rng.choice([1920, 640]); d.height = 1080
    if rng.random() < .4: d.ref_score = rng.choice([5, 5.0, 100])
    if fields:
        if rng.random() < .3: d.quality_width = 640
        if rng.random() < .3: d.quality_height = 360
        if rng.random() < .3: d.resampling_type = 'lanczos'
        if rng.random() < .4: d.extra_info = {'k': [1, (2, 'x')], 't': 1.5}
        if rng.random() < .2: d.subjects = [{'name': 'a', 'age': 3}]
        if rng.random() < .2: d.license = 'free\nto "use"'
    cids = [rng.randrange(nc) for _ in range(nv)]
    d.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': 'ref/%d.yuv' % c} for c in range(nc)]
    if rng.random() < .3: rng.shuffle(d.ref_videos)
    if fields and rng.random() < .3:
        for r in d.ref_videos: r['fps'] = [24, 25.0]
    asset = asset or rng.choice(['seq', 'perm', 'gap'])
    aids = list(range(nv))
    if asset == 'perm': rng.shuffle(aids)
    if asset == 'gap': aids = rng.sample(range(0, 5 * nv + 10), nv)
    names = rnames(rng, hints, nobs); nobs = len(names) if style == 'dict' else nobs
    pm = rng.choice([0, .2, .5]) if missing else 0
    d.dis_videos = []
    def one():
        if reps and rng.random() < .6:
            k = rng.randint(0 if emptylist and rng.random() < .3 else 1, 3)
            v = [vote(rng, hints, mode) for _ in range(k)]
            return tuple(v) if rng.random() < .2 else v
        if nanvotes and rng.random() < .15: return NAN
        return vote(rng, hints, mode)
    refset = set()
    for e in range(nv):
        v = {'content_id': cids[e], 'asset_id': aids[e], 'path': 'dis/%d_%d.yuv' % (cids[e], e)}
        if refs and cids[e] not in refset and rng.random() < refs: v['path'] = 'ref/%d.yuv' % cids[e]; refset.add(cids[e])
        if fields and rng.random() < .3: v['bitrate'] = [e, {'a': e}]
        if fields and rng.random() < .15: v['groundtruth'] = -1.0
        if style == 'dict':
            order = names[:]; rng.shuffle(order)
            v['os'] = {n: one() for n in order if rng.random() >= pm}
            if need_all and not v['os']: v['os'] = {order[0]: one()}
        else: v['os'] = [one() for _ in range(nobs)]
        if style == 'tuple': v['os'] = tuple(v['os'])
        d.dis_videos.append(v)
    if style == 'dict' and not any(v['os'] for v in d.dis_videos): d.dis_videos[0]['os'] = {names[0]: one()}
    return d

def votes_of(x): return list(x) if isinstance(x, (list, tuple)) else [x]
def matrix_of(videos):
    """oracle of C01: the vote matrix of these videos"""
    os0 = videos[0]['os']
    if isinstance(os0, dict):
        obs = sorted({o for v in videos for o in v['os']})
        cell = lambda v, o: votes_of(v['os'][o]) if o in v['os'] else []
    else:
        obs = list(range(len(os0)))
        cell = lambda v, o: votes_of(v['os'][o])
    R_ = max([1] + [len(cell(v, o)) for v in videos for o in obs])
    m = np.full((len(videos), len(obs), R_), NAN)
    for e, v in enumerate(videos):
        for s, o in enumerate(obs):
            for r, x in enumerate(cell(v, o)): m[e, s, r] = x
    return m
def scratch(): return tempfile.mkdtemp(prefix='verif_ds')
