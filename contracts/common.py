"""Shared input descriptions (symbolic and concrete) for the contracts."""
import math, random
import numpy as np
from engine import terms as T
from engine.terms import ZERO, ONE, const, lift, CTX, Sigma, mk_app, var, bool_not, bool_or, ite, mk_pow, mk_sqrt, mk_le, mk_lt, mk_eq, mk_log, mk_exp
from engine.values import *
from engine.prove import *
from engine.runner import Contract
from engine.interp import RaiseEx

E, S, R, C = 'E', 'S', 'R', 'C'
vE, vS, vR, vC = var(E), var(S), var(R), var(C)

def dims(*names):
    for n in names: CTX.lower[n] = 1

def X(e, s, r): return mk_app('X', [e, s, r])
def H(e, s, r): return mk_app('H', [e, s, r], 'b')

def score_array(it, owner='opinion scores', full=False):
    """opinion score array [E,S,R]; H(e,s,r)=1 where a vote is present"""
    def el(ix): return X(*ix), (ZERO if full else bool_not(H(*ix)))
    return it.new_arr((vE, vS, vR), el, 'f', owner=owner)

def every_video_voted(m=1):
    CTX.forall('H', 0, lambda e: [('ge1', T.scale(cnt_e(e), T.Fr(1, m)) if m != 1 else cnt_e(e))])
def every_observer_voted():
    CTX.forall('H', 1, lambda s: [('ge1', cnt_s(s))])

def cnt_e(e, h=H): return Sigma(vS, lambda s: Sigma(vR, lambda r: h(e, s, r)))
def cnt_s(s, h=H): return Sigma(vE, lambda e: Sigma(vR, lambda r: h(e, s, r)))
def cnt_all(h=H): return Sigma(vE, lambda e: Sigma(vS, lambda s: Sigma(vR, lambda r: h(e, s, r))))

class PresentMean:
    """mean / std over the present votes given value x(e,s,r) and presence h(e,s,r)"""

def mean_over(ns, x, h):
    """mean of x over the index ranges ns where h"""
    def rec(i, args):
        if i == len(ns): return None
    def sm(f):
        def go(i, args):
            if i == len(ns): return f(*args)
            return Sigma(ns[i], lambda k: go(i + 1, args + (k,)))
        return go(0, ())
    n = sm(h); s = sm(lambda *a: T.mul(h(*a), x(*a)))
    return T.mul(s, mk_pow(n, -1)), n
def sum_over(ns, f):
    def go(i, args):
        if i == len(ns): return f(*args)
        return Sigma(ns[i], lambda k: go(i + 1, args + (k,)))
    return go(0, ())
def var_over(ns, x, h, ddof=0):
    m, n = mean_over(ns, x, h)
    ss = sum_over(ns, lambda *a: T.mul(h(*a), (x(*a) - m) ** 2))
    return T.mul(ss, mk_pow(n - ddof, -1)), m, n

# ------------------------------------------------------------------------------------------------ concrete inputs
def env_array(name_x, name_h, a):
    def fx(*ix):
        v = a[tuple(int(i) for i in ix)]
        return 0.0 if v != v else float(v)
    def fh(*ix):
        v = a[tuple(int(i) for i in ix)]
        return 0 if v != v else 1
    return {name_x: fx, name_h: fh}

def pick_dim(rng, hints, lo=1, hi=5, cap=14):
    c = [i for i in hints.get('ints', []) if lo <= i <= cap]
    if c and rng.random() < 0.4: return rng.choice(c)
    c2 = [i + 1 for i in hints.get('ints', []) if lo <= i + 1 <= cap]
    if c2 and rng.random() < 0.15: return rng.choice(c2)
    return rng.randint(lo, hi)

def pick_val(rng, hints, mode):
    if mode == 0: return float(rng.randint(1, 5))
    if mode == 1: return rng.uniform(0, 100)
    if mode == 2: return rng.choice([-3.0, 0.0, 1.0, 2.5, 7.0, 100.0, 1e3])
    fl = [float(x) for x in hints.get('floats', []) + hints.get('ints', []) if abs(x) < 1e6]
    if mode == 3 and fl: return rng.choice(fl)
    return rng.gauss(3, 1)

def gen_scores(rng, hints, E_, S_, R_, p_missing=None, min_e=1, min_s=1, mode=None):
    mode = rng.choice([0, 0, 1, 2, 3, 4]) if mode is None else mode
    pm = rng.choice([0, 0, 0.2, 0.4]) if p_missing is None else p_missing
    for _ in range(200):
        a = np.array([[[pick_val(rng, hints, mode) if rng.random() >= pm else float('nan') for _ in range(R_)] for _ in range(S_)] for _ in range(E_)], dtype=float)
        h = ~np.isnan(a)
        if (h.sum(axis=(1, 2)) >= min_e).all() and (h.sum(axis=(0, 2)) >= min_s).all(): return a
        pm *= 0.8
    a = np.array([[[pick_val(rng, hints, mode) for _ in range(R_)] for _ in range(S_)] for _ in range(E_)], dtype=float)
    return a

def base_env(a, **more):
    E_, S_, R_ = a.shape
    env = T.Env({E: E_, S: S_, R: R_}, env_array('X', 'H', a))
    env.vars.update(more)
    return env

class FakeDataset: pass
def list_dataset(a, cids=None, rng=None, with_ref=False, ref_score=None, ref_of=None):
    """list-style dataset holding the scores a[e,s,r]; nan allowed"""
    E_, S_, R_ = a.shape
    cids = cids if cids is not None else [0] * E_
    C_ = max(cids) + 1
    d = FakeDataset()
    d.dataset_name = 'd'; d.yuv_fmt = 'yuv420p'; d.width = 1920; d.height = 1080
    if ref_score is not None: d.ref_score = ref_score
    d.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': 'ref%d' % c} for c in range(C_)]
    d.dis_videos = []
    for e in range(E_):
        path = 'dis%d' % e
        if ref_of is not None and ref_of.get(cids[e]) == e: path = 'ref%d' % cids[e]
        d.dis_videos.append({'content_id': cids[e], 'asset_id': e, 'path': path, 'os': [[float(a[e, s, r]) for r in range(R_)] if R_ > 1 else float(a[e, s, 0]) for s in range(S_)]})
    return d
