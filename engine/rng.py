"""numpy's global random generator: a counter of draw calls (a cell of the heap); the n-th call yields the table DN/DL/DU(n, index) of standard normal /
standard logistic / uniform [0,1) draws, the call of a permutation yields PI(n, .).  seed() restarts the counter: draws after it are those drawn after any
earlier identical start.  Nothing else is assumed about the draws (0 <= DU < 1; PI(n, .) is a permutation)."""
import ast
import numpy as np
from . import terms as T
from .terms import ZERO, ONE, CTX, Unsupported, lift
from .values import *

def state(it):
    if it.rng is None: raise Unsupported('random draw without a generator state')
    return it.rng
def tick(it):
    a = state(it)
    n = it.reader(a)(())[0]
    it.np.setitem(it, a, (), SNum(T.add(n, ONE), ZERO, 'i'))
    return n
def seed(it, s=None):
    it.np.setitem(it, state(it), (), 0)
    return None
def shape_of(it, size):
    if size is None: return ()
    if it.is_num(size): return (it.num(size).val,)
    s = it.as_seq(size)
    if isinstance(s, Seq): raise Unsupported('random table of unknown rank')
    return tuple(it.num(x).val for x in s)
def table(it, name, size, loc, scale):
    """loc + scale * standard draws, arguments broadcast to the size"""
    n = tick(it)
    shp = shape_of(it, size)
    if size is None and not (it.is_num(loc) and it.is_num(scale)): raise Unsupported('random table sized by its parameters')
    std = it.new_arr(shp, lambda ix: (T.mk_app(name, [n] + list(ix), 'f'), ZERO), 'f')
    if size is None: std = SNum(T.mk_app(name, [n], 'f'), ZERO, 'f')
    trivial = lambda v, c: not isinstance(v, (ArrRef, LRef)) and it.is_num(v) and it.num(v).val is lift(c) and it.num(v).nan is ZERO
    r = std
    if not trivial(scale, 1): r = it.np.binop(it, ast.Mult(), r, scale)
    if not trivial(loc, 0): r = it.np.binop(it, ast.Add(), r, loc)
    if isinstance(r, ArrRef) and len(r.shape) != len(shp): raise Unsupported('random table broadcast')
    return r
def normal(it, loc=0, scale=1, size=None): return table(it, 'DN', size, loc, scale)
def standard_normal(it, size=None): return table(it, 'DN', size, 0, 1)
def randn(it, *d): return table(it, 'DN', tuple(d) if d else None, 0, 1)
def logistic(it, loc=0, scale=1, size=None): return table(it, 'DL', size, loc, scale)
def unif(it, lo, hi, size):
    if it.is_num(lo) and it.is_num(hi): return table(it, 'DU', size, lo, it.np.binop(it, ast.Sub(), hi, lo))
    raise Unsupported('uniform draws with array limits')
def uniform(it, low=0, high=1, size=None): return unif(it, low, high, size)
def random_sample(it, size=None): return unif(it, 0, 1, size)
def rand(it, *d): return unif(it, 0, 1, tuple(d) if d else None)
def install(M):
    M[np.random.seed] = seed
    M[np.random.normal] = normal; M[np.random.standard_normal] = standard_normal; M[np.random.randn] = randn
    M[np.random.logistic] = logistic
    M[np.random.uniform] = uniform; M[np.random.random_sample] = random_sample; M[np.random.random] = random_sample; M[np.random.rand] = rand
def perm_index(it, m):
    n = tick(it)
    CTX.apprange['PI'] = lambda n, m, j: m
    return lambda j: T.mk_app('PI', [n, m, j], 'i')
def permutation(it, x):
    if it.is_num(x):
        m = it.num(x).val; f = perm_index(it, m)
        return it.new_arr((m,), lambda ix: (f(ix[0]), ZERO), 'i')
    sh, rd, k = it.np.as_arr(it, x); f = perm_index(it, sh[0])
    return it.new_arr(sh, lambda ix: rd((f(ix[0]),) + tuple(ix[1:])), k)
def shuffle(it, x):
    if not isinstance(x, ArrRef): raise Unsupported('shuffling a list')
    new = permutation(it, x)
    it.np.setitem(it, x, (slice(None),) * len(x.shape), new)
    return None
def install_perm(M):
    M[np.random.permutation] = permutation; M[np.random.shuffle] = shuffle
