"""Models (assumed contracts) of numpy / scipy / builtins operations used by the code, over symbolic arrays."""
import ast, builtins, copy, functools, math, operator, sys, time, types, random
import numpy as np
import scipy.stats, scipy.linalg, scipy
from . import terms as T
from .terms import Poly, ZERO, ONE, const, lift, Unsupported, CTX
from . import names
from .values import *

MODELS = {}
METHODS = {}
def model(*fs):
    def d(g):
        for f in fs:
            if f is not None: MODELS[f] = g
        return g
    return d

def RaiseEx(t, m=''):
    from .interp import RaiseEx as R
    return R(t, m)

SAFE_MODS = {'builtins', '_operator', 'math', 'operator', 're', 'os.path', 'posixpath', 'genericpath', 'pprint', 'json', 'string', '_json', 'functools', 'copy'}
UNSAFE = {open, exec, eval, input, __import__, setattr, delattr}
def safe_native(f):
    if f in UNSAFE: return False
    m = getattr(f, '__module__', None)
    if m is None:
        s = getattr(f, '__self__', None)
        return isinstance(s, (str, bytes, int, float, tuple, list, dict, set, frozenset, range)) or isinstance(f, np.ufunc)
    if m.startswith('numpy') and 'random' not in m: return True
    return m in SAFE_MODS

# ------------------------------------------------------------------------------------------------------------- helpers
def nan_or(a, b):
    if a is b or b is ZERO: return a
    if a is ZERO: return b
    return T.bool_or(a, b)
def poly_any(n, f):
    """0/1: exists k<n with f(k)"""
    s = T.Sigma(n, f)
    if not s.t: return ZERO
    return T.mk_le(T.sub(ONE, s))

def as_arr(it, v, dtype=None):
    """anything array-like -> (shape, reader, kind)"""
    if isinstance(v, ArrRef): return v.shape, it.reader(v), it.kind(v)
    if isinstance(v, Union_): return as_arr(it, it.resolve(v))
    if it.is_num(v):
        s = it.num(v)
        return (), (lambda idx: (s.val, s.nan)), s.kind
    if v is None: raise Unsupported('array from None')
    if isinstance(v, Bag): raise Unsupported('array from unordered list')
    if hasattr(v, 'sym_array'): return v.sym_array(it)
    seq = it.as_seq(v)
    if isinstance(seq, Seq):
        k = T.fresh('k'); CTX.varrange[k] = seq.n
        probe = seq.elem(T.var(k))
        sh, rd, kind = as_arr(it, probe)
        # inner shape must not depend on k
        for d in sh:
            if k in d.fv: raise Unsupported('ragged array')
        def el(idx):
            s2, r2, _ = as_arr(it, seq.elem(idx[0]))
            return r2(tuple(idx[1:]))
        return (seq.n,) + tuple(sh), el, kind
    if len(seq) == 0: return (ZERO,), (lambda idx: (ZERO, ZERO)), 'f'
    parts = [as_arr(it, x) for x in seq]
    sh = parts[0][0]
    for p in parts[1:]:
        if len(p[0]) != len(sh) or any(not T.is_zero(T.sub(a, b)) for a, b in zip(p[0], sh)): raise Unsupported('ragged array')
    kinds = {p[2] for p in parts}
    kind = kinds.pop() if len(kinds) == 1 else 'f'
    def el(idx):
        i = idx[0]; rest = tuple(idx[1:])
        if T.isconst(i): return parts[int(T.cval(i))][1](rest)
        v, n = parts[-1][1](rest)
        for j in range(len(parts) - 2, -1, -1):
            c = T.mk_eq(T.sub(i, const(j))); x, y = parts[j][1](rest)
            v = T.ite(c, x, v); n = T.ite(c, y, n)
        return v, n
    return (const(len(parts)),) + tuple(sh), el, kind

def to_arr(it, v):
    if isinstance(v, ArrRef): return v
    sh, rd, k = as_arr(it, v)
    return it.new_arr(sh, rd, k)

def scalar_or_arr(it, sh, el, kind):
    if len(sh) == 0:
        v, n = el(())
        return snum(v, n, kind)
    return it.new_arr(sh, el, kind)

def same_dim(a, b): return a is b or T.is_zero(T.sub(a, b))

def broadcast(it, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for j in range(nd):
        d = ONE
        for s in shapes:
            k = j - (nd - len(s))
            if k < 0: continue
            x = s[k]
            if x is ONE: continue
            if d is ONE: d = x
            elif not same_dim(d, x):
                if T.isconst(T.sub(d, x)): raise RaiseEx(ValueError, 'broadcast')
                raise Unsupported('cannot show equal dimensions %s and %s' % (T.pp(d), T.pp(x)))
        out.append(d)
    def ix(s):
        off = nd - len(s)
        def f(idx):
            return tuple(ZERO if s[k] is ONE else idx[k + off] for k in range(len(s)))
        return f
    return tuple(out), [ix(s) for s in shapes]

def elementwise(it, args, f, kind):
    """f(list of (val,nan)) -> (val,nan)"""
    A = [as_arr(it, a) for a in args]
    sh, ixs = broadcast(it, [a[0] for a in A])
    k = kind([a[2] for a in A]) if callable(kind) else kind
    def el(idx): return f(*[a[1](ix(idx)) for a, ix in zip(A, ixs)])
    return scalar_or_arr(it, sh, el, k)

def numkind(ks):
    if 'f' in ks: return 'f'
    return 'i'
def fkind(ks): return 'f'

# ------------------------------------------------------------------------------------------------------------- operators
def _arith(f, kind=numkind):
    def g(it, a, b): return elementwise(it, [a, b], lambda x, y: (f(x[0], y[0]), nan_or(x[1], y[1])), kind)
    return g
def vpow(x, y):
    if not T.isconst(y[0]): 
        raise Unsupported('symbolic exponent')
    return T.mk_pow(x[0], T.cval(y[0])), nan_or(x[1], y[1])

OPS = {
    ast.Add: _arith(T.add), ast.Sub: _arith(T.sub), ast.Mult: _arith(T.mul),
    ast.Div: _arith(lambda x, y: T.mul(x, T.mk_pow(y, -1)), fkind),
    ast.FloorDiv: _arith(T.mk_div), ast.Mod: _arith(T.mk_mod),
    ast.Pow: lambda it, a, b: elementwise(it, [a, b], vpow, numkind),
}
PYOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
         ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
         ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}

def is_arrlike(it, v): return isinstance(v, ArrRef) or it.is_num(v)

def binop(it, op, a, b):
    t = type(op)
    if isinstance(a, Union_): a = it.resolve(a)
    if isinstance(b, Union_): b = it.resolve(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if t is ast.Div:
            if b == 0: raise RaiseEx(ZeroDivisionError)
            return snum(const(T.Fr(a, b)))
        if t is ast.Pow and b < 0: return snum(const(T.Fr(a) ** b))
        return PYOPS[t](a, b)
    if isinstance(a, (Opaque,)) or isinstance(b, Opaque): return Opaque('expr')
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and t is ast.Mod: return Opaque('string')
        try: return PYOPS[t](a, it.native(b) if not isinstance(b, str) else b) if isinstance(a, str) else PYOPS[t](it.native(a), b)
        except Unsupported:
            if hasattr(a, 'sym_str') or hasattr(b, 'sym_str'): return sym_concat(it, a, b)
            return Opaque('string')
    if hasattr(a, 'sym_str') or hasattr(b, 'sym_str'): return sym_concat(it, a, b)
    if isinstance(a, (LRef, list)) and t is ast.Add and isinstance(b, (LRef, list)): return list_concat(it, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add: return a + b
    if isinstance(a, (LRef, list, tuple)) and t is ast.Mult: return list_repeat(it, a, b)
    if isinstance(b, (LRef, list, tuple)) and t is ast.Mult and it.is_num(a): return list_repeat(it, b, a)
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if isinstance(a, SetRef) or isinstance(b, SetRef): raise Unsupported('set operation')
        f = {ast.BitAnd: T.mul, ast.BitOr: T.bool_or, ast.BitXor: lambda x, y: T.sub(T.add(x, y), T.scale(T.mul(x, y), 2))}[t]
        A = as_arr(it, a); B = as_arr(it, b)
        if A[2] != 'b' or B[2] != 'b': raise Unsupported('bitwise op on ints')
        return elementwise(it, [a, b], lambda x, y: (f(x[0], y[0]), ZERO), 'b')
    if t is ast.MatMult: return MODELS[np.matmul](it, a, b)
    if t in OPS:
        if hasattr(a, 'sym_binop'): return a.sym_binop(it, op, b, False)
        if hasattr(b, 'sym_binop'): return b.sym_binop(it, op, a, True)
        return OPS[t](it, a, b)
    raise Unsupported('operator %s' % t.__name__)

def sym_concat(it, a, b): return names.concat(it, a, b)

def unop(it, op, v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        if isinstance(op, ast.USub): return -v
        if isinstance(op, ast.UAdd): return v
        if isinstance(op, ast.Invert): return ~v
    if isinstance(op, ast.USub): return elementwise(it, [v], lambda x: (T.neg(x[0]), x[1]), lambda k: 'i' if k[0] == 'b' else k[0])
    if isinstance(op, ast.UAdd): return v
    if isinstance(op, ast.Invert):
        if isinstance(v, ArrRef) and it.kind(v) == 'b' or isinstance(v, SNum) and v.kind == 'b':
            return elementwise(it, [v], lambda x: (T.bool_not(x[0]), ZERO), 'b')
        raise Unsupported('invert')
    raise Unsupported('unary')

def _cmpf(op, x, y):
    d = T.sub(x[0], y[0])
    t = type(op)
    if t is ast.Lt: c = T.mk_lt(d)
    elif t is ast.LtE: c = T.mk_le(d)
    elif t is ast.Gt: c = T.mk_lt(T.neg(d))
    elif t is ast.GtE: c = T.mk_le(T.neg(d))
    elif t is ast.Eq: c = T.mk_eq(d)
    elif t is ast.NotEq: return T.bool_not(T.mul(T.mk_eq(d), T.mul(T.bool_not(x[1]), T.bool_not(y[1])))), ZERO
    else: raise Unsupported('comparison')
    for n in (x[1], y[1]):
        if n is not ZERO: c = T.mul(c, T.bool_not(n))
    return c, ZERO

def compare(it, op, a, b):
    if isinstance(a, Union_): a = it.resolve(a)
    if isinstance(b, Union_): b = it.resolve(b)
    t = type(op)
    if t in (ast.Is, ast.IsNot):
        r = ident(it, a, b)
        return r if t is ast.Is else not r
    if t in (ast.In, ast.NotIn):
        r = contains(it, b, a)
        if t is ast.In: return r
        return (not r) if isinstance(r, bool) else snum(T.bool_not(it.truthp(r)), kind='b')
    if isinstance(a, names.Tmpl) or isinstance(b, names.Tmpl):
        if t not in (ast.Eq, ast.NotEq): raise Unsupported('order of strings')
        c = a.eq(it, b) if isinstance(a, names.Tmpl) else b.eq(it, a)
        return snum(c if t is ast.Eq else T.bool_not(c), kind='b')
    if isinstance(a, (Opaque, Undef)) or isinstance(b, (Opaque, Undef)): raise Unsupported('comparison of %r, %r' % (a, b))
    if isinstance(a, (list, tuple, LRef)) and isinstance(b, (list, tuple, LRef)) and t in (ast.Eq, ast.NotEq):
        sa, sb = it.as_seq(a), it.as_seq(b)
        if isinstance(sa, Seq) or isinstance(sb, Seq):
            raise Unsupported('equality of symbolic lists')
        if isinstance(a, tuple) != isinstance(b, tuple): c = ZERO
        elif len(sa) != len(sb): c = ZERO
        else:
            c = ONE
            for x, y in zip(sa, sb): c = T.mul(c, it.truthp(compare(it, ast.Eq(), x, y)))
        return snum(c if t is ast.Eq else T.bool_not(c), kind='b')
    if is_arrlike(it, a) and is_arrlike(it, b):
        if isinstance(a, float) and a in (math.inf, -math.inf) or isinstance(b, float) and b in (math.inf, -math.inf):
            return cmp_inf(it, op, a, b)
        return elementwise(it, [a, b], lambda x, y: _cmpf(op, x, y), 'b')
    if hasattr(a, 'sym_cmp'): return a.sym_cmp(it, op, b)
    if hasattr(b, 'sym_cmp') and t in (ast.Eq, ast.NotEq): return b.sym_cmp(it, op, a)
    if isinstance(a, (ArrRef, SNum)) or isinstance(b, (ArrRef, SNum)):
        if t in (ast.Eq, ast.NotEq) and not (isinstance(a, ArrRef) or isinstance(b, ArrRef)):
            return t is ast.NotEq        # number against a non-number
        x = a if isinstance(a, ArrRef) else b; y = b if x is a else a
        if isinstance(y, (LRef, list, tuple)): return elementwise(it, [a, b], lambda p, q: _cmpf(op, p, q), 'b')
        raise Unsupported('comparison of %r and %r' % (a, b))
    if t in (ast.Eq, ast.NotEq):
        try: r = it.native(a) == it.native(b)
        except Unsupported:
            if isinstance(a, Ref) and isinstance(b, Ref) and type(a) is not type(b): r = False
            elif (a is None) != (b is None): r = False
            elif isinstance(a, str) != isinstance(b, str): r = False
            else: raise
        return r if t is ast.Eq else not r
    na, nb = it.native(a), it.native(b)
    try:
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[t](na, nb)
    except TypeError as e: raise RaiseEx(TypeError, str(e))

def cmp_inf(it, op, a, b):
    if isinstance(a, float) and isinstance(b, float): return compare_native(op, a, b)
    raise Unsupported('comparison with infinity')
def compare_native(op, a, b):
    return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}[type(op)](a, b)

def ident(it, a, b):
    for x, y in ((a, b), (b, a)):
        if x is None or x is True or x is False:
            if isinstance(y, (SNum,)):
                if x is None: return False
                if y.kind == 'b':
                    # np.bool_ is never the singleton; a python bool is. Unknown here.
                    raise Unsupported('identity of symbolic bool')
                return False
            return y is x
    if isinstance(a, Ref) and isinstance(b, Ref): return a == b
    if isinstance(a, type) or isinstance(b, type): return a is b
    raise Unsupported('identity of %r, %r' % (a, b))

def contains(it, c, x):
    if isinstance(c, Union_): c = it.resolve(c)
    if isinstance(c, DRef):
        cell = it.heap[c.cell]
        if cell.base is not None: raise Unsupported('membership in a dict being built')
        if cell.symmap is not None: return cell.symmap.contains(it, x)
        try: k = key(it, x)
        except Unsupported:
            acc = ZERO
            for kk in cell.items: acc = T.bool_or(acc, it.truthp(compare(it, ast.Eq(), x, kk)))
            return snum(acc, kind='b')
        if k in cell.items: return True
        if cell.rest: 
            return it.truth(SNum(T.mk_app('haskey_%s_%s' % (cell.rest, k), [], 'b'), ZERO, 'b'))
        return False
    if isinstance(c, Rec): return rec_has(it, c, x)
    if hasattr(c, 'contains'): return c.contains(it, x)
    if isinstance(c, range) or (isinstance(c, Seq) and c.kind == 'range'):
        lo, hi = (const(c.start), const(c.stop)) if isinstance(c, range) else (ZERO, c.n)
        if isinstance(c, range) and c.step != 1: raise Unsupported('range step')
        if not it.is_num(x): return False
        n = it.num(x)
        if n.kind not in ('i', 'b'): raise Unsupported('float in range')
        return snum(T.mul(T.mk_le(T.sub(lo, n.val)), T.mk_lt(T.sub(n.val, hi))), kind='b')
    if isinstance(c, str): return it.native(x) in c
    if isinstance(c, SetRef): return set_contains(it, c, x)
    if isinstance(c, ArrRef):
        sh, rd, k = as_arr(it, c); n = it.num(x)
        if len(sh) != 1: raise Unsupported('in on nd array')
        return snum(poly_any(sh[0], lambda i: _cmpf(ast.Eq(), rd((i,)), (n.val, n.nan))[0]), kind='b')
    if isinstance(c, LRef) and it.heap[c.cell].grow is not None: raise Unsupported('membership in list being built')
    s = it.as_seq(c)
    if isinstance(s, Seq):
        return snum(poly_any(s.n, lambda i: it.truthp(compare(it, ast.Eq(), s.elem(i), x))), kind='b')
    acc = ZERO
    for y in s:
        e = compare(it, ast.Eq(), y, x)
        if e is True: return True
        if e is False: continue
        acc = T.bool_or(acc, it.truthp(e))
    return snum(acc, kind='b')

# ------------------------------------------------------------------------------------------------------------- indexing
def key(it, k):
    if isinstance(k, SNum):
        n = it.native(k); return n
    if isinstance(k, tuple): return tuple(key(it, x) for x in k)
    if isinstance(k, (str, int, float, bool, bytes)) or k is None or isinstance(k, type): return k
    raise Unsupported('dict key %r' % (k,))

def norm_index(it, v, d):
    """integer index with python negative wrap-around, as Poly (checked in range when decidable)"""
    i = it.num(v)
    if i.kind == 'f': raise RaiseEx(IndexError, 'float index')
    if i.nan is not ZERO: raise Unsupported('nan index')
    p = i.val
    if T.isconst(p) and T.cval(p) < 0: p = T.add(p, d)
    ok = T.mul(T.mk_ge0(p), T.mk_lt(T.sub(p, d)))
    if ok is ONE: it.side.append(('index', True)); return p
    if not ok.t:
        if T.mk_lt(p) is ONE:
            q = T.add(p, d)
            if T.mul(T.mk_ge0(q), T.mk_lt(T.sub(q, d))) is ONE: return q
        raise RaiseEx(IndexError, 'index out of range')
    # undecided: python semantics by case
    if it.branch(T.mk_ge0(p)):
        if not it.branch(T.mk_lt(T.sub(p, d))): raise RaiseEx(IndexError, 'index out of range')
        return p
    q = T.add(p, d)
    if not it.branch(T.mk_ge0(q)): raise RaiseEx(IndexError, 'index out of range')
    return q

def norm_slice(it, s, d):
    """(start, length) ; step 1 only"""
    if s.step is not None and it.native(s.step) != 1: raise Unsupported('slice step')
    def bound(x, dflt):
        if x is None: return dflt
        p = it.idx(x)
        if T.isconst(p) and T.cval(p) < 0: p = T.add(p, d); neg_ = True
        if T.mk_ge0(p) is not ONE:
            if it.branch(T.mk_ge0(p)): pass
            else:
                q = T.add(p, d) if not (T.isconst(it.idx(x)) and T.cval(it.idx(x)) < 0) else ZERO
                p = q if it.branch(T.mk_ge0(q)) else ZERO
        if p is d: return p
        if T.mk_le(T.sub(p, d)) is not ONE:
            if not it.branch(T.mk_le(T.sub(p, d))): return d
        return p
    a = bound(s.start, ZERO); b = bound(s.stop, d)
    n = T.sub(b, a)
    if T.mk_ge0(n) is not ONE:
        if not it.branch(T.mk_ge0(n)): n = ZERO
    return a, n

def is_mask(it, i):
    if isinstance(i, ArrRef): return it.kind(i) == 'b'
    if isinstance(i, LRef):
        c = it.heap[i.cell]
        if c.items: return all(isinstance(x, bool) or (isinstance(x, SNum) and x.kind == 'b') for x in c.items)
        if c.n is not None:
            k = T.fresh('k'); CTX.varrange[k] = c.n
            x = c.elem(T.var(k))
            return isinstance(x, bool) or (isinstance(x, SNum) and x.kind == 'b')
    return False

def expand_ellipsis(idx, nd, it):
    n = sum(1 for i in idx if i is not None and i is not Ellipsis)
    for j, i in enumerate(idx):
        if isinstance(i, ArrRef) and it.kind(i) == 'b' and len(i.shape) > 1: n += len(i.shape) - 1
    out = []
    seen = False
    for i in idx:
        if i is Ellipsis:
            out += [slice(None)] * (nd - n); seen = True
        else: out.append(i)
    if not seen: out += [slice(None)] * (nd - n)
    return out

def flat_index(shape):
    """row-major enumeration: total, function(flat)->tuple"""
    tot = T.prod(shape)
    def f(k):
        out = []
        for j in range(len(shape) - 1, 0, -1):
            q = T.mk_div(k, shape[j])
            out.append(T.sub(k, T.mul(q, shape[j])))
            k = q
        out.append(k)
        return tuple(reversed(out))
    return tot, f

def getitem(it, o, idx, single=True):
    if isinstance(o, Union_): o = it.resolve(o)
    if isinstance(o, ArrRef): return arr_get(it, o, idx)
    if isinstance(o, (Opaque,)): return Opaque(o.what + '[]')
    i = idx[0] if len(idx) == 1 else tuple(idx)
    if isinstance(i, Union_): i = it.resolve(i)
    if isinstance(o, DRef):
        c = it.heap[o.cell]
        if c.base is not None: raise Unsupported('reading a dict being built')
        if c.symmap is not None: return c.symmap.getitem(it, i)
        try: k = key(it, i)
        except Unsupported:
            return dict_symlookup(it, c, i)
        if k in c.items: return c.items[k]
        if c.rest: raise Unsupported('unknown field %r' % (k,))
        raise RaiseEx(KeyError, repr(k))
    if isinstance(o, Rec): return rec_get(it, o, i)
    if hasattr(o, 'getitem'): return o.getitem(it, i)
    if isinstance(o, (LRef, Seq, list, tuple, range)):
        if isinstance(i, slice): return seq_slice(it, o, i)
        s = it.as_seq(o)
        if isinstance(s, Seq):
            p = norm_index(it, i, s.n)
            first = it.nextid; v = s.elem(p)
            if isinstance(o, LRef) and isinstance(v, LRef) and v.cell >= first and it.rec_logs: it.elem_of[v.cell] = (o.cell, p)     # made for this access: not shared with another element
            return v
        if not it.is_num(i): raise RaiseEx(TypeError, 'list index')
        p = it.idx(i)
        if T.isconst(p):
            try: return s[int(T.cval(p))]
            except IndexError: raise RaiseEx(IndexError)
        p = norm_index(it, i, const(len(s)))
        return it.select_item(s, p)
    if isinstance(o, (Undef, Bag, SNum)): raise Unsupported('subscript of %r' % o)
    try: return it.from_native(o[it.native(i) if not isinstance(i, slice) else slice(it.native(i.start), it.native(i.stop), it.native(i.step))])
    except (KeyError, IndexError, TypeError) as e: raise RaiseEx(type(e), str(e))

def dict_symlookup(it, c, k):
    items = list(c.items.items())
    if not items: raise RaiseEx(KeyError)
    for kk, v in items[:-1]:
        if it.truth(compare(it, ast.Eq(), k, kk)): return v
    if it.truth(compare(it, ast.Eq(), k, items[-1][0])): return items[-1][1]
    raise RaiseEx(KeyError)

def seq_slice(it, o, sl):
    s = it.as_seq(o)
    if not isinstance(s, Seq):
        try:
            r = s[slice(it.native(sl.start), it.native(sl.stop), it.native(sl.step))]
            return tuple(r) if isinstance(o, tuple) else it.new_list(r)
        except Unsupported:
            lst = s
            s = Seq(const(len(lst)), lambda i: it.select_item(lst, i) if not T.isconst(i) else lst[int(T.cval(i))])
    if sl.step is not None and it.native(sl.step) == -1 and sl.start is None and sl.stop is None:
        return it.new_symlist(s.n, lambda i: s.elem(T.sub(T.sub(s.n, ONE), i)))
    a, n = norm_slice(it, sl, s.n)
    return it.new_symlist(n, lambda i: s.elem(T.add(i, a)))

def arr_get(it, a, idx):
    idx = [it.resolve(i) if isinstance(i, Union_) else i for i in idx]
    idx = expand_ellipsis(idx, len(a.shape), it)
    basic = all(i is None or isinstance(i, slice) or it.is_num(i) and not isinstance(i, bool) and not (isinstance(i, SNum) and i.kind == 'b') for i in idx)
    if basic:
        axmap = []      # per view axis: ('fix',p) | ('ax', newaxis, start)
        newshape = []; j = 0
        for i in idx:
            if i is None:
                newshape.append(ONE); continue
            if j >= len(a.shape): raise RaiseEx(IndexError, 'too many indices')
            d = a.shape[j]
            if isinstance(i, slice):
                if i.step is not None and it.native(i.step) == -1: return arr_get_fancy(it, a, idx)
                st, n = norm_slice(it, i, d)
                axmap.append(('ax', len(newshape), st)); newshape.append(n)
            else:
                axmap.append(('fix', norm_index(it, i, d)))
            j += 1
        sel = []
        for s in a.sel:
            if s[0] == 'fix': sel.append(s)
            else:
                m = axmap[s[1]]
                if m[0] == 'fix': sel.append(('fix', T.add(m[1], s[2])))
                else: sel.append(('ax', m[1], T.add(m[2], s[2])))
        r = ArrRef(a.cell, tuple(sel), tuple(newshape))
        if not newshape:
            v, n = it.reader(r)(())
            return snum(v, n, it.kind(r))
        return r
    return arr_get_fancy(it, a, idx)

def arr_get_fancy(it, a, idx):
    """one advanced index (mask or integer list) possibly with slices / ints -- a copy"""
    rd = it.reader(a); k = it.kind(a)
    # full mask
    if len(idx) == 1 and isinstance(idx[0], ArrRef) and it.kind(idx[0]) == 'b' and len(idx[0].shape) == len(a.shape):
        msh, mrd, _ = as_arr(it, idx[0])
        if len(a.shape) == 1:
            n = a.shape[0]
            if not same_dim(n, msh[0]): raise Unsupported('mask shape')
            c = lambda i: mrd((i,))[0]
            return it.new_arr((T.mk_cnt(n, c),), lambda ix: rd((T.mk_sel(n, c, ix[0]),)), k)
        for p, q in zip(a.shape, msh):
            if not same_dim(p, q): raise Unsupported('mask shape')
        tot, fl = flat_index(a.shape)
        c = lambda i: mrd(fl(i))[0]
        return it.new_arr((T.mk_cnt(tot, c),), lambda ix: rd(fl(T.mk_sel(tot, c, ix[0]))), k)
    adv = [j for j, i in enumerate(idx) if not (i is None or isinstance(i, slice) or it.is_num(i) and not isinstance(i, ArrRef))]
    negs = [j for j, i in enumerate(idx) if isinstance(i, slice) and i.step is not None]
    if len(adv) + len(negs) != 1:
        if not negs and adv and all(not is_mask(it, idx[j]) for j in adv): return arr_get_multi(it, a, idx, adv)
        raise Unsupported('several advanced indices')
    maps = []; shape = []; j = 0
    for q, i in enumerate(idx):
        if i is None: shape.append(ONE); continue
        d = a.shape[j]
        if isinstance(i, slice):
            if i.step is not None and it.native(i.step) == -1 and i.start is None and i.stop is None:
                p = len(shape); maps.append((lambda ix, p=p, d=d: T.sub(T.sub(d, ONE), ix[p]))); shape.append(d)
            else:
                st, n = norm_slice(it, i, d); p = len(shape)
                maps.append((lambda ix, p=p, st=st: T.add(ix[p], st))); shape.append(n)
        elif q in adv:
            p = len(shape)
            if is_mask(it, i):
                msh, mrd, _ = as_arr(it, i)
                if len(msh) != 1 or not same_dim(msh[0], d): raise Unsupported('mask shape')
                c = (lambda t, mrd=mrd: mrd((t,))[0])
                maps.append((lambda ix, p=p, c=c, d=d: T.mk_sel(d, c, ix[p]))); shape.append(T.mk_cnt(d, c))
            else:
                ish, ird, ik = as_arr(it, i)
                if len(ish) != 1: raise Unsupported('nd integer index')
                if ik == 'f' and not (T.isconst(ish[0]) and T.cval(ish[0]) == 0): raise RaiseEx(IndexError, 'float index')
                # all indices in range
                t = T.fresh('k'); CTX.varrange[t] = ish[0]
                v = ird((T.var(t),))[0]
                if not (T.isconst(ish[0]) and T.cval(ish[0]) == 0):
                    ok = T.mul(T.mk_ge0(v), T.mk_lt(T.sub(v, d)))
                    if ok is not ONE: raise Unsupported('integer index not shown in range')
                maps.append((lambda ix, p=p, ird=ird: ird((ix[p],))[0])); shape.append(ish[0])
        else:
            f = norm_index(it, i, d)
            maps.append((lambda ix, f=f: f))
        j += 1
    # numpy moves the advanced axis to the front when separated by a slice from an integer index; only with ints present
    ints = [q for q, i in enumerate(idx) if it.is_num(i) and not isinstance(i, slice) and q not in adv and i is not None]
    if ints and adv:
        both = sorted(ints + adv)
        if both != list(range(both[0], both[-1] + 1)): raise Unsupported('mixed advanced indexing')
    return it.new_arr(shape, lambda ix: rd(tuple(m(ix) for m in maps)), k)

def arr_get_multi(it, a, idx, adv):
    """several integer index arrays, broadcast together (adjacent)"""
    if adv != list(range(adv[0], adv[-1] + 1)): raise Unsupported('separated advanced indices')
    arrs = [as_arr(it, idx[j]) for j in adv]
    sh, ixs = broadcast(it, [x[0] for x in arrs])
    rd = it.reader(a)
    shape = []; maps = []; p = 0; j = 0
    for q, i in enumerate(idx):
        if i is None: shape.append(ONE); p += 1; continue
        d = a.shape[j]
        if q in adv:
            if q == adv[0]:
                base = len(shape); shape += list(sh)
            x = arrs[adv.index(q)]; ixf = ixs[adv.index(q)]
            maps.append(lambda ix, x=x, ixf=ixf, base=base: x[1](ixf(ix[base:base + len(sh)]))[0])
        elif isinstance(i, slice):
            st, n = norm_slice(it, i, d); pp_ = len(shape); shape.append(n)
            maps.append(lambda ix, pp_=pp_, st=st: T.add(ix[pp_], st))
        else:
            f = norm_index(it, i, d); maps.append(lambda ix, f=f: f)
        j += 1
    return scalar_or_arr(it, tuple(shape), lambda ix: rd(tuple(m(ix) for m in maps)), it.kind(a))

def solve_index(n, elem, target):
    """(guard, pos): the unique pos<n with elem(pos)==target; guard says whether it exists"""
    v = T.fresh('k'); CTX.varrange[v] = lift(n)
    p = T.sub(elem(T.var(v)), target)
    r = T._solve_eq(p, v, lift(n))
    if r is None:
        p = T.neg(p); r = T._solve_eq(p, v, lift(n))
    return r

def setitem(it, o, idx, v):
    if isinstance(o, Union_): o = it.resolve(o)
    if isinstance(o, ArrRef): return arr_set(it, o, idx, v)
    i = idx[0] if len(idx) == 1 else tuple(idx)
    if isinstance(o, DRef):
        c = it.heap[o.cell]
        if c.symmap is not None: raise Unsupported('store into a symbolic dict')
        if c.base is not None:
            n = DictCell(c.items, c.base, c.grow + ((i, v),), c.owner, c.rest)
            it.write(o.cell, n, 'dict entry'); return
        try: kk = key(it, i)
        except Unsupported:
            if c.items or c.rest or not it.rec_logs: raise
            it.write(o.cell, DictCell({}, o.cell, ((i, v),), c.owner, None), 'dict entry'); return        # first sight of a symbolic key inside a loop
        d = dict(c.items); d[kk] = v
        it.write(o.cell, DictCell(d, c.base, c.grow, c.owner, c.rest), 'dict entry %r' % (i,)); return
    if isinstance(o, Rec): return rec_set(it, o, i, v)
    if hasattr(o, 'setitem'): return o.setitem(it, i, v)
    if isinstance(o, LRef):
        c = it.heap[o.cell]
        if c.items is not None:
            if isinstance(i, slice): raise Unsupported('slice assignment')
            p = it.idx(i)
            if T.isconst(p):
                l = list(c.items)
                try: l[int(T.cval(p))] = v
                except IndexError: raise RaiseEx(IndexError)
                it.write(o.cell, ListCell(items=tuple(l), owner=c.owner), 'list item'); return
            l = [it.merge(T.mk_eq(T.sub(p, const(j))), v, x) for j, x in enumerate(c.items)]
            it.write(o.cell, ListCell(items=tuple(l), owner=c.owner), 'list item'); return
        if c.n is not None:
            p = norm_index(it, i, c.n)
            old = c.elem
            def el(j): return it.merge(T.mk_eq(T.sub(j, p)), v, old(j))
            nc = ListCell(n=c.n, elem=el, owner=c.owner)
            it.write(o.cell, nc, 'list item')
            it.loops.log_list_store(it, o.cell, p, v)
            return
    raise Unsupported('item assignment to %r' % (o,))

def arr_set(it, a, idx, v):
    cell = it.heap[a.cell]
    idx = [it.resolve(i) if isinstance(i, Union_) else i for i in idx]
    idx = expand_ellipsis(idx, len(a.shape), it)
    v = it.resolve(v) if isinstance(v, Union_) else v
    vsh, vrd, vk = as_arr(it, v)
    kind = cell.kind
    if kind == 'i' and vk == 'f': raise Unsupported('store of float into int array (truncation)')
    def tob(t):
        return t
    # selectors per *view* axis, then compose with the base selectors
    if len(idx) == 1 and isinstance(idx[0], ArrRef) and it.kind(idx[0]) == 'b' and len(idx[0].shape) == len(a.shape) and len(a.shape) >= 1:
        # a[mask] = v
        msh, mrd, _ = as_arr(it, idx[0])
        def G(vi): return mrd(vi)[0]
        if len(vsh) == 0: W = lambda vi: vrd(())
        elif len(a.shape) == 1:
            n = a.shape[0]; c = lambda t: mrd((t,))[0]
            if not same_dim(vsh[0], T.mk_cnt(n, c)): raise Unsupported('masked assignment length')
            W = lambda vi: vrd((T.mk_rank(n, c, vi[0]),))
        else:
            tot, fl = flat_index(a.shape); c = lambda t: mrd(fl(t))[0]
            if not same_dim(vsh[0], T.mk_cnt(tot, c)): raise Unsupported('masked assignment length')
            def W(vi):
                k = ZERO
                for x, d in zip(vi, a.shape): k = T.add(T.mul(k, d), x)
                return vrd((T.mk_rank(tot, c, k),))
        store_view(it, a, cell, G, W, ('mask',)); return
    sels = []; vshape = []; j = 0
    for i in idx:
        if i is None: raise Unsupported('newaxis in store')
        d = a.shape[j]
        if isinstance(i, slice):
            if i.step is not None: raise Unsupported('strided store')
            st, n = norm_slice(it, i, d)
            sels.append(('rng', st, n, len(vshape))); vshape.append(n)
        elif it.is_num(i) and not (isinstance(i, ArrRef)):
            sels.append(('fix', norm_index(it, i, d)))
        else:
            if is_mask(it, i):
                msh, mrd, _ = as_arr(it, i)
                c = (lambda t, mrd=mrd: mrd((t,))[0])
                sels.append(('mask', c, d, len(vshape))); vshape.append(T.mk_cnt(d, c))
            else:
                ish, ird, ik = as_arr(it, i)
                if len(ish) != 1: raise Unsupported('nd index store')
                sels.append(('list', ish[0], (lambda t, ird=ird: ird((t,))[0]), len(vshape))); vshape.append(ish[0])
        j += 1
    if sum(1 for s in sels if s[0] in ('mask', 'list')) > 1: raise Unsupported('several advanced indices in store')
    # broadcast value to vshape
    if len(vsh) > len(vshape):
        if all(x is ONE for x in vsh[:len(vsh) - len(vshape)]):
            ex = len(vsh) - len(vshape)
            o_vrd = vrd; vrd = lambda ix: o_vrd(tuple([ZERO] * ex) + tuple(ix)); vsh = vsh[ex:]
        else: raise RaiseEx(ValueError, 'could not broadcast')
    off = len(vshape) - len(vsh)
    for p, d in enumerate(vsh):
        if d is not ONE and not same_dim(d, vshape[p + off]):
            if T.isconst(T.sub(d, vshape[p + off])): raise RaiseEx(ValueError, 'could not broadcast')
            raise Unsupported('store shape %s vs %s' % (T.pp(d), T.pp(vshape[p + off])))
    def GW(vi):
        g = ONE; pos = [None] * len(vshape)
        for s, x in zip(sels, vi):
            if s[0] == 'fix': g = T.mul(g, T.mk_eq(T.sub(x, s[1])))
            elif s[0] == 'rng':
                r = T.sub(x, s[1])
                g = T.mul(g, T.mul(T.mk_ge0(r), T.mk_lt(T.sub(r, s[2]))))
                pos[s[3]] = r
            elif s[0] == 'mask':
                g = T.mul(g, s[1](x)); pos[s[3]] = T.mk_rank(s[2], s[1], x)
            else:
                if T.isconst(s[1]) and T.cval(s[1]) <= 16:
                    n = int(T.cval(s[1])); gg = ZERO; pp_ = ZERO
                    for t in range(n):
                        e = T.mk_eq(T.sub(s[2](const(t)), x))
                        pp_ = T.ite(e, const(t), pp_); gg = T.bool_or(gg, e)
                    g = T.mul(g, gg); pos[s[3]] = pp_
                    continue
                r = solve_index(s[1], s[2], x)
                if r is None: raise Unsupported('store through an index list')
                g = T.mul(g, r[0]); pos[s[3]] = r[1]
            if not g.t: return ZERO, None
        return g, tuple(pos)
    def G(vi): return GW(vi)[0]
    def W(vi):
        g, pos = GW(vi)
        if pos is None: return (ZERO, ZERO)
        return vrd(tuple(ZERO if vsh[p] is ONE else pos[p + off] for p in range(len(vsh))))
    store_view(it, a, cell, G, W, ('sel', sels))

def store_view(it, a, cell, G, W, info):
    """write through a view: base element b is written when it is in the image of the view and G holds"""
    old = cell.elem
    sel = a.sel
    nview = len(a.shape)
    def back(b):
        g = ONE; vi = [ZERO] * nview
        for s, x, d in zip(sel, b, cell.shape):
            if s[0] == 'fix': g = T.mul(g, T.mk_eq(T.sub(x, s[1])))
            else:
                r = T.sub(x, s[2])
                if s[2] is not ZERO or a.shape[s[1]] is not d:
                    g = T.mul(g, T.mul(T.mk_ge0(r), T.mk_lt(T.sub(r, a.shape[s[1]]))))
                vi[s[1]] = r
        return g, tuple(vi)
    def elem(b):
        g, vi = back(b)
        if g.t: g = T.mul(g, G(vi))
        if not g.t: return old(b)
        if g is ONE: return W(vi)
        w = W(vi); o = old(b)
        return T.ite(g, w[0], o[0]), T.ite(g, w[1], o[1])
    log = None if cell.log is None else cell.log + ((a, G, W, info, back),)
    it.write(a.cell, ArrCell(cell.shape, elem, cell.kind, log, cell.owner), 'array element')

def delitem(it, o, idx):
    i = idx[0]
    if isinstance(o, DRef):
        c = it.heap[o.cell]
        if c.symmap is not None: raise Unsupported('deletion from a symbolic dict')
        d = dict(c.items); k = key(it, i)
        if k not in d: raise RaiseEx(KeyError)
        del d[k]
        it.write(o.cell, DictCell(d, c.base, c.grow, c.owner, c.rest), 'dict entry %r' % (i,)); return
    if isinstance(o, Rec): return rec_del(it, o, i)
    if hasattr(o, 'delitem'): return o.delitem(it, i)
    raise Unsupported('del item of %r' % (o,))

# ------------------------------------------------------------------------------------------------------------- records
def rec_cell(it, r): return it.heap[r.fam]
def rec_has(it, r, k):
    c = rec_cell(it, r)
    k = key(it, k)
    if k in c.fields: return True
    if k in c.deleted: return False
    if c.rest: return it.truth(SNum(T.mk_app('haskey_%s_%s' % (c.rest, k), [r.idx], 'b'), ZERO, 'b'))
    return False
def rec_get(it, r, k):
    c = rec_cell(it, r); k = key(it, k)
    if k in c.fields:
        return derive(c.fields[k])(r.idx)
    if c.rest and k not in c.deleted: raise Unsupported('unknown field %r' % k)
    raise RaiseEx(KeyError, k)
def rec_set(it, r, k, v):
    c = rec_cell(it, r); k = key(it, k)
    old = c.fields.get(k)
    f = dict(c.fields); idx = r.idx
    def get(i):
        e = T.mk_eq(T.sub(i, idx))
        if e is ONE: return v
        if not e.t:
            if old is None: raise Unsupported('field %s of other record' % k)
            return old(i)
        if old is None: raise Unsupported('field %s possibly unset' % k)
        return it.merge(e, v, old(i))
    f[k] = get
    it.write(r.fam, FamCell(c.n, f, c.owner, c.rest, c.deleted - {k}), 'field %r of a record' % k)
    it.loops.log_rec_store(it, r.fam, k, idx, v)
def rec_del(it, r, k):
    c = rec_cell(it, r); k = key(it, k)
    if k not in c.fields: raise RaiseEx(KeyError, k)
    f = dict(c.fields); del f[k]
    it.write(r.fam, FamCell(c.n, f, c.owner, c.rest, c.deleted | {k}), 'deleting field %r of a record' % k)
    it.loops.log_rec_del(it, r.fam, k, r.idx)

# ------------------------------------------------------------------------------------------------------------- lists
def list_concat(it, a, b):
    sa = seq_or_bag(it, a); sb = seq_or_bag(it, b)
    if isinstance(sa, LRef):
        c = it.heap[sa.cell]
        if isinstance(sb, LRef): raise Unsupported('concatenation of two growing lists')
        return LRef(it.alloc(ListCell(base=c.base, grow=c.grow + (tuple(('one', x) for x in sb) if isinstance(sb, list) else (('many', sb),)))))
    if set_tagged(sa) or set_tagged(sb):
        return LRef(it.alloc(ListCell(bag=('elems', Bag(elems_of(it, sa).gens + elems_of(it, sb).gens)))))
    if isinstance(sa, Bag) or isinstance(sb, Bag):
        return LRef(it.alloc(ListCell(bag=Bag(to_bag(it, sa).gens + to_bag(it, sb).gens))))
    if isinstance(sa, list) and isinstance(sb, list): return it.new_list(sa + sb)
    return concat_seq(it, sa, sb)
def concat_seq(it, sa, sb):
    na = sa.n if isinstance(sa, Seq) else const(len(sa)); nb = sb.n if isinstance(sb, Seq) else const(len(sb))
    if T.isconst(T.simp(na)) and T.cval(T.simp(na)) == 0:
        return it.new_symlist(nb, lambda i: nth_any(it, sb, i))
    if T.isconst(T.simp(nb)) and T.cval(T.simp(nb)) == 0:
        return it.new_symlist(na, lambda i: nth_any(it, sa, i))
    def el(i):
        c = T.mk_lt(T.sub(i, na))
        if c is ONE: return nth_any(it, sa, i)
        if not c.t: return nth_any(it, sb, T.sub(i, na))
        return it.merge(c, nth_any(it, sa, i), nth_any(it, sb, T.sub(i, na)))
    return it.new_symlist(T.add(na, nb), el)
def nth_any(it, s, i):
    if isinstance(s, Seq): return s.elem(i)
    if T.isconst(i): return s[int(T.cval(i))]
    return it.select_item(s, i)
def seq_or_bag(it, v):
    if isinstance(v, LRef):
        c = it.heap[v.cell]
        if c.bag is not None: return c.bag
        if c.grow is not None: return v
    if isinstance(v, Bag): return v
    return it.as_seq(v)
def set_tagged(s): return isinstance(s, tuple) and len(s) == 2 and s[0] in ('set', 'elems') and isinstance(s[1], Bag)
def elems_of(it, s):
    """bag with the same elements, each possibly another number of times"""
    return s[1] if set_tagged(s) else to_bag(it, s)
def to_bag(it, s):
    if isinstance(s, Bag): return s
    if set_tagged(s): raise Unsupported('list of a set, in unknown order')
    if isinstance(s, Seq):
        k = T.fresh('k'); CTX.varrange[k] = s.n
        return Bag([([(k, s.n)], ONE, s.elem(T.var(k)))])
    return Bag([([], ONE, x) for x in s])
def bag_count(b):
    if not isinstance(b, Bag): raise Unsupported('length of a list of a set')
    return T.psum(T.mk_sum(bs, g) if bs else g for bs, g, e in b.gens)
def list_repeat(it, l, n):
    s = it.as_seq(l)
    try: k = it.native(n)
    except Unsupported: k = None
    if k is not None and not isinstance(s, Seq):
        r = list(s) * k
        return tuple(r) if isinstance(l, tuple) else it.new_list(r)
    if isinstance(s, Seq):
        return it.new_symlist(T.mul(s.n, it.idx(n)), lambda i: s.elem(T.mk_mod(i, s.n)))
    if len(s) == 1:
        return it.new_symlist(it.idx(n), lambda i: s[0])
    return it.new_symlist(T.mul(const(len(s)), it.idx(n)), lambda i: it.select_item(s, T.mk_mod(i, const(len(s)))))
def list_append(it, l, v):
    c = it.heap[l.cell]
    if c.grow is not None:
        it.write(l.cell, ListCell(base=c.base, grow=c.grow + (('one', v),), owner=c.owner), 'append'); return
    if c.items is not None:
        it.write(l.cell, ListCell(items=c.items + (v,), owner=c.owner), 'append'); return
    if c.bag is not None:
        b = Bag(elems_of(it, c.bag).gens + [([], ONE, v)])
        it.write(l.cell, ListCell(bag=('elems', b) if set_tagged(c.bag) else b, owner=c.owner), 'append'); return
    n, el = c.n, c.elem
    r = concat_seq(it, Seq(n, el), [v])
    it.write(l.cell, it.heap[r.cell] if not c.owner else ListCell(n=it.heap[r.cell].n, elem=it.heap[r.cell].elem, owner=c.owner), 'append')
def list_extend(it, l, v):
    c = it.heap[l.cell]
    if c.grow is not None:
        s = seq_or_bag(it, v)
        if isinstance(s, list):
            it.write(l.cell, ListCell(base=c.base, grow=c.grow + tuple(('one', x) for x in s), owner=c.owner), 'extend')
        else:
            it.write(l.cell, ListCell(base=c.base, grow=c.grow + (('many', s),), owner=c.owner), 'extend')
        return
    r = list_concat(it, l, v)
    it.write(l.cell, it.heap[r.cell], 'extend')

def container_attr(it, o, name):
    if isinstance(o, LRef):
        if name == 'append': return Model(lambda it_, v: list_append(it_, o, v))
        if name == 'extend': return Model(lambda it_, v: list_extend(it_, o, v))
        if name == 'copy': return Model(lambda it_: it_.new_list(it_.as_seq(o)) if not isinstance(it_.as_seq(o), Seq) else it_.new_symlist(it_.as_seq(o).n, it_.as_seq(o).elem))
        if name == 'index':
            def idx(it_, v):
                s = it_.as_seq(o)
                if isinstance(s, Seq): raise Unsupported('list.index')
                for j, x in enumerate(s):
                    if it_.truth(compare(it_, ast.Eq(), x, v)): return j
                raise RaiseEx(ValueError)
            return Model(idx)
        if name == 'sort':
            def sort(it_, **kw):
                r = m_sorted(it_, o, **kw); c2 = it_.heap[r.cell]; c0 = it_.heap[o.cell]
                it_.write(o.cell, ListCell(items=c2.items, n=c2.n, elem=c2.elem, owner=c0.owner, bag=c2.bag), 'sort')
            return Model(sort)
        if name == 'insert' or name == 'pop' or name == 'remove':
            c = it.heap[o.cell]
            if c.items is None: raise Unsupported('list.' + name)
            def f(it_, *a):
                l = list(it_.heap[o.cell].items)
                r = getattr(l, name)(*[it_.native(x) if name != 'insert' or j == 0 else x for j, x in enumerate(a)])
                it_.write(o.cell, ListCell(items=tuple(l)), name); return r
            return Model(f)
        if name == 'count':
            def f(it_, v):
                s = it_.as_seq(o)
                if isinstance(s, Seq): return snum(T.Sigma(s.n, lambda i: it_.truthp(compare(it_, ast.Eq(), s.elem(i), v))), kind='i')
                return snum(T.psum(it_.truthp(compare(it_, ast.Eq(), x, v)) for x in s), kind='i')
            return Model(f)
        raise RaiseEx(AttributeError, name) if not hasattr([], name) else Unsupported('list.' + name)
    if isinstance(o, DRef):
        c = it.heap[o.cell]
        if name == 'get': return Model(lambda it_, k, d=None: getitem(it_, o, (k,)) if it_.truth(contains(it_, o, k)) else d)
        if name == 'setdefault':
            def sd(it_, k, d=None):
                if it_.truth(contains(it_, o, k)): return getitem(it_, o, (k,))
                setitem(it_, o, (k,), d); return d
            return Model(sd)
        if name in ('keys', 'values', 'items'):
            if c.base is not None or c.rest or c.symmap: raise Unsupported('iteration over symbolic dict')
            return Model(lambda it_: {'keys': list(it_.heap[o.cell].items.keys()), 'values': list(it_.heap[o.cell].items.values()), 'items': [tuple(x) for x in it_.heap[o.cell].items.items()]}[name])
        if name == 'copy':
            def cp(it_):
                c2 = it_.heap[o.cell]
                if c2.base is not None: raise Unsupported('copy of dict being built')
                return DRef(it_.alloc(DictCell(c2.items, rest=c2.rest, symmap=c2.symmap)))
            return Model(cp)
        if name == 'update':
            def up(it_, other=None, **kw):
                c2 = it_.heap[o.cell]; d = dict(c2.items)
                if other is not None:
                    if isinstance(other, DRef):
                        oc = it_.heap[other.cell]
                        if oc.base is not None or oc.rest: raise Unsupported('update from symbolic dict')
                        d.update(oc.items)
                    elif isinstance(other, dict): d.update(other)
                    else:
                        for kv in it_.as_seq(other):
                            k, v = it_.as_seq(kv); d[key(it_, k)] = v
                d.update(kw)
                if c2.symmap is not None: raise Unsupported('update of a symbolic dict')
                it_.write(o.cell, DictCell(d, c2.base, c2.grow, c2.owner, c2.rest), 'update')
            return Model(up)
        if name == 'pop':
            def pop(it_, k, *d):
                c2 = it_.heap[o.cell]; kk = key(it_, k)
                if kk in c2.items:
                    x = dict(c2.items); v = x.pop(kk)
                    if c2.symmap is not None: raise Unsupported('pop of a symbolic dict')
                    it_.write(o.cell, DictCell(x, c2.base, c2.grow, c2.owner, c2.rest), 'pop'); return v
                if c2.rest: raise Unsupported('pop unknown')
                if d: return d[0]
                raise RaiseEx(KeyError)
            return Model(pop)
        raise Unsupported('dict.' + name)
    if isinstance(o, Rec):
        if name == 'get': return Model(lambda it_, k, d=None: rec_get(it_, o, k) if it_.truth(rec_has(it_, o, k)) else d)
        if name == 'copy': return Model(lambda it_: deepcopy(it_, o))
        if name == 'pop':
            def pop(it_, k, *d):
                if it_.truth(rec_has(it_, o, k)):
                    v = rec_get(it_, o, k); rec_del(it_, o, k); return v
                if d: return d[0]
                raise RaiseEx(KeyError)
            return Model(pop)
        raise Unsupported('record.' + name)
    if isinstance(o, Seq):
        raise RaiseEx(AttributeError, name)
    if isinstance(o, SetRef):
        under = it.heap[o.cell].under
        if under is None: raise Unsupported('set.' + name)
        if name == 'add': return Model(lambda it_, v: list_append(it_, under, v))
        if name == 'update':
            def update(it_, *vs):
                for v in vs: list_extend(it_, under, m_list(it_, v))
            return Model(update)
        raise Unsupported('set.' + name)
    raise Unsupported('attr ' + name)

def num_attr(it, o, name):
    if name == 'item' : return Model(lambda it_: o)
    if name == 'is_integer': raise Unsupported('is_integer')
    if name == 'shape': return ()
    if name == 'ndim': return 0
    if name == 'size': return 1
    if name == 'astype': return Model(lambda it_, t: cast(it_, o, t))
    if name in ('sum', 'mean', 'max', 'min', 'copy'): return Model(lambda it_, *a, **k: o)
    if name == 'real': return o
    raise RaiseEx(AttributeError, name)

# ------------------------------------------------------------------------------------------------------------- sets
class SetCell_:
    """elements in a list (with repetitions) that add/update append to; sets made from a sequence have their bag or items directly"""
    def __init__(self, items=None, bag=None, under=None): self.items = items; self.bag = bag; self.under = under; self.owner = None
def make_set(it, items): return SetRef(it.alloc(SetCell_(under=it.new_list(list(items)))))
def set_view(it, s):
    """(distinct concrete items, None) or (None, bag)"""
    c = it.heap[s.cell]
    if c.under is None: return c.items, c.bag
    l = it.heap[c.under.cell]
    if l.bag is not None:
        return None, elems_of(it, l.bag)
    seq = it.as_seq(c.under)
    if isinstance(seq, list):
        try:
            out = []
            for x in [it.native(x) for x in seq]:
                if x not in out: out.append(x)
            return tuple(out), None
        except Unsupported: pass
    return None, to_bag(it, seq)
def set_contains(it, s, x):
    items, bag = set_view(it, s)
    if items is not None:
        acc = ZERO
        for y in items:
            e = compare(it, ast.Eq(), y, x)
            if e is True: return True
            if e is False: continue
            acc = T.bool_or(acc, it.truthp(e))
        return snum(acc, kind='b')
    tot = ZERO
    for bs, g, e in bag.gens:
        eq = it.truthp(compare(it, ast.Eq(), e, x))
        tot = T.add(tot, T.mk_sum(bs, T.mul(g, eq)) if bs else T.mul(g, eq))
    return snum(T.mk_le(T.sub(ONE, tot)), kind='b')

class SymSet:
    """set given by a bag"""

@model(set, frozenset)
def m_set(it, v=None):
    if v is None: return make_set(it, [])
    if hasattr(v, 'sym_set'): return v.sym_set(it)
    s = seq_or_bag(it, v)
    if isinstance(s, list): return make_set(it, s)
    return SetRef(it.alloc(SetCell_(bag=elems_of(it, s))))

# ------------------------------------------------------------------------------------------------------------- builtins
@model(len)
def m_len(it, v):
    if isinstance(v, SetRef):
        items, bag = set_view(it, v)
        if items is not None: return len(items)
        raise Unsupported('len of symbolic set')
    return snum(it.length(v), kind='i')
@model(range)
def m_range(it, *a):
    try: return range(*[it.native(x) for x in a])
    except Unsupported: pass
    if len(a) == 1: n = it.idx(a[0]); lo = ZERO
    elif len(a) == 2 or it.native(a[2]) == 1: lo = it.idx(a[0]); n = T.sub(it.idx(a[1]), lo)
    elif len(a) == 3 and it.native(a[2]) == -1:
        lo = it.idx(a[0]); n = T.sub(lo, it.idx(a[1]))
        if T.mk_ge0(n) is not ONE: n = T.mk_max(n, ZERO)
        return Seq(n, lambda i: snum(T.sub(lo, i), kind='i'), 'rangedown')
    else: raise Unsupported('range step')
    if T.mk_ge0(n) is not ONE:
        if not it.branch(T.mk_ge0(n)): n = ZERO
    if lo is ZERO: return Seq(n, lambda i: snum(i, kind='i'), 'range')
    return Seq(n, lambda i: snum(T.add(i, lo), kind='i'))
def _seqs(it, vs):
    ss = [it.as_seq(v) for v in vs]
    return ss
@model(zip)
def m_zip(it, *vs, **kw):
    if any(isinstance(v, Spread) for v in vs):
        if len(vs) > 1: raise Unsupported('starred symbolic sequence')
        s = vs[0].seq
        if it.branch(T.mk_le(s.n)): return []
        k = T.fresh('k'); CTX.varrange[k] = s.n
        t = s.elem(T.var(k))
        if not isinstance(t, tuple): raise Unsupported('transposition of a sequence')
        return [Seq(s.n, lambda i, j=j: s.elem(i)[j]) for j in range(len(t))]
    ss = _seqs(it, vs)
    if not ss: return []
    if all(isinstance(s, list) for s in ss): return [tuple(x) for x in zip(*ss)]
    ns = [s.n if isinstance(s, Seq) else const(len(s)) for s in ss]
    n = ns[0]
    for m in ns[1:]:
        if not same_dim(n, m):
            if it.branch(T.mk_le(T.sub(n, m))): pass
            else: n = m
    return Seq(n, lambda i: tuple(nth_any(it, s, i) for s in ss))
@model(enumerate)
def m_enum(it, v, start=0):
    s = it.as_seq(v)
    if isinstance(s, list): return [(start + i, x) for i, x in enumerate(s)]
    return Seq(s.n, lambda i: (snum(T.add(i, const(start)), kind='i'), s.elem(i)))
@model(reversed)
def m_reversed(it, v):
    s = it.as_seq(v)
    if isinstance(s, list): return list(reversed(s))
    return Seq(s.n, lambda i: s.elem(T.sub(T.sub(s.n, ONE), i)))
@model(map)
def m_map(it, f, *vs):
    ss = _seqs(it, vs)
    if all(isinstance(s, list) for s in ss): return [it.call(f, list(x)) for x in zip(*ss)]
    z = m_zip(it, *vs)
    return it.loops.map_seq(it, z, lambda tup: it.call(f, list(tup)))
@model(filter)
def m_filter(it, f, v):
    s = it.as_seq(v)
    if f is None: f = Model(lambda it_, x: x)
    if isinstance(s, list):
        return [x for x in s if it.truth(it.call(f, [x]))]
    return it.loops.filter_seq(it, s, lambda x: it.call(f, [x]))
@model(list)
def m_list(it, v=None):
    if v is None: return it.new_list([])
    if hasattr(v, 'sym_list'): return v.sym_list(it)
    if isinstance(v, SetRef):
        items, bag = set_view(it, v)
        if items is not None: return it.new_list(items)
        return LRef(it.alloc(ListCell(bag=('set', bag))))
    if isinstance(v, LRef) and it.heap[v.cell].bag is not None: return LRef(it.alloc(ListCell(bag=it.heap[v.cell].bag)))
    s = it.as_seq(v)
    if isinstance(s, Seq): return it.new_symlist(s.n, s.elem)
    return it.new_list(s)
@model(tuple)
def m_tuple(it, v=()):
    s = it.as_seq(v)
    if isinstance(s, Seq): return Seq(s.n, s.elem, 'tuple')
    return tuple(s)
@model(dict)
def m_dict(it, *a, **kw):
    d = {}
    if a:
        if isinstance(a[0], DRef):
            c = it.heap[a[0].cell]
            if c.base is not None: raise Unsupported('dict copy')
            if c.symmap is not None and kw: raise Unsupported('dict of a symbolic dict')
            r = DRef(it.alloc(DictCell(dict(c.items, **kw), rest=c.rest, symmap=c.symmap))); return r
        if isinstance(a[0], dict): d.update(a[0])
        elif isinstance(a[0], Rec): return deepcopy(it, a[0])
        else:
            s = it.as_seq(a[0])
            if isinstance(s, Seq): return it.loops.dict_of_seq(it, s)
            for kv in s:
                k, v = it.as_seq(kv); d[key(it, k)] = v
    d.update(kw)
    return it.new_dict(d)
@model(isinstance)
def m_isinstance(it, v, t):
    ts = []
    def fl(x):
        if isinstance(x, (tuple, list)):
            for y in x: fl(y)
        elif isinstance(x, LRef):
            for y in it.as_seq(x): fl(y)
        else: ts.append(x)
    fl(t)
    if isinstance(v, Union_):
        acc = ZERO
        for c, tag, val in v.alts:
            if any(tag is x or (isinstance(x, type) and isinstance(tag, type) and issubclass(tag, x)) for x in ts): acc = T.add(acc, c)
        return snum(acc, kind='b')
    py = pytype(it, v)
    if py is None: raise Unsupported('type of %r' % (v,))
    import collections.abc, numbers
    return any(isinstance(x, type) and issubclass(py, x) for x in ts)
def pytype(it, v):
    if isinstance(v, SNum): return {'i': int, 'f': float, 'b': bool, 'o': str}[v.kind]
    if isinstance(v, ArrRef): return np.ndarray
    if isinstance(v, LRef): return list
    if isinstance(v, (DRef, Rec)): return dict
    if isinstance(v, SetRef): return set
    if isinstance(v, ORef): return it.heap[v.cell].cls
    if isinstance(v, Seq): return {'range': range, 'tuple': tuple}.get(v.kind)
    if hasattr(v, 'sym_type'): return v.sym_type
    if isinstance(v, (Opaque, Undef, Bag)): return None
    if isinstance(v, (Func, BoundMethod, Model)): return types.FunctionType
    return type(v)
@model(type)
def m_type(it, *a):
    if len(a) == 3:
        return type(a[0], a[1], {}) if not it.heap[a[2].cell].items else (_ for _ in ()).throw(Unsupported('type()'))
    t = pytype(it, a[0])
    if t is None: raise Unsupported('type of %r' % (a[0],))
    return t
@model(hasattr)
def m_hasattr(it, o, name):
    if isinstance(o, Union_): o = it.resolve(o)
    if name in ('__len__', '__iter__'):
        if it.is_num(o) and not (isinstance(o, ArrRef) and o.shape): return False
        if isinstance(o, (LRef, DRef, Seq, ArrRef, Rec, SetRef, tuple, str, list)): return True
    if isinstance(o, ORef):
        c = it.heap[o.cell]
        if name in c.attrs or name in c.over: return True
        if c.over.get('__rest__'): return it.truth(SNum(T.mk_app('hasattr_%s_%s' % (c.over['__rest__'], name), [], 'b'), ZERO, 'b'))
        return hasattr(c.cls, name)
    if isinstance(o, ArrRef): return hasattr(np.ndarray, name)
    if isinstance(o, (Opaque, Undef)): raise Unsupported('hasattr of opaque')
    return hasattr(o, name)
@model(getattr)
def m_getattr(it, o, name, *d):
    from .interp import RaiseEx as R
    try: return it.getattr(o, name)
    except R as e:
        if d and e.etype is AttributeError: return d[0]
        raise
@model(setattr)
def m_setattr(it, o, name, v): it.setattr(o, name, v)
@model(callable)
def m_callable(it, f): return isinstance(f, (Func, BoundMethod, Model, Partial)) or callable(f)
@model(id)
def m_id(it, v): raise Unsupported('id()')
@model(print)
def m_print(it, *a, **k): return None
@model(str, repr, format)
def m_str(it, *a):
    if len(a) == 1 and hasattr(a[0], 'sym_tostr'): return a[0].sym_tostr(it)
    try: return str(*[it.native(x) for x in a])
    except Unsupported:
        if len(a) == 1 and isinstance(a[0], SNum) and a[0].kind == 'o': return a[0]
        return (names.to_str(a[0]) if len(a) == 1 else None) or Opaque('string')
def m_strformat(it, s, *a, **k):
    try: return s.format(*[it.native(x) for x in a], **{n: it.native(v) for n, v in k.items()})
    except Unsupported: pass
    import string
    parts = []; auto = 0
    for lit, fld, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if fld is None: continue
        if spec or conv: return Opaque('string')
        if fld == '': v = a[auto]; auto += 1
        elif fld.isdigit() and int(fld) < len(a): v = a[int(fld)]
        elif fld in k: v = k[fld]
        else: return Opaque('string')
        try: parts.append(str(it.native(v)))
        except Unsupported:
            t = names.to_str(v)
            if t is None: return Opaque('string')
            parts.append(t)
    return names.joined(it, parts)
METHODS[('str', 'format')] = m_strformat
METHODS[('str', 'join')] = lambda it, s, v: (lambda x: s.join(x) if all(isinstance(y, str) for y in x) else Opaque('string'))(list(it.as_seq(v)) if not isinstance(it.as_seq(v), Seq) else [Opaque('x')])
METHODS[('TextIOWrapper', 'write')] = lambda it, s, *a: None
METHODS[('TextIOWrapper', 'flush')] = lambda it, s, *a: None
MODELS[time.sleep] = lambda it, *a: None
MODELS[time.time] = lambda it: Opaque('time')
MODELS[time.perf_counter] = lambda it: Opaque('time')
def install_stdout():
    for s in (sys.stdout, sys.stderr, sys.__stdout__):
        METHODS[(type(s).__name__, 'write')] = lambda it, s, *a: None
        METHODS[(type(s).__name__, 'flush')] = lambda it, s, *a: None
install_stdout()

def cast(it, v, t):
    if isinstance(t, str): t = {'float': float, 'float64': float, 'int': int, 'bool': bool}.get(t, t)
    if t in (float, np.float64, np.double): k = 'f'
    elif t in (bool, np.bool_): k = 'b'
    elif t in (int, np.int64, np.int32): k = 'i'
    else: raise Unsupported('cast to %r' % (t,))
    A = as_arr(it, v)
    if A[2] == k: return v if not isinstance(v, ArrRef) else it.new_arr(A[0], A[1], k)
    if k == 'f': return scalar_or_arr(it, A[0], A[1], 'f')
    if k == 'i' and A[2] == 'b': return scalar_or_arr(it, A[0], A[1], 'i')
    if k == 'b': return scalar_or_arr(it, A[0], lambda ix: (T.bool_or(T.bool_not(T.mk_eq(A[1](ix)[0])), A[1](ix)[1]), ZERO), 'b')
    if k == 'i':
        if not A[0]:
            v0 = A[1](())
            if T.isconst(v0[0]) and v0[1] is ZERO: return int(T.cval(v0[0]))
            if T.is_int(v0[0]) and v0[1] is ZERO: return snum(v0[0], kind='i')
        raise Unsupported('truncation to int')
@model(float)
def m_float(it, v=0.0):
    if isinstance(v, str): return float(v)
    if isinstance(v, (int, float)): return float(v)
    if isinstance(v, ArrRef):
        n = T.prod(v.shape)
        if T.isconst(n) and T.cval(n) == 1: 
            val, nan = it.reader(v)(tuple(ZERO for _ in v.shape)); return snum(val, nan, 'f')
        if not T.isconst(n): raise Unsupported('float() of array of unknown size')
        raise RaiseEx(TypeError, 'only length-1 arrays')
    if isinstance(v, (LRef, DRef, Seq)): raise RaiseEx(TypeError)
    return cast(it, v, float)
MODELS[np.float64] = m_float
@model(int)
def m_int(it, v=0):
    if isinstance(v, (int, float, str)): return int(v)
    return cast(it, v, int)
@model(bool, np.bool_)
def m_bool(it, v=False):
    return snum(it.truthp(v), kind='b')
@model(round)
def m_round(it, v, n=None): raise Unsupported('round')

def red_minmax(name, args_like):
    pass
def scalar_seq(it, vs):
    """args of builtin max/min/sum -> Seq or list"""
    if len(vs) == 1: return it.as_seq(vs[0])
    return list(vs)
def builtin_minmax(name):
    def f(it, *vs, **kw):
        if kw.get('key') is not None: raise Unsupported('key=')
        s = scalar_seq(it, vs)
        if isinstance(s, list):
            if not s:
                if 'default' in kw: return kw['default']
                raise RaiseEx(ValueError)
            if all(isinstance(x, (int, bool)) for x in s): return (max if name == 'max' else min)(s)
            if any(isinstance(x, float) and x in (math.inf, -math.inf) for x in s): raise Unsupported('infinite')
            r = it.num(s[0])
            for x in s[1:]:
                y = it.num(x)
                r = SNum((T.mk_max if name == 'max' else T.mk_min)(r.val, y.val), nan_or(r.nan, y.nan), r.kind if r.kind == y.kind else 'f')
            return snum(r.val, r.nan, r.kind)
        k = T.fresh('k'); CTX.varrange[k] = s.n
        e = it.num(s.elem(T.var(k)))
        if e.nan is not ZERO: raise Unsupported('max of nan')
        if k not in e.val.fv: return snum(e.val, kind=e.kind)
        return snum(mk_ext(name, [(k, s.n)], e.val, ONE, 'i' if e.kind in 'ib' else 'r'), kind='i' if e.kind in 'ib' else 'f')
    return f
def mk_ext(name, binders, val, guard, sort='r'):
    """max/min over the index set; split of block ranges is not needed because the functional is opaque: normalise 1-binder div/sel first"""
    return T.mk_red(name, binders, (val, guard) , (), sort)
MODELS[max] = builtin_minmax('max')
MODELS[min] = builtin_minmax('min')
@model(sum)
def m_sum(it, v, start=0):
    b = seq_or_bag(it, v)
    if set_tagged(b): b = to_bag(it, b)
    if isinstance(b, Bag):
        r = bag_sum(it, b, lambda x: x.val)
        return snum(T.add(r, it.num(start).val))
    s = b
    if isinstance(s, list):
        r = start
        for x in s: r = binop(it, ast.Add(), r, x)
        return r
    k = T.fresh('k'); CTX.varrange[k] = s.n
    x = s.elem(T.var(k))
    if isinstance(x, ArrRef):
        sh, rd, kd = as_arr(it, Seq(s.n, s.elem))
        tot = it.new_arr(sh[1:], lambda ix: (T.Sigma(s.n, lambda i: rd((i,) + tuple(ix))[0]), poly_any(s.n, lambda i: rd((i,) + tuple(ix))[1])), kd)
        return binop(it, ast.Add(), start, tot)
    e = it.num(x)
    tot = snum(T.mk_sum([(k, s.n)], e.val), poly_any(s.n, lambda i: it.num(s.elem(i)).nan) if e.nan is not ZERO else ZERO, 'i' if e.kind == 'b' else e.kind)
    return binop(it, ast.Add(), start, tot)
def bag_sum(it, b, f):
    out = []
    for bs, g, e in b.gens:
        e = it.num(e)
        body = T.mul(g, f(e))
        out.append(T.mk_sum(bs, body) if bs else body)
    return T.psum(out)
@model(any)
def m_any(it, v):
    s = it.as_seq(v)
    if isinstance(s, list):
        acc = ZERO
        for x in s: acc = T.bool_or(acc, it.truthp(x))
        return snum(acc, kind='b')
    return snum(poly_any(s.n, lambda i: it.truthp(s.elem(i))), kind='b')
@model(all)
def m_all(it, v):
    s = it.as_seq(v)
    if isinstance(s, list):
        acc = ONE
        for x in s: acc = T.mul(acc, it.truthp(x))
        return snum(acc, kind='b')
    return snum(T.bool_not(poly_any(s.n, lambda i: T.bool_not(it.truthp(s.elem(i))))), kind='b')
@model(abs, np.abs, np.absolute, np.fabs, math.fabs)
def m_abs(it, v):
    if isinstance(v, (int, float)): return abs(v)
    return elementwise(it, [v], lambda x: (T.mk_abs(x[0]), x[1]), lambda k: k[0] if k[0] != 'b' else 'i')
@model(divmod)
def m_divmod(it, a, b): return binop(it, ast.FloorDiv(), a, b), binop(it, ast.Mod(), a, b)
@model(pow)
def m_pow(it, a, b): return binop(it, ast.Pow(), a, b)
@model(sorted)
def m_sorted(it, v, key=None, reverse=False):
    if isinstance(v, SetRef): v = m_list(it, v)
    plain = key is None and reverse is False
    if hasattr(v, 'sym_sorted') and plain: return v.sym_sorted(it)
    if isinstance(v, (LRef,)):
        c = it.heap[v.cell]
        if c.bag is not None and not plain: raise Unsupported('sorted with options')
        if c.bag is not None: return it.loops.sorted_bag(it, c.bag)
    s = it.as_seq(v)
    if isinstance(s, Seq): raise Unsupported('sorted of symbolic sequence')
    n = [it.native(x) for x in s]
    return it.new_list(sorted(n, key=(lambda x: it.native(it.call(key, [x]))) if key else None, reverse=reverse))
@model(next)
def m_next(it, v, *d):
    s = it.as_seq(v)
    if isinstance(s, list):
        if s: return s[0]
        if d: return d[0]
        raise RaiseEx(StopIteration)
    if it.branch(T.mk_le(T.sub(ONE, s.n))): return s.elem(ZERO)
    if d: return d[0]
    raise RaiseEx(StopIteration)
@model(iter)
def m_iter(it, v): return it.as_seq(v)
@model(slice)
def m_slice(it, *a): return slice(*a)
MODELS[functools.partial] = lambda it, f, *a, **k: Partial(f, a, k)
import math as _m
MODELS[_m.isnan] = lambda it, v: snum(it.num(v).nan, kind='b') if it.is_num(v) else (_ for _ in ()).throw(RaiseEx(TypeError, 'must be real number'))
MODELS[_m.sqrt] = lambda it, v: MODELS[np.sqrt](it, v)
MODELS[_m.log] = lambda it, v: MODELS[np.log](it, v)
MODELS[_m.exp] = lambda it, v: MODELS[np.exp](it, v)

# deepcopy ---------------------------------------------------------------------------------------------------------------
@model(copy.deepcopy, copy.copy)
def deepcopy(it, v, memo=None):
    if isinstance(v, ArrRef): return it.new_arr(v.shape, it.reader(v), it.kind(v))
    if isinstance(v, LRef):
        c = it.heap[v.cell]
        if c.items is not None: return it.new_list([deepcopy(it, x) for x in c.items])
        if c.n is not None:
            k = T.fresh('k'); CTX.varrange[k] = c.n
            p = c.elem(T.var(k))
            if isinstance(p, Rec):
                fc = it.heap[p.fam]
                base = c.elem
                nf = it.alloc(FamCell(c.n, {kk: (lambda i, f=f: frozen_copy(it, f(base(i).idx))) for kk, f in fc.fields.items()}, None, fc.rest, fc.deleted))
                it.heap[nf].rest = fc.rest if fc.rest is None else (fc.rest if p.idx is T.var(k) else fc.rest)
                return LRef(it.alloc(ListCell(n=c.n, elem=lambda i: Rec(nf, i))))
            return LRef(it.alloc(ListCell(n=c.n, elem=c.elem)))
        raise Unsupported('deepcopy of list being built')
    if isinstance(v, DRef):
        c = it.heap[v.cell]
        if c.base is not None: raise Unsupported('deepcopy of dict being built')
        return DRef(it.alloc(DictCell({k: deepcopy(it, x) for k, x in c.items.items()}, rest=c.rest, symmap=c.symmap)))
    if isinstance(v, Rec):
        c = it.heap[v.fam]
        d = {k: frozen_copy(it, f(v.idx)) for k, f in c.fields.items()}
        return DRef(it.alloc(DictCell(d, rest=('%s@%s' % (c.rest, T.skey(v.idx))) if c.rest else None)))
    if isinstance(v, ORef): raise Unsupported('deepcopy of object')
    if hasattr(v, 'sym_copy'): return v.sym_copy(it)
    return v
def frozen_copy(it, v): return deepcopy(it, v)

# ------------------------------------------------------------------------------------------------------------- creation
def shape_of(it, s):
    if it.is_num(s): return (it.idx(s),)
    return tuple(it.idx(x) for x in it.as_seq(s))
def fill(it, shape, v, kind='f'):
    return it.new_arr(shape_of(it, shape), lambda idx: v, kind)
def dt(dtype):
    if dtype is None: return 'f'
    if dtype in (bool, np.bool_, 'bool'): return 'b'
    if dtype in (int, np.int64, np.int32, 'int'): return 'i'
    if dtype in (float, np.float64, 'float', np.double, 'float64'): return 'f'
    raise Unsupported('dtype %r' % (dtype,))
MODELS[np.zeros] = lambda it, shape, dtype=None, **k: fill(it, shape, (ZERO, ZERO), dt(dtype))
MODELS[np.ones] = lambda it, shape, dtype=None, **k: fill(it, shape, (ONE, ZERO), dt(dtype))
MODELS[np.empty] = lambda it, shape, dtype=None, **k: it.new_arr(shape_of(it, shape), lambda idx, t=T.fresh('empty'): (T.mk_app('uninit_' + t, idx), T.mk_app('uninitn_' + t, idx, 'b')), dt(dtype))
def m_full(it, shape, v, dtype=None, **k):
    n = it.num(v)
    return fill(it, shape, (n.val, n.nan), dt(dtype) if dtype is not None else n.kind)
MODELS[np.full] = m_full
MODELS[np.zeros_like] = lambda it, a, dtype=None, **k: it.new_arr(as_arr(it, a)[0], lambda idx: (ZERO, ZERO), as_arr(it, a)[2] if dtype is None else dt(dtype))
MODELS[np.ones_like] = lambda it, a, dtype=None, **k: it.new_arr(as_arr(it, a)[0], lambda idx: (ONE, ZERO), as_arr(it, a)[2] if dtype is None else dt(dtype))
def m_full_like(it, a, v, dtype=None, **k):
    n = it.num(v); A = as_arr(it, a)
    kd = A[2] if dtype is None else dt(dtype)
    if kd != 'f' and n.kind == 'f': raise Unsupported('full_like truncation')
    return it.new_arr(A[0], lambda idx: (n.val, n.nan), kd)
MODELS[np.full_like] = m_full_like
def m_arange(it, *a, **k):
    r = m_range(it, *a)
    if isinstance(r, range): return it.new_arr((const(len(r)),), lambda ix: (T.add(T.scale(ix[0], r.step), const(r.start)), ZERO), 'i')
    return it.new_arr((r.n,), lambda ix: (it.idx(r.elem(ix[0])), ZERO), 'i')
MODELS[np.arange] = m_arange
def m_array(it, v, dtype=None, **k):
    A = as_arr(it, v)
    r = it.new_arr(A[0], A[1], A[2])
    if dtype is not None and dt(dtype) != A[2]: return cast(it, r, dtype)
    return r
MODELS[np.array] = m_array
MODELS[np.asarray] = lambda it, v, dtype=None, **k: v if isinstance(v, ArrRef) and (dtype is None or dt(dtype) == it.kind(v)) else m_array(it, v, dtype)
MODELS[np.atleast_1d] = lambda it, v: v if isinstance(v, ArrRef) and v.shape else reshape(it, to_arr(it, v), (ONE,))
MODELS[np.copy] = lambda it, v, **k: m_array(it, v)
def const_array(it, r):
    r = np.asarray(r)
    kind = 'b' if r.dtype == bool else 'i' if np.issubdtype(r.dtype, np.integer) else 'f'
    if not (r.dtype == bool or np.issubdtype(r.dtype, np.number)): raise Unsupported('array dtype')
    flat = r.tolist()
    def el(idx):
        if all(T.isconst(i) for i in idx):
            x = flat
            for i in idx: x = x[int(T.cval(i))]
            n = it.num(x); return n.val, n.nan
        # general: nested selection
        s, rd, k = as_arr(it, _tolist(it, flat))
        return rd(idx)
    return it.new_arr(tuple(const(d) for d in r.shape), el, kind)
def _tolist(it, x): return it.new_list([_tolist(it, y) for y in x]) if isinstance(x, list) else x

def transpose(it, a, axes=None):
    a = to_arr(it, a)
    nd = len(a.shape)
    if axes is None: perm = list(reversed(range(nd)))
    else: perm = [it.native(x) % nd for x in it.as_seq(axes)]
    inv = {p: j for j, p in enumerate(perm)}
    sel = tuple(s if s[0] == 'fix' else ('ax', inv[s[1]], s[2]) for s in a.sel)
    return ArrRef(a.cell, sel, tuple(a.shape[p] for p in perm))
MODELS[np.transpose] = transpose
def swapaxes(it, a, x, y):
    nd = len(to_arr(it, a).shape); p = list(range(nd)); x %= nd; y %= nd; p[x], p[y] = p[y], p[x]
    return transpose(it, a, tuple(p))
MODELS[np.swapaxes] = swapaxes
def moveaxis(it, a, s, d):
    a = to_arr(it, a); nd = len(a.shape); s %= nd; d %= nd
    p = [i for i in range(nd) if i != s]; p.insert(d, s)
    return transpose(it, a, tuple(p))
MODELS[np.moveaxis] = moveaxis
def expand_dims(it, a, axis):
    a = to_arr(it, a); nd = len(a.shape) + 1
    ax = axis % nd
    sh = list(a.shape); sh.insert(ax, ONE)
    sel = tuple(s if s[0] == 'fix' else ('ax', s[1] + (1 if s[1] >= ax else 0), s[2]) for s in a.sel)
    return ArrRef(a.cell, sel, tuple(sh))
MODELS[np.expand_dims] = expand_dims
def squeeze(it, a, axis=None):
    a = to_arr(it, a)
    ax = [j for j, d in enumerate(a.shape) if d is ONE] if axis is None else [axis % len(a.shape)]
    rd = it.reader(a); keep = [j for j in range(len(a.shape)) if j not in ax]
    def el(ix):
        full = [ZERO] * len(a.shape)
        for p, j in enumerate(keep): full[j] = ix[p]
        return rd(tuple(full))
    return scalar_or_arr(it, tuple(a.shape[j] for j in keep), el, it.kind(a))
MODELS[np.squeeze] = squeeze
def reshape(it, a, shape, order='C'):
    if order not in ('C',):
        if order == 'F':
            b = transpose(it, a)
            r = reshape(it, b, tuple(reversed([it.native(x) if not isinstance(x, Poly) and not isinstance(x, SNum) else x for x in (shape if isinstance(shape, tuple) else it.as_seq(shape))])))
            return transpose(it, r)
        raise Unsupported('reshape order')
    a = to_arr(it, a)
    sh = [x if isinstance(x, Poly) else it.idx(x) for x in (shape if isinstance(shape, tuple) else (it.as_seq(shape) if not it.is_num(shape) else [shape]))]
    tot = T.prod(a.shape)
    m1 = [j for j, d in enumerate(sh) if T.isconst(d) and T.cval(d) == -1]
    if m1:
        rest = T.prod(d for j, d in enumerate(sh) if j not in m1)
        q = T.exact_quotient(tot, rest) if not T.isconst(rest) or T.cval(rest) != 1 else tot
        if q is None: raise Unsupported('reshape -1')
        sh[m1[0]] = q
    if not same_dim(T.prod(sh), tot): raise Unsupported('reshape size')
    rd = it.reader(a); _, fl = flat_index(a.shape)
    def el(ix):
        # fast path: trailing/leading axes preserved
        k = ZERO
        for x, d in zip(ix, sh): k = T.add(T.mul(k, d), x)
        return rd(fl(k))
    return it.new_arr(sh, el, it.kind(a))
MODELS[np.reshape] = reshape
MODELS[np.ravel] = lambda it, a, order='C': reshape(it, a, (const(-1),), order)
def tile(it, a, reps):
    A = as_arr(it, a)
    rp = [it.idx(reps)] if it.is_num(reps) else [it.idx(x) for x in it.as_seq(reps)]
    nd = max(len(A[0]), len(rp))
    sh = [ONE] * (nd - len(A[0])) + list(A[0]); rp = [ONE] * (nd - len(rp)) + rp
    off = nd - len(A[0])
    out = [T.mul(s, r) for s, r in zip(sh, rp)]
    def el(ix):
        return A[1](tuple((ZERO if sh[j] is ONE else ix[j] if rp[j] is ONE else T.mk_mod(ix[j], sh[j])) for j in range(off, nd)))
    return it.new_arr(out, el, A[2])
MODELS[np.tile] = tile
def repeat(it, a, n, axis=None):
    A = as_arr(it, a)
    if axis is None:
        a = reshape(it, a, (const(-1),)); A = as_arr(it, a); axis = 0
    ax = axis % len(A[0]); p = it.idx(n)
    sh = list(A[0]); sh[ax] = T.mul(sh[ax], p)
    return it.new_arr(sh, lambda ix: A[1](tuple((T.mk_div(x, p) if j == ax else x) for j, x in enumerate(ix))), A[2])
MODELS[np.repeat] = repeat
def broadcast_to(it, a, shape, **k):
    A = as_arr(it, a); sh = shape_of(it, shape)
    s2, ixs = broadcast(it, [A[0], sh])
    return it.new_arr(s2, lambda ix: A[1](ixs[0](ix)), A[2])
MODELS[np.broadcast_to] = broadcast_to
def concatenate(it, arrs, axis=0, **kw):
    s = it.as_seq(arrs)
    if isinstance(s, Seq):
        # symbolic number of equally shaped blocks
        sh, rd, k = as_arr(it, s)
        if len(sh) < 2: raise Unsupported('concatenate')
        ax = axis % (len(sh) - 1)
        out = list(sh[1:]); blk = out[ax]; out[ax] = T.mul(sh[0], blk)
        def el(ix):
            q = T.mk_div(ix[ax], blk)
            return rd((q,) + tuple(T.sub(x, T.mul(q, blk)) if j == ax else x for j, x in enumerate(ix)))
        return it.new_arr(out, el, k)
    A = [as_arr(it, x) for x in s]
    if axis is None:
        A = [as_arr(it, reshape(it, to_arr(it, x), (const(-1),))) for x in s]; axis = 0
    nd = len(A[0][0]); ax = axis % nd
    for a in A[1:]:
        for j in range(nd):
            if j != ax and not same_dim(a[0][j], A[0][0][j]): raise Unsupported('concatenate shapes')
    offs = [ZERO]
    for a in A: offs.append(T.add(offs[-1], a[0][ax]))
    sh = list(A[0][0]); sh[ax] = offs[-1]
    kinds = {a[2] for a in A}
    def el(ix):
        v = None
        for j in range(len(A) - 1, -1, -1):
            c = T.mk_lt(T.sub(ix[ax], offs[j + 1]))
            if v is not None and not c.t: continue
            x = A[j][1](tuple(T.sub(y, offs[j]) if q == ax else y for q, y in enumerate(ix)))
            if v is None: v = x
            else: v = (T.ite(c, x[0], v[0]), T.ite(c, x[1], v[1]))
        return v
    return it.new_arr(sh, el, kinds.pop() if len(kinds) == 1 else 'f')
MODELS[np.concatenate] = concatenate
def hstack(it, arrs, **k):
    s = it.as_seq(arrs)
    if isinstance(s, Seq):
        nd = len(as_arr(it, s)[0]) - 1
        return concatenate(it, s, 0 if nd == 1 else 1)
    s = [x if isinstance(x, ArrRef) and x.shape else reshape(it, to_arr(it, x), (const(-1),)) if not isinstance(x, ArrRef) and not as_arr(it, x)[0] else to_arr(it, x) for x in s]
    return concatenate(it, it.new_list(s), 0 if len(s[0].shape) == 1 else 1)
def vstack(it, arrs, **k):
    s = it.as_seq(arrs)
    if isinstance(s, Seq):
        nd = len(as_arr(it, s)[0]) - 1
        if nd == 1: return to_arr(it, s)
        return concatenate(it, s, 0)
    s = [to_arr(it, x) for x in s]
    s = [expand_dims(it, x, 0) if len(x.shape) == 1 else x for x in s]
    return concatenate(it, it.new_list(s), 0)
MODELS[np.hstack] = hstack
MODELS[np.vstack] = vstack
def stack(it, arrs, axis=0, **k):
    a = to_arr(it, arrs)
    return moveaxis(it, a, 0, axis % len(a.shape))
MODELS[np.stack] = stack
MODELS[np.column_stack] = lambda it, arrs: transpose(it, to_arr(it, arrs)) if len(as_arr(it, arrs)[0]) == 2 else (_ for _ in ()).throw(Unsupported('column_stack'))
def diag(it, a, k=0):
    A = as_arr(it, a)
    if k != 0: raise Unsupported('diag k')
    if len(A[0]) == 1:
        return it.new_arr((A[0][0], A[0][0]), lambda ix: (T.mul(T.mk_eq(T.sub(ix[0], ix[1])), A[1]((ix[0],))[0]), T.mul(T.mk_eq(T.sub(ix[0], ix[1])), A[1]((ix[0],))[1])), A[2])
    if not same_dim(A[0][0], A[0][1]): raise Unsupported('diag of non-square')
    return it.new_arr((A[0][0],), lambda ix: A[1]((ix[0], ix[0])), A[2])
MODELS[np.diag] = diag
MODELS[np.diagonal] = diag
MODELS[np.eye] = lambda it, n, **k: it.new_arr((it.idx(n), it.idx(n)), lambda ix: (T.mk_eq(T.sub(ix[0], ix[1])), ZERO), 'f')
MODELS[np.identity] = MODELS[np.eye]

# ------------------------------------------------------------------------------------------------------------- ufuncs
def _un(f, kind='f', partial_nan=None):
    def g(it, v, **k):
        if k.get('out') is not None or k.get('where') is not None: raise Unsupported('ufunc keywords')
        return elementwise(it, [v], lambda x: (f(x[0]), x[1]), kind)
    return g
MODELS[np.sqrt] = _un(T.mk_sqrt)
MODELS[np.log] = _un(T.mk_log)
MODELS[np.exp] = _un(T.mk_exp)
MODELS[np.square] = _un(lambda x: T.mul(x, x), lambda k: k[0])
MODELS[np.cosh] = _un(lambda x: T.mk_fun('cosh', x))
MODELS[np.negative] = _un(T.neg, lambda k: k[0])
MODELS[np.reciprocal] = _un(lambda x: T.mk_pow(x, -1))
MODELS[np.log2] = _un(lambda x: T.mul(T.mk_log(x), T.mk_pow(T.mk_log(const(2)), -1)))
def _bin(op):
    def g(it, a, b, **k):
        if k: raise Unsupported('ufunc keywords')
        return binop(it, op, a if not isinstance(a, (LRef, list, tuple)) else to_arr(it, a), b if not isinstance(b, (LRef, list, tuple)) else to_arr(it, b))
    return g
for f, o in ((np.add, ast.Add()), (np.subtract, ast.Sub()), (np.multiply, ast.Mult()), (np.divide, ast.Div()), (np.power, ast.Pow()), (np.mod, ast.Mod()), (np.floor_divide, ast.FloorDiv()), (operator.add, ast.Add()), (operator.sub, ast.Sub()), (operator.mul, ast.Mult()), (operator.truediv, ast.Div())):
    MODELS[f] = _bin(o)
def _cmpm(op):
    return lambda it, a, b: compare(it, op, a if not isinstance(a, (LRef, list, tuple)) else to_arr(it, a), b if not isinstance(b, (LRef, list, tuple)) else to_arr(it, b))
for f, o in ((np.greater, ast.Gt()), (np.greater_equal, ast.GtE()), (np.less, ast.Lt()), (np.less_equal, ast.LtE()), (np.equal, ast.Eq()), (np.not_equal, ast.NotEq())): MODELS[f] = _cmpm(o)
MODELS[np.logical_not] = lambda it, a: elementwise(it, [a], lambda x: (T.bool_not(_tb(x)), ZERO), 'b')
def _tb(x): return x[0]
def _boolarr(it, a):
    A = as_arr(it, a)
    if A[2] == 'b': return a
    return cast(it, a, bool)
MODELS[np.logical_not] = lambda it, a: elementwise(it, [_boolarr(it, a)], lambda x: (T.bool_not(x[0]), ZERO), 'b')
MODELS[np.invert] = lambda it, a: unop(it, ast.Invert(), a)
MODELS[np.logical_and] = lambda it, a, b: elementwise(it, [_boolarr(it, a), _boolarr(it, b)], lambda x, y: (T.mul(x[0], y[0]), ZERO), 'b')
MODELS[np.logical_or] = lambda it, a, b: elementwise(it, [_boolarr(it, a), _boolarr(it, b)], lambda x, y: (T.bool_or(x[0], y[0]), ZERO), 'b')
MODELS[np.maximum] = lambda it, a, b: elementwise(it, [a, b], lambda x, y: (T.mk_max(x[0], y[0]), nan_or(x[1], y[1])), numkind)
MODELS[np.minimum] = lambda it, a, b: elementwise(it, [a, b], lambda x, y: (T.mk_min(x[0], y[0]), nan_or(x[1], y[1])), numkind)
MODELS[np.fmax] = lambda it, a, b: elementwise(it, [a, b], lambda x, y: (T.ite(x[1], y[0], T.ite(y[1], x[0], T.mk_max(x[0], y[0]))), T.mul(x[1], y[1])), numkind)
def clip(it, a, lo=None, hi=None, **k):
    lo = k.get('a_min', lo); hi = k.get('a_max', hi)
    r = a
    if lo is not None: r = MODELS[np.maximum](it, r, lo)
    if hi is not None: r = MODELS[np.minimum](it, r, hi)
    return r
MODELS[np.clip] = clip
MODELS[np.isnan] = lambda it, v: elementwise(it, [v], lambda x: (x[1], ZERO), 'b')
MODELS[np.isfinite] = lambda it, v: elementwise(it, [v], lambda x: (T.bool_not(x[1]), ZERO), 'b')
def m_nan_to_num(it, v, nan=0.0, **k):
    n = it.num(nan)
    return elementwise(it, [v], lambda x: (T.ite(x[1], n.val, x[0]), T.mul(x[1], n.nan)), 'f')
MODELS[np.nan_to_num] = m_nan_to_num
def where(it, c, a=None, b=None):
    if a is None and b is None:
        A = as_arr(it, _boolarr(it, c))
        if len(A[0]) != 1: raise Unsupported('np.where of nd mask')
        n = A[0][0]; cc = lambda i: A[1]((i,))[0]
        return (it.new_arr((T.mk_cnt(n, cc),), lambda ix: (T.mk_sel(n, cc, ix[0]), ZERO), 'i'),)
    return elementwise(it, [_boolarr(it, c), a, b], lambda x, y, z: (T.ite(x[0], y[0], z[0]), T.ite(x[0], y[1], z[1])), lambda ks: numkind(ks[1:]) if set(ks[1:]) != {'b'} else 'b')
MODELS[np.where] = where
MODELS[np.nonzero] = lambda it, c: where(it, c)
MODELS[np.flatnonzero] = lambda it, c: where(it, c)[0]
MODELS[np.argwhere] = lambda it, c: expand_dims(it, where(it, c)[0], 1)
MODELS[np.shape] = lambda it, a: tuple(snum(d, kind='i') for d in as_arr(it, a)[0])
def m_size(it, a, axis=None):
    sh = as_arr(it, a)[0]
    return snum(T.prod(sh) if axis is None else sh[axis], kind='i')
MODELS[np.size] = m_size
MODELS[np.ndim] = lambda it, a: len(as_arr(it, a)[0])
MODELS[np.isscalar] = lambda it, v: isinstance(v, (SNum, int, float, bool, str))
MODELS[np.errstate] = lambda it, **k: Opaque('errstate')

# ------------------------------------------------------------------------------------------------------------- reductions
def axes_of(nd, axis):
    if axis is None: return list(range(nd))
    if isinstance(axis, tuple): return sorted(a % nd for a in axis)
    return [axis % nd]
def reduce_shape(it, A, axis, keepdims=False):
    sh = A[0]; ax = axes_of(len(sh), axis)
    keep = [j for j in range(len(sh)) if j not in ax]
    out = tuple(sh[j] for j in keep) if not keepdims else tuple(ONE if j in ax else d for j, d in enumerate(sh))
    def full(ix, red):
        r = [None] * len(sh)
        if keepdims:
            for j in keep: r[j] = ix[j]
        else:
            for p, j in enumerate(keep): r[j] = ix[p]
        for j, x in zip(ax, red): r[j] = x
        return tuple(r)
    def ssum(f, ix):
        """sum over the reduced axes of f(val,nan)"""
        def rec(p, red):
            if p == len(ax): return f(*A[1](full(ix, red)))
            return T.Sigma(sh[ax[p]], lambda k: rec(p + 1, red + [k]))
        return rec(0, [])
    def sbind(ix):
        bs = []
        red = []
        for j in ax:
            if T.isconst(sh[j]) and T.cval(sh[j]) == 1: red.append(ZERO); continue
            v = T.fresh('k'); CTX.varrange[v] = sh[j]; bs.append((v, sh[j])); red.append(T.var(v))
        return bs, A[1](full(ix, red))
    n = T.prod(sh[j] for j in ax)
    return out, ssum, n, sbind
def _red_args(it, v, axis, kw):
    axis = it.native(axis) if axis is not None else None
    if isinstance(axis, list): axis = tuple(axis)
    if kw.get('dtype') is not None: pass
    if kw.get('out') is not None or kw.get('where') is not None: raise Unsupported('reduction keywords')
    if isinstance(v, LRef) and it.heap[v.cell].bag is not None: return ('bag', to_bag(it, it.heap[v.cell].bag))
    if isinstance(v, Bag): return ('bag', v)
    A = as_arr(it, v)
    return ('arr', A, axis)
def any_nan(ssum, ix):
    s = ssum(lambda v, n: n, ix)
    if not s.t: return ZERO
    return T.mk_le(T.sub(ONE, s))
def red_generic(f_arr, kind='f'):
    def g(it, v, axis=None, **kw):
        r = _red_args(it, v, axis, kw)
        if r[0] == 'bag':
            b = r[1]
            ss = lambda f, ix: bag_sum(it, b, lambda e: f(e.val, e.nan))
            val, nan = f_arr(ss, (), bag_count(b), kw)
            return snum(val, nan, kind if isinstance(kind, str) else 'f')
        A, axis = r[1], r[2]
        if hasattr(v, 'sym_axes'): pass
        out, ss, n, sb = reduce_shape(it, A, axis, bool(kw.get('keepdims')))
        return scalar_or_arr(it, out, lambda ix: f_arr(ss, ix, n, kw), kind(A[2]) if callable(kind) else kind)
    return g
ikind = lambda k: 'i' if k in ('b', 'i') else 'f'
def f_sum(ss, ix, n, kw): return ss(lambda v, m: v, ix), any_nan(ss, ix)
def f_nansum(ss, ix, n, kw): return ss(lambda v, m: T.mul(v, T.bool_not(m)) if m is not ZERO else v, ix), ZERO
def f_mean(ss, ix, n, kw): return T.mul(ss(lambda v, m: v, ix), T.mk_pow(n, -1)), nan_or(any_nan(ss, ix), T.mk_le(n))
def _cnt(ss, ix): return ss(lambda v, m: T.bool_not(m), ix)
def f_nanmean(ss, ix, n, kw):
    c = _cnt(ss, ix)
    return T.mul(f_nansum(ss, ix, n, kw)[0], T.mk_pow(c, -1)), T.mk_le(c)
def _ddof(kw):
    d = kw.get('ddof', 0)
    return const(d)
def f_var(ss, ix, n, kw):
    m = T.mul(ss(lambda v, q: v, ix), T.mk_pow(n, -1))
    s = ss(lambda v, q: T.mk_pow(T.sub(v, m), 2), ix)
    den = T.sub(n, _ddof(kw))
    return T.mul(s, T.mk_pow(den, -1)), nan_or(any_nan(ss, ix), T.mk_le(den))
def f_nanvar(ss, ix, n, kw):
    c = _cnt(ss, ix)
    m = T.mul(f_nansum(ss, ix, n, kw)[0], T.mk_pow(c, -1))
    s = ss(lambda v, q: T.mul(T.mk_pow(T.sub(v, m), 2), T.bool_not(q)), ix)
    den = T.sub(c, _ddof(kw))
    return T.mul(s, T.mk_pow(den, -1)), T.mk_le(den)
def _std(f):
    def g(ss, ix, n, kw):
        v, m = f(ss, ix, n, kw); return T.mk_sqrt(v), m
    return g
MODELS[np.sum] = red_generic(f_sum, ikind)
MODELS[np.nansum] = red_generic(f_nansum, ikind)
MODELS[np.mean] = red_generic(f_mean)
MODELS[np.average] = lambda it, v, axis=None, weights=None, **k: MODELS[np.mean](it, v, axis) if weights is None else m_average(it, v, axis, weights)
def m_average(it, v, axis, weights):
    A = as_arr(it, v); W = as_arr(it, weights)
    if len(W[0]) != len(A[0]):
        if axis is None or len(W[0]) != 1: raise Unsupported('average weights')
        ax = axis % len(A[0]); w1 = W[1]; W = (A[0], lambda ix: w1((ix[ax],)), W[2])
    num = it.new_arr(A[0], lambda ix: (T.mul(A[1](ix)[0], W[1](ix)[0]), nan_or(A[1](ix)[1], W[1](ix)[1])), 'f')
    den = it.new_arr(A[0], W[1], 'f')
    return binop(it, ast.Div(), MODELS[np.sum](it, num, axis), MODELS[np.sum](it, den, axis))
MODELS[np.nanmean] = red_generic(f_nanmean)
MODELS[np.var] = red_generic(f_var)
MODELS[np.nanvar] = red_generic(f_nanvar)
MODELS[np.std] = red_generic(_std(f_var))
MODELS[np.nanstd] = red_generic(_std(f_nanvar))
MODELS[np.count_nonzero] = lambda it, v, axis=None, **k: MODELS[np.sum](it, _boolarr(it, v), axis)
MODELS[np.any] = red_generic(lambda ss, ix, n, kw: (T.mk_le(T.sub(ONE, ss(lambda v, m: v, ix))), ZERO), 'b')
MODELS[np.all] = red_generic(lambda ss, ix, n, kw: (T.mk_le(ss(lambda v, m: T.bool_not(v), ix)), ZERO), 'b')
_any0, _all0 = MODELS[np.any], MODELS[np.all]
MODELS[np.any] = lambda it, v, axis=None, **k: _any0(it, _boolarr(it, v), axis, **k)
MODELS[np.all] = lambda it, v, axis=None, **k: _all0(it, _boolarr(it, v), axis, **k)
def m_prod(it, v, axis=None, **k):
    s = it.as_seq(v)
    if isinstance(s, list) and axis is None:
        r = 1
        for x in s: r = binop(it, ast.Mult(), r, x)
        return r
    raise Unsupported('np.prod')
MODELS[np.prod] = m_prod

def norm_guarded(val, guard, binders):
    """normal form of an extremum's index set: unfold  k < R*S  with div/mod by S, and filtered selections"""
    return binders, val, guard
def extremum(name, nanaware):
    def g(it, v, axis=None, **kw):
        if kw.get('initial') is not None: raise Unsupported('initial')
        r = _red_args(it, v, axis, kw)
        if r[0] == 'bag': raise Unsupported('max of bag')
        A, axis = r[1], r[2]
        if len(A[0]) == 1 and T.isconst(A[0][0]) and int(T.cval(A[0][0])) <= 8 and not nanaware:
            n = int(T.cval(A[0][0]))
            es = [A[1]((const(i),)) for i in range(n)]
            val, nan = es[0]
            for e in es[1:]:
                val = (T.mk_max if name == 'max' else T.mk_min)(val, e[0]); nan = nan_or(nan, e[1])
            return snum(val, nan, A[2])
        out, ss, n, sb = reduce_shape(it, A, axis, bool(kw.get('keepdims')))
        def el(ix):
            bs, (val, nan) = sb(ix)
            guard = T.bool_not(nan) if nanaware else ONE
            nn = ZERO if nanaware else (T.mk_le(T.sub(ONE, T.mk_sum(bs, nan))) if nan is not ZERO else ZERO)
            if nanaware and nan is not ZERO: nn = T.mk_le(T.mk_sum(bs, guard))
            if not any(b[0] in val.fv for b in bs): return val, nn
            return mk_extremum(name, bs, val, guard, 'i' if A[2] == 'i' else 'r'), nn
        return scalar_or_arr(it, out, el, A[2])
    return g
def mk_extremum(name, bs, val, guard, sort='r'):
    return T.mk_red(name, bs, (T.mul(val, guard), guard), (), sort)
MODELS[np.max] = MODELS[np.amax] = extremum('max', False)
MODELS[np.min] = MODELS[np.amin] = extremum('min', False)
MODELS[np.nanmax] = extremum('max', True)
MODELS[np.nanmin] = extremum('min', True)
def norm2(it, v, ord=None, axis=None, **k):
    if ord not in (None, 2) : raise Unsupported('norm order')
    if axis is not None: 
        return MODELS[np.sqrt](it, MODELS[np.sum](it, MODELS[np.square](it, v), axis))
    A = as_arr(it, v)
    if ord == 2 and len(A[0]) != 1: raise Unsupported('matrix norm')
    if len(A[0]) == 0: return m_abs(it, v)
    return MODELS[np.sqrt](it, MODELS[np.sum](it, elementwise(it, [v], lambda x: (T.mul(x[0], x[0]), x[1]), 'f')))
MODELS[np.linalg.norm] = norm2
MODELS[scipy.linalg.norm] = norm2
def matmul(it, a, b):
    A = as_arr(it, a); B = as_arr(it, b)
    if not A[0] or not B[0]: return binop(it, ast.Mult(), a, b)
    n = A[0][-1]
    if not same_dim(n, B[0][0] if len(B[0]) == 1 else B[0][-2]): raise Unsupported('matmul shapes')
    if len(A[0]) > 2 or len(B[0]) > 2: raise Unsupported('matmul nd')
    la = len(A[0]) - 1; lb = len(B[0]) - 1
    sh = A[0][:-1] + (B[0][1:] if lb else ())
    def el(ix):
        ia = ix[:la]; ib = ix[la:]
        f = lambda k: (A[1](tuple(ia) + (k,)), B[1]((k,) + tuple(ib)))
        val = T.Sigma(n, lambda k: T.mul(f(k)[0][0], f(k)[1][0]))
        nn = T.Sigma(n, lambda k: nan_or(f(k)[0][1], f(k)[1][1]))
        return val, (ZERO if not nn.t else T.mk_le(T.sub(ONE, nn)))
    return scalar_or_arr(it, sh, el, 'f')
MODELS[np.matmul] = matmul
MODELS[np.dot] = matmul
MODELS[np.inner] = lambda it, a, b: matmul(it, a, b) if len(as_arr(it, a)[0]) == 1 else (_ for _ in ()).throw(Unsupported('inner'))
MODELS[np.outer] = lambda it, a, b: binop(it, ast.Mult(), expand_dims(it, reshape(it, to_arr(it, a), (const(-1),)), 1), expand_dims(it, reshape(it, to_arr(it, b), (const(-1),)), 0))
def matfun(name):
    """opaque matrix function of a square/rectangular matrix (pseudo-inverse, inverse)"""
    def g(it, a, **k):
        if k: raise Unsupported('keywords of ' + name)
        A = as_arr(it, a)
        if len(A[0]) != 2: raise Unsupported(name)
        def el(ix):
            v1 = T.fresh('k'); v2 = T.fresh('k'); CTX.varrange[v1] = A[0][0]; CTX.varrange[v2] = A[0][1]
            val, nan = A[1]((T.var(v1), T.var(v2)))
            if nan is not ZERO: raise Unsupported('nan in matrix function')
            return T.mk_red(name, [(v1, A[0][0]), (v2, A[0][1])], (val,), (ix[0], ix[1])), ZERO
        return it.new_arr((A[0][1], A[0][0]), el, 'f')
    return g
def _np_mat(f):
    def g(rows, extra, ns):
        m = np.array([r[0] for r in rows], dtype=float).reshape(ns)
        return float(f(m)[int(extra[0]), int(extra[1])])
    return g
for f, nm in ((np.linalg.pinv, 'pinv'), (scipy.linalg.pinv, 'pinv'), (np.linalg.inv, 'inv'), (scipy.linalg.inv, 'inv')): MODELS[f] = matfun(nm)
T.REDS['pinv'] = _np_mat(np.linalg.pinv); T.REDS['inv'] = _np_mat(np.linalg.inv)

# scipy.stats -----------------------------------------------------------------------------------------------------------
def kurtosis(it, a, axis=0, fisher=True, bias=True, **k):
    if k or bias is not True: raise Unsupported('kurtosis options')
    A = as_arr(it, a)
    if len(A[0]) != 1 and axis is not None and len(A[0]) > 2: raise Unsupported('kurtosis nd')
    m = MODELS[np.mean](it, a, axis)
    n0 = axes_of(len(A[0]), axis)
    mm = expand_dims(it, to_arr(it, m), n0[0]) if len(A[0]) > 1 and axis is not None else m
    d = binop(it, ast.Sub(), a, mm)
    m2 = MODELS[np.mean](it, binop(it, ast.Pow(), d, 2), axis); m4 = MODELS[np.mean](it, binop(it, ast.Pow(), d, 4), axis)
    r = binop(it, ast.Div(), m4, binop(it, ast.Pow(), m2, 2))
    return binop(it, ast.Sub(), r, 3) if it.native(fisher) else r
MODELS[scipy.stats.kurtosis] = kurtosis
def corr_model(name):
    def g(it, x, y, **k):
        if k: raise Unsupported('correlation options')
        A = as_arr(it, x); B = as_arr(it, y)
        if len(A[0]) != 1 or len(B[0]) != 1: raise Unsupported('correlation nd')
        if not same_dim(A[0][0], B[0][0]): raise RaiseEx(ValueError, 'lengths differ')
        n = A[0][0]
        if False:
            mx = MODELS[np.mean](it, x); my = MODELS[np.mean](it, y)
            dx = binop(it, ast.Sub(), to_arr(it, x), mx); dy = binop(it, ast.Sub(), to_arr(it, y), my)
            S = MODELS[np.sum]
            num = S(it, binop(it, ast.Mult(), dx, dy))
            den = MODELS[np.sqrt](it, binop(it, ast.Mult(), S(it, binop(it, ast.Pow(), dx, 2)), S(it, binop(it, ast.Pow(), dy, 2))))
            r = binop(it, ast.Div(), num, den)
        else:
            r = snum(seq_functional(it, name, n, lambda i: [A[1]((i,)), B[1]((i,))]))
        return (r, Opaque('p-value'))
    return g
def seq_functional(it, name, n, f):
    """opaque functional of paired sequences; a filtered sequence is normalised to (base range, guard)"""
    k = T.fresh('k'); CTX.varrange[k] = n
    els = f(T.var(k))
    vals = [e[0] for e in els]
    for e in els:
        if e[1] is not ZERO:
            if __import__('os').environ.get('VERIF_DEBUG'): print('NAN', T.pp(e[1])[:600], '| simp', T.pp(T.simp(e[1]))[:600])
            raise Unsupported('nan in ' + name)
    if name in ('pearson', 'spearman', 'kendall') and len(vals) == 2: vals.sort(key=lambda v: (T.skey(v)[:16], T.skey(v)))      # symmetric in the two sequences
    # unfold selection
    sels = []
    for v in vals: T._collect_sels(v, sels, set())
    sels = [s for s in dict.fromkeys(sels) if s.args[3] is T.var(k) and n is T.mk_cnt_from(s)]
    if len(sels) == 1:
        s = sels[0]; bn, base, cond, idx = s.args
        w = T.fresh('k'); CTX.varrange[w] = base
        vals2 = [T.replace_atom(v, s, T.var(w)) for v in vals]
        if not any(k in v.fv for v in vals2):
            g = T.subst(cond, {bn: T.var(w)})
            return T.mk_red(name, [(w, base)], tuple(T.mul(g, v) for v in vals2) + (g,))
    return T.mk_red(name, [(k, n)], tuple(vals) + (ONE,))
def _corr_eval(f):
    def g(rows, extra, ns):
        x = [r[0] for r in rows if r[2]]; y = [r[1] for r in rows if r[2]]
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            v = float(f(x, y)[0])
        if v != v: raise T.EvalError('nan correlation')
        return v
    return g
MODELS[scipy.stats.pearsonr] = corr_model('pearson')
MODELS[scipy.stats.spearmanr] = corr_model('spearman')
MODELS[scipy.stats.kendalltau] = corr_model('kendall')
T.REDS['pearson'] = _corr_eval(scipy.stats.pearsonr); T.REDS['spearman'] = _corr_eval(scipy.stats.spearmanr); T.REDS['kendall'] = _corr_eval(scipy.stats.kendalltau)
def norm_pdf(it, x, loc=0, scale=1):
    z = binop(it, ast.Div(), binop(it, ast.Sub(), x, loc), scale)
    e = MODELS[np.exp](it, binop(it, ast.Div(), unop(it, ast.USub(), binop(it, ast.Pow(), z, 2)), 2))
    return binop(it, ast.Div(), e, binop(it, ast.Mult(), SNum(T.mk_sqrt(T.scale(T.mk_pi(), 2))), scale))
def norm_cdf(it, x, loc=0, scale=1):
    z = binop(it, ast.Div(), binop(it, ast.Sub(), x, loc), scale)
    return elementwise(it, [z], lambda v: (T.mk_fun('Phi', v[0]), v[1]), 'f')
def norm_logpdf(it, x, loc=0, scale=1): return MODELS[np.log](it, norm_pdf(it, x, loc, scale))
METHODS[('norm_gen', 'pdf')] = lambda it, s, *a, **k: norm_pdf(it, *a, **k)
METHODS[('norm_gen', 'logpdf')] = lambda it, s, *a, **k: norm_logpdf(it, *a, **k)
METHODS[('norm_gen', 'cdf')] = lambda it, s, *a, **k: norm_cdf(it, *a, **k)
def chi2_ppf(it, s, q, df=None, **k):
    if k: raise Unsupported('chi2 options')
    return elementwise(it, [q, df], lambda x, y: (T.mk_fun('chi2ppf', x[0], y[0]), nan_or(x[1], y[1])), 'f')
METHODS[('chi2_gen', 'ppf')] = chi2_ppf
T._FUN['chi2ppf'] = lambda q, df: float(scipy.stats.chi2.ppf(q, df))

# np.pi, np.nan are constants: floats; pi is recognised when it flows into arithmetic
# ------------------------------------------------------------------------------------------------------------- array attributes
ARR_RED = {'sum': np.sum, 'mean': np.mean, 'std': np.std, 'var': np.var, 'max': np.max, 'min': np.min, 'any': np.any, 'all': np.all}
def arr_attr(it, a, name):
    if name == 'shape': return tuple(snum(d, kind='i') for d in a.shape)
    if name == 'T': return transpose(it, a)
    if name == 'ndim': return len(a.shape)
    if name == 'size': return snum(T.prod(a.shape), kind='i')
    if name == 'dtype': return {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool)}[it.kind(a)]
    if name in ARR_RED: return Model(lambda it_, *x, **k: MODELS[ARR_RED[name]](it_, a, *x, **k))
    if name == 'copy': return Model(lambda it_: it_.new_arr(a.shape, it_.reader(a), it_.kind(a)))
    if name == 'astype': return Model(lambda it_, t, **k: cast(it_, a, t))
    if name in ('ravel', 'flatten'): return Model(lambda it_, order='C': reshape(it_, a, (const(-1),), order))
    if name == 'reshape': return Model(lambda it_, *s, **k: reshape(it_, a, tuple(it_.idx(x) for x in (s if len(s) != 1 or it_.is_num(s[0]) else it_.as_seq(s[0]))), **k))
    if name == 'transpose': return Model(lambda it_, *s: transpose(it_, a, None if not s else s if len(s) > 1 else s[0]))
    if name == 'swapaxes': return Model(lambda it_, x, y: swapaxes(it_, a, x, y))
    if name == 'tolist':
        def tl(it_):
            if len(a.shape) == 1: return m_list(it_, a)
            return it_.new_symlist(a.shape[0], lambda i: arr_attr(it_, arr_get(it_, a, [snum(i, kind='i')]), 'tolist').f(it_))
        return Model(tl)
    if name == 'item':
        def item(it_, *ix):
            if ix: return getitem(it_, reshape(it_, a, (const(-1),)) if len(ix) == 1 else a, tuple(ix))
            return m_float(it_, a)
        return Model(item)
    if name == 'fill':
        return Model(lambda it_, v: arr_set(it_, a, (Ellipsis,), v))
    if name == 'dot': return Model(lambda it_, b: matmul(it_, a, b))
    if name == 'squeeze': return Model(lambda it_, axis=None: squeeze(it_, a, axis))
    if name == 'repeat': return Model(lambda it_, n, axis=None: repeat(it_, a, n, axis))
    if name == 'nonzero': return Model(lambda it_: where(it_, a))
    if name == 'clip': return Model(lambda it_, *x, **k: clip(it_, a, *x, **k))
    raise Unsupported('array attribute ' + name) if hasattr(np.ndarray, name) else RaiseEx(AttributeError, name)
# ------------------------------------------------------------------------------------------------------------- pandas (only column/row statistics)
class DFVal:
    """pd.DataFrame(2-d array). Row/column statistics skip missing entries; the resulting Series is modelled as an array, which is
    exact as long as it provably has no missing entry itself"""
    RED = {'mean': f_nanmean, 'sum': f_nansum, 'std': _std(f_nanvar), 'var': f_nanvar}
    def __init__(self, arr): self.arr = arr
    def sym_attr(self, it, name):
        if name == 'values': return self.arr
        if name == 'shape': return arr_attr(it, self.arr, 'shape')
        if name not in self.RED: raise Unsupported('DataFrame.' + name)
        def red(it_, axis=0, ddof=1, **k):
            if k: raise Unsupported('DataFrame statistics options')
            ax = it_.native(axis)
            ax = {'index': 0, 'columns': 1}.get(ax, ax)
            if ax not in (0, 1): raise Unsupported('DataFrame axis')
            r = red_generic(self.RED[name])(it_, self.arr, ax, ddof=it_.native(ddof))
            t = T.fresh('i'); CTX.varrange[t] = r.shape[0]
            if it_.reader(r)((T.var(t),))[1] is not ZERO: raise Unsupported('Series with missing values')
            return r
        return Model(red)
try:
    import pandas as _pd
    def m_df(it, data=None, **k):
        if k: raise Unsupported('DataFrame options')
        a = data if isinstance(data, ArrRef) else None
        if a is None or len(a.shape) != 2: raise Unsupported('DataFrame of something else than a matrix')
        return DFVal(it.new_arr(a.shape, it.reader(a), it.kind(a)))
    MODELS[_pd.DataFrame] = m_df
except ImportError: pass

def m_vectorize(it, f, *a, **kw):
    """np.vectorize(f): f applied to every element (result type taken from the first result: all paths must agree on it)"""
    if a or kw: raise Unsupported('np.vectorize options')
    def call(it_, *args, **kws):
        if kws: raise Unsupported('np.vectorize keyword arguments')
        from . import loops
        A = [as_arr(it_, x) for x in args]
        sh, ixs = broadcast(it_, [x[0] for x in A])
        names = [T.fresh('i') for _ in sh]
        for nm, d in zip(names, sh): CTX.varrange[nm] = d
        idx = tuple(T.var(nm) for nm in names)
        vals = [snum(*x[1](ix(idx)), x[2]) for x, ix in zip(A, ixs)]
        paths = loops.explore_body(it_, lambda: it_.call(f, vals), [], lambda: None)
        if not paths: raise Unsupported('np.vectorize without result')
        out = []; kinds = set()
        for p in paths:
            if p.kind != 'norm': raise Unsupported('np.vectorize of a function that may raise')
            x = it_.num(p.value); kinds.add(x.kind); out.append((p.pc, x))
        if len(kinds) != 1: raise Unsupported('np.vectorize with results of different types')
        val = T.psum(T.mul(pc, x.val) for pc, x in out); nan = T.psum(T.mul(pc, x.nan) for pc, x in out)
        def el(ix):
            mp = dict(zip(names, ix))
            return T.subst(val, mp), T.subst(nan, mp)
        return scalar_or_arr(it_, sh, el, kinds.pop())
    return Model(call, 'vectorized')
MODELS[np.vectorize] = m_vectorize
from . import rng
rng.install(MODELS); rng.install_perm(MODELS)
# ------------------------------------------------------------------------------------------------------------- further equivalents
def take(it, a, indices, axis=None, **k):
    if k: raise Unsupported('take options')
    a = to_arr(it, a); ax = it.native(axis)
    if ax is None: a = reshape(it, a, (const(-1),)); ax = 0
    ax %= len(a.shape)
    return arr_get(it, a, [slice(None)] * ax + [indices] + [slice(None)] * (len(a.shape) - ax - 1))
MODELS[np.take] = take
def np_append(it, a, values, axis=None):
    if it.native(axis) is not None: return concatenate(it, (a, values), it.native(axis))
    return concatenate(it, (reshape(it, to_arr(it, a), (const(-1),)), reshape(it, to_arr(it, values), (const(-1),))), 0)
MODELS[np.append] = np_append
def bincount(it, x, weights=None, minlength=0):
    X = as_arr(it, x)
    if len(X[0]) != 1 or X[2] not in ('i', 'b'): raise Unsupported('bincount')
    n = X[0][0]; m = lift(it.idx(minlength))
    k = T.fresh('k'); CTX.varrange[k] = n
    v = X[1]((T.var(k),))[0]
    if T.simp(T.mk_lt(T.sub(v, m))) is not ONE or T.simp(T.mk_le(T.neg(v))) is not ONE: raise Unsupported('bincount: ids not known to be below minlength')
    W = as_arr(it, weights) if weights is not None else None
    if W is not None and (len(W[0]) != 1 or not same_dim(W[0][0], n)): raise RaiseEx(ValueError, 'lengths differ')
    def el(ix):
        hit = lambda j: T.mk_eq(T.sub(X[1]((j,))[0], ix[0]))
        if W is None: return T.Sigma(n, hit), ZERO
        nn = T.Sigma(n, lambda j: T.mul(hit(j), W[1]((j,))[1]))
        return T.Sigma(n, lambda j: T.mul(hit(j), W[1]((j,))[0])), (ZERO if not nn.t else T.mk_le(T.sub(ONE, nn)))
    return it.new_arr((m,), el, 'i' if W is None else 'f')
MODELS[np.bincount] = bincount
def einsum(it, spec, *ops, **k):
    spec = it.native(spec)
    if k or not isinstance(spec, str) or '->' not in spec or '.' in spec: raise Unsupported('einsum form')
    ins, out = spec.replace(' ', '').split('->'); ins = ins.split(',')
    A = [as_arr(it, o) for o in ops]; dim = {}
    if len(ins) != len(A): raise RaiseEx(ValueError, 'einsum')
    for s, a in zip(ins, A):
        if len(s) != len(a[0]): raise RaiseEx(ValueError, 'einsum')
        for c, d in zip(s, a[0]):
            if c in dim and not same_dim(dim[c], d): raise Unsupported('einsum dimensions')
            dim.setdefault(c, d)
    rest = [c for c in dim if c not in out]
    def el(ix):
        env = dict(zip(out, ix))
        def go(cs, env, f):
            if not cs: return f(env)
            return T.Sigma(dim[cs[0]], lambda i: go(cs[1:], dict(env, **{cs[0]: i}), f))
        rd = lambda env: [a[1](tuple(env[c] for c in s)) for s, a in zip(ins, A)]
        def nanf(env):
            r = ZERO
            for x in rd(env): r = nan_or(r, x[1])
            return r
        nn = go(rest, env, nanf)
        return go(rest, env, lambda e: T.prod([x[0] for x in rd(e)])), (ZERO if not nn.t else T.mk_le(T.sub(ONE, nn)) if rest else nn)
    return scalar_or_arr(it, tuple(dim[c] for c in out), el, 'f')
MODELS[np.einsum] = einsum
MODELS[np.ptp] = lambda it, a, *x, **k: binop(it, ast.Sub(), MODELS[np.max](it, a, *x, **k), MODELS[np.min](it, a, *x, **k))
