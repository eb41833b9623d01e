"""dictionaries whose keys come from a universe of U distinct names NAME(0) < NAME(1) < ...: any subset may be present, in any insertion order"""
from . import terms as T
from .terms import ZERO, ONE, CTX, Unsupported
from .values import *

def name(u, fam='NAME'): return SNum(T.mk_app(fam, [u], 'i'), ZERO, 'o')
def index_of(it, q, fam):
    """u with q = NAME(u), if the value is one of the family"""
    if isinstance(q, SNum) and len(q.val.t) == 1:
        (m, c), = q.val.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] == fam: return m[0][0].args[1]
    raise Unsupported('key %r of a dictionary keyed by names' % (q,))
class NameDict:
    sym_type = dict
    def __init__(self, pre, U, pres, val, order, fam='NAME'):
        """entry of NAME(u) present iff pres(*pre, u), value val(*pre, u); i-th key NAME(order(*pre, i))"""
        self.pre = tuple(pre); self.U = U; self.pres = pres; self.val = val; self.order = order; self.fam = fam
    def p(self, u): return self.pres(*(self.pre + (u,)))
    def v(self, u): return self.val(*(self.pre + (u,)))
    def k(self, i): return T.mk_app(self.order, list(self.pre) + [i], 'i')
    def contains(self, it, q): return snum(self.p(index_of(it, q, self.fam)), kind='b')
    def getitem(self, it, q):
        from .interp import RaiseEx
        u = index_of(it, q, self.fam)
        if not it.truth(snum(self.p(u), kind='b')): raise RaiseEx(KeyError, 'name')
        return self.v(u)
    def length(self, it): return T.mk_cnt(self.U, self.p)
    def seq(self, f): return Seq(T.mk_cnt(self.U, self.p), f)
    def as_seq(self, it): return self.seq(lambda i: name(self.k(i), self.fam))
    def sym_attr(self, it, a):
        if a == 'keys': return Model(lambda it_: self.as_seq(it_))
        if a == 'values': return Model(lambda it_: self.seq(lambda i: self.v(self.k(i))))
        if a == 'items': return Model(lambda it_: self.seq(lambda i: (name(self.k(i), self.fam), self.v(self.k(i)))))
        if a == 'get': return Model(lambda it_, q, d=None: self.getitem(it_, q) if it_.truth(self.contains(it_, q)) else d)
        raise Unsupported('%s of a dictionary keyed by names' % a)
    def sym_subst(self, it, mp): return NameDict([T.subst(x, mp) for x in self.pre], self.U, self.pres, self.val, self.order, self.fam)
    def sym_copy(self, it): return self
def universe(U, order='K', fam='NAME', pres=None):
    CTX.increasing[fam] = U; CTX.enums[order] = (U, pres)
    CTX.apprange[order] = lambda *a: U

class PairDict:
    """dictionary keyed by pairs (NAME(u), TAG(j)): entry present iff pres(*pre, j, u), value val(*pre, j, u); keys in any order"""
    sym_type = dict
    def __init__(self, pre, pres, val, KJ='KJ', KU='KU', fam='NAME', tag='AID'):
        self.pre = tuple(pre); self.pres = pres; self.val = val; self.KJ = KJ; self.KU = KU; self.fam = fam; self.tag = tag
    def n(self):
        _, _, bj, bu, f = CTX.enumpairs[self.KJ]
        return T.Sigma(bj, lambda j: T.Sigma(bu, lambda u: f(*(self.pre + (j, u)))))
    def at(self, i): return T.mk_app(self.KJ, list(self.pre) + [i], 'i'), T.mk_app(self.KU, list(self.pre) + [i], 'i')
    def key(self, i):
        j, u = self.at(i)
        return (name(u, self.fam), SNum(T.mk_app(self.tag, [j], 'i'), ZERO, 'i'))
    def value(self, i): j, u = self.at(i); return self.val(*(self.pre + (j, u)))
    def find(self, it, q):
        if not isinstance(q, tuple) or len(q) != 2: raise Unsupported('key of a dictionary keyed by pairs')
        return index_of(it, q[1], self.tag), index_of(it, q[0], self.fam)
    def contains(self, it, q): return snum(self.pres(*(self.pre + self.find(it, q))), kind='b')
    def getitem(self, it, q):
        from .interp import RaiseEx
        j, u = self.find(it, q); i = None
        for x in (j, u):                  # the key at a position of the enumeration is present
            if len(x.t) == 1:
                a = list(list(x.t)[0])[0][0]
                if a.kind == 'app' and a.args[0] in (self.KJ, self.KU) and (i is None or i is a.args[-1]): i = a.args[-1]
        if i is not None and self.at(i) == (j, u): return self.value(i)
        if not it.truth(snum(self.pres(*(self.pre + (j, u))), kind='b')): raise RaiseEx(KeyError, 'pair')
        return self.val(*(self.pre + (j, u)))
    def length(self, it): return self.n()
    def as_seq(self, it): return Seq(self.n(), self.key)
    def sym_attr(self, it, a):
        if a == 'keys': return Model(lambda it_: self.as_seq(it_))
        if a == 'values': return Model(lambda it_: Seq(self.n(), self.value))
        if a == 'items': return Model(lambda it_: Seq(self.n(), lambda i: (self.key(i), self.value(i))))
        if a == 'get': return Model(lambda it_, q, d=None: self.getitem(it_, q) if it_.truth(self.contains(it_, q)) else d)
        raise Unsupported('%s of a dictionary keyed by pairs' % a)
    def sym_subst(self, it, mp): return PairDict([T.subst(x, mp) for x in self.pre], self.pres, self.val, self.KJ, self.KU, self.fam, self.tag)
    def sym_copy(self, it): return self
def pairs(bj, bu, pres, KJ='KJ', KU='KU', fam='NAME'):
    CTX.increasing[fam] = bu
    CTX.enumpairs[KJ] = CTX.enumpairs[KU] = (KJ, KU, bj, bu, pres)
    CTX.apprange[KJ] = lambda *a: bj; CTX.apprange[KU] = lambda *a: bu

class Tmpl:
    """string  prefix + decimal rendering of an integer + suffix"""
    sym_type = str; sym_str = True
    def __init__(self, pre, num, suf): self.pre = pre; self.num = num; self.suf = suf
    def __repr__(self): return 'Tmpl(%r,%s,%r)' % (self.pre, T.pp(self.num), self.suf)
    def sym_subst(self, it, mp): return Tmpl(self.pre, T.subst(self.num, mp), self.suf)
    def sym_tostr(self, it): return self
    def eq(self, it, o):
        if isinstance(o, Tmpl):
            if (o.pre, o.suf) != (self.pre, self.suf): raise Unsupported('comparison of different string patterns')
            return T.mk_eq(T.sub(self.num, o.num))
        if not isinstance(o, str): return ZERO
        mid = o[len(self.pre):len(o) - len(self.suf)] if o.startswith(self.pre) and o.endswith(self.suf) and len(o) > len(self.pre) + len(self.suf) else None
        try: n = int(mid)
        except (TypeError, ValueError): return ZERO
        return T.mk_eq(T.sub(self.num, T.const(n))) if str(n) == mid else ZERO
def concat(it, a, b):
    if isinstance(a, str) and isinstance(b, Tmpl): return Tmpl(a + b.pre, b.num, b.suf)
    if isinstance(b, str) and isinstance(a, Tmpl): return Tmpl(a.pre, a.num, a.suf + b)
    return Opaque('string')
def joined(it, parts):
    r = ''
    for p in parts: r = r + p if isinstance(r, str) and isinstance(p, str) else concat(it, r, p)
    return r
def to_str(v):
    if isinstance(v, Tmpl): return v
    if isinstance(v, SNum) and v.kind == 'i' and v.nan is ZERO: return Tmpl('', v.val, '')
    return None
