"""Z3 back end for index arithmetic (integers, with the non-linear products of dimensions)."""
import sys, time
try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3
from . import terms as T

STATS = {'calls': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}
TIMEOUT = 400

def encode(ctx, polys):
    """z3 ints for all atoms reachable at index level, plus the facts known about them"""
    cache = {}; cons = []; todo = []
    def ea(a):
        v = cache.get(a)
        if v is not None: return v
        v = z3.Int('a_' + a.skey)
        cache[a] = v
        todo.append(a)
        return v
    def ep(p):
        s = z3.IntVal(0)
        for m, c in p.t.items():
            if c.denominator != 1: return None
            x = z3.IntVal(int(c))
            for a, e in m:
                if not isinstance(e, int) or e < 0: return None
                for _ in range(e): x = x * ea(a)
            s = s + x
        return s
    outs = [ep(p) for p in polys]
    for f in ctx.facts:
        if T.is_int(f) and T.indexlike(f):
            x = ep(f)
            if x is not None: cons.append(x <= 0)
    done = set(); n = 0
    while todo and n < 60:
        a = todo.pop(); n += 1
        if a in done: continue
        done.add(a)
        v = cache[a]
        if a.idem: cons += [v >= 0, v <= 1]
        if a.kind == 'var':
            nm = a.args[0]
            if nm in ctx.varrange:
                r = ep(ctx.varrange[nm])
                cons.append(v >= 0)
                if r is not None: cons.append(v < r)
            if nm in ctx.lower: cons.append(v >= ctx.lower[nm])
            elif nm in ctx.nonnegvars: cons.append(v >= 0)
        elif a.kind == 'app' and (a.sort == 'i' or a.args[0] in ctx.apprange):
            f = ctx.apprange.get(a.args[0])
            if f is not None:
                cons.append(v >= 0)
                hi = f(*a.args[1:])
                if hi is not None:
                    r = ep(hi)
                    if r is not None: cons.append(v < r)
        elif a.kind == 'div':
            x = ep(a.args[0]); y = ep(a.args[1])
            if x is not None and y is not None:
                cons.append(z3.Implies(y > 0, z3.And(y * v <= x, x < y * v + y)))
                cons.append(z3.Implies(z3.And(y > 0, x >= 0), v >= 0))
        elif a.kind in ('sel', 'rank'):
            cons.append(v >= 0)
            r = ep(a.args[1])
            if r is not None: cons.append(v < r)
        elif a.kind == 'sum':
            if T.nonneg(a.args[2]): cons.append(v >= 0)
            if T.boolean(a.args[2]) :
                r = z3.IntVal(1); ok = True
                for q in a.args[1]:
                    y = ep(q)
                    if y is None: ok = False; break
                    r = r * y
                if ok: cons.append(v <= r)
            for t in ctx.templates:
                if t[0] == 'inst':
                    cands = set()
                    T._collect_args_a(a, t[1], t[2], cands, set())
                    for cnd in cands:
                        if any(x.startswith('#') for x in cnd.fv): continue
                        for fk, fp in ctx.inst(t[3], cnd):
                            if fk == 'ge1' and fp is T.apoly(a): cons.append(v >= 1)
    return outs, cons

def check(cons, timeout=None):
    s = z3.Solver(); s.set('timeout', timeout or TIMEOUT)
    s.add(*cons)
    t = time.time()
    r = s.check()
    STATS['calls'] += 1; STATS['time'] += time.time() - t
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    return r, s

def decide(ctx, kind, p):
    outs, cons = encode(ctx, [p])
    x = outs[0]
    if x is None: return None
    if kind == 'le':
        if check(cons + [x > 0])[0] == z3.unsat: return True
        if check(cons + [x <= 0])[0] == z3.unsat: return False
    elif kind == 'eq':
        if check(cons + [x == 0])[0] == z3.unsat: return False
        if check(cons + [x != 0])[0] == z3.unsat: return True
    elif kind == 'lt':
        if check(cons + [x >= 0])[0] == z3.unsat: return True
        if check(cons + [x < 0])[0] == z3.unsat: return False
    return None

# ------------------------------------------------------------------------------------------------------- real arithmetic
class _TooBig(Exception): pass
class RealEnc:
    """polynomials over the reals: comparisons, |x|, max(x,0), inverses and roots are interpreted, every other atom is an unknown real
    (denominators are assumed nonzero, like everywhere in the term algebra)"""
    def __init__(self, ctx, limit=600, ints=False):
        self.ints = ints; self.ctx = ctx; self.cache = {}; self.cons = []; self.n = 0; self.limit = limit
    def atom(self, a):
        v = self.cache.get(a)
        if v is not None: return v
        k = a.kind
        if k == 'le': v = z3.If(self.poly(a.args[0]) <= 0, z3.RealVal(1), z3.RealVal(0))
        elif k == 'lt': v = z3.If(self.poly(a.args[0]) < 0, z3.RealVal(1), z3.RealVal(0))
        elif k == 'eq': v = z3.If(self.poly(a.args[0]) == 0, z3.RealVal(1), z3.RealVal(0))
        elif k == 'abs': x = self.poly(a.args[0]); v = z3.If(x >= 0, x, -x)
        elif k == 'relu': x = self.poly(a.args[0]); v = z3.If(x >= 0, x, z3.RealVal(0))
        elif k == 'pb': v = self.poly(a.args[0])
        else:
            v = z3.ToReal(z3.Int('i_' + a.skey)) if self.ints and not a.idem and T.is_int_atom(a) else z3.Real('r_' + a.skey)
            self.cache[a] = v
            if self.ints: self.bounds(a, v)
            if a.idem: self.cons.append(z3.Or(v == 0, v == 1))
            elif T.nonneg_atom(a): self.cons.append(v >= 0)
            if k == 'fun' and a.args[0] == 'exp': self.cons.append(v > 0)
            if k == 'var' and a.args[0] in self.ctx.lower: self.cons.append(v >= self.ctx.lower[a.args[0]])
        self.cache[a] = v
        return v
    def bounds(self, a, v):
        hi = None
        if a.kind == 'var': hi = self.ctx.varrange.get(a.args[0])
        elif a.kind in ('sel', 'rank'): hi = a.args[1]
        elif a.kind == 'app' and a.args[0] in self.ctx.apprange: hi = self.ctx.apprange[a.args[0]](*a.args[1:])
        if hi is not None: self.cons += [v >= 0, v < self.poly(hi)]
        # one instance of what a maximum, a minimum or a sum of nonnegative terms says: its element 0 (when the range has one)
        if a.kind == 'red' and a.args[0] in ('max', 'min') and all(T.CTX.lower.get(T.the_name(r)) for r in a.args[2]):
            f, g = (T.subst(x, {b: T.ZERO for b in a.args[1]}) for x in a.args[3])
            if g is T.ONE: self.cons.append(v >= self.poly(f) if a.args[0] == 'max' else v <= self.poly(f))
        if a.kind == 'sum' and T.nonneg(a.args[2]) and all(T.CTX.lower.get(T.the_name(r)) for r in a.args[1]):
            self.cons.append(v >= self.poly(T.subst(a.args[2], {b: T.ZERO for b in a.args[0]})))
    def inv(self, a):
        key = ('inv', a)
        v = self.cache.get(key)
        if v is None:
            v = self.cache[key] = z3.Real('inv_' + a.skey)
            self.cons.append(v * self.atom(a) == 1)
        return v
    def root(self, a, q):
        key = ('root', a, q)
        v = self.cache.get(key)
        if v is None:
            v = self.cache[key] = z3.Real('root%d_' % q + a.skey)
            p = v
            for _ in range(q - 1): p = p * v
            self.cons += [v >= 0, p == self.atom(a)]
        return v
    def poly(self, p):
        s = z3.RealVal(0)
        for m, c in p.t.items():
            self.n += 1
            if self.n > self.limit: raise _TooBig()
            x = z3.Q(c.numerator, c.denominator)
            for a, e in m:
                if isinstance(e, int): b = self.atom(a) if e > 0 else self.inv(a); k = abs(e)
                else:
                    b = self.root(a, e.denominator); k = abs(e.numerator)
                    if e < 0:
                        key = ('inv', a, e.denominator)
                        w = self.cache.get(key)
                        if w is None:
                            w = self.cache[key] = z3.Real('invroot%d_' % e.denominator + a.skey); self.cons.append(w * b == 1)
                        b = w
                if k > 8: raise _TooBig()
                for _ in range(k): x = x * b
            s = s + x
        return s
def zero_real(ctx, d, pc, timeout=4000):
    """d == 0 whenever pc and the facts in force"""
    try:
        E = RealEnc(ctx)
        x = E.poly(d); hyp = [E.poly(pc) == 1]
        for a, val in list(ctx.assumed.items())[:60]:
            try: hyp.append(E.atom(a) == (1 if val else 0))
            except _TooBig: raise
            except Exception: pass
        for f in ctx.facts[:60]:
            if isinstance(f, T.Poly): hyp.append(E.poly(f) <= 0)
    except (_TooBig, z3.Z3Exception, RecursionError): return False
    if check(E.cons + hyp + [x != 0], timeout)[0] != z3.unsat: return False
    return check(E.cons + hyp, 1000)[0] != z3.unsat          # not vacuous

def infeasible(ctx, conds, timeout=2000):
    """the path conditions (0/1 polynomials) contradict each other"""
    try:
        E = RealEnc(ctx, ints=True)
        hyp = [E.poly(c) == 1 for c in conds]
        for f in ctx.facts[:40]:
            if isinstance(f, T.Poly): hyp.append(E.poly(f) <= 0)
    except (_TooBig, z3.Z3Exception, RecursionError): return False
    return check(E.cons + hyp, timeout)[0] == z3.unsat
