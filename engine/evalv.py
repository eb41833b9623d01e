"""Vectorised numeric evaluation of terms (bound variables are array axes). Undefined sub-terms are NaN; comparisons
with NaN are false; products with a zero indicator are zero. Used as the fast path of concrete comparison; a mismatch is
confirmed with the scalar evaluator of terms.py."""
import math
import numpy as np
from . import terms as T
from .terms import EvalError, Poly

class V:
    """value with named axes"""
    __slots__ = ('n', 'a')
    def __init__(self, n, a): self.n = n; self.a = a
def align(vs):
    names = tuple(sorted(set(x for v in vs for x in v.n)))
    out = []
    for v in vs:
        if v.n == names: out.append(v.a); continue
        if not v.n: out.append(v.a); continue
        shape = [1] * len(names); it = iter(v.a.shape)
        for i, nm in enumerate(names):
            if nm in v.n: shape[i] = next(it)
        out.append(v.a.reshape(shape))
    return names, out
LIM = 4_000_000
class Ev:
    def __init__(self, env, axes=None):
        self.env = env; self.axes = dict(axes or {})      # bound name -> size
        self.memo = {}
    def key(self, a): return (a, tuple((n, self.axes[n]) for n in sorted(a.fv) if n in self.axes))
    def poly(self, p):
        if not p.t: return V((), np.float64(0))
        terms = []
        for m, c in p.t.items():
            g = [self.atom(a) for a, e in m if a.idem]
            cc = np.float64(c.numerator / c.denominator)
            fs = []
            for a, e in m:
                if a.idem: continue
                v = self.atom(a)
                if e == 1: fs.append(v); continue
                x = v.a
                with np.errstate(all='ignore'):
                    if e < 0: x = np.where(np.abs(x) < 1e-12, np.nan, x)
                    if not isinstance(e, int):
                        x = np.where((x < 0) & (x > -1e-9), (np.nan if e < 0 else 0.0), x)
                        x = np.power(x, float(e))
                    else: x = np.power(x, e) if e > 0 else 1.0 / np.power(x, -e)
                fs.append(V(v.n, x))
            nm, arr = align(g + fs)
            ga, fa = arr[:len(g)], arr[len(g):]
            with np.errstate(all='ignore'):
                r = cc
                for x in fa: r = r * x
                if ga:
                    gg = ga[0]
                    for x in ga[1:]: gg = gg * x
                    r = np.where(gg == 0, 0.0, r)
            if np.size(r) > LIM: raise EvalError('too large')
            terms.append(V(nm, np.asarray(r)))
        if len(terms) == 1:
            t = terms[0]
            return self.full(t)
        nm, arr = align(terms)
        s = arr[0]
        with np.errstate(all='ignore'):
            for x in arr[1:]: s = s + x
        return self.full(V(nm, np.asarray(s)))
    def full(self, v):
        shp = tuple(self.axes[n] for n in v.n)
        if v.a.shape != shp: v = V(v.n, np.broadcast_to(v.a, shp))
        return v
    def atom(self, a):
        k = self.key(a)
        r = self.memo.get(k)
        if r is None:
            r = self._atom(a); self.memo[k] = r
        return r
    def vec(self, f, args, names_shape=None):
        vs = [self.poly(x) for x in args]
        nm, arr = align(vs)
        shp = tuple(self.axes[n] for n in nm)
        arr = [np.broadcast_to(x, shp) for x in arr]
        out = np.empty(shp)
        for pos in np.ndindex(*shp):
            try: out[pos] = f(*[num(x[pos]) for x in arr])
            except EvalError: out[pos] = np.nan
            except (IndexError, ValueError, OverflowError, ZeroDivisionError, KeyError, TypeError): out[pos] = np.nan
        return V(nm, out)
    def _atom(self, a):
        env = self.env; k = a.kind
        if k == 'var':
            n = a.args[0]
            if n in self.axes: return V((n,), np.arange(self.axes[n], dtype=float))
            v = env.vars.get(n)
            if v is None: raise EvalError('unbound ' + n)
            return V((), np.float64(v))
        if k == 'app':
            f = env.apps.get(a.args[0])
            if f is None: raise EvalError('no interpretation of ' + a.args[0])
            def g(*ix):
                if any(isinstance(i, int) and i < 0 for i in ix): raise IndexError
                return f(*ix)
            return self.vec(g, a.args[1:])
        if k in ('le', 'lt', 'eq'):
            v = self.poly(a.args[0])
            with np.errstate(all='ignore'):
                if k == 'le': r = v.a <= 1e-12
                elif k == 'lt': r = v.a < -1e-12
                else: r = np.abs(v.a) <= 1e-12
            return V(v.n, r.astype(float) if isinstance(r, np.ndarray) else np.float64(r))
        if k == 'pb': return self.poly(a.args[0])
        if k == 'num': return V((), np.float64(a.args[0]))
        if k == 'pi': return V((), np.float64(math.pi))
        if k == 'relu':
            v = self.poly(a.args[0]); return V(v.n, np.where(np.isnan(v.a), np.nan, np.maximum(0, v.a)))
        if k == 'abs':
            v = self.poly(a.args[0]); return V(v.n, np.abs(v.a))
        if k == 'fun':
            f = env.funs.get(a.args[0]) or T._FUN.get(a.args[0])
            if f is None: raise EvalError('fun ' + a.args[0])
            return self.vec(f, a.args[1:])
        if k == 'div':
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            nm, (p, q) = align([x, y])
            with np.errstate(all='ignore'): r = np.where(q == 0, 0.0, np.floor_divide(p, np.where(q == 0, 1, q)))
            return self.full(V(nm, r))
        if k == 'sum':
            bn, ranges, body = a.args
            def run(ev, names):
                v = ev.poly(body); x = v.a; n = list(v.n); mult = 1
                for b in names:
                    if b in n: i = n.index(b); x = x.sum(axis=i); n.pop(i)
                    else: mult *= ev.axes[b]
                return V(tuple(n), np.asarray(x * mult if mult != 1 else x))
            return self.scoped(bn, ranges, run)
        if k == 'sel':
            bn, n, c, i = a.args
            iv = self.poly(i)
            def run(ev, names):
                cv = ev.poly(c)
                N = ev.axes[bn]
                base = V((bn,), np.zeros(N))
                nm, (cc, _b, ii) = align([cv, base, V(iv.n, iv.a)])
                shp = tuple(N if x == bn else ev.axes[x] for x in nm)
                cc = np.broadcast_to(cc, shp); ax = nm.index(bn)
                ii = np.broadcast_to(ii, tuple(1 if x == bn else ev.axes[x] for x in nm))
                cs = np.cumsum(cc != 0, axis=ax)
                hit = (cc != 0) & (cs - 1 == ii)
                pos = np.argmax(hit, axis=ax).astype(float)
                pos = np.where(hit.any(axis=ax), pos, np.nan)
                return V(tuple(x for x in nm if x != bn), np.asarray(pos))
            return self.scoped((bn,), (n,), run)
        if k == 'rank':
            bn, n, c, i = a.args
            iv = self.poly(i)
            def run(ev, names):
                cv = ev.poly(c); N = ev.axes[bn]
                base = V((bn,), np.arange(N, dtype=float))
                nm, (cc, b, ii) = align([cv, base, iv])
                shp = tuple(N if x == bn else ev.axes[x] for x in nm); ax = nm.index(bn)
                r = (np.broadcast_to(cc, shp) != 0) & (b < ii)
                return V(tuple(x for x in nm if x != bn), np.asarray(r.sum(axis=ax).astype(float)))
            return self.scoped((bn,), (n,), run)
        if k == 'red':
            name, bn, ranges, bodies, extra = a.args
            f = env.reds.get(name) or T.REDS.get(name)
            if f is None: raise EvalError('red ' + name)
            ex = [self.poly(x) if isinstance(x, Poly) else x for x in extra]
            def run(ev, names):
                bs = [ev.poly(b) for b in bodies]
                exv = [x for x in ex if isinstance(x, V)]
                dummy = [V((b,), np.zeros(ev.axes[b])) for b in names]
                nm, arr = align(bs + exv + dummy)
                outer = [x for x in nm if x not in names]
                order = outer + list(names)
                shp = tuple(ev.axes[x] for x in nm)
                arr = [np.transpose(np.broadcast_to(x, shp), [nm.index(o) for o in order]) for x in arr]
                ns = [ev.axes[b] for b in names]
                osh = tuple(ev.axes[x] for x in outer)
                out = np.empty(osh)
                for pos in np.ndindex(*osh):
                    rows = list(zip(*[[num(y) for y in x[pos].ravel()] for x in arr[:len(bs)]]))
                    j = len(bs); e2 = []
                    for x in ex:
                        if isinstance(x, V): e2.append(num(arr[j][pos].ravel()[0]) if arr[j][pos].size else np.nan); j += 1
                        else: e2.append(x)
                    try: out[pos] = f(rows, e2, ns)
                    except (EvalError, ValueError, IndexError, ZeroDivisionError): out[pos] = np.nan
                return V(tuple(outer), out)
            return self.scoped(tuple(bn), tuple(ranges), run)
        raise EvalError('kind ' + k)
    def scoped(self, bn, ranges, run):
        old = {b: self.axes.get(b) for b in bn}
        try:
            done = []
            for b, r in zip(bn, ranges):
                v = self.poly(r)
                if v.n:
                    raise EvalError('dependent range')
                if v.a != v.a: raise EvalError('undefined range')
                self.axes[b] = int(v.a)
                done.append(b)
            return run(self, list(bn))
        finally:
            for b in bn:
                if old[b] is None: self.axes.pop(b, None)
                else: self.axes[b] = old[b]
def num(x):
    x = float(x)
    return int(x) if x == x and abs(x) < 1e15 and x.is_integer() else x
