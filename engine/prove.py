"""Contracts, obligations and their discharge: symbolic proof, numeric refutation, replay on the real code."""
import ast, io, json, math, os, random, sys, time, traceback, warnings, contextlib
import numpy as np
from . import terms as T, smt
from .terms import Poly, ZERO, ONE, const, lift, Unsupported, CTX, EvalError
from .values import *
from .interp import Interp, Outcome, RaiseEx, Infeasible

# ------------------------------------------------------------------------------------------------ specification values
class Num:
    def __init__(self, val, nan=ZERO): self.val = lift(val); self.nan = lift(nan)
class Arr:
    """array / list of numbers:  f(*idx) -> poly or (poly, nan)"""
    def __init__(self, shape, f): self.shape = tuple(lift(s) for s in shape); self.f = f
    def at(self, ix):
        r = self.f(*ix)
        if isinstance(r, tuple): return lift(r[0]), lift(r[1])
        if isinstance(r, Num): return r.val, r.nan
        return lift(r), ZERO
class Map:
    """dictionary; exact: no further keys allowed; absent: keys that must not be there"""
    def __init__(self, items, exact=False, absent=()): self.items = items; self.exact = exact; self.absent = absent
class Lst:
    def __init__(self, items): self.items = items
class SeqOf:
    """sequence of n elements, each matching f(i)"""
    def __init__(self, n, f): self.n = lift(n); self.f = f
class Blocks:
    """concatenation over e < n of m(e) elements, the j-th matching f(e, j)"""
    def __init__(self, n, m, f): self.n = lift(n); self.m = m; self.f = f
class DictOf:
    """dictionary with the n (distinct) keys key(i) and values val(i), in that order; key(i): Num (name of a family) or TStr"""
    def __init__(self, n, key, val): self.n = lift(n); self.key = key; self.val = val
class TStr:
    """string prefix + decimal rendering of num + suffix"""
    def __init__(self, pre, num, suf=''): self.pre = pre; self.num = lift(num); self.suf = suf
class Same:
    """this very object (identity), given by key of the inputs"""
    def __init__(self, ref): self.ref = ref
class Obj:
    def __init__(self, attrs, absent=(), exact=False): self.attrs = attrs; self.absent = absent; self.exact = exact
class Fn:
    """custom matcher: sym(it, got, emit, name) and conc(real, env, rep, name)"""
    def __init__(self, sym, conc): self.sym = sym; self.conc = conc
class AnyVal: pass
class Raises:
    def __init__(self, *types): self.types = types
    def __repr__(self): return 'Raises(%s)' % ','.join(t.__name__ for t in self.types)
class AnyOf:
    """one of several specifications (used for the order of independent random draws)"""
    def __init__(self, alts): self.alts = alts
class Cases:
    """alternatives by (exclusive, complete) 0/1 guards"""
    def __init__(self, alts): self.alts = alts

class Obl:
    __slots__ = ('name', 'status', 'diff', 'ix', 'pc', 'gv', 'gn', 'sv', 'sn', 'note')
    def __init__(self, name): self.name = name; self.status = None; self.diff = None; self.ix = (); self.pc = ONE; self.gv = self.gn = self.sv = self.sn = None; self.note = ''

def allsum_map():
    """rewriting justified by path facts 'sum_{k<n} c(k) = n' (c holds everywhere) / '= 0' (nowhere)"""
    ts = [t for t in CTX.templates if t[0] == 'allsum']
    if not ts: return None
    def m(a):
        for t in ts:
            bn, ranges, body, val, x0, repl = t[1:]
            if a is x0: return T.rebuild(repl, {}, m) if val or True else None
            if a.kind == 'sel' and len(bn) == 1 and a.args[1] is ranges[0]:
                c = T.subst(body, {bn[0]: T.var(a.args[0])})
                if val and a.args[2] is c: return T.rebuild(a.args[3], {}, m)
                if not val and a.args[2] is T.bool_not(c): return T.rebuild(a.args[3], {}, m)
        return None
    return m

def trichotomy(p):
    """over the integers [q <= 0] = [q + 1 <= 0] + [q == 0]"""
    les = {a for m in p.t for a, e in m if a.kind == 'le'}
    mp = {a: T.add(T.mk_le(T.add(a.args[0], ONE)), T.mk_eq(a.args[0])) for a in les if T.is_int(a.args[0]) and T.atom('le', (T.add(a.args[0], ONE),)) in les}
    return T.rebuild(p, {}, mp) if mp else p

class Session:
    """symbolic side of one contract case"""
    def __init__(self): self.obls = []; self.paths = 0; self.errors = []
    def emit(self, name, gv, gn, sv, sn, ix=(), pc=ONE):
        o = Obl(name); o.ix = tuple(ix); o.pc = pc; o.gv, o.gn, o.sv, o.sn = gv, gn, sv, sn
        dn = T.sub(gn, sn)
        ok = T.is_zero(dn)
        if ok:
            dv = T.sub(gv, sv)
            if sn is not ZERO: dv = T.mul(dv, T.bool_not(sn))
            ok = T.is_zero(dv)
        if not ok:
            m = allsum_map()
            if m is not None:
                r = lambda p: T.rebuild(p, {}, m)
                if T.is_zero(r(dn)):
                    dv = T.sub(r(gv), r(sv))
                    if sn is not ZERO: dv = T.mul(dv, T.bool_not(r(sn)))
                    ok = T.is_zero(dv)
        if not ok:
            dv = T.sub(gv, sv)
            if sn is not ZERO: dv = T.mul(dv, T.bool_not(sn))
            ok = T.is_zero(trichotomy(dn)) and T.is_zero(trichotomy(dv))
        if not ok:
            from . import smt
            dv = T.sub(gv, sv)
            if sn is not ZERO: dv = T.mul(dv, T.bool_not(sn))
            if (T.is_zero(dn) or smt.zero_real(CTX, dn, pc)) and smt.zero_real(CTX, dv, pc): ok = True; o.note = 'z3 real arithmetic'
        o.status = 'proved' if ok else 'open'
        self.obls.append(o)
    def fact(self, name, ok, note=''):
        o = Obl(name); o.status = 'proved' if ok else 'failed'; o.note = note
        self.obls.append(o)

def gen_index(shape):
    ix = []; names = []
    for d in shape:
        t = T.fresh('i'); CTX.varrange[t] = d;
        if d is ONE: names.append(t); ix.append(ZERO); continue
        names.append(t); ix.append(T.var(t))
    return names, tuple(ix)

def match_sym(it, S, got, spec, name, pc):
    if isinstance(spec, AnyVal): return
    if isinstance(got, Union_): got = it.resolve(got)
    if isinstance(spec, Fn): return spec.sym(it, S, got, name, pc)
    if isinstance(spec, Cases):
        for g, s in spec.alts[:-1]:
            if it.branch(g): return match_sym(it, S, got, s, name, pc)
        return match_sym(it, S, got, spec.alts[-1][1], name, pc)
    if isinstance(spec, AnyOf):
        first = None
        for a in spec.alts:
            S2 = Session(); match_sym(it, S2, got, a, name, pc)
            if first is None: first = S2
            if all(o.status == 'proved' for o in S2.obls): first = S2; break
        S.obls += first.obls; return
    if isinstance(spec, Same):
        S.fact(name + ' is the same object', got is spec.ref or (isinstance(got, Ref) and got == spec.ref) or (isinstance(got, ArrRef) and isinstance(spec.ref, ArrRef) and got.cell == spec.ref.cell and got.sel == spec.ref.sel)); return
    if isinstance(spec, Num):
        if not it.is_num(got): S.fact(name + ' is a number', False, repr(got)); return
        g = it.num(got)
        S.emit(name, g.val, g.nan, spec.val, spec.nan, (), pc); return
    if isinstance(spec, Arr):
        if not isinstance(got, ArrRef):
            try: a = it.np.as_arr(it, got)
            except RaiseEx: S.fact(name + ' is a numeric sequence', False, repr(got)); return
            shape, rd = a[0], a[1]
        else: shape, rd = got.shape, it.reader(got)
        if len(shape) != len(spec.shape): S.fact(name + ' rank', False, '%d instead of %d' % (len(shape), len(spec.shape))); return
        for j, (a, b) in enumerate(zip(shape, spec.shape)): S.emit('%s.shape[%d]' % (name, j), lift(a), ZERO, b, ZERO, (), pc)
        names, ix = gen_index(spec.shape)
        gv, gn = rd(ix)
        sv, sn = spec.at(ix)
        S.emit(name, gv, gn, sv, sn, tuple(zip(names, spec.shape)), pc); return
    if isinstance(spec, Map):
        if isinstance(got, Rec):
            has = lambda k: it.truth(it.np.rec_has(it, got, k)); get = lambda k: it.np.rec_get(it, got, k)
            keys = set(it.heap[got.fam].fields)
        elif isinstance(got, DRef):
            c = it.heap[got.cell]
            if c.symmap is not None: raise Unsupported('symbolic dict result')
            has = lambda k: k in c.items; get = lambda k: c.items[k]; keys = set(c.items)
        else: S.fact(name + ' is a dict', False, repr(got)); return
        for k, s in spec.items.items():
            if not has(k): S.fact('%s has key %r' % (name, k), False); continue
            match_sym(it, S, get(k), s, '%s[%r]' % (name, k), pc)
        for k in spec.absent: S.fact('%s has no key %r' % (name, k), not has(k))
        if spec.exact: S.fact('%s has no other keys' % name, keys <= set(spec.items), str(sorted(map(str, keys - set(spec.items)))))
        return
    if isinstance(spec, Obj):
        if not isinstance(got, ORef): S.fact(name + ' is an object', False, repr(got)); return
        for k, s in spec.attrs.items():
            try: v = it.getattr(got, k)
            except RaiseEx: S.fact('%s has attribute %s' % (name, k), False); continue
            match_sym(it, S, v, s, '%s.%s' % (name, k), pc)
        if spec.exact:
            ks = set(it.heap[got.cell].attrs)
            S.fact('%s has exactly the stated attributes' % name, ks == set(spec.attrs), str(sorted(ks ^ set(spec.attrs))))
        return
    if isinstance(spec, SeqOf):
        s = it.as_seq(got)
        n = s.n if isinstance(s, Seq) else const(len(s))
        S.emit(name + '.len', n, ZERO, spec.n, ZERO, (), pc)
        names, ix = gen_index((spec.n,))
        el = it.np.nth_any(it, s, ix[0])
        match_sym(it, S, el, spec.f(ix[0]), name + '[i]', pc); return
    if isinstance(spec, DictOf):
        c = it.heap[got.cell] if isinstance(got, DRef) else None
        m = c.symmap if c is not None and not c.items and c.base is None and not c.rest else None
        if m is None: raise Unsupported('%s is %r' % (name, got))
        S.emit(name + '.len', m.n, ZERO, spec.n, ZERO, (), pc)
        names, (i_,) = gen_index((spec.n,))
        S.emit(name + '.every', m.guard(i_), ZERO, ONE, ZERO, names, pc)
        match_sym(it, S, m.key(i_), spec.key(i_), name + '.key', pc)
        match_sym(it, S, m.val(i_), spec.val(i_), name + '.value', pc); return
    if isinstance(spec, TStr):
        ok = isinstance(got, it.np.names.Tmpl) and (got.pre, got.suf) == (spec.pre, spec.suf)
        S.fact(name + ' is %r + number + %r' % (spec.pre, spec.suf), ok, repr(got)[:120])
        if ok: S.emit(name, got.num, ZERO, spec.num, ZERO, (), pc)
        return
    if isinstance(spec, Blocks):
        c = it.heap[got.cell] if isinstance(got, LRef) else None
        if c is not None and isinstance(c.bag, Bag):
            b = c.bag
            if not getattr(b, 'ordered', False) or len(b.gens) != 1 or len(b.gens[0][0]) != 2: raise Unsupported('order of %s' % name)
            ((k, n), (j, m)), g, e = b.gens[0]
            S.emit(name + '.blocks', n, ZERO, spec.n, ZERO, (), pc)
            names, (e_,) = gen_index((spec.n,)); m_ = spec.m(e_)
            S.emit(name + '.block length', T.subst(m, {k: e_}), ZERO, m_, ZERO, names, pc)
            nj, (j_,) = gen_index((m_,)); mp = {k: e_, j: j_}
            S.emit(name + '.every', T.subst(g, mp), ZERO, ONE, ZERO, names + nj, pc)
            match_sym(it, S, it.loops.subst_value(it, e, mp), spec.f(e_, j_), name + '[e][j]', pc); return
        s = it.as_seq(got)
        names, (e_,) = gen_index((spec.n,)); m_ = spec.m(e_)
        if e_.fv & m_.fv: raise Unsupported('blocks of unequal length in %s' % name)
        if not isinstance(s, Seq): raise Unsupported('blocks of %s' % name)
        S.emit(name + '.len', s.n, ZERO, T.mul(spec.n, m_), ZERO, (), pc)
        names, (i_,) = gen_index((T.mul(spec.n, m_),)); q = T.mk_div(i_, m_)
        match_sym(it, S, s.elem(i_), spec.f(q, T.sub(i_, T.mul(q, m_))), name + '[i]', pc); return
    if isinstance(spec, Lst):
        s = it.as_seq(got)
        if isinstance(s, Seq) or len(s) != len(spec.items): S.fact(name + ' length', False, repr(s)); return
        for j, (g, x) in enumerate(zip(s, spec.items)): match_sym(it, S, g, x, '%s[%d]' % (name, j), pc)
        return
    if isinstance(spec, Raises): S.fact(name + ' raises', False, 'returned normally'); return
    # constants
    if isinstance(spec, (Rec, LRef, DRef, ORef)):
        S.fact(name + ' is the same object', type(got) is type(spec) and ((got.fam == spec.fam and T.is_zero(T.sub(got.idx, spec.idx))) if isinstance(spec, Rec) else got == spec)); return
    if isinstance(spec, (int, float)) and not isinstance(spec, bool) and it.is_num(got):
        g = it.num(got); S.emit(name, g.val, g.nan, const(spec), ZERO, (), pc); return
    try: v = it.native(got)
    except Unsupported:
        if hasattr(spec, 'sym_same'): S.fact(name, spec.sym_same(it, got)); return
        S.fact(name, got is spec or got == spec, repr(got)); return
    S.fact('%s == %r' % (name, spec), type(v) is type(spec) and v == spec or (v == spec and spec is not None and not isinstance(spec, bool)), repr(v))

# ------------------------------------------------------------------------------------------------ concrete side
RTOL = 1e-6
class Mismatch(Exception): pass

def close_to(r, s, scale=1.0, rtol=RTOL):
    if r != r or s != s: return False
    if math.isinf(r) or math.isinf(s): return r == s
    return abs(r - s) <= rtol * max(1e-3, abs(r), abs(s), scale * 1e-3)

def bc(v, names, shp):
    ix = [v.n.index(n) for n in names if n in v.n]
    x = np.transpose(v.a, ix) if v.n else v.a
    return np.broadcast_to(np.reshape(x, tuple(d if n in v.n else 1 for n, d in zip(names, shp))), shp)
def conc_val(real, val, nan, name, rep, rtol):
    if nan >= 0.5: sv = float('nan')
    else:
        sv = float(val)
        if sv != sv: rep.skip(name, 'undefined'); return
    conc_cmp(real, sv, name, rep, rtol)
def conc_num(real, val, nan, env, name, rep, rtol=RTOL):
    if rep.fast:
        from . import evalv
        ev = evalv.Ev(env); ev.memo = rep.vmemo
        v, n = ev.poly(val).a, ev.poly(nan).a
        return conc_val(real, v, n, name, rep, rtol)
    try:
        sn = T.evalp(nan, env)
        if sn >= 0.5: sv = float('nan')
        else:
            sv = float(T.evalp(val, env))
            if sv != sv: rep.skip(name, 'undefined'); return
    except EvalError as e:
        rep.skip(name, str(e)); return
    except (ZeroDivisionError, OverflowError, ValueError) as e:
        rep.skip(name, str(e)); return
    conc_cmp(real, sv, name, rep, rtol)
def conc_cmp(real, sv, name, rep, rtol):
    try: r = float(real)
    except (TypeError, ValueError): rep.bad(name, real, sv); return
    if sv != sv:
        if r == r and not math.isinf(r): rep.bad(name, r, sv)
        else: rep.ok(name)
        return
    if r != r and rep.nan_ok(name): return
    if close_to(r, sv, rtol=rtol): rep.ok(name)
    else: rep.bad(name, r, sv)

class Report:
    def __init__(self, fast=False): self.n = 0; self.bads = []; self.skips = 0; self.rtol = RTOL; self.fast = fast; self.vmemo = {}
    def ok(self, name): self.n += 1
    def bad(self, name, got, want): self.n += 1; self.bads.append((name, got, want))
    def skip(self, name, why): self.skips += 1
    def nan_ok(self, name): return False

def match_conc(real, spec, env, name, rep):
    if isinstance(spec, AnyVal): return
    if isinstance(spec, Fn): return spec.conc(real, env, rep, name)
    if isinstance(spec, Cases):
        for g, s in spec.alts[:-1]:
            if T.evalp(g, env): return match_conc(real, s, env, name, rep)
        return match_conc(real, spec.alts[-1][1], env, name, rep)
    if isinstance(spec, AnyOf):
        reps = []
        for a in spec.alts:
            r2 = Report(rep.fast); r2.rtol = rep.rtol; r2.nan_ok = rep.nan_ok; match_conc(real, a, env, name, r2); reps.append(r2)
            if not r2.bads: break
        r2 = reps[-1] if not reps[-1].bads else reps[0]
        rep.n += r2.n; rep.bads += r2.bads; rep.skips += r2.skips; return
    if isinstance(spec, Same):
        if spec.ref is None or isinstance(spec.ref, (bool, str)):
            if real is spec.ref or (isinstance(spec.ref, str) and real == spec.ref): rep.ok(name)
            else: rep.bad(name, real, spec.ref)
        return
    if isinstance(real, RaisedReal):
        rep.bad(name, real, 'normal result'); return
    if isinstance(spec, Num): return conc_num(real, spec.val, spec.nan, env, name, rep, rep.rtol)
    if isinstance(spec, Arr):
        try: a = np.asarray(real, dtype=object) if not isinstance(real, np.ndarray) else real
        except Exception: rep.bad(name, real, 'array'); return
        shp = tuple(int(T.evalp(s, env)) for s in spec.shape)
        if a.shape != shp: rep.bad(name + '.shape', a.shape, shp); return
        if getattr(spec, '_gen', None) is None:
            names, ix = gen_index(spec.shape)
            spec._gen = (names,) + tuple(spec.at(ix))
        names, v, n = spec._gen
        if rep.fast:
            from . import evalv
            ev = evalv.Ev(env, dict(zip(names, shp)))
            ev.memo = rep.vmemo
            vv = bc(ev.poly(v), names, shp); nn = bc(ev.poly(n), names, shp)
            for pos in np.ndindex(*shp): conc_val(a[pos], vv[pos], nn[pos], '%s%s' % (name, list(pos)), rep, rep.rtol)
            return
        for pos in np.ndindex(*shp):
            for nm, p in zip(names, pos): env.vars[nm] = p
            conc_num(a[pos], v, n, env, '%s%s' % (name, list(pos)), rep, rep.rtol)
        for nm in names: env.vars.pop(nm, None)
        return
    if isinstance(spec, Map):
        if not isinstance(real, dict): rep.bad(name, type(real), 'dict'); return
        for k, s in spec.items.items():
            if k not in real: rep.bad('%s[%r]' % (name, k), 'missing', 'present'); continue
            match_conc(real[k], s, env, '%s[%r]' % (name, k), rep)
        for k in spec.absent:
            if k in real: rep.bad('%s[%r]' % (name, k), 'present', 'absent')
        if spec.exact and set(real) - set(spec.items): rep.bad(name, sorted(map(str, set(real) - set(spec.items))), 'no further keys')
        return
    if isinstance(spec, Obj):
        for k, s in spec.attrs.items():
            if not hasattr(real, k): rep.bad('%s.%s' % (name, k), 'missing', 'present'); continue
            match_conc(getattr(real, k), s, env, '%s.%s' % (name, k), rep)
        return
    if isinstance(spec, SeqOf):
        n = int(T.evalp(spec.n, env))
        if len(real) != n: rep.bad(name + '.len', len(real), n); return
        if getattr(spec, '_gen', None) is None:
            nm = T.fresh('i'); sp = spec.f(T.var(nm))
            spec._gen = nm, sp, (Arr((spec.n,), lambda i: (T.subst(sp.val, {nm: i}), T.subst(sp.nan, {nm: i}))) if isinstance(sp, Num) else None)
        nm, sp, ar = spec._gen
        if rep.fast and ar is not None:
            return match_conc(np.array([float(x) for x in real]), ar, env, name, rep)
        for j in range(n):
            env.vars[nm] = j
            match_conc(real[j], sp, env, '%s[%d]' % (name, j), rep)
        env.vars.pop(nm, None)
        return
    if isinstance(spec, DictOf):
        n = int(T.evalp(spec.n, env)); ni = T.fresh('i'); sk = spec.key(T.var(ni)); sv = spec.val(T.var(ni))
        if not isinstance(real, dict): rep.bad(name, type(real).__name__, 'dict'); return
        if len(real) != n: rep.bad(name + '.len', len(real), n); return
        for j, (k, v) in enumerate(real.items()):
            env.vars[ni] = j
            match_conc(k, sk, env, '%s.key[%d]' % (name, j), rep); match_conc(v, sv, env, '%s[%r]' % (name, k), rep)
        env.vars.pop(ni, None)
        return
    if isinstance(spec, TStr):
        w = spec.pre + str(int(T.evalp(spec.num, env))) + spec.suf
        rep.check(real == w, name, real, w) if hasattr(rep, 'check') else (None if real == w else rep.bad(name, real, w))
        return
    if isinstance(spec, Blocks):
        n = int(T.evalp(spec.n, env)); pos = 0; ne = T.fresh('i'); nj = T.fresh('i'); m = spec.m(T.var(ne)); sp = spec.f(T.var(ne), T.var(nj))
        for e in range(n):
            env.vars[ne] = e
            for j in range(int(T.evalp(m, env))):
                env.vars[nj] = j
                if pos >= len(real): rep.bad(name + '.len', len(real), 'more'); return
                match_conc(real[pos], sp, env, '%s[%d]' % (name, pos), rep); pos += 1
        env.vars.pop(ne, None); env.vars.pop(nj, None)
        if pos != len(real): rep.bad(name + '.len', len(real), pos)
        return
    if isinstance(spec, Lst):
        if len(real) != len(spec.items): rep.bad(name + '.len', len(real), len(spec.items)); return
        for j, x in enumerate(spec.items): match_conc(real[j], x, env, '%s[%d]' % (name, j), rep)
        return
    if isinstance(spec, Raises): rep.bad(name, 'returned normally', repr(spec)); return
    if isinstance(spec, (int, float)) and not isinstance(spec, bool):
        return conc_num(real, const(spec), ZERO, env, name, rep)
    if real == spec: rep.ok(name)
    else: rep.bad(name, real, spec)

class RaisedReal:
    def __init__(self, e): self.e = e
    def __repr__(self): return 'raised %s: %s' % (type(self.e).__name__, self.e)
